// Reference for the coupled problem y(b) = K y(a), det K = 1, by counting eigenvalues below E.
#ifndef VERIF_PERIODIC_REF_HPP
#define VERIF_PERIODIC_REF_HPP

#include "gen.hpp"

namespace ref {
    typedef long double LD;

    struct Coupled {
        Schrodinger<LD> s;
        LD k11, k12, k21, k22;
        int first; // the unbounded interval below all eigenvalues is a gap of this problem (0) or of the one with -K (1)

        Coupled(const gen::Problem &p, double a, double b, double c, double d)
                : s(p.oracle()), k11(a), k12(b), k21(c), k22(d), first(b > 0 || (b == 0 && a < 0) ? 1 : 0) {}

        void transfer(LD E, LD (&M)[4]) const {
            State<LD> y[2];
            y[0].u = 1;
            y[1].up = 1;
            s.propagateVisit(E, s.a, s.b, y, 2, false, [](const LD &, State<LD> *) {});
            M[0] = y[0].u;
            M[1] = y[1].u;
            M[2] = y[0].up;
            M[3] = y[1].up;
        }

        // trace(K^-1 M(E)); eigenvalues are where this is 2
        LD discriminant(LD E) const {
            LD M[4];
            transfer(E, M);
            return k22 * M[0] - k12 * M[2] - k21 * M[1] + k11 * M[3];
        }

        // number of eigenvalues below E, counted with multiplicity
        int countBelow(LD E) const {
            int n = s.countBelow(E, 0, 1, k12, k22);
            LD D = discriminant(E);
            if (n % 2 == first % 2) return n + (D < 2 ? 1 : 0);
            return n + (D > 2 ? 1 : 0);
        }
    };
}
#endif
