// C15: Matscs::propagatePsi transports Psi = Y Y'^-1, and the argument of det (Y'+iY)(Y'-iY)^-1 returned by
// Matscs::propagate is its continuous change.
#include "api.hpp"
#include "matrix_ref.hpp"
#include "matslise/matscs.h"

using namespace matslise;
using namespace std;
using ref::MatX;
using ref::MatL;
typedef Y<double, Eigen::Dynamic> YM;

#include "matscs_gen.hpp"

static double fromZero(const vector<long double> &angles) {
    double d = 10;
    for (auto a: angles) d = min<double>(d, min<double>(a, 2 * M_PI - a));
    return d;
}

static double sum(const vector<long double> &v) {
    double s = 0;
    for (auto x: v) s += x;
    return s;
}

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C15", [](Rng &r, Mon &m) {
        MatscsProblem p(r, 4);
        m.describe(p.str());
        auto scs = p.build();
        const int n = p.n;
        double E = p.E, w = p.w;
        double x0 = p.a, x1 = p.b;
        switch (r.I(0, 3)) {
            case 0: swap(x0, x1); break;
            case 1: x0 = r.U(p.a, p.b); x1 = r.U(p.a, p.b); break;
            case 2: x0 = r.P(.5) ? p.a : p.b; x1 = scs->sectors[r.I(0, scs->sectorCount - 1)]->min; break;
        }
        // Lagrangian initial values: Y = C^-1-ish symmetric psi, or Dirichlet
        MatX u, up;
        int kind = r.I(0, 2);
        MatX S = MatscsProblem::randomSymmetric(r, n, r.L(.1, 3));
        if (kind == 0) {
            u = MatX::Zero(n, n);
            up = MatX::Identity(n, n);
        } else if (kind == 1) {
            u = MatX::Identity(n, n);
            up = w * S;
        } else {
            u = S / w;
            up = MatX::Identity(n, n);
        }
        double tol = p.flowTolerance(*scs) * exp(p.G) * 5;
        // reference
        MatL z = MatL::Zero(n, n);
        ref::MState s{u.cast<long double>(), up.cast<long double>(), z, z}, s0 = s;
        long double prev = ref::MatrixSchrodinger::argdet(s, w), lift = 0;
        long steps = 0;
        double closest = 10;
        p.oracle.propagate(E, x0, x1, s, .6L / n, [&](long double, const ref::MState &y) {
            long double now = ref::MatrixSchrodinger::argdet(y, w), d = now - prev;
            while (d > M_PIl) d -= 2 * M_PIl;
            while (d < -M_PIl) d += 2 * M_PIl;
            lift += 2 * d;
            prev = now;
            ++steps;
        });
        MatX U = s.u.cast<double>(), UP = s.up.cast<double>();
        // --- argdet
        {
            YM y0(n);
            y0.block() = u;
            y0.block(dX) = up;
            auto res = scs->propagate(E, y0, x0, x1);
            auto a0 = ref::MatrixSchrodinger::angles(s0, w), a1 = ref::MatrixSchrodinger::angles(s, w);
            auto b0 = ref::MatrixSchrodinger::angles(s0, 1), b1 = ref::MatrixSchrodinger::angles(s, 1);
            if (kind == 0) for (int i = 0; i < n; ++i) a0[i] = b0[i] = 0;
            if (x0 == x1) a1 = a0, b1 = b0;
            bool far = (kind == 0 || fromZero(b0) > 1e-6) && (fromZero(b1) > 1e-6 || x0 == x1);
            double turns = (lift - (sum(a1) - sum(a0))) / (2 * M_PI);
            if (!far || fabs(turns - round(turns)) > 1e-3) m.seen("argdet: skipped, undecided");
            else {
                double expect = 2 * M_PI * round(turns) + sum(b1) - sum(b0);
                m.within(fabs(res.second - expect), .05 + tol * n * max(1., w) * 10, "argdet", [&] {
                    return fmt("from %.17g to %.17g kind %d: %.12g expected %.12g (difference %.3g turns)", x0, x1, kind, res.second, expect, (res.second - expect) / 2 / M_PI);
                });
                m.seen(fmt("argdet, %s, %s", x1 >= x0 ? "forward" : "backward", turns == 0 ? "no turns" : "turns"));
            }
        }
        // --- psi
        {
            MatX psi0 = kind == 1 ? MatX((w * S).partialPivLu().inverse()) : u;
            if (kind != 1 || psi0.norm() * w < 1e4) {
                MatX psi = scs->propagatePsi(E, psi0, x0, x1);
                MatX st(2 * n, n);
                st << w * U, UP;
                MatX Q = Eigen::HouseholderQR<MatX>(st).householderQ() * MatX::Identity(2 * n, n);
                MatX ps = w * psi;
                MatX N = MatX::Identity(n, n) + ps * ps.transpose();
                MatX L = N.llt().matrixL();
                MatX res = L.triangularView<Eigen::Lower>().solve(Q.topRows(n) - ps * Q.bottomRows(n));
                m.within(res.norm(), tol, "psi", [&] { return fmt("from %.17g to %.17g kind %d", x0, x1, kind); });
                m.seen(x1 >= x0 ? "psi forward" : "psi backward");
            }
        }
        m.distinct(p.str());
    });
}
