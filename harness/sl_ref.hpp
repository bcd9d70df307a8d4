// Sturm-Liouville problems  -(p z')' + q z = E w z : generator and reference.
#ifndef VERIF_SL_REF_HPP
#define VERIF_SL_REF_HPP

#include "gen.hpp"
#include "matslise/liouville.h"

namespace ref {
    // state: z, p z'
    struct SL {
        typedef long double LD;
        gen::Potential p, q, w;
        LD a, b;
        int base = 48;

        void step(LD E, LD x0, LD h, LD (&y)[2]) const {
            const auto &g = Gauss<LD>::get();
            constexpr int s = 10;
            // stages: k_i = z'_i = v_i / p_i, l_i = (q_i - E w_i) z_i ; z_i = z + h A k, v_i = v + h A l
            Eigen::Matrix<LD, s, 1> ip, Q;
            Eigen::Matrix<LD, s, s> A;
            for (int i = 0; i < s; ++i) {
                LD x = x0 + g.c[i] * h;
                ip[i] = 1 / p(x);
                Q[i] = q(x) - E * w(x);
                for (int j = 0; j < s; ++j) A(i, j) = g.A[i * s + j];
            }
            // l = Q (z + h A k), k = ip (v + h A l)  ->  l = Q (z + h A ip (v + h A l))
            Eigen::Matrix<LD, s, s> M = Eigen::Matrix<LD, s, s>::Identity() - h * h * (Q.asDiagonal() * A * ip.asDiagonal() * A);
            Eigen::Matrix<LD, s, 1> one = Eigen::Matrix<LD, s, 1>::Ones();
            Eigen::Matrix<LD, s, 1> rhs = Q.asDiagonal() * (y[0] * one + h * y[1] * (A * ip));
            Eigen::Matrix<LD, s, 1> l = M.partialPivLu().solve(rhs);
            Eigen::Matrix<LD, s, 1> k = ip.asDiagonal() * (y[1] * one + h * (A * l));
            for (int j = 0; j < s; ++j) {
                y[0] += h * g.b[j] * k[j];
                y[1] += h * g.b[j] * l[j];
            }
        }

        LD length(LD E, LD x, LD rem, int dir) const {
            LD h = std::min((b - a) / base, rem);
            for (int it = 0; it < 60; ++it) {
                LD m = 0;
                for (int i = 0; i <= 4; ++i) {
                    LD t = x + dir * h * i / 4;
                    m = std::max(m, fabsl((q(t) - E * w(t)) / p(t)));
                }
                if (h * sqrtl(m) <= .6L) break;
                h *= .7L;
            }
            return h;
        }

        template<typename Visit>
        void propagate(LD E, LD from, LD to, LD (&y)[2], Visit visit) const {
            LD x = from;
            int dir = to > from ? 1 : -1;
            while (x != to) {
                LD rem = fabsl(to - x), h = length(E, x, rem, dir);
                LD nx = h >= rem * .999L ? to : x + dir * h;
                step(E, x, nx - x, y);
                x = nx;
                visit(x, y);
            }
        }

        // boundary conditions in z : z'
        int countBelow(LD E, LD l0, LD l1, LD r0, LD r1) const {
            LD y[2] = {l0, l1 * p(a)};
            r1 *= p(b);
            if (y[0] < 0 || (y[0] == 0 && y[1] < 0)) y[0] = -y[0], y[1] = -y[1];
            if (r0 < 0 || (r0 == 0 && r1 > 0)) r0 = -r0, r1 = -r1;
            long zeros = 0;
            int sgn = 1;
            propagate(E, a, b, y, [&](LD, LD (&v)[2]) {
                int now = v[0] > 0 ? 1 : v[0] < 0 ? -1 : (v[1] > 0 ? 1 : -1);
                if (now != sgn) ++zeros, sgn = now;
                LD m = fabsl(v[0]) + fabsl(v[1]);
                if (m > 1e100L || m < 1e-100L) v[0] /= m, v[1] /= m;
            });
            LD u = y[0] * sgn, up = y[1] * sgn;
            return (int) zeros + (r0 != 0 && up * r0 < r1 * u ? 1 : 0);
        }
    };
}

namespace gen {
    struct SLProblem {
        Potential p, q, w;
        double a, b, tol;
        BC left{0, 1, "D"}, right{0, 1, "D"};
        std::string kindP, kindW;

        static Potential positive(Rng &r, double a, double b, std::string &kind, bool constantAllowed) {
            double len = b - a;
            Potential f;
            double scale = r.P(.5) ? 1 : r.L(.05, 20);
            switch (r.I(constantAllowed ? 0 : 1, 6)) {
                case 0:
                    kind = "const";
                    f.terms.push_back({POW, scale, 0, 0});
                    break;
                case 1:
                    kind = "exp";
                    f.terms.push_back({EXP, scale, r.U(-2, 2) / len, (a + b) / 2});
                    break;
                case 2:
                    kind = "cos";
                    f.terms.push_back({POW, scale, 0, 0});
                    f.terms.push_back({COS, scale * r.U(-.7, .7), r.U(.5, 8) / len, r.U(0, 6)});
                    break;
                case 3:
                    kind = "pow";
                    f.terms.push_back({POW, scale / pow(len, 2), 2, a - len * r.U(.3, 2)});
                    break;
                case 4:
                    kind = "inv2";
                    f.terms.push_back({INV2, scale * len * len, 0, b + len * r.U(.3, 2)});
                    break;
                case 5:
                    kind = "linear";
                    f.terms.push_back({POW, scale / len, 1, a - len * r.U(.3, 2)});
                    break;
                default:
                    kind = "bump";
                    f.terms.push_back({POW, scale, 0, 0});
                    f.terms.push_back({GAUSS, scale * r.U(-.7, 2), len * r.U(.15, .6), a + len * r.U(0, 1)});
            }
            return f;
        }

        explicit SLProblem(Rng &r, double growthMax = 20) {
            for (int attempt = 0;; ++attempt) {
                if (attempt > 100) Mon::skip("no problem");
                double len = r.L(.2, 10);
                a = r.U(-3, 3);
                b = a + len;
                p = positive(r, a, b, kindP, true);
                w = positive(r, a, b, kindW, true);
                q = Potential();
                double amp = r.L(.1, 100) * (r.P(.5) ? 1 : p(a) / (len * len));
                for (int k = r.I(0, 2); k; --k) {
                    if (r.P(.5)) q.terms.push_back({COS, r.U(-amp, amp), r.U(0, 8) / len, r.U(0, 6)});
                    else q.terms.push_back({POW, r.U(-amp, amp) / pow(len, 2), 2, a + len * r.U(0, 1)});
                }
                tol = std::pow(10, -r.U(3, 11));
                // eigenvalues are above the minimum of q / w
                double lo = 1e300, g = 0;
                for (int i = 0; i <= 100; ++i) {
                    double x = a + len * i / 100;
                    lo = std::min(lo, q(x) / w(x));
                }
                for (int i = 0; i <= 100; ++i) {
                    double x = a + len * i / 100;
                    g += sqrt(std::max(0., (q(x) - lo * w(x)) / p(x))) * len / 101;
                }
                if (g > growthMax) continue;
                left = randomBC(r, len, -1);
                right = randomBC(r, len, 1);
                if (r.P(.3)) { // the equation may be multiplied by any constant
                    double c = r.L(1e-6, 1e6);
                    for (auto *f: {&p, &q, &w})
                        for (auto &t: f->terms) t.A *= c;
                }
                return;
            }
        }

        std::string str() const {
            return fmt("SL p=%s q=%s w=%s [%.17g,%.17g] tol=%.3g left=(%.6g,%.6g) right=(%.6g,%.6g)", p.str().c_str(),
                       q.str().c_str(), w.str().c_str(), a, b, tol, left.y, left.dy, right.y, right.dy);
        }

        // length of the interval after the Liouville transformation
        double xLength() const {
            double s = 0;
            for (int i = 0; i < 400; ++i) {
                double x = a + (b - a) * (i + .5) / 400;
                s += sqrt(w(x) / p(x));
            }
            return s * (b - a) / 400;
        }

        // size of the numbers that make up the transformed potential
        double potentialScale() const {
            double m = 0, l = xLength();
            for (int i = 0; i <= 100; ++i) {
                double x = a + (b - a) * i / 100;
                m = std::max(m, std::fabs(q(x) / w(x)));
            }
            return m + 30 / (l * l);
        }

        ref::SL oracle() const { return {p, q, w, a, b}; }

        std::function<double(double)> fun(const Potential &f) const {
            return [f](double x) { return f(x); };
        }

        std::unique_ptr<matslise::SturmLiouville<double>> build() const {
            return std::make_unique<matslise::SturmLiouville<double>>(fun(p), fun(q), fun(w), matslise::Domain<double>{a, b}, tol);
        }
    };
}
#endif
