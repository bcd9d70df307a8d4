// Independent reference solvers. Nothing in this file uses matslise.
//
//  * Gauss collocation (implicit Runge-Kutta of order 2s) for  u'' = (V(x) - E) u  and for general linear
//    first order systems, with the derivative to E carried along.
//  * exact zero counting on elements that are too short to hold two zeros (Sturm comparison), from which the
//    number of eigenvalues below E of a regular separated problem follows (Sturm oscillation theorem).
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP

#include <Eigen/Dense>
#include <algorithm>
#include <cmath>
#include <functional>
#include <vector>

namespace ref {
    using std::abs;
    using std::ceil;
    using std::max;
    using std::sqrt;
    using std::vector;

    // ---- Gauss-Legendre collocation data on [0,1] -------------------------------------------------------
    template<typename S>
    struct Gauss {
        int s;
        vector<S> c, b, bbar;
        vector<S> A, Abar; // row major s x s ; A: first integral, Abar: second integral

        explicit Gauss(int s_) : s(s_), c(s_), b(s_), bbar(s_), A(s_ * s_), Abar(s_ * s_) {
            // nodes by Newton on P_s
            for (int k = 0; k < s; ++k) {
                S x = -std::cos(3.14159265358979323846 * (k + 0.75) / (s + 0.5));
                for (int it = 0; it < 12; ++it) {
                    S p0 = 1, p1 = x;
                    for (int j = 2; j <= s; ++j) {
                        S p2 = ((2 * j - 1) * x * p1 - (j - 1) * p0) / S(j);
                        p0 = p1;
                        p1 = p2;
                    }
                    S dp = S(s) * (x * p1 - p0) / (x * x - 1);
                    x -= p1 / dp;
                }
                c[k] = (x + 1) / 2;
            }
            // Lagrange basis through the nodes, integrated once and twice
            for (int j = 0; j < s; ++j) {
                vector<S> poly{S(1)};
                S den = 1;
                for (int k = 0; k < s; ++k)
                    if (k != j) {
                        vector<S> n(poly.size() + 1, S(0));
                        for (size_t i = 0; i < poly.size(); ++i) {
                            n[i + 1] += poly[i];
                            n[i] -= c[k] * poly[i];
                        }
                        poly = n;
                        den *= c[j] - c[k];
                    }
                auto integral1 = [&](S x) {
                    S r = 0;
                    for (int i = (int) poly.size() - 1; i >= 0; --i) r = r * x + poly[i] / S(i + 1);
                    return r * x / den;
                };
                auto integral2 = [&](S x) {
                    S r = 0;
                    for (int i = (int) poly.size() - 1; i >= 0; --i) r = r * x + poly[i] / S((i + 1) * (i + 2));
                    return r * x * x / den;
                };
                for (int i = 0; i < s; ++i) {
                    A[i * s + j] = integral1(c[i]);
                    Abar[i * s + j] = integral2(c[i]);
                }
                b[j] = integral1(S(1));
                bbar[j] = integral2(S(1));
            }
        }

        static const Gauss &get() {
            static const Gauss g(10);
            return g;
        }
    };

    // ---- scalar Schrodinger ------------------------------------------------------------------------------
    template<typename S>
    struct State { // u, u', du/dE, du'/dE
        S u{}, up{}, ue{}, upe{};
    };

    template<typename S>
    class Schrodinger {
    public:
        typedef std::function<S(S)> Fun;
        Fun V;
        S a, b;
        vector<S> breaks; // points where V is not smooth; sorted, strictly inside
        int base;         // minimal number of elements per unit fraction
        S vScale;         // bound used in mesh choice

        Schrodinger(Fun V_, S a_, S b_, vector<S> breaks_ = {}, int base_ = 48)
                : V(std::move(V_)), a(a_), b(b_), breaks(std::move(breaks_)), base(base_), vScale(0) {
            std::sort(breaks.begin(), breaks.end());
        }

        // One element; sgn: +1 or -1 direction (h may be negative)
        void step(const S &E, const S &x0, const S &h, State<S> *y, int count, bool withE) const {
            const auto &g = Gauss<S>::get();
            constexpr int s = 10;
            Eigen::Matrix<S, s, 1> Q;
            for (int i = 0; i < s; ++i) Q[i] = V(x0 + g.c[i] * h) - E;
            Eigen::Matrix<S, s, s> M;
            for (int i = 0; i < s; ++i)
                for (int j = 0; j < s; ++j) M(i, j) = (i == j ? S(1) : S(0)) - h * h * Q[i] * g.Abar[i * s + j];
            Eigen::PartialPivLU<Eigen::Matrix<S, s, s>> lu(M);
            for (int k = 0; k < count; ++k) {
                State<S> &v = y[k];
                Eigen::Matrix<S, s, 1> r;
                for (int i = 0; i < s; ++i) r[i] = Q[i] * (v.u + g.c[i] * h * v.up);
                Eigen::Matrix<S, s, 1> f = lu.solve(r);
                S u1 = v.u + h * v.up, up1 = v.up;
                for (int j = 0; j < s; ++j) {
                    u1 += h * h * g.bbar[j] * f[j];
                    up1 += h * g.b[j] * f[j];
                }
                if (withE) {
                    Eigen::Matrix<S, s, 1> re;
                    for (int i = 0; i < s; ++i) {
                        S ui = v.u + g.c[i] * h * v.up;
                        for (int j = 0; j < s; ++j) ui += h * h * g.Abar[i * s + j] * f[j];
                        re[i] = Q[i] * (v.ue + g.c[i] * h * v.upe) - ui;
                    }
                    Eigen::Matrix<S, s, 1> fe = lu.solve(re);
                    S ue1 = v.ue + h * v.upe, upe1 = v.upe;
                    for (int j = 0; j < s; ++j) {
                        ue1 += h * h * g.bbar[j] * fe[j];
                        upe1 += h * g.b[j] * fe[j];
                    }
                    v.ue = ue1;
                    v.upe = upe1;
                }
                v.u = u1;
                v.up = up1;
            }
        }

        // element length near x that keeps the phase below ~0.6
        S elementLength(const S &E, const S &x, S remaining) const {
            S h = (b - a) / S(base);
            if (h > remaining) h = remaining;
            for (int it = 0; it < 60; ++it) {
                S m = 0;
                for (int i = 0; i <= 4; ++i) {
                    S q = V(x + h * (S(i) + S(0.02) * (2 - i)) / S(4)) - E;
                    q = q < 0 ? S(-q) : q;
                    if (q > m) m = q;
                }
                using std::sqrt;
                if (h * sqrt(m) <= S(0.6)) break;
                h *= S(0.7);
            }
            return h;
        }

        // Propagate from x to y (any direction). zeros: number of sign changes of component 0 met strictly after x.
        // scaleLog: log of the factor taken out.
        template<typename Visit>
        void propagateVisit(const S &E, S from, S to, State<S> *y, int count, bool withE, Visit visit) const {
            // collect cut points
            vector<S> cuts;
            if (from <= to) {
                for (auto &br: breaks) if (br > from && br < to) cuts.push_back(br);
            } else {
                for (auto it = breaks.rbegin(); it != breaks.rend(); ++it)
                    if (*it < from && *it > to) cuts.push_back(*it);
            }
            cuts.push_back(to);
            S x = from;
            for (auto &cut: cuts) {
                while (x != cut) {
                    S rem = cut > x ? S(cut - x) : S(x - cut);
                    S h;
                    if (cut > x) {
                        h = elementLength(E, x, rem);
                    } else {
                        // mirrored element choice
                        Schrodinger<S> const *self = this;
                        S hh = (b - a) / S(base);
                        if (hh > rem) hh = rem;
                        for (int it = 0; it < 60; ++it) {
                            S m = 0;
                            for (int i = 0; i <= 4; ++i) {
                                S q = self->V(x - hh * (S(i) + S(0.02) * (2 - i)) / S(4)) - E;
                                q = q < 0 ? S(-q) : q;
                                if (q > m) m = q;
                            }
                            using std::sqrt;
                            if (hh * sqrt(m) <= S(0.6)) break;
                            hh *= S(0.7);
                        }
                        h = hh;
                    }
                    S nx;
                    if (h >= rem * S(0.999)) {
                        h = rem;
                        nx = cut;
                    } else nx = cut > x ? S(x + h) : S(x - h);
                    step(E, x, nx - x, y, count, withE);
                    x = nx;
                    visit(x, y);
                }
            }
        }

        State<S> propagate(const S &E, const S &from, const S &to, State<S> y, bool withE = false) const {
            propagateVisit(E, from, to, &y, 1, withE, [](const S &, State<S> *) {});
            return y;
        }

        // Number of eigenvalues strictly below E for  u(a):u'(a) = l0:l1 and u(b):u'(b) = r0:r1.
        int countBelow(const S &E, S l0, S l1, S r0, S r1) const {
            State<S> y;
            y.u = l0;
            y.up = l1;
            // normalise: theta(a) in [0,pi): u > 0, or u == 0 and u' > 0
            if (y.u < 0 || (y.u == 0 && y.up < 0)) {
                y.u = -y.u;
                y.up = -y.up;
            }
            if (r0 < 0 || (r0 == 0 && r1 > 0)) { // theta(b) in (0, pi]: r0 > 0 or (r0 == 0, r1 < 0)
                r0 = -r0;
                r1 = -r1;
            }
            long zeros = 0;
            int sgn = 1;
            propagateVisit(E, a, b, &y, 1, false, [&](const S &, State<S> *v) {
                int now = v->u > 0 ? 1 : v->u < 0 ? -1 : (v->up > 0 ? 1 : -1);
                if (now != sgn) {
                    ++zeros;
                    sgn = now;
                }
                S m = (v->u < 0 ? -v->u : v->u) + (v->up < 0 ? -v->up : v->up);
                if (m > S(1e100) || m < S(1e-100)) {
                    v->u /= m;
                    v->up /= m;
                }
            });
            S u = y.u * S(sgn), up = y.up * S(sgn); // theta = zeros*pi + phi, phi in [0,pi) = angle(u, up), u >= 0
            // phi > beta  <=>  cot phi < cot beta : up/u < r1/r0   (u>=0, r0>=0)
            bool more = r0 == 0 ? false : (up * r0 < r1 * u);
            return (int) zeros + (more ? 1 : 0);
        }

        // i-th eigenvalue by bisection on the counting function
        S eigenvalue(int i, S l0, S l1, S r0, S r1, S lo, S hi, S eps) const {
            S w = 1;
            while (countBelow(lo, l0, l1, r0, r1) > i) {
                hi = lo;
                lo -= w;
                w *= 2;
            }
            w = 1;
            while (countBelow(hi, l0, l1, r0, r1) <= i) {
                lo = hi;
                hi += w;
                w *= 2;
            }
            while (true) {
                S mid = (lo + hi) / 2;
                S m = mid < 0 ? -mid : mid;
                if (hi - lo <= eps * (m > 1 ? m : S(1)) || mid == lo || mid == hi) return mid;
                if (countBelow(mid, l0, l1, r0, r1) > i) hi = mid; else lo = mid;
            }
        }
    };

    // ---- general linear system y' = A(x) y ------------------------------------------------------------------
    template<typename S>
    class LinearSystem {
    public:
        typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> Mat;
        std::function<Mat(S)> A;
        int d;
        int s = 8;

        Mat step(const S &x0, const S &h, const Mat &y) const {
            static const Gauss<S> g(8);
            Mat M = Mat::Identity(s * d, s * d);
            Mat R(s * d, y.cols());
            for (int i = 0; i < s; ++i) {
                Mat Ai = A(x0 + g.c[i] * h);
                for (int j = 0; j < s; ++j) M.block(i * d, j * d, d, d) -= h * g.A[i * s + j] * Ai;
                R.middleRows(i * d, d) = Ai * y;
            }
            Mat K = M.partialPivLu().solve(R);
            Mat r = y;
            for (int j = 0; j < s; ++j) r += h * g.b[j] * K.middleRows(j * d, d);
            return r;
        }

        template<typename Visit>
        Mat propagate(S from, S to, Mat y, int n, Visit visit) const {
            S h = (to - from) / S(n);
            for (int i = 0; i < n; ++i) {
                y = step(from + S(i) * h, h, y);
                visit(from + S(i + 1) * h, y);
            }
            return y;
        }

        Mat propagate(S from, S to, Mat y, int n) const {
            return propagate(from, to, std::move(y), n, [](const S &, const Mat &) {});
        }
    };
}
#endif
