// Reference eigenfunctions on a grid of Gauss nodes.
#ifndef VERIF_EFUN_HPP
#define VERIF_EFUN_HPP

#include "api.hpp"

struct Grid { // composite Gauss quadrature
    std::vector<double> x, w;

    Grid() = default;

    Grid(double a, double b, const std::vector<double> &breaks, int panels) {
        const auto &g = ref::Gauss<long double>::get();
        std::vector<double> cuts{a};
        for (double c: breaks) if (c > a && c < b) cuts.push_back(c);
        std::sort(cuts.begin(), cuts.end());
        cuts.push_back(b);
        for (size_t k = 0; k + 1 < cuts.size(); ++k) {
            int n = std::max(1, (int) std::ceil(panels * (cuts[k + 1] - cuts[k]) / (b - a)));
            double h = (cuts[k + 1] - cuts[k]) / n;
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < g.s; ++j) {
                    x.push_back(cuts[k] + h * (i + (double) g.c[j]));
                    w.push_back(h * (double) g.b[j]);
                }
        }
    }

    size_t size() const { return x.size(); }

    template<typename F>
    double integrate(F f) const {
        double s = 0;
        for (size_t i = 0; i < x.size(); ++i) s += w[i] * f(i);
        return s;
    }
};

struct RefEfun {
    typedef long double LD;
    LD E = 0;
    double mismatch = 10;      // between the solution from the left and the one from the right, where they agree best
    std::vector<double> u, up; // on the grid, norm 1
    double uMax = 0, upMax = 0;
    int nodes = 0;             // sign changes

    RefEfun() = default;

    RefEfun(const ref::Schrodinger<LD> &s, LD E, const gen::BC &left, const gen::BC &right, const Grid &g, double scale) : E(E) {
        size_t n = g.size();
        std::vector<ref::State<LD>> l(n), r(n);
        std::vector<LD> lg(n), rg(n);
        auto sweep = [&](LD from, const gen::BC &bc, bool forward, std::vector<ref::State<LD>> &out, std::vector<LD> &logs) {
            ref::State<LD> y;
            y.u = bc.y;
            y.up = bc.dy;
            LD x = from, lf = 0;
            for (size_t k = 0; k < n; ++k) {
                size_t i = forward ? k : n - 1 - k;
                s.propagateVisit(E, x, (LD) g.x[i], &y, 1, false, [&](const LD &, ref::State<LD> *v) {
                    LD m = fabsl(v->u) * scale + fabsl(v->up);
                    if (m > 1e50L || m < 1e-50L) {
                        v->u /= m;
                        v->up /= m;
                        lf += logl(m);
                    }
                });
                x = g.x[i];
                out[i] = y;
                logs[i] = lf;
            }
        };
        sweep(s.a, left, true, l, lg);
        sweep(s.b, right, false, r, rg);
        size_t m = 0;
        for (size_t i = 0; i < n; ++i) {
            LD la = l[i].u * scale, lb = l[i].up, ra = r[i].u * scale, rb = r[i].up;
            double mis = (double) (fabsl(la * rb - lb * ra) / (hypotl(la, lb) * hypotl(ra, rb)));
            if (mis < mismatch) mismatch = mis, m = i;
        }
        // r * c = l at m
        LD la = l[m].u * scale, lb = l[m].up, ra = r[m].u * scale, rb = r[m].up;
        LD c = (la * ra + lb * rb) / (ra * ra + rb * rb);
        u.resize(n);
        up.resize(n);
        std::vector<LD> a(n), b(n);
        for (size_t i = 0; i < n; ++i) {
            LD f = i <= m ? expl(lg[i] - lg[m]) : c * expl(rg[i] - rg[m]);
            auto &v = i <= m ? l[i] : r[i];
            a[i] = v.u * f;
            b[i] = v.up * f;
        }
        LD nrm = 0;
        for (size_t i = 0; i < n; ++i) nrm += g.w[i] * a[i] * a[i];
        nrm = sqrtl(nrm);
        int sgn = 0;
        for (size_t i = 0; i < n; ++i) {
            u[i] = (double) (a[i] / nrm);
            up[i] = (double) (b[i] / nrm);
            uMax = std::max(uMax, std::fabs(u[i]));
            upMax = std::max(upMax, std::fabs(up[i]));
            int now = u[i] > 0 ? 1 : u[i] < 0 ? -1 : sgn;
            if (sgn && now != sgn) ++nodes;
            sgn = now;
        }
    }
};

#endif
