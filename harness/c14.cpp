// C14: Matscs::propagate / propagateColumn are the flow of Y'' = (V - E) Y, also backwards, composed, and to E.
#include "api.hpp"
#include "matrix_ref.hpp"
#include "matslise/matscs.h"

using namespace matslise;
using namespace std;
using ref::MatX;
using ref::MatL;
typedef Y<double, Eigen::Dynamic> YM;

#include "matscs_gen.hpp"

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C14", [](Rng &r, Mon &m) {
        MatscsProblem p(r, 8);
        m.describe(p.str());
        auto scs = p.build();
        const int n = p.n;
        double E = p.E, w = p.w;
        m.check(scs->n == n && scs->sectorCount == (int) scs->sectors.size(), "sectors");
        if (p.uniform) m.check(scs->sectorCount == p.uniform, "sectors");
        for (int k = 0; k < 3; ++k) {
            double x0 = p.a, x1 = p.b;
            switch (r.I(0, 6)) {
                case 0: swap(x0, x1); break;
                case 1: x0 = r.U(p.a, p.b); x1 = r.U(p.a, p.b); break;
                case 2: x0 = r.P(.5) ? p.a : p.b; x1 = scs->sectors[r.I(0, scs->sectorCount - 1)]->min; break;
                case 3: x0 = scs->sectors[r.I(0, scs->sectorCount - 1)]->max; x1 = r.U(p.a, p.b); break;
                case 4: { // both in one sector
                    auto &s = scs->sectors[r.I(0, scs->sectorCount - 1)];
                    x0 = r.U(s->min, s->max);
                    x1 = r.P(.2) ? x0 : r.U(s->min, s->max);
                    break;
                }
            }
            YM y0(n);
            MatX u = p.randomMatrix(r), up = p.randomMatrix(r) * w;
            if (r.P(.3)) u.setZero(); else if (r.P(.3)) up.setZero();
            y0.block() = u;
            y0.block(dX) = up;
            bool withE = r.P(.5);
            if (withE) {
                y0.block(dE) = p.randomMatrix(r) * p.tE;
                y0.block(dXdE) = p.randomMatrix(r) * w * p.tE;
            }
            ref::MState s{u.cast<long double>(), up.cast<long double>(), y0.block(dE).cast<long double>(), y0.block(dXdE).cast<long double>()};
            // how large solutions become on the way
            ref::MatL I = ref::MatL::Identity(n, n), O = ref::MatL::Zero(n, n);
            auto sizes = [&](double from, double to, double &M, double &ME) {
                ref::MatL IO(n, 2 * n), OI(n, 2 * n), OO = ref::MatL::Zero(n, 2 * n);
                IO << I / w, O;
                OI << O, I;
                ref::MState g{IO, OI, OO, OO};
                p.oracle.propagate(E, from, to, g, .6L, [&](long double, const ref::MState &v) {
                    M = max<double>(M, max((w * v.u).norm(), v.up.norm()));
                    ME = max<double>(ME, max((w * v.ue).norm(), v.upe.norm()));
                });
            };
            double M = sqrt(n), ME = p.tE;
            sizes(x0, x1, M, ME);
            for (auto &sec: scs->sectors)
                for (double x: {x0, x1})
                    if (sec->min <= x && x <= sec->max) sizes(sec->min, sec->max, M, ME);
            p.oracle.propagate(E, x0, x1, s, .6L, [](long double, const ref::MState &) {});
            bool useH = r.P(.8);
            double nrm = max(w * u.norm(), up.norm()), nrmE = nrm * ME + max(w * y0.block(dE).norm(), y0.block(dXdE).norm()) * M;
            // tolerances of the sectors: uniform ones are as fine as the generator chose them
            double tol = (p.uniform ? 1e-8 : p.tol * 50) + 1e-12 * max(1., w * (p.b - p.a));
            double grow = max(M, exp(p.G));
            auto text = [&] { return fmt("from %.17g to %.17g useH=%d withE=%d M=%.3g", x0, x1, useH, withE, M); };
            auto cmp = [&](const YM &y, const char *what) {
                double err = max(w * (double) (y.block().cast<long double>() - s.u).norm(), (double) (y.block(dX).cast<long double>() - s.up).norm());
                m.within(err, tol * grow * nrm + 4e-12 * w * nrm, what, text);
                double errE = max(w * (double) (y.block(dE).cast<long double>() - s.ue).norm(), (double) (y.block(dXdE).cast<long double>() - s.upe).norm());
                m.within(errE, (tol * 5 + 1e-10) * grow * nrmE, (string(what) + ", derivative to E").c_str(), text);
            };
            YM y1 = scs->propagate(E, y0, x0, x1, useH).first;
            cmp(y1, p.uniform ? "flow (uniform sectors)" : "flow");
            // column by column
            YM yc = scs->template propagateColumn<Eigen::Dynamic>(E, y0, x0, x1, useH);
            m.within((yc.data - y1.data).norm(), 1e-12 * y1.data.norm(), "propagateColumn", text);
            int c = r.I(0, n - 1);
            Y<double, Eigen::Dynamic, 1> col(n, 1);
            col.data = y0.data.col(c);
            m.within((scs->template propagateColumn<1>(E, col, x0, x1, useH).data - y1.data.col(c)).norm(), 1e-9 * grow * (nrm + nrmE), "a single column", text);
            // a combination of columns, and fewer or more of them than the dimension
            int cols = r.I(1, 2 * n);
            MatX C(n, cols);
            for (int i = 0; i < n; ++i) for (int j = 0; j < cols; ++j) C(i, j) = r.U(-1, 1);
            YM mixed(n, cols);
            mixed.data = y0.data * C;
            YM mixed1 = scs->template propagateColumn<Eigen::Dynamic>(E, mixed, x0, x1, useH);
            m.check(mixed1.data.rows() == 4 * n && mixed1.data.cols() == cols, "shape", text);
            if (mixed1.data.cols() == cols)
                m.within((mixed1.data - y1.data * C).norm(), 1e-9 * grow * (nrm + nrmE) * C.norm(), "linear", text);
            // a third point in between or outside
            double x2 = r.U(p.a, p.b);
            ref::MState s2 = s;
            YM y2 = scs->propagate(E, scs->propagate(E, y0, x0, x2, useH).first, x2, x1, useH).first;
            double M2 = 1, ME2 = p.tE;
            sizes(x0, x2, M2, ME2);
            sizes(x2, x1, M2, ME2);
            if (M2 < 1e3) {
                double err = max(w * (y2.block() - y1.block()).norm(), (y2.block(dX) - y1.block(dX)).norm());
                m.within(err, (tol * grow * M2 + 8e-12 * w * M2) * 3 * nrm, "in two steps", text);
                m.seen("in two steps");
            }
            m.seen(x0 == x1 ? "no distance" : x0 < x1 ? "forward" : "backward");
            m.seen(fmt("dimension %d", n));
        }
        if (r.P(.3)) {
            double out = r.P(.5) ? p.b + r.L(1e-9, 5) : p.a - r.L(1e-9, 5), in = r.U(p.a, p.b);
            bool from = r.P(.5);
            int thrown = 0;
            double f = from ? out : in, t = from ? in : out;
            try { scs->propagate(1., YM::Dirichlet(n), f, t); } catch (runtime_error &) { ++thrown; }
            try { scs->template propagateColumn<Eigen::Dynamic>(1., YM::Dirichlet(n), f, t); } catch (runtime_error &) { ++thrown; }
            try { scs->propagatePsi(1., MatX::Zero(n, n), f, t); } catch (runtime_error &) { ++thrown; }
            m.check(thrown == 3, "outside of the domain is refused", [&] { return fmt("%.17g, %d of 3", out, thrown); });
        }
        m.distinct(fmt("n=%d sectors=%d uniform=%d jumps=%d tol=1e%d", n, scs->sectorCount, p.uniform, (int) p.jumps.size(), (int) floor(log10(p.tol))));
    });
}
