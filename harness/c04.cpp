// C04: eigenpairs are normalised solutions of the boundary value problem.
#include "efun.hpp"

using namespace matslise;
using namespace std;
typedef Eigen::Array<double, -1, 1> Xs;
typedef Eigen::Array<double, -1, 2> Ys;

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C04", [](Rng &r, Mon &m) {
        gen::Options o;
        o.growthMax = 40;
        o.evenOnly = r.P(.15);
        gen::Problem p = gen::randomProblem(r, o);
        bool half = o.evenOnly;
        if (half) p.left = {p.right.y, -p.right.dy, p.right.kind};
        int lo = r.P(.5) ? 0 : r.P(.8) ? r.I(0, 12) : r.I(12, 60);
        int hi = lo + r.I(1, 4);
        m.describe((half ? "half range " : "") + p.str() + fmt(" indices [%d,%d)", lo, hi));
        shared_ptr<AbstractMatslise<double>> ms;
        if (half) ms = make_shared<MatsliseHalf<>>(potential(p.V), p.b, p.tol);
        else ms = makeMatslise(p);
        auto l = makeY(p.left), rt = makeY(p.right);
        auto pairs = half ? ms->eigenpairsByIndex(lo, hi, rt) : ms->eigenpairsByIndex(lo, hi, l, rt);
        if (!m.check((int) pairs.size() == hi - lo, "complete")) return;
        auto oracle = p.oracle();
        double L = p.len(), Emax = get<1>(pairs.back()), vm = p.vMin();
        double w = max(sqrt(max(0., Emax - vm)), 2 / L);
        Grid grid(p.a, p.b, p.breaks<double>(), max(24, (int) (L * w)));
        Xs xs = Eigen::Map<Xs>(grid.x.data(), grid.x.size());
        double vs = max(fabs(vm), fabs(p.vMax()));
        vector<Ys> values;
        vector<double> trusted;
        for (size_t k = 0; k < pairs.size(); ++k) {
            auto &t = pairs[k];
            int index = get<0>(t);
            double E = get<1>(t);
            if (!m.check((bool) get<2>(t), "has a function")) return;
            const auto &f = *get<2>(t);
            Ys y = f(xs);
            values.push_back(y);
            double dE = 3 * p.tol * max(1., fabs(E)) + 1e-13 * (vs + fabs(E) + 10 / (L * L));
            auto ev = [&](int i, double lo, double hi) {
                return oracle.eigenvalue(i, p.left.y, p.left.dy, p.right.y, p.right.dy, lo, hi, 1e-19L);
            };
            long double ex = ev(index, E - dE, E + dE);
            // distance to the neighbours: how well conditioned is the function?
            double gap = 1e300;
            double step = 1 / (L * L);
            for (double d = step; d > 1e-14 * (1 + fabs(E)); d /= 4) {
                int below = oracle.countBelow(ex - d, p.left.y, p.left.dy, p.right.y, p.right.dy), above = oracle.countBelow(ex + d, p.left.y, p.left.dy, p.right.y, p.right.dy);
                if (above - below <= 1) {
                    gap = d;
                    break;
                }
            }
            double cond = dE / gap; // how much of the neighbours may be mixed in
            
            RefEfun u(oracle, ex, p.left, p.right, grid, w);
            if (u.mismatch > 1e-9) {
                m.seen("not compared: reference not accurate");
                trusted.push_back(1);
                continue;
            }
            double bar = p.barrier(E);
            double dot = grid.integrate([&](size_t i) { return y(i, 0) * u.u[i]; }), norm2 = grid.integrate([&](size_t i) { return y(i, 0) * y(i, 0); });
            double sgn = dot < 0 ? -1 : 1, err = 0, errp = 0;
            for (size_t i = 0; i < grid.size(); ++i) {
                err = max(err, fabs(y(i, 0) - sgn * u.u[i]));
                errp = max(errp, fabs(y(i, 1) - sgn * u.up[i]));
            }
            if (!(err < 1e300)) err = 1e300;
            double size = max(u.upMax, w * u.uMax), rel = max(err / u.uMax, errp / size);
            double allowed = 1.5 * cond + 16 * p.tol + 1e-12;
            // a state held by a boundary condition decays away from that boundary, and is integrated in that direction too
            string kinds = string(p.left.kind) + p.right.kind;
            if (kinds.find('R') != string::npos) allowed += 5 * p.tol * exp(min(30., p.growth(E)));
            auto text = [&] { return fmt("E%d=%.15g gap %.3g", index, E, gap); };
            // boundary conditions
            for (int side = 0; side < 2; ++side) {
                const gen::BC &bc = side ? p.right : p.left;
                Eigen::Array2d v = f(side ? p.b : p.a);
                double along = hypot(bc.y * w, bc.dy), off = fabs(v[0] * w * bc.dy - v[1] * w * bc.y) / along;
                // half range: the left side is the mirrored right side
                m.within(off, 1e-9 * hypot(v[0] * w, v[1]) + 1e-13 * size, "boundary condition", [&] { return fmt("side %d: (%.15g, %.15g) ", side, v[0], v[1]) + text(); });
            }
            if (cond < .02) m.within(fabs(norm2 - 1), allowed + 1e-9, "norm", text);
            if (bar > 16 || cond > .02) {
                m.seen(bar > 16 ? "not compared: wells behind a high barrier" : "not compared: nearly equal eigenvalues");
                trusted.push_back(1);
                continue;
            }
            trusted.push_back(allowed);
            m.within(rel, allowed, "function", [&] { return fmt("y %.3g y' %.3g ", err / u.uMax, errp / size) + text(); });
            if (allowed < 1e-3 && p.growth(E) < 10) {
                int nodes = 0, sgn = 0;
                for (size_t i = 0; i < grid.size(); ++i) {
                    int now = y(i, 0) > 0 ? 1 : y(i, 0) < 0 ? -1 : sgn;
                    if (sgn && sgn != now) ++nodes;
                    sgn = now;
                }
                m.check(nodes == index, "number of zeros", [&] { return fmt("%d zeros ", nodes) + text(); });
            }
            m.seen(half ? "compared (half range)" : "compared");
            m.distinct(fmt("%s %s %s %d %d %d", p.family.c_str(), p.left.kind, p.right.kind, half, index, (int) floor(log10(p.tol))));
        }
        for (size_t i = 0; i < values.size() && trusted.size() == values.size(); ++i)
            for (size_t j = 0; j < i; ++j) {
                double d = grid.integrate([&](size_t k) { return values[i](k, 0) * values[j](k, 0); });
                if (trusted[i] < 1 && trusted[j] < 1) m.within(fabs(d), 2 * (trusted[i] + trusted[j]) + 1e-9, "orthogonal", [&] { return fmt("%d %d", lo + (int) i, lo + (int) j); });
            }
    });
}
