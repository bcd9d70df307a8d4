// C08: the error estimate of an eigenvalue is its distance to the spectrum.
#include "queries.hpp"

using namespace matslise;
using namespace std;

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C08", [](Rng &r, Mon &m) {
        int kind = r.I(0, 4); // 0-2 full, 3 half, 4 Sturm-Liouville
        gen::Problem p;
        unique_ptr<gen::SLProblem> slp;
        gen::Options o;
        o.growthMax = 40;
        o.evenOnly = kind == 3;
        shared_ptr<AbstractMatslise<double>> ms;
        shared_ptr<SturmLiouville<double>> sl;
        function<int(long double)> count;
        Eigenvalues ev;
        int lo = r.P(.5) ? 0 : r.P(.8) ? r.I(0, 12) : r.I(12, 60), hi = lo + r.I(1, 3);
        Y<> l, rt;
        double tol, vs, len, vMin;
        if (kind == 4) {
            slp = make_unique<gen::SLProblem>(r);
            m.describe(slp->str() + fmt(" [%d,%d)", lo, hi));
            sl = slp->build();
            l = makeY(slp->left), rt = makeY(slp->right);
            ev = sl->eigenvaluesByIndex(lo, hi, l, rt);
            auto oracle = make_shared<ref::SL>(slp->oracle());
            auto q = *slp;
            count = [=](long double E) { return oracle->countBelow(E, q.left.y, q.left.dy, q.right.y, q.right.dy); };
            tol = slp->tol;
            vs = slp->potentialScale();
            len = slp->xLength();
            vMin = -vs;
        } else {
            p = gen::randomProblem(r, o);
            if (kind == 3) p.left = {p.right.y, -p.right.dy, p.right.kind};
            m.describe((kind == 3 ? "half range " : "") + p.str() + fmt(" [%d,%d)", lo, hi));
            l = makeY(p.left), rt = makeY(p.right);
            if (kind == 3) {
                ms = make_shared<MatsliseHalf<>>(potential(p.V), p.b, p.tol);
                ev = ms->eigenvaluesByIndex(lo, hi, rt);
            } else {
                ms = makeMatslise(p);
                ev = ms->eigenvaluesByIndex(lo, hi, l, rt);
            }
            auto oracle = make_shared<ref::Schrodinger<long double>>(p.oracle());
            count = [=](long double E) { return oracle->countBelow(E, p.left.y, p.left.dy, p.right.y, p.right.dy); };
            tol = p.tol;
            vs = max(fabs(p.vMin()), fabs(p.vMax()));
            len = p.len();
            vMin = p.vMin();
        }
        for (auto &e: ev) {
            int index = e.first;
            double E = e.second;
            if (!slp && p.barrier(E) > 16) {
                m.seen("skipped: wells behind a high barrier");
                continue;
            }
            double d0 = 3 * tol * max(1., fabs(E)) + 1e-11 * (vs + fabs(E) + 10 / (len * len));
            long double a = E - d0, b = E + d0;
            if (!(count(a) <= index && count(b) > index)) {
                m.seen("skipped: not accurate"); // C01, C12
                continue;
            }
            for (int k = 0; k < 60 && b - a > 1e-17L * fabsl(b); ++k) {
                long double c = (a + b) / 2;
                (count(c) > index ? b : a) = c;
            }
            long double ex = (a + b) / 2;
            double gap = 0;
            for (double d = 10 * (1 + sqrt(max(0., E - vMin)) * len) / (len * len); d > 20 * d0; d /= 1.7)
                if (count(ex + d) - count(ex - d) <= 1) {
                    gap = d;
                    break;
                }
            if (gap == 0) {
                m.seen("skipped: nearly equal eigenvalues");
                continue;
            }
            double w = sqrt(max(0., E - vMin));
            for (int k = 0; k < 4; ++k) {
                bool at = k == 0;
                double d = at ? 0 : r.S() * gap * r.L(1e-6, .06);
                double F = at ? E : (double) ex + d;
                double dist = fabsl(F - ex);
                bool withIndex = kind != 3 || !at || r.P(.5);
                // without the index the parity has to follow from E: only close to the eigenvalue
                if (kind == 3 && !withIndex && !(d0 * max(1., w) * 40 < gap)) continue;
                double err = kind == 4 ? sl->eigenvalueError(F, l, rt, r.P(.5) ? index : -1) :
                             kind == 3 ? (r.P(.5) ? ms->eigenvalueError(F, rt, withIndex ? index : -1) : ms->eigenvalueError(F, rt, rt, withIndex ? index : -1)) :
                             ms->eigenvalueError(F, l, rt, r.P(.5) ? index : -1);
                auto text = [&] { return fmt("E%d=%.17g, at %.17g (distance %.6g, gap %.3g): estimate %.10g", index, (double) ex, F, dist, gap, err); };
                m.within(fabs(err - dist), (kind == 4 ? 12 : 4) * d0 + .01 * dist, at ? "error of an eigenvalue" : "error of a displaced eigenvalue", text);
                m.seen(string(kind == 4 ? "sl" : kind == 3 ? "half" : "full") + (at ? ", eigenvalue" : ", displaced") + (withIndex ? "" : ", without index"));
                if (!at && dist > 100 * d0) m.seen("displaced by much more than the tolerance");
            }
            m.distinct(fmt("%d %s %d %d", kind, slp ? (slp->kindP + slp->kindW).c_str() : p.family.c_str(), index, (int) floor(log10(tol))));
        }
    });
}
