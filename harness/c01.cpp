// C01: every eigenvalue returned by an index query is the eigenvalue with that index, to the requested tolerance.
#include "api.hpp"

using namespace matslise;
using namespace std;

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C01", [](Rng &r, Mon &m) {
        gen::Options o;
        gen::Problem p = gen::randomProblem(r, o);
        int lo = r.P(.5) ? 0 : r.P(.8) ? r.I(0, 12) : r.I(12, m.thorough ? 400 : 120);
        int hi = lo + r.I(1, lo > 12 ? 3 : 8);
        m.describe(p.str() + fmt(" indices [%d,%d)", lo, hi));
        auto ms = makeMatslise(p);
        auto ev = ms->eigenvaluesByIndex(lo, hi, makeY(p.left), makeY(p.right));
        m.check((int) ev.size() == hi - lo, "one eigenvalue per index", [&] { return fmt("%zu values", ev.size()); });
        auto oracle = p.oracle();
        double vscale = max(fabs(p.vMin()), fabs(p.vMax()));
        int expected = lo;
        for (auto &e: ev) {
            m.check(e.first == expected, "index", [&] { return fmt("got %d expected %d", e.first, expected); });
            ++expected;
            if (!m.check(isfinite(e.second), "finite")) continue;
            double scale = max(1., fabs(e.second));
            // round off cannot be better than some ulps of the size of the numbers involved
            double allowed = 3 * p.tol * scale + 1e-13 * (vscale + fabs(e.second) + 10 / (p.len() * p.len()));
            auto count = [&](double E) {
                return oracle.countBelow(E, p.left.y, p.left.dy, p.right.y, p.right.dy);
            };
            int below = count(e.second - allowed), above = count(e.second + allowed);
            bool ok = below <= e.first && above >= e.first + 1;
            if (m.verbose) {
                // measure the error
                long double ex = oracle.eigenvalue(e.first, p.left.y, p.left.dy, p.right.y, p.right.dy,
                                                   e.second - allowed, e.second + allowed, 1e-17L);
                m.within(fabs((double) (e.second - ex)), allowed, "measured", [&] { return fmt("E%d=%.12g exact %.12Lg", e.first, e.second, ex); });
            }
            m.check(ok, "eigenvalue", [&] {
                return fmt("E%d=%.15g but %d eigenvalues below E-%.3g and %d below E+%.3g", e.first, e.second, below,
                           allowed, above, allowed);
            });
        }
        m.seen("eigenvalues", ev.size());
        m.seen("family " + p.family);
        m.seen(string("bc ") + p.left.kind + "|" + p.right.kind);
        m.distinct(fmt("%s %s %s %d %d %d", p.family.c_str(), p.left.kind, p.right.kind, lo, (int) floor(log10(p.tol)), ms->sectorCount));
    });
}
