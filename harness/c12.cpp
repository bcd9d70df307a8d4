// C12: eigenvalues of -(p z')' + q z = E w z have the right index and value.
#include "api.hpp"
#include "sl_ref.hpp"

using namespace matslise;
using namespace std;

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C12", [](Rng &r, Mon &m) {
        gen::SLProblem p(r);
        int lo = r.P(.5) ? 0 : r.P(.8) ? r.I(0, 15) : r.I(15, 80), hi = lo + r.I(1, 5);
        m.describe(p.str() + fmt(" [%d,%d)", lo, hi));
        auto sl = p.build();
        auto ev = sl->eigenvaluesByIndex(lo, hi, makeY(p.left), makeY(p.right));
        auto oracle = p.oracle();
        m.check((int) ev.size() == hi - lo, "one eigenvalue per index", [&] { return fmt("%zu values", ev.size()); });
        double vs = p.potentialScale();
        int i = lo;
        for (auto &e: ev) {
            m.check(e.first == i, "index", [&] { return fmt("got %d expected %d", e.first, i); });
            ++i;
            double E = e.second;
            if (!m.check(isfinite(E), "finite")) continue;
            double d = 3 * p.tol * max(1., fabs(E)) + 1e-11 * (vs + fabs(E));
            auto count = [&](long double x) { return oracle.countBelow(x, p.left.y, p.left.dy, p.right.y, p.right.dy); };
            int below = count(E - d), above = count(E + d);
            if (m.verbose && below <= e.first && above > e.first) {
                long double a = E - d, b = E + d;
                for (int k = 0; k < 40; ++k) {
                    long double c = (a + b) / 2;
                    (count(c) > e.first ? b : a) = c;
                }
                m.within(fabs(E - (double) a), d, "measured", [&] { return fmt("E%d", e.first); });
            }
            m.check(below <= e.first && above > e.first, "eigenvalue", [&] {
                return fmt("E%d=%.15g but %d eigenvalues below E-%.3g and %d below E+%.3g", e.first, E, below, d, above, d);
            });
            m.seen("eigenvalues");
        }
        m.seen("p " + p.kindP);
        m.seen("w " + p.kindW);
        m.distinct(fmt("%s %s %zu %s %s %d %d", p.kindP.c_str(), p.kindW.c_str(), p.q.terms.size(), p.left.kind, p.right.kind, lo,
                       (int) floor(log10(p.tol))));
    });
}
