// C02: index queries return exactly the asked indices, in order, and do not depend on how the range is split or asked.
#include "queries.hpp"

using namespace std;

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C02", [](Rng &r, Mon &m) {
        Separated s = randomSeparated(r, false);
        int lo = r.P(.4) ? 0 : r.P(.8) ? r.I(0, 12) : r.I(12, m.thorough ? 500 : 150);
        int hi = lo + (r.P(.15) ? r.I(10, 40) : r.I(0, 7));
        m.describe(s.text + fmt(" [%d,%d)", lo, hi));
        auto all = s.byIndex(lo, hi);
        auto exact = [&](const Eigenvalues &e, int from, int to, const char *what) {
            bool ok = (int) e.size() == max(0, to - from);
            for (size_t i = 0; ok && i < e.size(); ++i) ok = e[i].first == from + (int) i && isfinite(e[i].second);
            m.check(ok, what, [&] {
                string t = fmt("asked [%d,%d), got", from, to);
                for (auto &x: e) t += fmt(" %d:%.15g", x.first, x.second);
                return t;
            });
            for (size_t i = 0; i + 1 < e.size(); ++i)
                m.check(e[i].second <= e[i + 1].second + s.allowed(e[i].second), "ascending",
                        [&] { return fmt("E%d=%.15g E%d=%.15g", e[i].first, e[i].second, e[i + 1].first, e[i + 1].second); });
            return ok;
        };
        // the same indices have the same values, whichever query they come from
        auto same = [&](const Eigenvalues &e, const char *what) {
            for (auto &x: e)
                if (lo <= x.first && x.first < hi && (int) all.size() == hi - lo)
                    m.within(fabs(x.second - all[x.first - lo].second), 2 * s.allowed(x.second), what, [&] {
                        return fmt("E%d=%.15g from [%d,%d), but %.15g", x.first, all[x.first - lo].second, lo, hi, x.second);
                    });
        };
        if (!exact(all, lo, hi, "complete")) return;
        // the largest and the smallest of the range are counted by the reference
        if (!all.empty() && !(s.kind == "full" && s.growth(all[0].second) > 80))
            for (auto *e: {&all.front(), &all.back()}) {
                double d = s.allowed(e->second);
                int below = s.count(e->second - d), above = s.count(e->second + d);
                m.check(below <= e->first && above > e->first, "counted", [&] {
                    return fmt("E%d=%.15g but %d below E-%.3g and %d below E+%.3g", e->first, e->second, below, d, above, d);
                });
            }
        // split
        int mid = r.I(lo, hi);
        auto left = s.byIndex(lo, mid), right = s.byIndex(mid, hi);
        exact(left, lo, mid, "complete (split)");
        exact(right, mid, hi, "complete (split)");
        same(left, "value independent of split");
        same(right, "value independent of split");
        // a wider range and single indices
        int wl = max(0, lo - r.I(0, 3)), wh = hi + r.I(0, 4);
        auto wide = s.byIndex(wl, wh);
        exact(wide, wl, wh, "complete (wider)");
        same(wide, "value independent of range");
        if (hi > lo) {
            int k = r.I(lo, hi - 1);
            auto one = s.byIndex(k, k + 1);
            exact(one, k, k + 1, "complete (single)");
            same(one, "value of single");
        }
        int k = r.P(.5) ? 0 : r.I(0, 30);
        exact(s.byIndex(k, k), k, k, "empty range");
        // eigenpairs
        if (hi - lo <= 8 && !(s.growth(all.empty() ? s.vMin : all[0].second) > 60)) {
            auto pairs = s.pairsByIndex(lo, hi);
            exact(pairs, lo, hi, "complete (pairs)");
            same(pairs, "value of pairs");
        }
        if (s.byIndexBoth) {
            auto o = s.byIndexBoth(lo, hi);
            exact(o, lo, hi, "complete (overload)");
            same(o, "value of overload");
            m.seen("overload " + s.kind);
        }
        m.seen(s.kind);
        m.seen("eigenvalues", all.size());
        m.distinct(fmt("%s %d %d %d", s.kind.c_str(), lo, hi, (int) floor(log10(s.tol))) + s.text.substr(0, 12));
    });
}
