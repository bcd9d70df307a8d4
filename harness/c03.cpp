// C03: eigenvalues in a window of energies: all of them, none outside, with the index they have in the whole spectrum.
#include "queries.hpp"

using namespace std;

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C03", [](Rng &r, Mon &m) {
        Separated s = randomSeparated(r, true);
        int lo = r.P(.5) ? 0 : r.I(0, 25), hi = lo + r.I(0, 7);
        m.describe(s.text + fmt(" around [%d,%d)", lo, hi));
        auto all = s.byIndex(lo, hi + 1);
        if ((int) all.size() != hi + 1 - lo) Mon::skip("index query failed (C02)");
        // window ends: between eigenvalues, at eigenvalues, far below, or arbitrary
        double first = all.front().second, last = all.back().second, span = max(last - first, 1 / (s.len * s.len));
        auto end = [&]() -> double {
            switch (r.I(0, 6)) {
                case 0: return all[r.I(0, hi - lo)].second;
                case 1: return s.vMin - r.L(.01, 30) / (s.len * s.len);
                case 2: return first + span * r.U(-1, 2);
                case 3: {
                    int i = r.I(0, hi - lo);
                    return i + 1 <= hi - lo ? .5 * (all[i].second + all[i + 1].second) : all[i].second - span * r.U(0, .2);
                }
                case 4: return r.P(.5) ? 0 : round(first);
                case 5: return all[r.I(0, hi - lo)].second * (1 + r.S() * r.L(1e-12, 1e-3));
                default: return first + span * r.U(0, 1);
            }
        };
        double e[3];
        for (double &x: e) {
            x = end();
            if (s.growth(x) > 80) x = first;
        }
        sort(e, e + 3);
        if (s.count(e[2]) - s.count(e[0]) > 200) Mon::skip("too many eigenvalues");
        auto query = [&](double a, double b) {
            auto w = s.window(a, b);
            double da = s.allowed(a), db = s.allowed(b);
            int aMin = s.count(a - da), aMax = s.count(a + da), bMin = s.count(b - db), bMax = s.count(b + db);
            auto text = [&] {
                string t = fmt("[%.17g,%.17g) expected indices [%d..%d,%d..%d), got", a, b, aMin, aMax, bMin, bMax);
                for (auto &x: w) t += fmt(" %d:%.15g", x.first, x.second);
                return t;
            };
            bool ok = true;
            for (size_t i = 0; i + 1 < w.size(); ++i) ok = ok && w[i].first + 1 == w[i + 1].first;
            m.check(ok, "consecutive indices", text);
            if (w.empty()) m.check(bMin <= aMax, "window complete", text);
            else m.check(aMin <= w.front().first && w.front().first <= aMax && bMin <= w.back().first + 1 && w.back().first + 1 <= bMax,
                    "window complete", text);
            for (auto &x: w) {
                m.check(a - da <= x.second && x.second <= b + db, "inside window", text);
                double d = s.allowed(x.second);
                if (w.size() < 12 || r.P(.2))
                    m.check(s.count(x.second - d) <= x.first && s.count(x.second + d) > x.first, "value and index", [&] {
                        return fmt("%d:%.15g: ", x.first, x.second) + text();
                    });
                if (lo <= x.first && x.first <= hi)
                    m.within(fabs(x.second - all[x.first - lo].second), 2 * d, "agrees with index query", text);
            }
            m.seen(w.empty() ? "empty windows" : w.size() > 8 ? "large windows" : "windows");
            return w;
        };
        auto w = query(e[0], e[2]), w0 = query(e[0], e[1]), w1 = query(e[1], e[2]);
        // a partition of the window: nothing is lost, only what lies on the cut may be in both
        set<int> u;
        for (auto &x: w0) u.insert(x.first);
        for (auto &x: w1) u.insert(x.first);
        for (auto &x: w)
            m.check(u.count(x.first) || fabs(x.second - e[1]) <= s.allowed(e[1]) || fabs(x.second - e[0]) <= s.allowed(e[0]) ||
                    fabs(x.second - e[2]) <= s.allowed(e[2]), "partition", [&] {
                return fmt("E%d=%.15g lost by the cut at %.15g", x.first, x.second, e[1]);
            });
        m.check(s.window(e[1], e[1]).empty(), "empty window");
        if (e[0] < e[2]) m.check(s.window(e[2], e[0]).empty(), "reversed window");
        if (s.windowBoth) {
            auto o = s.windowBoth(e[0], e[2]);
            m.check(o.size() == w.size(), "overload");
            for (size_t i = 0; i < min(o.size(), w.size()); ++i)
                m.check(o[i].first == w[i].first && fabs(o[i].second - w[i].second) <= 2 * s.allowed(w[i].second), "overload");
            m.seen("overload " + s.kind);
        }
        m.seen(s.kind);
        m.distinct(fmt("%s %d %d %zu %zu %d", s.kind.c_str(), lo, hi, w.size(), w0.size(), (int) floor(log10(s.tol))));
    });
}
