// C10: eigenvalues of y(b) = K y(a): complete, indexed with multiplicity, accurate, window and index queries agree.
#include "api.hpp"
#include "periodic_ref.hpp"

using namespace matslise;
using namespace std;

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C10", [](Rng &r, Mon &m) {
        gen::Options o;
        o.growthMax = 12;
        gen::Problem p = gen::randomProblem(r, o);
        Eigen::Matrix2d K = Eigen::Matrix2d::Identity();
        const char *kind = "periodic";
        switch (r.I(0, 3)) {
            case 1:
                K *= -1;
                kind = "antiperiodic";
                break;
            case 2: {
                double s = exp(r.U(-1, 1)), q = r.P(.3) ? 0 : r.U(-1, 1) * p.len(), t = r.P(.3) ? 0 : r.U(-1, 1) / p.len();
                K << s, q, t, (1 + q * t) / s;
                if (r.P(.5)) K *= -1;
                kind = "general";
                break;
            }
            case 3:
                if (r.P(.5)) { // V with the period of the interval, closed or nearly closed gaps
                    for (auto &t: p.V.terms) if (t.kind == gen::COS) t.p = 2 * M_PI / p.len() * r.I(0, 4);
                }
        }
        int lo = r.P(.5) ? 0 : r.P(.8) ? r.I(0, 10) : r.I(10, 80);
        int hi = lo + r.I(0, 8);
        m.describe(p.str() + fmt(" K=[%.17g %.17g; %.17g %.17g] %s [%d,%d)", K(0, 0), K(0, 1), K(1, 0), K(1, 1), kind, lo, hi));

        sector_builder::AutomaticSectorBuilder<Matslise<>> sb(p.tol);
        sb.jumps = p.jumps;
        PeriodicMatslise<> ms(potential(p.V), p.a, p.b, p.tol, sb, K);
        ref::Coupled oracle(p, K(0, 0), K(0, 1), K(1, 0), K(1, 1));
        if (!strcmp(kind, "general")) { // states bound to the boundary, far below the potential, are out of scope
            double in = p.vMin(), out = in - 200 / (p.len() * p.len());
            for (int k = 0; k < 40; ++k) {
                double mid = (in + out) / 2;
                (p.growth(mid) > 13 ? out : in) = mid;
            }
            if (oracle.countBelow(in)) {
                m.seen("far below the potential");
                Mon::skip("state bound to the boundary");
            }
        }
        double vscale = max(fabs(p.vMin()), fabs(p.vMax()));
        auto allowed = [&](double E) {
            double scale = max(1., fabs(E));
            return 10 * max(p.tol, 1e-8) * scale + 1e-10 * vscale;
        };
        auto ev = ms.eigenvaluesByIndex(lo, hi);
        auto verify = [&](const vector<tuple<int, double, int>> &ev, const char *what) {
            double prev = -INFINITY;
            int next = ev.empty() ? 0 : get<0>(ev[0]);
            for (auto &e: ev) {
                int i = get<0>(e), mult = get<2>(e);
                double E = get<1>(e);
                m.check(mult == 1 || mult == 2, "multiplicity", [&] { return fmt("%d", mult); });
                m.check(i == next, "consecutive indices", [&] { return fmt("%s: index %d, expected %d", what, i, next); });
                m.check(E >= prev, "ascending");
                prev = E;
                next = i + mult;
                if (p.growth(E) > 14) {
                    // a state bound to the boundary, far below the potential: out of scope
                    m.seen("far below the potential");
                    continue;
                }
                double d = allowed(E);
                int below = oracle.countBelow(E - d), above = oracle.countBelow(E + d);
                m.check(below <= i && above >= i + mult, "eigenvalue", [&] {
                    return fmt("%s: E%d=%.15g (multiplicity %d) but %d below E-%.3g and %d below E+%.3g", what, i, E, mult,
                               below, d, above, d);
                });
                m.seen(fmt("%s multiplicity %d", kind, mult));
            }
        };
        verify(ev, "eigenvaluesByIndex");
        if (hi > lo && m.check(!ev.empty(), "complete", "no eigenvalues")) {
            int f = get<0>(ev.front()), l = get<0>(ev.back()) + get<2>(ev.back());
            m.check((f == lo || (f == lo - 1 && get<2>(ev.front()) == 2)) && (l == hi || (l == hi + 1 && get<2>(ev.back()) == 2)),
                    "complete", [&] { return fmt("asked [%d,%d) got [%d,%d)", lo, hi, f, l); });
        } else m.check(ev.empty(), "empty range");

        // window query
        double e0 = p.vMin() + (hi > lo ? get<1>(ev.back()) - p.vMin() : 10) * r.U(-.5, 1.2), e1 = e0 + r.L(.1, 100) / (p.len() * p.len());
        if (r.P(.5)) e0 = p.vMin() - r.U(0, 50);
        if (oracle.s.countBelow(e1, 0, 1, 0, 1) > 150 || p.growth(e0) > 30) return;
        auto w = ms.eigenvalues(e0, e1);
        verify(w, "eigenvalues");
        double d0 = allowed(e0), d1 = allowed(e1);
        int cMin = oracle.countBelow(e0 - d0), c0 = oracle.countBelow(e0 + d0), c1 = oracle.countBelow(e1 - d1), cMax = oracle.countBelow(e1 + d1);
        int f = w.empty() ? c0 : get<0>(w.front()), l = w.empty() ? c0 : get<0>(w.back()) + get<2>(w.back());
        if (w.empty()) m.check(c1 <= c0, "window complete", [&] { return fmt("[%.15g,%.15g) returned nothing, expected [%d,%d)", e0, e1, c0, c1); });
        else m.check(cMin <= f && f <= c0 && c1 <= l && l <= cMax, "window complete",
                [&] { return fmt("[%.15g,%.15g) gave [%d,%d), expected [%d..%d,%d..%d)", e0, e1, f, l, cMin, c0, c1, cMax); });
        m.seen("windows");
        m.distinct(fmt("%s %s %d %d %d", p.family.c_str(), kind, lo, hi, (int) floor(log10(p.tol))));
    });
}
