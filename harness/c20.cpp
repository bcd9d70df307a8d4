// C20: the solvers in long double and in quadruple precision answer the same questions to smaller tolerances. The
// reference computes in quadruple precision.
#include <boost/multiprecision/float128.hpp>
#include "api.hpp"

using namespace matslise;
using namespace std;
typedef boost::multiprecision::float128 Q;

template<typename S>
static double epsilon() { return (double) std::numeric_limits<S>::epsilon(); }

static double dbl(const Q &q) { return (double) q; }

template<typename S>
static void check(Rng &r, Mon &m, const char *name) {
    bool quad = is_same<S, Q>::value;
    gen::Options o;
    o.tolMin = quad ? 12 : 10;
    o.tolMax = quad ? 20 : 16.5;
    o.growthMax = 40;
    o.maxLen = 12;
    bool halfRange = r.P(.2);
    o.evenOnly = halfRange;
    gen::Problem p = gen::randomProblem(r, o);
    if (halfRange) p.left = {p.right.y, -p.right.dy, p.right.kind};
    int lo = r.P(.6) ? 0 : r.I(0, 20), hi = lo + r.I(1, 3);
    m.describe(fmt("%s %s", name, halfRange ? "half " : "") + p.str() + fmt(" indices [%d,%d)", lo, hi));
    unique_ptr<AbstractMatslise<S>> ms;
    if (halfRange) ms = make_unique<MatsliseHalf<S>>(potential<S>(p.V), S(p.b), S(p.tol));
    else ms = makeMatslise<S>(p);
    auto left = makeY<S>(halfRange ? p.right : p.left), right = makeY<S>(p.right); // the half range solver mirrors by itself
    auto pairs = ms->eigenpairsByIndex(lo, hi, left, right);
    auto values = ms->eigenvaluesByIndex(lo, hi, left, right);
    if (!m.check((int) values.size() == hi - lo && pairs.size() == values.size(), "one eigenvalue per index",
                 [&] { return fmt("%zu values %zu pairs", values.size(), pairs.size()); }))
        return;
    auto br = p.breaks<Q>();
    auto v = p.V;
    ref::Schrodinger<Q> oracle([v](Q x) { return v(x); }, Q(p.a), Q(p.b), br, 64);
    double vs = max(fabs(p.vMin()), fabs(p.vMax())), L = p.len(), eps = epsilon<S>();
    for (size_t i = 0; i < values.size(); ++i) {
        int index = lo + (int) i;
        m.check(values[i].first == index && get<0>(pairs[i]) == index, "index", [&] { return fmt("got %d, %d expected %d", values[i].first, get<0>(pairs[i]), index); });
        Q E = (Q) values[i].second;
        if (!m.check(isfinite(dbl(E)), "finite")) continue;
        m.check(get<1>(pairs[i]) == values[i].second, "same eigenvalue with eigenfunction");
        double allowed = 3 * p.tol * max(1., fabs(dbl(E))) + 1000 * eps * (vs + fabs(dbl(E)) + 10 / (L * L));
        auto count = [&](Q e) { return oracle.countBelow(e, p.left.y, p.left.dy, p.right.y, p.right.dy); };
        int below = count(E - allowed), above = count(E + allowed);
        if (m.verbose) {
            Q ex = oracle.eigenvalue(index, p.left.y, p.left.dy, p.right.y, p.right.dy, E - allowed, E + allowed, Q(1e-30));
            m.within(fabs(dbl(E - ex)), allowed, quad ? "measured quad" : "measured long double", [&] { return fmt("E%d=%.20g", index, dbl(E)); });
        }
        m.check(below <= index && above >= index + 1, "eigenvalue", [&] {
            return fmt("E%d=%.15g but %d eigenvalues below E-%.3g and %d below E+%.3g", index, dbl(E), below, allowed, above, allowed);
        });
        m.seen(string(name) + " eigenvalues");
        // --- eigenfunction
        auto &f = *get<2>(pairs[i]);
        double omega = 1 / L, ymax = 0;
        for (int k = 0; k <= 40; ++k) omega = max(omega, sqrt(fabs(p.V(p.a + k * L / 40) - dbl(E))));
        int panels = max(48, (int) ceil(L * omega / 1.5));
        if (quad && panels > 100) continue;
        if (p.barrier(dbl(E)) > 16) {
            m.seen("function not compared: wells behind a high barrier");
            continue;
        }
        double gap = 1e-300;
        for (double d = 1 / (L * L); d > 50 * allowed; d /= 4)
            if (count(E + d) - count(E - d) <= 1) {
                gap = d;
                break;
            }
        double cond = allowed / gap; // how much of the neighbours may be mixed in
        if (cond > .02) {
            m.seen("function not compared: nearly equal eigenvalues");
            continue;
        }
        const auto &g = ref::Gauss<Q>::get();
        auto cuts = p.breaks<double>();
        sort(cuts.begin(), cuts.end());
        cuts.push_back(p.b);
        Eigen::Array<S, -1, 1> xs;
        vector<Q> w;
        {
            vector<Q> x;
            Q from = p.a;
            for (double c: cuts) {
                int n = max(1, (int) ceil(panels * dbl(c - from) / L));
                Q h = (c - from) / n;
                for (int k = 0; k < n; ++k)
                    for (int j = 0; j < g.s; ++j) x.push_back(from + h * (k + g.c[j])), w.push_back(h * g.b[j]);
                from = c;
            }
            xs.resize(x.size());
            for (size_t k = 0; k < x.size(); ++k) xs[k] = (S) x[k];
        }
        Eigen::Array<S, -1, 2> ys = f(xs);
        if (!m.check(ys.rows() == xs.size(), "as many values as points")) continue;
        Q norm = 0;
        for (Eigen::Index k = 0; k < ys.rows(); ++k) {
            norm += w[k] * (Q) ys(k, 0) * (Q) ys(k, 0);
            ymax = max(ymax, omega * fabs((double) ys(k, 0)) + fabs((double) ys(k, 1)));
        }
        string kinds = string(p.left.kind) + p.right.kind;
        double rel = 3 * cond + (16) * p.tol + 1000 * eps;
        // a state held by a boundary condition decays away from that boundary, and is integrated in that direction too
        if (kinds.find('R') != string::npos) rel += 5 * p.tol * exp(min(30., p.growth(dbl(E))));
        double allowedY = rel * ymax;
        m.within(fabs(dbl(norm - 1)), rel, quad ? "norm quad" : "norm long double", [&] { return fmt("norm-1 %.3g", dbl(norm - 1)); });
        vector<double> pts{p.a, p.b};
        for (int k = 0; k < (quad ? 6 : 12); ++k) pts.push_back(r.U(p.a, p.b));
        sort(pts.begin(), pts.end());
        for (size_t k = 0; k < pts.size(); ++k) {
            Eigen::Array<S, 2, 1> y = f(S(pts[k]));
            bool forward = k + 1 < pts.size() && (k == 0 || r.P(.5));
            double to = forward ? pts[k + 1] : pts[k - 1];
            if (k == 0 || k + 1 == pts.size()) {
                const gen::BC &bc = k == 0 ? p.left : p.right;
                double res = fabs(dbl((Q) y[0] * bc.dy - (Q) y[1] * bc.y)) / (hypot(bc.dy, omega * bc.y)) * omega;
                m.within(res, 1000 * eps * ymax, quad ? "boundary condition quad" : "boundary condition long double", [&] { return fmt("at %.17g", pts[k]); });
            }
            double growth = 0;
            for (int j = 0; j < 20; ++j) growth += sqrt(max(0., p.V(pts[k] + (to - pts[k]) * (j + .5) / 20) - dbl(E))) / 20 * fabs(to - pts[k]);
            if (growth > 3) continue;
            ref::State<Q> s;
            s.u = (Q) y[0];
            s.up = (Q) y[1];
            s = oracle.propagate(E, Q(pts[k]), Q(to), s);
            Eigen::Array<S, 2, 1> z = f(S(to));
            double err = dbl(omega * abs(s.u - (Q) z[0]) + abs(s.up - (Q) z[1]));
            m.within(err, allowedY * exp(growth), quad ? "eigenfunction quad" : "eigenfunction long double", [&] { return fmt("from %.17g to %.17g", pts[k], to); });
        }
        m.seen(string(name) + " eigenfunctions");
    }
    // the same ones are found by their energies
    auto slack = [&](S e) { return S(10 * p.tol * max(1., fabs((double) e)) + 2000 * eps * (vs + fabs((double) e) + 10 / (L * L))); };
    S from = values.front().second, to = values.back().second;
    from -= slack(from);
    to += slack(to);
    auto found = ms->eigenvalues(from, to, left, right);
    for (auto &e: values) {
        bool there = false;
        for (auto &g: found)
            if (g.first == e.first && abs(g.second - e.second) <= slack(e.second)) there = true;
        m.check(there, "found by energy", [&] { return fmt("index %d", e.first); });
    }
    m.distinct(fmt("%s %d %s %s %s %d %d", name, (int) halfRange, p.family.c_str(), p.left.kind, p.right.kind, lo, (int) floor(log10(p.tol))));
}

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C20", [](Rng &r, Mon &m) {
        if (r.P(.75)) check<long double>(r, m, "long double");
        else check<Q>(r, m, "quad");
    });
}
