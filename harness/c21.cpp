// C21: pairs of problems that are related by an exact transformation have related answers. No reference solver is
// needed, so that long domains, high indices and many oscillations are within reach.
#include "api.hpp"
#include "matslise/liouville.h"

using namespace matslise;
using namespace std;
typedef function<double(double)> F;
typedef AbstractMatslise<double>::Eigenfunction Fun;

struct Setting {
    F V;
    double a, b, tol;
    vector<double> jumps;
    gen::BC left, right;
    // filled by solve
    vector<pair<int, double>> values;
    unique_ptr<Matslise<>> ms; // the functions refer to it
    vector<unique_ptr<Fun>> funs;

    void solve(int lo, int hi, bool functions) {
        sector_builder::AutomaticSectorBuilder<Matslise<>> sb(tol);
        sort(jumps.begin(), jumps.end());
        sb.jumps = jumps;
        auto v = V;
        ms = make_unique<Matslise<>>([v](double x) { return v(x); }, a, b, tol, sb);
        if (functions) {
            for (auto &t: ms->eigenpairsByIndex(lo, hi, makeY(left), makeY(right))) {
                values.emplace_back(get<0>(t), get<1>(t));
                funs.push_back(move(get<2>(t)));
            }
        } else values = ms->eigenvaluesByIndex(lo, hi, makeY(left), makeY(right));
    }

    double len() const { return b - a; }
};

static gen::BC mirrored(const gen::BC &x) { return {x.y, -x.dy, x.kind}; }

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C21", [](Rng &r, Mon &m) {
        gen::Options o;
        o.growthMax = 60;
        o.maxLen = 60;
        o.tolMin = 4;
        o.tolMax = 11;
        gen::Problem p = gen::randomProblem(r, o);
        int lo = r.P(.4) ? 0 : r.P(.6) ? r.I(0, 20) : r.I(20, m.thorough ? 2000 : 600);
        int hi = lo + r.I(1, 4);
        double L = p.len(), vs = max(fabs(p.vMin()), fabs(p.vMax()));
        auto pv = p.V;
        Setting s{[pv](double x) { return pv(x); }, p.a, p.b, p.tol, p.jumps, p.left, p.right};
        Setting t{s.V, s.a, s.b, s.tol, s.jumps, s.left, s.right};
        string what;
        // E' = E * factor + shift, allowances of both in units of E; 0: equal, 1: t is not below s
        double factor = 1, shift = 0;
        int relation = 0, upper = 0; // upper: 1 when also t_i <= s_{i+1}
        F xOf = [](double x) { return x; }; // where t has to be evaluated
        double fy = 1, fdy = 1;              // t.y = fy * s.y
        bool functions = r.P(.5) && lo < 60;
        switch (r.I(0, 8)) {
            case 0:
                what = "shift";
                shift = r.S() * r.L(1e-3, 1) * max(vs, 1 / (L * L)) * 3;
                t.V = [pv, shift](double x) { return pv(x) + shift; };
                break;
            case 1: {
                what = "translation";
                double d = r.P(.2) ? -p.a : r.P(.2) ? -p.b : r.S() * r.L(1e-2, 100);
                // an exact difference, rounding of the arguments is part of the allowance
                t.V = [pv, d](double x) { return pv(x - d); };
                t.a += d, t.b += d;
                for (auto &j: t.jumps) j += d;
                xOf = [d](double x) { return x + d; };
                break;
            }
            case 2:
                what = "mirror";
                t.V = [pv](double x) { return pv(-x); };
                t.a = -s.b, t.b = -s.a;
                t.left = mirrored(s.right), t.right = mirrored(s.left);
                for (auto &j: t.jumps) j = -j;
                xOf = [](double x) { return -x; };
                fdy = -1;
                break;
            case 3: {
                what = "scaling";
                bool units = r.P(.5); // other units: everything is scaled, also the tolerance
                double c = units ? r.L(1e-6, 1e3) : r.P(.4) ? ldexp(1, r.I(-4, 4)) : r.L(.05, 20);
                if (units) what = "units", t.tol = min(max(t.tol / (c * c), 1e-13), max(t.tol, 1e-3));
                t.V = [pv, c](double x) { return pv(x / c) / (c * c); };
                t.a *= c, t.b *= c;
                for (auto &j: t.jumps) j *= c;
                t.left.dy /= c, t.right.dy /= c;
                factor = 1 / (c * c);
                xOf = [c](double x) { return x * c; };
                fy = 1 / sqrt(c);
                fdy = fy / c;
                break;
            }
            case 4: {
                what = "boundary factors";
                double f = r.S() * r.L(1e-6, 1e6), g = r.S() * r.L(1e-6, 1e6);
                t.left.y *= f, t.left.dy *= f, t.right.y *= g, t.right.dy *= g;
                break;
            }
            case 5: {
                what = "higher potential";
                relation = 1;
                gen::Term g{gen::GAUSS, r.L(1e-6, 1) * (vs + 10 / (L * L)), L * r.U(.06, 1), p.a + L * r.U(-.1, 1.1)};
                auto w = pv;
                w.terms.push_back(g);
                t.V = [w](double x) { return w(x); };
                break;
            }
            case 6: {
                what = "smaller interval";
                relation = 1;
                s.left = s.right = t.left = t.right = {0, 1, "D"};
                if (r.P(.7)) t.a += L * r.L(1e-6, .4);
                if (r.P(.7)) t.b -= L * r.L(1e-6, .4);
                vector<double> in;
                for (double j: s.jumps) if (j > t.a && j < t.b) in.push_back(j);
                t.jumps = in;
                break;
            }
            case 7: { // u'/u at the right end from high to low, or the left end from low to high
                what = "boundary condition";
                relation = 1;
                upper = 1;
                bool right = r.P(.5);
                gen::BC &x = right ? s.right : s.left, &y = right ? t.right : t.left;
                double c0 = r.U(-8, 8) / L, c1 = c0 - r.L(1e-6, 8) / L;
                // E rises when u'/u at the right end falls
                x = {1, right ? c0 : -c0, "R"};
                y = r.P(.3) ? gen::BC{0, r.S(), "D"} : gen::BC{1, right ? c1 : -c1, "R"};
                if (y.y == 0) what += " to Dirichlet";
                break;
            }
            default: {
                // a jump that is declared where there is none
                what = "declared jumps";
                for (int k = r.I(1, 4); k; --k) t.jumps.push_back(p.a + L * r.U(.001, .999));
            }
        }
        if (r.P(.5) && relation == 0 && what != "shift" && what != "units") { // the one may also have another tolerance
            t.tol = pow(10, -r.U(4, 11));
            what += ", other tolerance";
        }
        m.describe(what + fmt(" factor %g shift %g to [%.17g,%.17g] left=(%.17g,%.17g) right=(%.17g,%.17g) tol %g of ", factor, shift, t.a, t.b, t.left.y, t.left.dy, t.right.y, t.right.dy, t.tol) + p.str() +
                   fmt(" indices [%d,%d)", lo, hi));
        s.solve(lo, hi + upper, functions);
        t.solve(lo, hi, functions);
        if (!m.check((int) s.values.size() == hi + upper - lo && (int) t.values.size() == hi - lo, "complete", [&] { return fmt("%zu and %zu", s.values.size(), t.values.size()); })) return;
        auto allowed = [&](const Setting &z, double E, double v) { return 40 * z.tol * max(1., fabs(E)) + 1e-13 * (v + fabs(E) + 10 / (z.len() * z.len())); };
        for (int i = 0; i < hi - lo; ++i) {
            double E = s.values[i].second, G = t.values[i].second;
            m.check(s.values[i].first == lo + i && t.values[i].first == lo + i, "index", [&] { return fmt("%d %d for %d", s.values[i].first, t.values[i].first, lo + i); });
            double back = (G - shift) / factor;
            // positions are rounded: the slope of the potential matters as well
            double al = allowed(s, E, vs) + allowed(t, G, vs * factor + fabs(shift)) / factor;
            if (what == "units" || what.substr(0, 7) == "scaling") al += 200 * t.tol * max(1., fabs(G)) / factor; // the estimates of a sector mix quantities of different dimension
            if (what.substr(0, 11) == "translation") al += 1e-15 * max(fabs(t.a), fabs(t.b)) * (1 + (vs + fabs(E)) * 20 / L);
            if (relation == 0) m.within(fabs(back - E), al, ("eigenvalue: " + what.substr(0, what.find(','))).c_str(), [&] { return fmt("index %d: %.17g and %.17g", lo + i, E, back); });
            else {
                m.within(max(0., E - back), al, ("eigenvalue: " + what).c_str(), [&] { return fmt("index %d: %.17g and %.17g", lo + i, E, back); });
                if (upper) m.within(max(0., back - s.values[i + 1].second), al, "interlacing", [&] { return fmt("index %d: %.17g above %.17g", lo + i, back, s.values[i + 1].second); });
            }
            m.seen(what);
            if (!functions || relation) continue;
            double gap = 1e300;
            for (int k = 0; k < hi - lo; ++k) if (k != i) gap = min(gap, fabs(s.values[k].second - E));
            // without both neighbours the distance to them is not known; use the size of an interval
            double om = max(1 / L, sqrt(max(0., E - p.vMin())));
            if (lo + i == hi - 1 || i == 0) {
                if (hi - lo < 3 || p.barrier(E) > 3) continue;
                gap = min(gap, 1 / (L * L));
            }
            if (p.barrier(E) > 12 || al > .01 * gap) continue;
            string kinds = string(s.left.kind) + s.right.kind;
            double rel = 5 * al / gap + 40 * max(s.tol, t.tol * min(1., 1 / factor)) + 1e-10;
            if (kinds.find('R') != string::npos) rel += 20 * max(s.tol, t.tol * min(1., 1 / factor)) * exp(min(30., p.growth(E)));
            if (rel > .01) continue;
            auto &f = *s.funs[i], &g = *t.funs[i];
            double dot = 0, uMax = 0, dMax = 0, err = 0, derr = 0;
            const int n = 60;
            vector<Eigen::Array2d> fs(n), gs(n);
            for (int k = 0; k < n; ++k) {
                double x = k < 2 ? (k ? s.b : s.a) : r.U(s.a, s.b), X = xOf(x);
                X = max(t.a, min(t.b, X));
                fs[k] = f(x);
                gs[k] = g(X) / Eigen::Array2d(fy, fdy);
                dot += fs[k][0] * gs[k][0];
            }
            for (int k = 0; k < n; ++k) {
                if (dot < 0) gs[k] *= -1;
                uMax = max(uMax, fabs(fs[k][0]));
                dMax = max(dMax, fabs(fs[k][1]));
                err = max(err, fabs(fs[k][0] - gs[k][0]));
                derr = max(derr, fabs(fs[k][1] - gs[k][1]));
            }
            dMax = max(dMax, om * uMax);
            m.within(max(err / uMax, derr / dMax), rel, ("eigenfunction: " + what.substr(0, what.find(','))).c_str(), [&] { return fmt("index %d: y %.3g y' %.3g", lo + i, err / uMax, derr / dMax); });
        }
        m.distinct(fmt("%s %s %s %s %d %d", what.c_str(), p.family.c_str(), p.left.kind, p.right.kind, lo, (int) floor(log10(p.tol))));
    });
}
