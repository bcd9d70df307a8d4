// C11: eigenfunctions of coupled problems: solve the equation, y(b) = K y(a), as many independent ones as the multiplicity.
#include "api.hpp"
#include "periodic_ref.hpp"

using namespace matslise;
using namespace std;
typedef Eigen::Array<double, -1, 1> Xs;
typedef Eigen::Array<double, -1, 2> Ys;
typedef PeriodicMatslise<>::Eigenfunction Fun;

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C11", [](Rng &r, Mon &m) {
        gen::Options o;
        o.growthMax = 12;
        gen::Problem p = gen::randomProblem(r, o);
        Eigen::Matrix2d K = Eigen::Matrix2d::Identity();
        const char *kind = "periodic";
        switch (r.I(0, 3)) {
            case 1:
                K *= -1;
                kind = "antiperiodic";
                break;
            case 2: {
                double s = exp(r.U(-1, 1)), q = r.P(.3) ? 0 : r.U(-1, 1) * p.len(), t = r.P(.3) ? 0 : r.U(-1, 1) / p.len();
                K << s, q, t, (1 + q * t) / s;
                if (r.P(.5)) K *= -1;
                kind = "general";
                break;
            }
            case 3: // V with the period of the interval, closed or nearly closed gaps
                for (auto &t: p.V.terms) if (t.kind == gen::COS) t.p = 2 * M_PI / p.len() * r.I(0, 4);
        }
        int lo = r.P(.5) ? 0 : r.P(.8) ? r.I(0, 10) : r.I(10, 60);
        int hi = lo + r.I(1, 5);
        m.describe(p.str() + fmt(" K=[%.17g %.17g; %.17g %.17g] %s [%d,%d)", K(0, 0), K(0, 1), K(1, 0), K(1, 1), kind, lo, hi));
        sector_builder::AutomaticSectorBuilder<Matslise<>> sb(p.tol);
        sb.jumps = p.jumps;
        PeriodicMatslise<> ms(potential(p.V), p.a, p.b, p.tol, sb, K);
        ref::Coupled oracle(p, K(0, 0), K(0, 1), K(1, 0), K(1, 1));
        if (!strcmp(kind, "general")) { // states bound to the boundary, far below the potential, are out of scope
            double in = p.vMin(), out = in - 200 / (p.len() * p.len());
            for (int k = 0; k < 40; ++k) {
                double mid = (in + out) / 2;
                (p.growth(mid) > 13 ? out : in) = mid;
            }
            if (oracle.countBelow(in)) {
                m.seen("far below the potential");
                Mon::skip("state bound to the boundary");
            }
        }
        double L = p.len(), vs = max(fabs(p.vMin()), fabs(p.vMax()));
        auto pairs = ms.eigenpairsByIndex(lo, hi);
        bool window = r.P(.3) && !pairs.empty();
        if (window) { // the same through a window
            double e0 = get<1>(pairs.front()), e1 = get<1>(pairs.back());
            auto w = ms.eigenpairs(e0 - .5 / (L * L), e1 + .5 / (L * L));
            for (auto &t: pairs) {
                bool found = false;
                for (auto &u: w) found = found || (fabs(get<1>(u) - get<1>(t)) < 3e-8 * max(1., fabs(get<1>(t))) && get<2>(u).size() == get<2>(t).size());
                double E = get<1>(t);
                // a pair at the resolution of the bisection may be taken for a double eigenvalue or not
                if (!found && oracle.countBelow(E + 1e-6 * max(1., fabs(E))) - oracle.countBelow(E - 1e-6 * max(1., fabs(E))) == 2) continue;
                m.check(found, "same through a window", [&] { return fmt("E%d=%.15g", get<0>(t), E); });
            }
            pairs = std::move(w);
        }
        for (auto &t: pairs) {
            int i = get<0>(t);
            double E = get<1>(t), scale = max(1., fabs(E));
            if (!strcmp(kind, "general") && p.growth(E) > 13) {
                m.seen("state bound to the boundary");
                continue;
            }
            double w = sqrt(max(1 / (L * L), E - p.vMin()));
            double dE = 10 * max(p.tol, 1e-8) * scale + 1e-10 * vs;
            // Both sides meet up to the error of E (a phase).
            double phase = (2 * max(p.tol, 1e-8) * scale + 1e-10 * vs) * L * min(L, 1 / w), amp = max(w, 1 / w);
            int mult = oracle.countBelow(E + dE) - oracle.countBelow(E - dE);
            auto funs = std::move(get<2>(t));
            bool direct = r.P(.4);
            double allowed = 200 * p.tol + 60 * phase + 1e-10;
            if (allowed > .02) {
                m.seen("skipped: not accurate");
                continue;
            }
            if (mult == 0) {
                m.seen("skipped: eigenvalue"); // C10
                continue;
            }
            if (direct) {
                auto own = ms.eigenfunction(E);
                m.check(own.size() == funs.size() || (mult == 2 && own.size() == 2) || own.size() == 2, "eigenfunction(E) has as many functions",
                        [&] { return fmt("E%d=%.15g: %zu, pair %zu", i, E, own.size(), funs.size()); });
                if (own.empty()) continue;
                funs = std::move(own);
                m.seen("eigenfunction(E)");
            } else {
                m.check(funs.size() == 1 || funs.size() == 2, "one or two functions", [&] { return fmt("%zu", funs.size()); });
                // clearly separated, or not at all
                if (mult == 1) m.check(funs.size() == 1, "as many functions as the multiplicity", [&] { return fmt("E%d=%.15g: %zu functions", i, E, funs.size()); });
                m.seen(fmt("%s, multiplicity %d, %zu functions", kind, mult, funs.size()));
            }
            // which functions belong to E is decided with a threshold
            if (direct && funs.size() == 2 && mult == 1) allowed += 1e-3 * amp;
            vector<Eigen::Vector2d> atA;
            for (auto &fp: funs) {
                const Fun &f = *fp;
                vector<double> x{p.a, p.b};
                for (int k = r.I(4, 14); k; --k) x.push_back(r.U(p.a, p.b));
                sort(x.begin(), x.end());
                Ys ys = f(Eigen::Map<Xs>(x.data(), x.size()));
                vector<Eigen::Array2d> y;
                double top = 0, topp = 0;
                for (double v: x) {
                    y.push_back(f(v));
                    top = max(top, fabs(y.back()[0]));
                    topp = max(topp, fabs(y.back()[1]));
                }
                double size = max(w * top, topp);
                if (!m.check(size > 0 && size < 1e100, "not zero", [&] { return fmt("E%d=%.15g size %g", i, E, size); })) continue;
                Eigen::Vector2d a = y.front().matrix(), b = y.back().matrix(), d = b - K * a;
                double kn = max({fabs(K(0, 0)), fabs(K(0, 1)) * w, fabs(K(1, 0)) / w, fabs(K(1, 1))});
                m.within(max(w * fabs(d[0]), fabs(d[1])) / (size * (1 + kn)), allowed, "y(b) = K y(a)",
                         [&] { return fmt("E%d=%.15g: a (%.15g,%.15g) b (%.15g,%.15g)", i, E, a[0], a[1], b[0], b[1]); });
                for (size_t k = 0; k + 1 < x.size(); ++k) {
                    if (x[k + 1] == x[k]) continue;
                    ref::State<long double> s[3];
                    s[0].u = y[k][0];
                    s[0].up = y[k][1];
                    s[1].u = 1 / w;
                    s[2].up = 1;
                    oracle.s.propagateVisit(E, x[k], x[k + 1], s, 3, false, [](const long double &, ref::State<long double> *) {});
                    double g = 1;
                    for (int q = 1; q < 3; ++q) g = max({g, (double) fabsl(s[q].u) * w, (double) fabsl(s[q].up)});
                    double err = max(w * fabs((double) s[0].u - y[k + 1][0]), fabs((double) s[0].up - y[k + 1][1])) / size;
                    m.within(err, allowed * g, "solves the equation",
                             [&] { return fmt("E%d=%.15g: from %.15g (%.12g,%.12g) to %.15g (%.12g,%.12g) expected (%.12g,%.12g)", i, E, x[k], y[k][0], y[k][1], x[k + 1], y[k + 1][0], y[k + 1][1], (double) s[0].u, (double) s[0].up); });
                }
                for (size_t k = 0; k < x.size(); ++k)
                    m.within(max(w * fabs(ys(k, 0) - y[k][0]), fabs(ys(k, 1) - y[k][1])) / size, 1e-8, "array",
                             [&] { return fmt("E%d at %.17g", i, x[k]); });
                atA.push_back(Eigen::Vector2d(w * a[0], a[1]) / size);
            }
            if (atA.size() == 2) {
                // solutions: independent iff the initial values are
                double W = fabs(atA[0][0] * atA[1][1] - atA[0][1] * atA[1][0]);
                m.check(W > 1e-5 * min(1., 1 / (w + 1 / w)) * exp(-2 * p.growth(E)), "independent", [&] { return fmt("E%d=%.15g wronskian %g", i, E, W); });
                m.seen("two functions");
            }
            m.distinct(fmt("%s %s %d %zu %d", p.family.c_str(), kind, i, funs.size(), (int) floor(log10(p.tol))));
        }
    });
}
