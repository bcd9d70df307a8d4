// C05: an eigenfunction is one function: however, in whatever order and how often it is asked, it has the same values,
// zero outside of the domain; and eigenpairs are eigenvalues with their eigenfunction.
#include "sl_ref.hpp"
#include "api.hpp"

using namespace matslise;
using namespace std;
typedef Eigen::Array<double, -1, 1> Xs;
typedef Eigen::Array<double, -1, 2> Ys;
typedef AbstractMatslise<double>::Eigenfunction Fun;

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C05", [](Rng &r, Mon &m) {
        int kind = r.I(0, 5); // 0-2: full, 3: half range, 4: periodic, 5: Sturm-Liouville
        gen::Options o;
        o.growthMax = kind == 4 ? 12 : 30;
        o.evenOnly = kind == 3;
        unique_ptr<gen::SLProblem> slp;
        gen::Problem p;
        if (kind == 5) slp = make_unique<gen::SLProblem>(r);
        else p = gen::randomProblem(r, o);
        if (kind == 3) p.left = {p.right.y, -p.right.dy, p.right.kind};
        int lo = r.P(.6) ? r.I(0, 6) : r.I(0, 40), hi = lo + r.I(1, 3);
        static const char *names[] = {"full", "full", "full", "half", "periodic", "sl"};
        bool uniform = kind <= 2 && r.P(.3) && p.jumps.empty();
        int sectors = uniform ? r.I(1, 30) : 0;
        m.describe(string(names[kind]) + " " + (slp ? slp->str() : p.str()) + fmt(" [%d,%d) uniform %d", lo, hi, sectors));
        vector<pair<double, unique_ptr<Fun>>> funs;
        set<const Fun *> broken; // energies that are no eigenvalue: not continuous where both sides meet
        vector<double> special; // ends of sectors
        double a, b, tol;
        shared_ptr<Matslise<>> full;
        shared_ptr<AbstractMatslise<double>> ms;
        shared_ptr<PeriodicMatslise<>> per;
        shared_ptr<SturmLiouville<double>> sl;
        double scaleE = 1;
        if (kind <= 3) {
            a = p.a, b = p.b, tol = p.tol;
            Y<> l = makeY(p.left), rt = makeY(p.right);
            vector<tuple<int, double, unique_ptr<Fun>>> pairs;
            vector<pair<int, double>> values;
            vector<pair<double, unique_ptr<Fun>>> direct;
            if (kind == 3) {
                auto half = make_shared<MatsliseHalf<>>(potential(p.V), p.b, p.tol);
                for (auto &s: half->ms->sectors) special.push_back(s->max), special.push_back(-s->max), special.push_back(s->min);
                ms = half;
                if (r.P(.5)) pairs = ms->eigenpairsByIndex(lo, hi, rt); else pairs = ms->eigenpairsByIndex(lo, hi, rt, rt);
                values = ms->eigenvaluesByIndex(lo, hi, rt);
            } else {
                if (uniform) full = make_shared<Matslise<>>(potential(p.V), p.a, p.b, p.tol, sector_builder::UniformSectorBuilder<Matslise<>>(sectors));
                else full = makeMatslise(p);
                for (auto &s: full->sectors) special.push_back(s->max), special.push_back(s->min);
                ms = full;
                pairs = ms->eigenpairsByIndex(lo, hi, l, rt);
                values = ms->eigenvaluesByIndex(lo, hi, l, rt);
            }
            bool same = pairs.size() == values.size();
            for (size_t i = 0; same && i < pairs.size(); ++i)
                same = get<0>(pairs[i]) == values[i].first && get<1>(pairs[i]) == values[i].second && get<2>(pairs[i]);
            m.check(same, "eigenpairs are eigenvalues with functions");
            if (!same) return;
            for (auto &t: pairs) {
                double E = get<1>(t);
                auto f = kind == 3 ? ms->eigenfunction(E, rt, get<0>(t)) : ms->eigenfunction(E, l, rt, r.P(.5) ? get<0>(t) : -1);
                double x = r.U(a, b);
                Eigen::Array2d u = (*get<2>(t))(x), v = (*f)(x);
                m.check((u == v).all() || (u.isNaN().any() && v.isNaN().any()), "eigenpair and eigenfunction agree",
                        [&] { return fmt("at %.17g: (%.17g,%.17g) (%.17g,%.17g)", x, u[0], u[1], v[0], v[1]); });
                funs.emplace_back(E, std::move(get<2>(t)));
                // not an eigenvalue: still one function
                if (kind < 3 && r.P(.3)) {
                    double F = E + r.U(-1, 1) / p.len() / p.len();
                    funs.emplace_back(F, ms->eigenfunction(F, l, rt));
                    broken.insert(funs.back().second.get());
                    m.seen("not an eigenvalue");
                }
            }
        } else if (kind == 4) {
            a = p.a, b = p.b, tol = p.tol;
            Eigen::Matrix2d K = Eigen::Matrix2d::Identity() * (r.P(.5) ? 1 : -1);
            sector_builder::AutomaticSectorBuilder<Matslise<>> sb(p.tol);
            sb.jumps = p.jumps;
            per = make_shared<PeriodicMatslise<>>(potential(p.V), p.a, p.b, p.tol, sb, K);
            for (auto &s: per->matslise.sectors) special.push_back(s->max), special.push_back(s->min);
            auto pairs = per->eigenpairsByIndex(lo, hi);
            auto values = per->eigenvaluesByIndex(lo, hi);
            m.check(pairs.size() == values.size(), "eigenpairs are eigenvalues with functions");
            for (size_t i = 0; i < min(pairs.size(), values.size()); ++i) {
                m.check(get<0>(pairs[i]) == get<0>(values[i]) && get<1>(pairs[i]) == get<1>(values[i]) && (int) get<2>(pairs[i]).size() == get<2>(values[i]),
                        "eigenpairs are eigenvalues with functions", [&] { return fmt("%d:%.17g %zu functions, multiplicity %d", get<0>(pairs[i]), get<1>(pairs[i]), get<2>(pairs[i]).size(), get<2>(values[i])); });
                for (auto &f: get<2>(pairs[i])) funs.emplace_back(get<1>(pairs[i]), std::move(f));
            }
        } else {
            a = slp->a, b = slp->b, tol = slp->tol;
            sl = slp->build();
            auto l = makeY(slp->left), rt = makeY(slp->right);
            auto pairs = sl->eigenpairsByIndex(lo, hi, l, rt);
            auto values = sl->eigenvaluesByIndex(lo, hi, l, rt);
            m.check(pairs.size() == values.size(), "eigenpairs are eigenvalues with functions");
            for (size_t i = 0; i < min(pairs.size(), values.size()); ++i) {
                m.check(get<0>(pairs[i]) == values[i].first && get<1>(pairs[i]) == values[i].second && get<2>(pairs[i]),
                        "eigenpairs are eigenvalues with functions");
                funs.emplace_back(get<1>(pairs[i]), std::move(get<2>(pairs[i])));
            }
        }
        bool sorted = kind == 3, outside = kind != 5;
        for (auto &fe: funs) {
            const Fun &f = *fe.second;
            // points: random, ends, sector boundaries and their neighbours, duplicates, outside
            vector<double> x;
            int n = r.P(.1) ? 0 : r.P(.1) ? 1 : r.I(2, 60);
            for (int i = 0; i < n; ++i) {
                switch (r.I(0, 9)) {
                    case 0:
                        x.push_back(r.P(.5) ? a : b);
                        break;
                    case 1:
                        if (!special.empty()) x.push_back(special[r.I(0, special.size() - 1)]);
                        break;
                    case 2:
                        if (!special.empty()) {
                            double s = special[r.I(0, special.size() - 1)];
                            x.push_back(min(b, max(a, s + r.S() * r.L(1e-17, 1e-3) * (b - a))));
                        }
                        break;
                    case 3:
                        if (!x.empty()) x.push_back(x[r.I(0, x.size() - 1)]);
                        break;
                    case 4:
                        if (outside) x.push_back(r.P(.5) ? b + r.L(1e-10, 10) : a - r.L(1e-10, 10));
                        break;
                    case 5:
                        if (a <= 0 && 0 <= b) x.push_back(0);
                        break;
                    default:
                        x.push_back(r.U(a, b));
                }
            }
            const char *order = "random";
            if (sorted || r.P(.4)) sort(x.begin(), x.end()), order = "ascending";
            else if (r.P(.3)) sort(x.rbegin(), x.rend()), order = "descending";
            Xs xs = Eigen::Map<Xs>(x.data(), x.size());
            Ys ys = f(xs);
            if (!m.check(ys.rows() == xs.size(), "one value per point")) continue;
            m.seen(fmt("%s, %s", names[kind], order));
            m.seen("points", xs.size());
            if (xs.size() == 0) m.seen("empty");
            double top = 0, topp = 0;
            vector<Eigen::Array2d> single;
            for (double t: x) {
                Eigen::Array2d v = f(t);
                single.push_back(v);
                top = max(top, fabs(v[0]));
                topp = max(topp, fabs(v[1]));
            }
            if (!(top < 1e100 && topp < 1e100)) {
                m.seen("overflow");
                continue;
            }
            double w = slp ? 0 : sqrt(max(1., fe.first - p.vMin())), G = slp ? 0 : p.growth(fe.first);
            top = max(top, topp / max(w, 1e-300));
            for (size_t i = 0; i < x.size(); ++i) {
                if (x[i] < a || x[i] > b) {
                    m.check(single[i][0] == 0 && single[i][1] == 0, "zero outside (scalar)", [&] { return fmt("f(%.17g)=(%g,%g)", x[i], single[i][0], single[i][1]); });
                    m.check(ys(i, 0) == 0 && ys(i, 1) == 0, "zero outside (array)", [&] { return fmt("f(%.17g)=(%g,%g)", x[i], ys(i, 0), ys(i, 1)); });
                    m.seen("outside");
                    continue;
                }
                // at the end of a sector the value may come from either side
                double err = max(fabs(ys(i, 0) - single[i][0]) / top, fabs(ys(i, 1) - single[i][1]) / max(topp, w * top));
                bool boundary = false;
                for (double s: special) boundary = boundary || s == x[i];
                if (boundary && (uniform || broken.count(&f))) continue;
                m.within(err, boundary ? .005 + tol : 1e-9, boundary ? "scalar and array agree (end of sector)" : "scalar and array agree",
                         [&] { return fmt("at %.17g: (%.17g,%.17g) (%.17g,%.17g) growth %.3g", x[i], single[i][0], single[i][1], ys(i, 0), ys(i, 1), G); });
            }
        }
        m.distinct(fmt("%s %d %d %d ", names[kind], lo, sectors, (int) funs.size()) + p.family + (slp ? slp->kindP + slp->kindW : ""));
    });
}
