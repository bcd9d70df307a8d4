// C09: the half range solver answers like the full solver on [-b, b].
#include "efun.hpp"

using namespace matslise;
using namespace std;
typedef Eigen::Array<double, -1, 1> Xs;
typedef Eigen::Array<double, -1, 2> Ys;

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C09", [](Rng &r, Mon &m) {
        gen::Options o;
        o.growthMax = 40;
        o.evenOnly = true;
        gen::Problem p = gen::randomProblem(r, o);
        p.left = {p.right.y, -p.right.dy, p.right.kind};
        int lo = r.P(.5) ? 0 : r.P(.8) ? r.I(0, 12) : r.I(12, 80);
        int hi = lo + r.I(0, 5);
        bool uniform = r.P(.2);
        int sectors = 0;
        if (uniform) sectors = (int) (max(30., 3 * p.len() * sqrt(max(p.vMax() - p.vMin(), 1 / (p.len() * p.len())))) * r.U(1, 2));
        m.describe(p.str() + fmt(" indices [%d,%d) uniform %d", lo, hi, sectors));
        auto side = makeY(p.right), mirrored = makeY(p.left);
        Matslise<> full(potential(p.V), p.a, p.b, p.tol);
        MatsliseHalf<> half = uniform ? MatsliseHalf<>(potential(p.V), p.b, p.tol, sector_builder::UniformSectorBuilder<Matslise<>>(sectors))
                                      : MatsliseHalf<>(potential(p.V), p.b, p.tol);
        const AbstractMatslise<double> &base = half;
        m.check(half.domain.min == -p.b && half.domain.max == p.b, "domain");
        double L = p.len(), vs = max(fabs(p.vMin()), fabs(p.vMax()));
        // with a uniform mesh the accuracy is that of the full solver or better
        double tol = p.tol * (uniform ? 3 : 1) + (uniform ? 1e-8 : 0);
        auto allowed = [&](double E) { return 6 * tol * max(1., fabs(E)) + 1e-12 * (vs + fabs(E) + 10 / (L * L)); };
        // --- indices
        auto F = full.eigenvaluesByIndex(max(0, lo - 1), hi + 1, mirrored, side);
        auto H = r.P(.5) ? half.eigenvaluesByIndex(lo, hi, side) : base.eigenvaluesByIndex(lo, hi, side, side);
        if (!m.check((int) F.size() == hi + 1 - max(0, lo - 1) && (int) H.size() == hi - lo, "same number", [&] { return fmt("full %zu half %zu", F.size(), H.size()); })) return;
        for (size_t i = 0; i < H.size(); ++i) {
            auto &f = F[i + lo - max(0, lo - 1)];
            m.check(H[i].first == f.first, "same index", [&] { return fmt("half %d full %d", H[i].first, f.first); });
            m.within(fabs(H[i].second - f.second), allowed(f.second), "same eigenvalue", [&] { return fmt("%d: half %.17g full %.17g", f.first, H[i].second, f.second); });
            m.seen(f.first % 2 ? "odd" : "even");
        }
        // --- energies
        if (H.size()) {
            double e0 = H.front().second, e1 = H.back().second, u = max(e1 - e0, 1 / (L * L));
            double wmin = e0 - r.U(.01, .5) * u, wmax = e1 + r.U(.01, .5) * u;
            auto a = full.eigenvalues(wmin, wmax, mirrored, side);
            auto b = r.P(.5) ? half.eigenvalues(wmin, wmax, side) : base.eigenvalues(wmin, wmax, side, side);
            auto within = [&](const pair<int, double> &e) { return e.second > wmin + allowed(wmin) && e.second < wmax - allowed(wmax); };
            for (int k = 0; k < 2; ++k)
                for (auto &e: k ? a : b) {
                    if (!within(e)) continue;
                    bool found = false;
                    for (auto &f: k ? b : a) found = found || (f.first == e.first && fabs(f.second - e.second) <= allowed(e.second));
                    m.check(found, "same window", [&] { return fmt("[%.15g,%.15g): %d:%.17g only in the %s range", wmin, wmax, e.first, e.second, k ? "full" : "half"); });
                }
            for (size_t i = 1; i < b.size(); ++i) m.check(b[i].first == b[i - 1].first + 1 && b[i].second >= b[i - 1].second, "window ordered");
            m.seen("windows");
        }
        // --- functions
        auto pairs = r.P(.5) ? half.eigenpairsByIndex(lo, hi, side) : base.eigenpairsByIndex(lo, hi, side, side);
        m.check(pairs.size() == H.size(), "same number");
        for (auto &t: pairs) {
            int index = get<0>(t);
            bool even = index % 2 == 0;
            double E = get<1>(t);
            unique_ptr<AbstractMatslise<double>::Eigenfunction> own;
            const AbstractMatslise<double>::Eigenfunction *f = get<2>(t).get();
            double before = index > 0 ? F[index - 1 - max(0, lo - 1)].second : -1e300, after = F[index + 1 - max(0, lo - 1)].second;
            double Ef = F[index - max(0, lo - 1)].second, gap = min(Ef - before, after - Ef);
            double w = sqrt(max(1 / (L * L), E - p.vMin()));
            if (r.P(.3)) {
                own = r.P(.5) ? half.eigenfunction(E, side, index) : base.eigenfunction(E, side, side, index);
                f = own.get();
                m.seen("eigenfunction");
            } else if (r.P(.3) && 60 * allowed(E) * max(1., w) < gap) { // the parity follows from E
                own = r.P(.5) ? half.eigenfunction(E, side) : base.eigenfunction(E, side, side);
                f = own.get();
                m.seen("eigenfunction without index");
            }
            vector<double> x{0, p.b, -p.b, 2 * p.b, -2 * p.b};
            for (int k = r.I(3, 12); k; --k) x.push_back(r.U(-p.b, p.b)), x.push_back(-x.back());
            for (auto &s: half.ms->sectors) if (r.P(.2)) x.push_back(s->max), x.push_back(-s->max);
            if (r.P(.3)) x.push_back(r.L(1e-300, 1e-5) * p.b), x.push_back(-x.back());
            if (r.P(.2)) for (auto &v: x) v = fabs(v);
            if (r.P(.2)) for (auto &v: x) v = -fabs(v);
            sort(x.begin(), x.end());
            Xs xs = Eigen::Map<Xs>(x.data(), x.size());
            Ys ys = (*f)(xs);
            double top = 0, topp = 0;
            for (size_t i = 0; i < x.size(); ++i) {
                Eigen::Array2d a = (*f)(x[i]), b = (*f)(-x[i]);
                top = max(top, fabs(a[0])), topp = max(topp, fabs(a[1]));
                m.check(even ? a[0] == b[0] && a[1] == -b[1] : a[0] == -b[0] && a[1] == b[1], x[i] == 0 ? "parity at zero" : "parity",
                        [&] { return fmt("%d at %.17g: (%.17g,%.17g) (%.17g,%.17g)", index, x[i], a[0], a[1], b[0], b[1]); }) ||
                (x[i] == 0);
            }
            double size = max(w * top, topp);
            for (size_t i = 0; i < x.size(); ++i) {
                Eigen::Array2d a = (*f)(x[i]);
                bool end = false;
                for (auto &s: half.ms->sectors) end = end || fabs(fabs(x[i]) - s->max) < 1e-12;
                double e = max(w * fabs(a[0] - ys(i, 0)), fabs(a[1] - ys(i, 1))) / size;
                m.within(e, end ? .01 : 1e-9, end ? "array (end of sector)" : "array", [&] { return fmt("%d at %.17g: (%.17g,%.17g) (%.17g,%.17g)", index, x[i], a[0], a[1], ys(i, 0), ys(i, 1)); });
            }
            // the same function
            double cond = allowed(E) / gap;
            if (cond > .02 || p.barrier(E) > 16) {
                m.seen("not compared: nearly equal eigenvalues");
                continue;
            }
            auto g = full.eigenfunction(Ef, mirrored, side, index);
            double s = 0, err = 0;
            vector<Eigen::Array2d> u, v;
            for (double t: x) {
                u.push_back((*f)(t)), v.push_back((*g)(t));
                s += u.back()[0] * v.back()[0] * w * w + u.back()[1] * v.back()[1];
            }
            size = max(size, w / sqrt(L));
            for (size_t i = 0; i < x.size(); ++i) {
                double sg = s < 0 ? -1 : 1;
                err = max(err, max(w * fabs(u[i][0] - sg * v[i][0]), fabs(u[i][1] - sg * v[i][1])) / size);
            }
            double allow = 10 * cond + 200 * tol + 1e-11;
            string kinds = p.right.kind;
            if (kinds.find('R') != string::npos) allow += 10 * tol * exp(min(30., p.growth(E)));
            m.within(err, allow, "same function", [&] { return fmt("%d E %.17g %.17g gap %.3g", index, E, Ef, gap); });
            m.seen(even ? "compared: even" : "compared: odd");
            m.distinct(fmt("%s %s %d %d", p.family.c_str(), p.right.kind, index, (int) floor(log10(p.tol))));
        }
        // --- only symmetric boundary conditions
        Y<> other = makeY(r.P(.5) ? p.right.y + r.S() * r.L(1e-12, 1) * (1 + fabs(p.right.y)) : p.right.y, p.right.dy + r.S() * r.L(1e-12, 1) * (1 + fabs(p.right.dy)));
        if (other.y() != side.y()) {
            auto refused = [&](const char *what, auto f) {
                bool thrown = false;
                try { f(); } catch (const runtime_error &) { thrown = true; }
                m.check(thrown, "refuses an asymmetric problem", what);
            };
            bool swap = r.P(.5);
            const Y<> &a = swap ? other : side, &b = swap ? side : other;
            refused("eigenvaluesByIndex", [&] { base.eigenvaluesByIndex(lo, lo + 1, a, b); });
            refused("eigenvalues", [&] { base.eigenvalues(p.vMin(), p.vMin() + 1, a, b); });
            refused("eigenpairsByIndex", [&] { base.eigenpairsByIndex(lo, lo + 1, a, b); });
            refused("eigenvalueError", [&] { base.eigenvalueError(p.vMin() + 1, a, b); });
            refused("eigenfunction", [&] { base.eigenfunction(p.vMin() + 1, a, b); });
        }
    });
}
