// C17: meshes tile the domain, end sectors at jumps, and match next to the bottom of the potential.
#include "api.hpp"
#include "matrix_ref.hpp"
#include "matslise/matscs.h"
#include "matscs_gen.hpp"

using namespace matslise;
using namespace std;

template<typename P>
void checkMesh(Mon &m, const P &ms, double a, double b, const vector<double> &jumps, int uniform, double tol, const function<double(const typename P::Sector &)> &level) {
    auto &s = ms.sectors;
    int n = (int) s.size();
    if (!m.check(n > 0 && ms.sectorCount == n, "number of sectors", [&] { return fmt("%d, sectorCount=%d", n, ms.sectorCount); })) return;
    for (auto &p: s)
        if (!m.check((bool) p, "a sector everywhere")) return;
    m.check(s.front()->min == a && s.back()->max == b, "covers the domain", [&] { return fmt("[%.17g, %.17g]", s.front()->min, s.back()->max); });
    for (int i = 0; i < n; ++i) {
        auto text = [&] { return fmt("sector %d of %d: [%.17g, %.17g] h=%.17g direction %d", i, n, s[i]->min, s[i]->max, s[i]->h, s[i]->direction); };
        m.check(s[i]->max > s[i]->min && isfinite(s[i]->max), "positive length", text);
        m.within(fabs(s[i]->h - (s[i]->max - s[i]->min)), 4e-16 * (fabs(s[i]->min) + fabs(s[i]->max)), "length", text);
        if (i) m.check(s[i]->min == s[i - 1]->max, "no gaps or overlaps", text);
        m.check(s[i]->direction == (i <= ms.matchIndex ? matslise::forward : matslise::backward), "direction", text);
        m.check(s[i]->contains(s[i]->min) && s[i]->contains(s[i]->max) && s[i]->contains((s[i]->min + s[i]->max) / 2) &&
                !s[i]->contains(nextafter(s[i]->min, -1e300)) && !s[i]->contains(nextafter(s[i]->max, 1e300)), "contains", text);
        if (uniform) m.within(fabs(s[i]->max - s[i]->min - (b - a) / n), 1e-12 * (b - a) / n + 4e-16 * n * (b - a) + 4e-16 * (fabs(a) + fabs(b)), "equal sectors", text);
        else if (s[i]->h > 1.001e-3 * min(1., b - a) && tol >= 1e-11) m.within(s[i]->error(), 10 * tol, "sector on the tolerance", text); // shortened ten times at most
        m.seen(s[i]->direction == matslise::forward ? "forward sectors" : "backward sectors");
    }
    if (uniform) m.check(n == uniform, "number of uniform sectors", [&] { return fmt("%d, asked %d", n, uniform); });
    else m.check(n <= 64 + 2 * (int) jumps.size() + 1.1e4 * max(1., b - a), "not more sectors than needed", [&] { return fmt("%d", n); });
    for (double j: jumps) {
        bool found = false;
        for (auto &p: s) found |= p->min == j;
        m.check(found, "jump between sectors", [&] { return fmt("jump at %.17g", j); });
        m.seen("jumps");
    }
    if (n == 1) {
        m.check(ms.matchIndex == 0, "match in the interior");
        return;
    }
    if (!m.check(ms.matchIndex >= 0 && ms.matchIndex < n - 1, "match in the interior", [&] { return fmt("%d of %d", ms.matchIndex, n); })) return;
    double low = 1e300;
    for (auto &p: s) low = min(low, level(*p));
    double here = min(level(*s[ms.matchIndex]), level(*s[ms.matchIndex + 1]));
    m.within(here - low, 1e-13 * fabs(low) + 1e-300, "match at the bottom", [&] { return fmt("%.15g, lowest sector %.15g", here, low); });
    m.seen(n < 4 ? "2..3 sectors" : n < 20 ? "4..19 sectors" : n < 100 ? "20..99 sectors" : "100 or more sectors");
}

static vector<double> randomJumps(Rng &r, double a, double b) {
    vector<double> j;
    double len = b - a;
    for (int k = r.I(0, 5); k; --k) {
        double c = r.P(.2) ? a + len * r.L(1e-9, .1) : r.P(.2) ? b - len * r.L(1e-9, .1) : a + len * r.U(0, 1);
        if (r.P(.1)) c = 0.4956864123 * b + 0.5043135877 * a; // where both sides start to meet
        if (!j.empty() && r.P(.25)) c = j.back() + r.S() * len * r.L(1e-9, 1e-2);
        if (r.P(.05)) c = a + len / 2;
        if (c > a && c < b) j.push_back(c);
    }
    sort(j.begin(), j.end());
    j.erase(unique(j.begin(), j.end()), j.end());
    return j;
}

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C17", [](Rng &r, Mon &m) {
        if (r.P(.1)) {
            MatscsProblem p(r, 40);
            m.describe(p.str());
            auto scs = p.build();
            checkMesh<Matscs<>>(m, *scs, p.a, p.b, p.jumps, p.uniform, p.tol, [](const Matscs<>::Sector &s) { return s.vs[0].trace(); });
            m.check(scs->contains(p.a) && scs->contains(p.b) && !scs->contains(nextafter(p.a, -1e300)) && !scs->contains(nextafter(p.b, 1e300)), "contains");
            m.distinct(fmt("matscs %d %d %d", p.n, scs->sectorCount, scs->matchIndex));
            m.seen("Matscs");
            return;
        }
        gen::Options o;
        o.growthMax = 1e9;
        o.tolMin = 1, o.tolMax = 14;
        o.maxLen = r.P(.2) ? 300 : 25;
        gen::Problem p = gen::randomProblem(r, o);
        int kind = r.I(0, 9); // 0-4 automatic, 5-6 uniform, 7 half, 8 half uniform, 9 periodic
        if (kind >= 7 && kind <= 8 && (p.family == "radial" || max(fabs(p.a), fabs(p.b)) > 1.5 * (p.b - p.a))) kind -= 7; // not sensible around zero
        if (kind == 7 || kind == 8) {
            p.b = max(fabs(p.a), fabs(p.b));
            p.a = 0;
        }
        // declared jumps are ends of sectors, whether V jumps there or not
        if (p.jumps.empty() && r.P(.6)) p.jumps = randomJumps(r, p.a, p.b);
        else {
            vector<double> in;
            for (double j: p.jumps) if (j > p.a && j < p.b) in.push_back(j);
            p.jumps = in;
        }
        int uniform = kind == 5 || kind == 6 || kind == 8 ? (r.P(.2) ? r.I(1, 3) : r.I(1, 200)) : 0;
        m.describe(p.str() + fmt(" kind=%d uniform=%d", kind, uniform));
        if (uniform) p.jumps.clear();
        sector_builder::UniformSectorBuilder<Matslise<>> ub(uniform);
        sector_builder::AutomaticSectorBuilder<Matslise<>> ab(p.tol);
        ab.jumps = p.jumps;
        const sector_builder::SectorBuilder<Matslise<>> &sb = uniform ? (sector_builder::SectorBuilder<Matslise<>> &) ub : ab;
        unique_ptr<Matslise<>> full;
        unique_ptr<MatsliseHalf<>> half;
        unique_ptr<PeriodicMatslise<>> per;
        const Matslise<> *ms;
        AbstractMatslise<double> *abs = nullptr;
        if (kind == 9) {
            per = make_unique<PeriodicMatslise<>>(potential(p.V), p.a, p.b, p.tol, sb);
            ms = &per->matslise;
        } else if (kind >= 7) {
            half = make_unique<MatsliseHalf<>>(potential(p.V), p.b, p.tol, sb);
            ms = half->ms.get();
            abs = half.get();
            m.check(half->domain.min == -p.b && half->domain.max == p.b, "domain", [&] { return fmt("[%.17g, %.17g]", half->domain.min, half->domain.max); });
        } else {
            if (!uniform && p.jumps.empty() && r.P(.5)) full = make_unique<Matslise<>>(potential(p.V), Domain<double>{p.a, p.b}, p.tol);
            else full = make_unique<Matslise<>>(potential(p.V), p.a, p.b, p.tol, sb);
            ms = full.get();
            abs = full.get();
        }
        m.check(ms->domain.min == p.a && ms->domain.max == p.b, "domain", [&] { return fmt("[%.17g, %.17g]", ms->domain.min, ms->domain.max); });
        checkMesh<Matslise<>>(m, *ms, p.a, p.b, p.jumps, uniform, p.tol, [](const Matslise<>::Sector &s) { return s.vs[0]; });
        // the mean of V over a sector, on meshes that resolve it
        double lowest = 1e300, scale = fabs(p.vMin()) + fabs(p.vMax());
        for (auto &s: ms->sectors) {
            const auto &g = ref::Gauss<long double>::get();
            long double mean = 0;
            for (int k = 0; k < 4; ++k)
                for (int j = 0; j < g.s; ++j) mean += g.b[j] * p.V(s->min + (s->max - s->min) * (k + g.c[j]) / 4) / 4;
            lowest = min<double>(lowest, mean);
            if (!uniform && p.tol < 1e-4) m.within(fabs(s->vs[0] - mean), 1e-3 * scale + 1e-12, "mean of the potential", [&] { return fmt("[%.17g, %.17g]: %.15g mean %.15Lg", s->min, s->max, s->vs[0], mean); });
        }
        if (abs) {
            double e = abs->estimatePotentialMinimum();
            bool in = false;
            for (auto &s: ms->sectors) in |= s->vs[0] == e;
            m.check(in, "minimum of the potential is one of the sectors");
            for (auto &s: ms->sectors) m.check(s->vs[0] >= e, "minimum of the potential", [&] { return fmt("%.15g, sector %.15g", e, s->vs[0]); });
        }
        m.distinct(fmt("%s %d %d %d %zu", p.family.c_str(), kind, ms->sectorCount, ms->matchIndex, p.jumps.size()));
        m.seen(fmt("kind %d", kind));
    });
}
