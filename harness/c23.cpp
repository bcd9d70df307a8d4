// C23: where and when the functions of the user are evaluated, and what happens when they fail or call a solver themselves.
#include "program.hpp"

#ifdef __clang__ // the sanitizers use clang

#include <sanitizer/lsan_interface.h>

static int leaks() { return __lsan_do_recoverable_leak_check(); }

#else

static int leaks() { return 0; }

#endif

using namespace matslise;
using namespace std;
using namespace prog;

// A potential of constant pieces: a sector that ends at the jumps sees exactly one value.
struct Pieces {
    double a, b;
    vector<double> jumps, values;

    Pieces(Rng &r) {
        double len = r.L(1e-2, 30);
        a = r.P(.2) ? 0 : r.U(-20, 20);
        b = a + len;
        for (int k = r.I(1, 6); k; --k) {
            double c = r.P(.2) ? a + len * r.L(1e-9, .1) : r.P(.2) ? b - len * r.L(1e-9, .1) : r.P(.1) ? (a + b) / 2 : a + len * r.U(0, 1);
            if (!jumps.empty() && r.P(.25)) c = jumps.back() + r.S() * len * r.L(1e-9, 1e-2);
            if (r.P(.1)) c = 0.4956864123 * b + 0.5043135877 * a; // where both sides of the mesh start to meet
            if (c > a && c < b) jumps.push_back(c);
        }
        sort(jumps.begin(), jumps.end());
        jumps.erase(unique(jumps.begin(), jumps.end()), jumps.end());
        double amp = r.L(1e-3, 1e4) / len;
        for (size_t i = 0; i <= jumps.size(); ++i) values.push_back(r.P(.1) && i ? values.back() : r.U(-amp, amp));
    }

    int piece(double x) const { return (int) (upper_bound(jumps.begin(), jumps.end(), x) - jumps.begin()); }

    string str() const {
        string s = fmt("pieces on [%.17g,%.17g] jumps", a, b);
        for (double j: jumps) s += fmt(" %.17g", j);
        s += " values";
        for (double v: values) s += fmt(" %.17g", v);
        return s;
    }
};

static void blocks(Rng &r, Mon &m) {
    Pieces p(r);
    int n = r.P(.25) ? r.I(1, 4) : 0; // dimension of matscs
    int kind = n ? 3 : r.I(0, 2);
    if (kind == 1) { // half range: the domain starts at zero
        for (auto &j: p.jumps) j -= p.a;
        p.b -= p.a, p.a = 0;
        p.jumps.erase(remove_if(p.jumps.begin(), p.jumps.end(), [&](double j) { return j <= 0 || j >= p.b; }), p.jumps.end());
        p.jumps.erase(unique(p.jumps.begin(), p.jumps.end()), p.jumps.end());
        p.values.resize(p.jumps.size() + 1);
    }
    double tol = pow(10, -r.U(3, 12));
    m.describe(fmt("kind %d n %d tol %.3g ", kind, n, tol) + p.str());
    double vs = 0;
    for (double v: p.values) vs = max(vs, fabs(v));
    long outside = 0, calls = 0;
    auto V = [&](double x) {
        ++calls;
        if (!(p.a <= x && x <= p.b)) ++outside;
        return p.values[p.piece(x)];
    };
    auto report = [&](double lo, double hi, double mean, double rest) {
        int i = p.piece((lo + hi) / 2);
        // a sector has to be within its piece; those that are a rounding error long have their points on both sides
        if (hi - lo < 1e-13 * (fabs(lo) + fabs(hi))) return;
        m.within(fabs(mean - p.values[i]), 1e-14 * vs, "sector sees one piece", [&] { return fmt("[%.17g,%.17g] has %.17g instead of %.17g", lo, hi, mean, p.values[i]); });
        m.within(rest, 1e-13 * vs, "nothing but the constant", [&] { return fmt("[%.17g,%.17g] %.3g", lo, hi, rest); });
    };
    if (kind < 3) {
        sector_builder::AutomaticSectorBuilder<Matslise<>> sb(tol);
        sb.jumps = p.jumps;
        unique_ptr<Matslise<>> full;
        unique_ptr<MatsliseHalf<>> half;
        unique_ptr<PeriodicMatslise<>> periodic;
        const Matslise<> *ms;
        if (kind == 0) full = make_unique<Matslise<>>(V, p.a, p.b, tol, sb), ms = full.get();
        else if (kind == 1) half = make_unique<MatsliseHalf<>>(V, p.b, tol, sb), ms = half->ms.get();
        else periodic = make_unique<PeriodicMatslise<>>(V, p.a, p.b, tol, sb), ms = &periodic->matslise;
        for (auto &s: ms->sectors) {
            double rest = 0;
            for (size_t i = 1; i < s->vs.size(); ++i) rest = max(rest, fabs(s->vs[i]) * pow(s->h, i));
            report(s->min, s->max, s->vs[0], rest);
        }
        m.seen(kind == 0 ? "pieces: full" : kind == 1 ? "pieces: half" : "pieces: periodic");
    } else {
#ifdef WITH_MATSCS
        sector_builder::AutomaticSectorBuilder<Matscs<>> sb(tol);
        sb.jumps = p.jumps;
        Matscs<> ms([&](double x) -> Eigen::MatrixXd {
            double v = V(x);
            Eigen::MatrixXd M = Eigen::MatrixXd::Constant(n, n, v / n / 2);
            M.diagonal().array() += v / 2;
            return M;
        }, n, p.a, p.b, sb);
        for (auto &s: ms.sectors) {
            // the largest eigenvalue or the smallest, the others are half of it
            double v = p.values[p.piece((s->min + s->max) / 2)], lo = min(v, n > 1 ? v / 2 : v), hi = max(v, n > 1 ? v / 2 : v);
            double got = s->vs[0].diagonal().minCoeff(), top = s->vs[0].diagonal().maxCoeff(), rest = 0;
            for (size_t i = 1; i < s->vs.size(); ++i) rest = max(rest, s->vs[i].cwiseAbs().maxCoeff() * pow(s->h, i));
            if (s->max - s->min < 1e-13 * (fabs(s->min) + fabs(s->max))) continue;
            m.within(max(fabs(got - lo), fabs(top - hi)), 1e-13 * vs, "matrix sector sees one piece", [&] { return fmt("[%.17g,%.17g] has %.17g %.17g", s->min, s->max, got, top); });
            m.within(rest, 1e-12 * vs, "nothing but the constant, matrix", [&] { return fmt("[%.17g,%.17g] %.3g", s->min, s->max, rest); });
        }
        m.seen("pieces: matscs");
#endif
    }
    m.check(!outside, "only inside of the domain", [&] { return fmt("%ld evaluations outside", outside); });
    m.seen("evaluations", calls);
    m.distinct(fmt("pieces %d %d %d", kind, n, (int) p.jumps.size()) + to_string((int) log10(tol)));
}

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C23", [](Rng &r, Mon &m) {
        if (r.P(.4)) {
            blocks(r, m);
            m.check(!leaks(), "no leaks");
            return;
        }
        Factory f = randomFactory(r), g = randomFactory(r);
        m.describe(f.text + " ; " + g.text);
        auto probe = make_shared<Probe>(), otherProbe = make_shared<Probe>();
        Object o = f.build(probe);
        Object other = g.build(otherProbe);
        const long built = probe->built;
        m.check(built > 0, "the function is used", [&] { return fmt("%ld", built); });
        m.check(probe->calls == built, "none by eigenpairsByIndex", [&] { return fmt("%ld after the constructor", probe->calls - built); });
        auto inside = [&](const Probe &p, const char *when) {
            m.check(p.outside == 0, "only inside of the domain", [&] { return fmt("%ld of %ld outside of [%.17g,%.17g] %s, between %.17g and %.17g", (long) p.outside, (long) p.calls, p.lo, p.hi, when, p.sawLo, p.sawHi); });
        };
        inside(*probe, "building");
        m.seen("evaluations", built);
        m.seen(f.kind);
        // queries do not evaluate it
        vector<Query> qs, otherQs;
        vector<Answer> expected, otherExpected;
        for (int i = r.I(1, 6); i; --i) {
            qs.push_back(o.query(r));
            long before = probe->calls;
            expected.push_back(qs.back().ask());
            if (f.kind != "liouville") // the potential of the transformation is evaluated when asked for
                m.check(probe->calls == before, "none by a query", [&] { return qs.back().text + fmt(": %ld evaluations", probe->calls - before); });
        }
        inside(*probe, "by queries");
        for (int i = 0; i < 2; ++i) {
            otherQs.push_back(other.query(r));
            otherExpected.push_back(otherQs.back().ask());
        }
        auto undisturbed = [&](const char *when) {
            for (size_t i = 0; i < otherQs.size(); ++i) {
                Answer a = otherQs[i].ask();
                m.check(identical(a, otherExpected[i]), "other solvers undisturbed", [&] { return otherQs[i].text + " " + when + ": " + show(a) + "instead of " + show(otherExpected[i]); });
            }
        };
        // failures
        for (int k = 0; k < 3; ++k) {
            long at = r.P(.1) ? 0 : r.P(.1) ? built - 1 : r.P(.2) ? min(built - 1, (long) r.I(0, 40)) : (long) (r.U(0, 1) * built);
            auto bad = make_shared<Probe>();
            bad->throwAt = at;
            bad->odd = r.P(.3);
            string how = "no exception";
            try {
                Object broken = f.build(bad);
            } catch (Fault &e) {
                how = e.at == at && string(e.what()) == "injected" && !bad->odd ? "" : "another exception";
            } catch (OddFault &e) {
                how = e.at == at && bad->odd ? "" : "another exception";
            } catch (exception &e) {
                how = string("exception ") + e.what();
            } catch (...) { how = "unknown exception"; }
            m.check(how.empty(), "the exception reaches the caller", [&] { return fmt("thrown at evaluation %ld of %ld: ", at, built) + how; });
            m.check(bad->calls == at + 1, "no evaluations after the exception", [&] { return fmt("thrown at evaluation %ld, then %ld more", at, bad->calls - at - 1); });
            m.check(!leaks(), "no leaks");
            m.seen(string("exceptions: ") + f.kind);
            m.distinct(f.kind + fmt(" exception %d", (int) (20. * at / built)) + f.text.substr(0, 40));
            undisturbed("after an exception");
        }
        // the function uses another solver itself
        auto again = make_shared<Probe>();
        again->runAt = (long) (r.U(0, 1) * built);
        again->inside = [&] { undisturbed("within an evaluation"); };
        Object rebuilt = f.build(again);
        again->inside = nullptr;
        m.check(again->built == built && again->trace == probe->trace, "same evaluations when built again", [&] { return fmt("%ld and %ld", built, again->built); });
        // queries choose from what the object has, in the same way
        for (size_t i = 0; i < qs.size(); ++i) {
            Answer a = qs[i].ask();
            m.check(identical(a, expected[i]), "this solver undisturbed", [&] { return qs[i].text + ": " + show(a) + "instead of " + show(expected[i]); });
        }
        Rng q1 = r, q2 = r;
        for (int i = 0; i < 2; ++i) {
            Query x = o.query(q1), y = rebuilt.query(q2);
            Answer a = x.ask(), b = y.ask();
            m.check(x.text == y.text && identical(a, b), "the rebuilt solver is the same", [&] { return x.text + " and " + y.text + ": " + show(a) + "and " + show(b); });
        }
        m.check(!leaks(), "no leaks");
    });
}
