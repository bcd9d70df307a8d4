// Random objects of all kinds and random programs of queries on them. An object can be built again and again from its
// factory; a query has fixed arguments, can be made at any time and returns all numbers of its answer.
#ifndef VERIF_PROGRAM_HPP
#define VERIF_PROGRAM_HPP

#include <atomic>
#include "api.hpp"
#include "sl_ref.hpp"

#ifdef WITH_MATSCS

#include "matrix_ref.hpp"
#include "matslise/matscs.h"
#include "matscs_gen.hpp"

#endif

namespace prog {
    using namespace matslise;
    typedef std::vector<double> Answer;

    struct Fault : std::runtime_error {
        long at;

        explicit Fault(long at) : std::runtime_error("injected"), at(at) {}
    };

    struct OddFault { // not derived from std::exception
        long at;
    };

    // what happens to the functions an object was made of
    struct Probe {
        std::atomic<long> calls{0}, outside{0};
        std::atomic<long> throwAt{-1}; // the number of the evaluation that throws
        double lo = 0, hi = 0, sawLo = 1e300, sawHi = -1e300;
        std::atomic<bool> watch{true};
        bool odd = false;                // throw something unusual
        std::atomic<long> runAt{-1};     // the number of the evaluation in which inside is called
        std::function<void()> inside;
        long built = -1;                 // evaluations when the constructor was done
        uint64_t trace = 1469598103934665603ull; // hash of all points up to then

        void done() { built = calls; }

        void visit(double x) {
            long n = calls++;
            if (!(lo <= x && x <= hi)) ++outside;
            if (watch) sawLo = std::min(sawLo, x), sawHi = std::max(sawHi, x);
            if (built < 0) {
                uint64_t bits;
                memcpy(&bits, &x, sizeof x);
                trace = (trace ^ bits) * 1099511628211ull;
            }
            if (n == runAt && inside) inside();
            if (n == throwAt) {
                if (odd) throw OddFault{n};
                throw Fault(n);
            }
        }
    };

    typedef std::shared_ptr<Probe> ProbePtr;

    struct Query {
        std::string text;
        std::function<Answer()> ask;
    };

    struct Object {
        std::string kind;
        std::shared_ptr<void> keep;
        std::function<Query(Rng &)> query; // the query refers to this object
    };

    struct Factory {
        std::string kind, text;
        std::function<Object(ProbePtr)> build;
    };

    inline void put(Answer &a, double v) { a.push_back(v); }

    template<typename M>
    void putAll(Answer &a, const M &m) {
        a.push_back(m.rows());
        a.push_back(m.cols());
        for (Eigen::Index j = 0; j < m.cols(); ++j)
            for (Eigen::Index i = 0; i < m.rows(); ++i) a.push_back(m(i, j));
    }

    inline void putList(Answer &a, const std::vector<std::pair<int, double>> &l) {
        a.push_back(l.size());
        for (auto &e: l) a.push_back(e.first), a.push_back(e.second);
    }

    inline bool identical(const Answer &a, const Answer &b) {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i)
            if (memcmp(&a[i], &b[i], sizeof(double)) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
        return true;
    }

    inline std::string show(const Answer &a) {
        std::string s;
        for (size_t i = 0; i < a.size() && i < 30; ++i) s += fmt("%.17g ", a[i]);
        return s;
    }

    typedef AbstractMatslise<double>::Eigenfunction Fun;
    typedef Eigen::Array<double, -1, 1> Xs;

    struct Points {
        double a, b;
        std::vector<double> special;
        bool outside, sorted;

        double one(Rng &r) const {
            switch (r.I(0, 7)) {
                case 0: return r.P(.5) ? a : b;
                case 1: if (!special.empty()) return special[r.I(0, special.size() - 1)];
                case 2: if (!special.empty()) return std::min(b, std::max(a, special[r.I(0, special.size() - 1)] + r.S() * r.L(1e-17, 1e-3) * (b - a)));
                default: return r.U(a, b);
            }
        }

        std::vector<double> many(Rng &r) const {
            std::vector<double> x;
            int n = r.P(.1) ? 0 : r.P(.1) ? 1 : r.I(2, 24);
            for (int i = 0; i < n; ++i) {
                if (outside && r.P(.1)) x.push_back(r.P(.5) ? b + r.L(1e-12, 10) : a - r.L(1e-12, 10));
                else if (!x.empty() && r.P(.1)) x.push_back(x[r.I(0, x.size() - 1)]);
                else x.push_back(one(r));
            }
            if (sorted || r.P(.4)) std::sort(x.begin(), x.end());
            return x;
        }
    };

    inline void evaluate(Answer &a, const Fun &f, const std::vector<double> &x, bool scalar) {
        if (scalar) for (double t: x) putAll(a, f(t));
        else {
            Xs xs = Eigen::Map<const Xs>(x.data(), x.size());
            putAll(a, f(xs));
        }
    }

    template<int cols>
    Y<double, 1, cols> randomY(Rng &r) {
        Y<double, 1, cols> y;
        for (int i = 0; i < 4; ++i) for (int j = 0; j < cols; ++j) y.data(i, j) = i < 2 || r.P(.3) ? r.U(-1, 1) : 0;
        return y;
    }

    struct Energies {
        double low, len, high = 0;

        double operator()(Rng &r) const { return r.P(.2) ? low + r.U(-1, 1) * (1 + std::fabs(low) * .1) : low + (high - low) * r.U(0, 1) + std::pow(r.U(0, 10) * M_PI / len, 2); }
    };

    inline std::string yText(const gen::BC &b) { return fmt("(%g,%g)", b.y, b.dy); }

    // queries of a Matslise object
    inline Query matsliseQuery(Rng &r, const std::shared_ptr<Matslise<>> &ms, const Points &pts, const Energies &en, const std::vector<std::shared_ptr<Fun>> &funs, double tol) {
        const Matslise<> *p = ms.get();
        double len = pts.b - pts.a;
        gen::BC lb = gen::randomBC(r, len, -1), rb = gen::randomBC(r, len, 1);
        if (r.P(.2)) rb = lb;
        Y<> l = makeY(lb), rt = makeY(rb);
        bool same = lb.y == rb.y && lb.dy == rb.dy;
        double E = en(r), E2 = en(r);
        bool use_h = r.P(.6);
        std::string bc = " " + yText(lb) + yText(rb);
        switch (r.I(0, 13)) {
            case 0: {
                int lo = r.I(0, 12), hi = lo + r.I(0, 3);
                return {fmt("eigenvaluesByIndex(%d,%d)", lo, hi) + bc, [=] {
                    Answer a;
                    putList(a, same ? p->eigenvaluesByIndex(lo, hi, l) : p->eigenvaluesByIndex(lo, hi, l, rt));
                    return a;
                }};
            }
            case 1: {
                if (fabs(E - E2) * len * len > 400) E2 = E + r.U(0, 400) / len / len;
                return {fmt("eigenvalues(%.17g,%.17g)", E, E2) + bc, [=] {
                    Answer a;
                    putList(a, same ? p->eigenvalues(E, E2, l) : p->eigenvalues(E, E2, l, rt));
                    return a;
                }};
            }
            case 2: {
                int lo = r.I(0, 8), hi = lo + r.I(0, 2);
                auto x = pts.many(r);
                bool scalar = r.P(.5);
                return {fmt("eigenpairsByIndex(%d,%d), %zu points", lo, hi, x.size()) + bc, [=] {
                    Answer a;
                    auto pairs = p->eigenpairsByIndex(lo, hi, l, rt);
                    for (auto &t: pairs) {
                        a.push_back(std::get<0>(t));
                        a.push_back(std::get<1>(t));
                        evaluate(a, *std::get<2>(t), x, scalar);
                    }
                    return a;
                }};
            }
            case 3: {
                auto x = pts.many(r);
                bool scalar = r.P(.5);
                int index = r.P(.5) ? -1 : r.I(0, 5);
                return {fmt("eigenfunction(%.17g, index %d), %zu points", E, index, x.size()) + bc, [=] {
                    Answer a;
                    auto f = p->eigenfunction(E, l, rt, index);
                    evaluate(a, *f, x, scalar);
                    return a;
                }};
            }
            case 4:
                return {fmt("eigenvalueError(%.17g)", E) + bc, [=] { return Answer{p->eigenvalueError(E, l, rt)}; }};
            case 5:
                return {fmt("matchingError(%.17g,%d)", E, use_h) + bc, [=] {
                    auto t = p->matchingError(E, l, rt, use_h);
                    return Answer{std::get<0>(t), std::get<1>(t), std::get<2>(t)};
                }};
            case 6: {
                double x0 = pts.one(r), x1 = r.P(.1) ? x0 : pts.one(r);
                auto y = randomY<2>(r);
                return {fmt("propagate<2>(%.17g,%.17g,%.17g,%d)", E, x0, x1, use_h), [=] {
                    Answer a;
                    auto t = p->propagate(E, y, x0, x1, use_h);
                    putAll(a, t.first.data);
                    putAll(a, t.second);
                    return a;
                }};
            }
            case 7:
                return {"estimatePotentialMinimum", [=] { return Answer{p->estimatePotentialMinimum()}; }};
            case 8: {
                int i = r.I(0, p->sectorCount - 1);
                double d = r.U(0, 1) * p->sectors[i]->h;
                return {fmt("sector %d", i), [=] {
                    auto &s = *p->sectors[i];
                    Answer a;
                    auto t = s.calculateT(E, use_h);
                    putAll(a, t.t), putAll(a, t.dt);
                    t = s.calculateT(E, d, use_h);
                    putAll(a, t.t), putAll(a, t.dt);
                    a.push_back(s.error());
                    return a;
                }};
            }
            case 9:
            case 10:
                if (!funs.empty()) {
                    auto f = funs[r.I(0, funs.size() - 1)];
                    auto x = pts.many(r);
                    bool scalar = r.P(.5);
                    return {fmt("function at %zu points", x.size()), [=] {
                        Answer a;
                        evaluate(a, *f, x, scalar);
                        return a;
                    }};
                }
            default: {
                double x0 = pts.one(r), x1 = r.P(.1) ? x0 : pts.one(r);
                auto y = randomY<1>(r);
                return {fmt("propagate(%.17g,%.17g,%.17g,%d)", E, x0, x1, use_h), [=] {
                    Answer a;
                    auto t = p->propagate(E, y, x0, x1, use_h);
                    putAll(a, t.first.data);
                    a.push_back(t.second);
                    return a;
                }};
            }
        }
    }

    inline Factory fullFactory(Rng &r) {
        gen::Options o;
        o.growthMax = 40;
        o.tolMax = 10;
        gen::Problem p = gen::randomProblem(r, o);
        int uniform = p.jumps.empty() && r.P(.3) ? r.I(1, 20) : 0;
        double lo = p.vMin(), hi = p.vMax();
        int efun = r.I(0, 4);
        return {uniform ? "full uniform" : "full", p.str() + fmt(" uniform=%d", uniform), [=](ProbePtr probe) {
            auto v = p.V;
            std::function<double(double)> V = [v, probe](double x) {
                probe->visit(x);
                return v(x);
            };
            probe->lo = p.a, probe->hi = p.b;
            std::shared_ptr<Matslise<>> ms;
            if (uniform) ms = std::make_shared<Matslise<>>(V, p.a, p.b, p.tol, sector_builder::UniformSectorBuilder<Matslise<>>(uniform));
            else {
                sector_builder::AutomaticSectorBuilder<Matslise<>> sb(p.tol);
                sb.jumps = p.jumps;
                ms = std::make_shared<Matslise<>>(V, p.a, p.b, p.tol, sb);
            }
            probe->done();
            Points pts{p.a, p.b, {}, true, false};
            for (auto &s: ms->sectors) pts.special.push_back(s->max);
            std::vector<std::shared_ptr<Fun>> funs;
            for (auto &t: ms->eigenpairsByIndex(efun, efun + 2, makeY(p.left), makeY(p.right))) funs.push_back(std::move(std::get<2>(t)));
            Energies en{lo, p.b - p.a, hi};
            double tol = p.tol;
            return Object{"full", ms, [=](Rng &r) { return matsliseQuery(r, ms, pts, en, funs, tol); }};
        }};
    }

    inline Factory halfFactory(Rng &r) {
        gen::Options o;
        o.growthMax = 30;
        o.tolMax = 10;
        o.evenOnly = true;
        gen::Problem p = gen::randomProblem(r, o);
        p.left = {p.right.y, -p.right.dy, p.right.kind};
        double lo = p.vMin(), hi = p.vMax();
        int uniform = r.P(.3) ? r.I(1, 20) : 0;
        int efun = r.I(0, 4);
        return {"half", "half range " + p.str() + fmt(" uniform=%d", uniform), [=](ProbePtr probe) {
            auto v = p.V;
            std::function<double(double)> V = [v, probe](double x) {
                probe->visit(x);
                return v(x);
            };
            probe->lo = 0, probe->hi = p.b;
            std::shared_ptr<MatsliseHalf<>> ms;
            if (uniform) ms = std::make_shared<MatsliseHalf<>>(V, p.b, p.tol, sector_builder::UniformSectorBuilder<Matslise<>>(uniform));
            else ms = std::make_shared<MatsliseHalf<>>(V, p.b, p.tol);
            probe->done();
            Points pts{p.a, p.b, {0}, true, true};
            for (auto &s: ms->ms->sectors) pts.special.push_back(s->max), pts.special.push_back(-s->max);
            std::vector<std::shared_ptr<Fun>> funs;
            const AbstractMatslise<double> *base = ms.get();
            for (auto &t: base->eigenpairsByIndex(efun, efun + 2, makeY(p.right))) funs.push_back(std::move(std::get<2>(t)));
            Energies en{lo, p.b - p.a, hi};
            return Object{"half", ms, [=](Rng &r) -> Query {
                gen::BC b = gen::randomBC(r, p.b - p.a, 1);
                Y<> side = makeY(b);
                double E = en(r), E2 = E + r.U(-.1, 1) * 100 / (p.b * p.b);
                bool two = r.P(.4);
                const AbstractMatslise<double> *q = ms.get();
                switch (r.I(0, 7)) {
                    case 0: {
                        int lo = r.I(0, 12), hi = lo + r.I(0, 4);
                        return {fmt("eigenvaluesByIndex(%d,%d) ", lo, hi) + yText(b), [=] {
                            Answer a;
                            putList(a, two ? q->eigenvaluesByIndex(lo, hi, side, side) : q->eigenvaluesByIndex(lo, hi, side));
                            return a;
                        }};
                    }
                    case 1:
                        return {fmt("eigenvalues(%.17g,%.17g) ", E, E2) + yText(b), [=] {
                            Answer a;
                            putList(a, two ? q->eigenvalues(E, E2, side, side) : q->eigenvalues(E, E2, side));
                            return a;
                        }};
                    case 2:
                        return {fmt("eigenvalueError(%.17g) ", E) + yText(b), [=] { return Answer{two ? q->eigenvalueError(E, side, side) : q->eigenvalueError(E, side)}; }};
                    case 3: {
                        auto x = pts.many(r);
                        bool scalar = r.P(.5);
                        int index = r.P(.3) ? -1 : r.I(0, 5);
                        return {fmt("eigenfunction(%.17g,%d) ", E, index) + yText(b), [=] {
                            Answer a;
                            auto f = two ? q->eigenfunction(E, side, side, index) : q->eigenfunction(E, side, index);
                            evaluate(a, *f, x, scalar);
                            return a;
                        }};
                    }
                    case 4: {
                        int lo = r.I(0, 8), hi = lo + r.I(0, 3);
                        auto x = pts.many(r);
                        bool scalar = r.P(.5);
                        return {fmt("eigenpairsByIndex(%d,%d) ", lo, hi) + yText(b), [=] {
                            Answer a;
                            auto pairs = two ? q->eigenpairsByIndex(lo, hi, side, side) : q->eigenpairsByIndex(lo, hi, side);
                            for (auto &t: pairs) {
                                a.push_back(std::get<0>(t));
                                a.push_back(std::get<1>(t));
                                evaluate(a, *std::get<2>(t), x, scalar);
                            }
                            return a;
                        }};
                    }
                    case 5:
                        return {"estimatePotentialMinimum", [=] { return Answer{q->estimatePotentialMinimum()}; }};
                    default: { // (a mesh that is much too coarse may not have found them)
                        if (funs.empty()) return {"nothing", [] { return Answer{}; }};
                        auto f = funs[r.I(0, funs.size() - 1)];
                        auto x = pts.many(r);
                        bool scalar = r.P(.5);
                        return {fmt("function at %zu points", x.size()), [=] {
                            Answer a;
                            evaluate(a, *f, x, scalar);
                            return a;
                        }};
                    }
                }
            }};
        }};
    }

    inline Factory periodicFactory(Rng &r) {
        gen::Options o;
        o.growthMax = 10;
        o.tolMax = 10;
        gen::Problem p = gen::randomProblem(r, o);
        double lo = p.vMin(), hi = p.vMax();
        Eigen::Matrix2d K = Eigen::Matrix2d::Identity() * (r.P(.5) ? 1 : -1);
        if (r.P(.3)) {
            double a = r.U(-2, 2), b = r.U(-2, 2), c = r.S() * r.U(.3, 2);
            K << c, a, b, (1 + a * b) / c;
        }
        int efun = r.I(0, 4);
        return {"periodic", "periodic " + p.str() + fmt(" K=%g,%g;%g,%g", K(0, 0), K(0, 1), K(1, 0), K(1, 1)), [=](ProbePtr probe) {
            auto v = p.V;
            std::function<double(double)> V = [v, probe](double x) {
                probe->visit(x);
                return v(x);
            };
            probe->lo = p.a, probe->hi = p.b;
            sector_builder::AutomaticSectorBuilder<Matslise<>> sb(p.tol);
            sb.jumps = p.jumps;
            auto ms = std::make_shared<PeriodicMatslise<>>(V, p.a, p.b, p.tol, sb, K);
            probe->done();
            Points pts{p.a, p.b, {}, true, false};
            for (auto &s: ms->matslise.sectors) pts.special.push_back(s->max);
            std::vector<std::shared_ptr<Fun>> funs;
            std::vector<double> es;
            for (auto &t: ms->eigenpairsByIndex(efun, efun + 2)) {
                es.push_back(std::get<1>(t));
                for (auto &f: std::get<2>(t)) funs.push_back(std::move(f));
            }
            Energies en{lo, p.b - p.a, hi};
            return Object{"periodic", ms, [=](Rng &r) -> Query {
                double E = en(r), E2 = E + r.U(-.1, 1) * 200 / std::pow(p.b - p.a, 2);
                bool use_h = r.P(.6);
                const PeriodicMatslise<> *q = ms.get();
                auto putPeriodic = [](Answer &a, const std::vector<std::tuple<int, double, int>> &l) {
                    a.push_back(l.size());
                    for (auto &t: l) a.push_back(std::get<0>(t)), a.push_back(std::get<1>(t)), a.push_back(std::get<2>(t));
                };
                auto x = pts.many(r);
                bool scalar = r.P(.5);
                auto putPairs = [=](Answer &a, const std::vector<std::tuple<int, double, std::vector<std::unique_ptr<Fun>>>> &l) {
                    a.push_back(l.size());
                    for (auto &t: l) {
                        a.push_back(std::get<0>(t)), a.push_back(std::get<1>(t));
                        for (auto &f: std::get<2>(t)) evaluate(a, *f, x, scalar);
                    }
                };
                int lo = r.I(0, 10), hi = lo + r.I(0, 3);
                switch (r.I(0, 8)) {
                    case 0:
                        return {fmt("eigenvaluesByIndex(%d,%d)", lo, hi), [=] {
                            Answer a;
                            putPeriodic(a, q->eigenvaluesByIndex(lo, hi));
                            return a;
                        }};
                    case 1:
                        return {fmt("eigenvalues(%.17g,%.17g)", E, E2), [=] {
                            Answer a;
                            putPeriodic(a, q->eigenvalues(E, E2));
                            return a;
                        }};
                    case 2:
                        return {fmt("eigenpairsByIndex(%d,%d)", lo, hi), [=] {
                            Answer a;
                            putPairs(a, q->eigenpairsByIndex(lo, hi));
                            return a;
                        }};
                    case 3:
                        return {fmt("eigenpairs(%.17g,%.17g)", E, E2), [=] {
                            Answer a;
                            putPairs(a, q->eigenpairs(E, E2));
                            return a;
                        }};
                    case 4:
                        return {fmt("matchingError(%.17g)", E), [=] {
                            Answer a;
                            auto t = q->matchingError(E, use_h);
                            putAll(a, t.first.data), putAll(a, t.second);
                            return a;
                        }};
                    case 5: {
                        double x0 = pts.one(r), x1 = pts.one(r);
                        auto y = randomY<2>(r);
                        return {fmt("propagate(%.17g,%.17g,%.17g)", E, x0, x1), [=] {
                            Answer a;
                            auto t = q->propagate(E, y, x0, x1, use_h);
                            putAll(a, t.first.data), putAll(a, t.second);
                            return a;
                        }};
                    }
                    case 6: {
                        double e = es.empty() || r.P(.2) ? E : es[r.I(0, es.size() - 1)];
                        return {fmt("eigenfunction(%.17g)", e), [=] {
                            Answer a;
                            for (auto &f: q->eigenfunction(e)) evaluate(a, *f, x, scalar);
                            return a;
                        }};
                    }
                    default: {
                        if (funs.empty()) return {"nothing", [] { return Answer{}; }};
                        auto f = funs[r.I(0, funs.size() - 1)];
                        return {fmt("function at %zu points", x.size()), [=] {
                            Answer a;
                            evaluate(a, *f, x, scalar);
                            return a;
                        }};
                    }
                }
            }};
        }};
    }

    inline Factory slFactory(Rng &r) {
        gen::SLProblem p(r, 15);
        p.tol = std::max(p.tol, 1e-9);
        bool transformationOnly = r.P(.35);
        int efun = r.I(0, 3);
        return {transformationOnly ? "liouville" : "sl", p.str() + (transformationOnly ? " transformation" : ""), [=](ProbePtr probe) {
            auto watched = [probe](const gen::Potential &f) -> std::function<double(double)> {
                return [f, probe](double x) {
                    probe->visit(x);
                    return f(x);
                };
            };
            probe->lo = p.a, probe->hi = p.b;
            Domain<double> domain{p.a, p.b};
            Points pts{p.a, p.b, {}, false, false};
            if (transformationOnly) {
                auto lt = std::make_shared<LiouvilleTransformation<double>>(domain, watched(p.p), watched(p.q), watched(p.w));
                probe->done();
                for (auto &piece: lt->pieces) pts.special.push_back(piece.r.max);
                return Object{"liouville", lt, [=](Rng &r) -> Query {
                    double t = pts.one(r);
                    Y<> z = randomY<1>(r);
                    const auto *q = lt.get();
                    return {fmt("transformation at %.17g", t), [=] {
                        Answer a;
                        double x = q->r2x(t);
                        a.push_back(x);
                        a.push_back(q->x2r(x));
                        a.push_back(q->V(x));
                        putAll(a, q->z2y(t, z).data);
                        putAll(a, q->y2z(x, z).data);
                        a.push_back(q->xDomain().min), a.push_back(q->xDomain().max);
                        a.push_back(q->rDomain().min), a.push_back(q->rDomain().max);
                        a.push_back(q->x2r(q->xDomain().min)), a.push_back(q->x2r(q->xDomain().max));
                        a.push_back(q->V(q->xDomain().min)), a.push_back(q->V(q->xDomain().max));
                        return a;
                    }};
                }};
            }
            auto sl = std::make_shared<SturmLiouville<double>>(watched(p.p), watched(p.q), watched(p.w), domain, p.tol);
            probe->done();
            std::vector<std::shared_ptr<Fun>> funs;
            std::vector<double> es;
            for (auto &t: sl->eigenpairsByIndex(efun, efun + 2, makeY(p.left), makeY(p.right))) {
                es.push_back(std::get<1>(t));
                funs.push_back(std::move(std::get<2>(t)));
            }
            return Object{"sl", sl, [=](Rng &r) -> Query {
                gen::BC lb = gen::randomBC(r, p.b - p.a, -1), rb = gen::randomBC(r, p.b - p.a, 1);
                Y<> l = makeY(lb), rt = makeY(rb);
                std::string bc = " " + yText(lb) + yText(rb);
                const auto *q = sl.get();
                auto x = pts.many(r);
                bool scalar = r.P(.5);
                int lo = r.I(0, 8), hi = lo + r.I(0, 3);
                switch (r.I(0, 5)) {
                    case 0:
                        return {fmt("eigenvaluesByIndex(%d,%d)", lo, hi) + bc, [=] {
                            Answer a;
                            putList(a, q->eigenvaluesByIndex(lo, hi, l, rt));
                            return a;
                        }};
                    case 1:
                        return {fmt("eigenpairsByIndex(%d,%d)", lo, hi) + bc, [=] {
                            Answer a;
                            for (auto &t: q->eigenpairsByIndex(lo, hi, l, rt)) {
                                a.push_back(std::get<0>(t)), a.push_back(std::get<1>(t));
                                evaluate(a, *std::get<2>(t), x, scalar);
                            }
                            return a;
                        }};
                    case 2: {
                        double E = es.empty() ? 0 : es[0] + (es.back() - es[0]) * r.U(-1, 3);
                        return {fmt("eigenvalueError(%.17g)", E) + bc, [=] { return Answer{q->eigenvalueError(E, l, rt)}; }};
                    }
                    default: { // (a mesh that is much too coarse may not have found them)
                        if (funs.empty()) return {"nothing", [] { return Answer{}; }};
                        auto f = funs[r.I(0, funs.size() - 1)];
                        return {fmt("function at %zu points", x.size()), [=] {
                            Answer a;
                            evaluate(a, *f, x, scalar);
                            return a;
                        }};
                    }
                }
            }};
        }};
    }

#ifdef WITH_MATSCS

    inline Factory matscsFactory(Rng &r) {
        MatscsProblem p(r, 20, 8);
        return {"matscs", p.str(), [=](ProbePtr probe) {
            auto v = p.V;
            std::function<Eigen::MatrixXd(double)> V = [v, probe](double x) -> Eigen::MatrixXd {
                probe->visit(x);
                return v(x);
            };
            probe->lo = p.a, probe->hi = p.b;
            std::shared_ptr<Matscs<>> ms;
            if (p.uniform) ms = std::make_shared<Matscs<>>(V, p.n, p.a, p.b, sector_builder::UniformSectorBuilder<Matscs<>>(p.uniform));
            else {
                sector_builder::AutomaticSectorBuilder<Matscs<>> sb(p.tol);
                sb.jumps = p.jumps;
                ms = std::make_shared<Matscs<>>(V, p.n, p.a, p.b, sb);
            }
            probe->done();
            Points pts{p.a, p.b, {}, false, false};
            for (auto &s: ms->sectors) pts.special.push_back(s->max);
            int n = p.n;
            double E0 = p.E, span = 1 / p.tE;
            return Object{"matscs", ms, [=](Rng &r) -> Query {
                const Matscs<> *q = ms.get();
                double x0 = pts.one(r), x1 = pts.one(r), E = E0 + r.U(-1, 1) * span;
                bool use_h = r.P(.6);
                std::string text = fmt("(%.17g,%.17g,%.17g,%d)", E, x0, x1, use_h);
                Eigen::MatrixXd S(n, n), A(4 * n, n);
                for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) S(i, j) = S(j, i) = r.U(-1, 1);
                for (int i = 0; i < 4 * n; ++i) for (int j = 0; j < n; ++j) A(i, j) = i < 2 * n ? r.U(-1, 1) : 0;
                switch (r.I(0, 5)) {
                    case 0: {
                        Y<double, Eigen::Dynamic, 1> y(n, 1);
                        y.data = A.col(0);
                        return {"propagateColumn<1>" + text, [=] {
                            Answer a;
                            putAll(a, q->propagateColumn<1>(E, y, x0, x1, use_h).data);
                            return a;
                        }};
                    }
                    case 1:
                        return {"propagatePsi" + text, [=] {
                            Answer a;
                            putAll(a, q->propagatePsi(E, S, x0, x1));
                            return a;
                        }};
                    case 2: {
                        int i = r.I(0, q->sectorCount - 1);
                        double d = q->sectors[i]->h * r.U(0, 1);
                        return {fmt("sector %d ", i) + text, [=] {
                            Answer a;
                            auto t = q->sectors[i]->calculateT(E, use_h);
                            putAll(a, t.t), putAll(a, t.dt);
                            t = q->sectors[i]->calculateT(E, d, use_h);
                            putAll(a, t.t), putAll(a, t.dt);
                            a.push_back(q->sectors[i]->error());
                            return a;
                        }};
                    }
                    case 3: {
                        Y<double, Eigen::Dynamic> y(n);
                        y.data = A;
                        return {"propagateColumn<Dynamic>" + text, [=] {
                            Answer a;
                            putAll(a, q->propagateColumn<Eigen::Dynamic>(E, y, x0, x1, use_h).data);
                            return a;
                        }};
                    }
                    default: {
                        Y<double, Eigen::Dynamic> y(n);
                        y.block(dX) = Eigen::MatrixXd::Identity(n, n);
                        y.block(None) = S;
                        return {"propagate" + text, [=] {
                            Answer a;
                            auto t = q->propagate(E, y, x0, x1, use_h);
                            putAll(a, t.first.data);
                            a.push_back(t.second);
                            return a;
                        }};
                    }
                }
            }};
        }};
    }

#endif

    inline Factory randomFactory(Rng &r) {
        switch (r.I(0, 9)) {
            case 0:
            case 1: return halfFactory(r);
            case 2:
            case 3: return periodicFactory(r);
            case 4:
            case 5: return slFactory(r);
#ifdef WITH_MATSCS
            case 6:
            case 7: return matscsFactory(r);
#endif
            default: return fullFactory(r);
        }
    }
}

#endif
