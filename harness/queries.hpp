// Objects with separated boundary conditions behind one interface, together with their reference.
#ifndef VERIF_QUERIES_HPP
#define VERIF_QUERIES_HPP

#include "api.hpp"
#include "sl_ref.hpp"

typedef std::vector<std::pair<int, double>> Eigenvalues;

struct Separated {
    std::string kind, text;
    std::function<Eigenvalues(int, int)> byIndex;
    std::function<Eigenvalues(double, double)> window;        // may be empty
    std::function<Eigenvalues(int, int)> pairsByIndex;        // indices and values of the eigenpairs
    std::function<Eigenvalues(int, int)> byIndexBoth;         // another overload that should mean the same, may be empty
    std::function<Eigenvalues(double, double)> windowBoth;
    std::function<int(long double)> count;                    // reference: eigenvalues below E
    std::function<double(double)> growth;
    double tol, vMin, vMax, len;

    double allowed(double E) const {
        return 3 * tol * std::max(1., std::fabs(E)) +
               1e-13 * (std::max(std::fabs(vMin), std::fabs(vMax)) + std::fabs(E) + 10 / (len * len));
    }
};

inline Separated randomSeparated(Rng &r, bool needWindow) {
    using namespace matslise;
    Separated s;
    int w = r.I(0, needWindow ? 3 : 4);
    auto toList = [](auto &&pairs) {
        Eigenvalues e;
        for (auto &p: pairs) {
            if (!std::get<2>(p)) throw std::runtime_error("eigenpair without eigenfunction");
            e.emplace_back(std::get<0>(p), std::get<1>(p));
        }
        return e;
    };
    if (w <= 2) {
        gen::Problem p = gen::randomProblem(r);
        bool same = r.P(.2); // the overload for one side uses (y, y') on both sides
        if (p.left.y != 0 && std::fabs(p.left.dy / p.left.y) * p.len() > 12) same = false; // deep boundary states
        if (same) p.right = p.left;
        s.kind = "full";
        s.text = p.str();
        std::shared_ptr<Matslise<>> ms = makeMatslise(p);
        auto l = makeY(p.left), rt = makeY(p.right);
        s.byIndex = [=](int a, int b) { return ms->eigenvaluesByIndex(a, b, l, rt); };
        s.window = [=](double a, double b) { return ms->eigenvalues(a, b, l, rt); };
        s.pairsByIndex = [=](int a, int b) { return toList(ms->eigenpairsByIndex(a, b, l, rt)); };
        if (same) {
            std::shared_ptr<AbstractMatslise<double>> base = ms;
            s.byIndexBoth = [=](int a, int b) { return base->eigenvaluesByIndex(a, b, l); };
            s.windowBoth = [=](double a, double b) { return base->eigenvalues(a, b, l); };
        }
        auto oracle = std::make_shared<ref::Schrodinger<long double>>(p.oracle());
        s.count = [=](long double E) { return oracle->countBelow(E, p.left.y, p.left.dy, p.right.y, p.right.dy); };
        s.growth = [p](double E) { return p.growth(E); };
        s.tol = p.tol;
        s.vMin = p.vMin();
        s.vMax = p.vMax();
        s.len = p.len();
    } else if (w == 3) {
        gen::Options o;
        o.evenOnly = true;
        gen::Problem p = gen::randomProblem(r, o);
        p.left = {p.right.y, -p.right.dy, p.right.kind};
        s.kind = "half";
        s.text = "half range " + p.str();
        auto ms = std::make_shared<MatsliseHalf<>>(potential(p.V), p.b, p.tol);
        auto side = makeY(p.right);
        s.byIndex = [=](int a, int b) { return ms->eigenvaluesByIndex(a, b, side); };
        s.window = [=](double a, double b) { return ms->eigenvalues(a, b, side); };
        std::shared_ptr<AbstractMatslise<double>> base = ms;
        s.pairsByIndex = [=](int a, int b) { return toList(base->eigenpairsByIndex(a, b, side)); };
        s.byIndexBoth = [=](int a, int b) { return base->eigenvaluesByIndex(a, b, side, side); };
        s.windowBoth = [=](double a, double b) { return base->eigenvalues(a, b, side, side); };
        auto oracle = std::make_shared<ref::Schrodinger<long double>>(p.oracle());
        s.count = [=](long double E) { return oracle->countBelow(E, p.left.y, p.left.dy, p.right.y, p.right.dy); };
        s.growth = [p](double E) { return p.growth(E); };
        s.tol = p.tol;
        s.vMin = p.vMin();
        s.vMax = p.vMax();
        s.len = p.len();
    } else {
        gen::SLProblem p(r);
        s.kind = "sl";
        s.text = p.str();
        std::shared_ptr<SturmLiouville<double>> sl = p.build();
        auto l = makeY(p.left), rt = makeY(p.right);
        s.byIndex = [=](int a, int b) { return sl->eigenvaluesByIndex(a, b, l, rt); };
        s.pairsByIndex = [=](int a, int b) { return toList(sl->eigenpairsByIndex(a, b, l, rt)); };
        auto oracle = std::make_shared<ref::SL>(p.oracle());
        s.count = [=](long double E) { return oracle->countBelow(E, p.left.y, p.left.dy, p.right.y, p.right.dy); };
        s.growth = [](double) { return 0; };
        s.tol = p.tol;
        double lo = 1e300, hi = -1e300;
        for (int i = 0; i <= 100; ++i) {
            double x = p.a + (p.b - p.a) * i / 100, v = p.q(x) / p.w(x);
            lo = std::min(lo, v);
            hi = std::max(hi, v);
        }
        s.vMin = lo;
        s.vMax = hi;
        s.len = 1e-3 * (p.b - p.a); // generous: the length after the transformation is not known here
    }
    return s;
}

#endif
