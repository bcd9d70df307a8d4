// Random problems. Potentials are sums of simple terms which can be evaluated in any scalar type.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP

#include "mon.hpp"
#include "ref.hpp"
#include <algorithm>

namespace gen {
    typedef long double LD;

    enum Kind { COS, POW, GAUSS, SECH2, EXP, INV, INV2, STEP, RAT };

    struct Term {
        Kind kind;
        double A, p, q; // meaning depends on kind
    };

    struct Potential {
        std::vector<Term> terms;

        template<typename T>
        T operator()(const T &x) const {
            using std::cos;
            using std::cosh;
            using std::exp;
            T s(0);
            for (auto &t: terms) {
                const T A(t.A), p(t.p), q(t.q);
                switch (t.kind) {
                    case COS:
                        s += A * cos(p * x + q);
                        break;
                    case POW: {
                        T z(1), d = x - q;
                        for (int i = 0; i < (int) t.p; ++i) z *= d;
                        s += A * z;
                        break;
                    }
                    case GAUSS: {
                        T d = (x - q) / p;
                        s += A * exp(-d * d);
                        break;
                    }
                    case SECH2: {
                        T c = cosh((x - q) / p);
                        s += A / (c * c);
                        break;
                    }
                    case EXP:
                        s += A * exp(p * (x - q));
                        break;
                    case INV:
                        s += A / (x - q);
                        break;
                    case INV2:
                        s += A / ((x - q) * (x - q));
                        break;
                    case STEP:
                        if (x >= q) s += A;
                        break;
                    case RAT: {
                        T d = (x - q) / p;
                        s += A / (T(1) + d * d);
                        break;
                    }
                }
            }
            return s;
        }

        std::string str() const {
            static const char *names[] = {"cos", "pow", "gauss", "sech2", "exp", "inv", "inv2", "step", "rat"};
            std::string r;
            for (auto &t: terms) r += fmt("%s(%.6g,%.6g,%.6g)+", names[t.kind], t.A, t.p, t.q);
            if (r.empty()) return "0";
            r.pop_back();
            return r;
        }
    };

    struct BC {
        double y, dy;
        const char *kind;
    };

    struct Problem {
        std::string family;
        Potential V;
        double a = 0, b = 1;
        std::vector<double> jumps;
        double tol = 1e-8;
        bool even = false; // V symmetric around 0 and a == -b
        BC left{0, 1, "D"}, right{0, 1, "D"};

        double len() const { return b - a; }

        std::string str() const {
            std::string j;
            for (auto &x: jumps) j += fmt("%.17g ", x);
            return fmt("%s V=%s [%.17g,%.17g] tol=%.3g left=(%.6g,%.6g) right=(%.6g,%.6g) jumps=[%s]", family.c_str(),
                       V.str().c_str(), a, b, tol, left.y, left.dy, right.y, right.dy, j.c_str());
        }

        // where the reference starts new elements: jumps, and closer together near a singularity
        template<typename T>
        std::vector<T> breaks() const {
            std::vector<T> br(jumps.begin(), jumps.end());
            for (auto &t: V.terms)
                if (t.kind == INV || t.kind == INV2) {
                    bool leftOf = t.q < a;
                    for (double d = leftOf ? a - t.q : t.q - b; (d *= 1.3) < b - a;) br.push_back(leftOf ? t.q + d : t.q - d);
                    break;
                }
            return br;
        }

        ref::Schrodinger<LD> oracle(int base = 48) const {
            auto br = breaks<LD>();
            auto v = V;
            return ref::Schrodinger<LD>([v](LD x) { return v(x); }, a, b, br, base);
        }

        double vMin() const { return extreme(-1); }

        double vMax() const { return extreme(1); }

        double extreme(int s) const {
            double m = -1e300;
            for (int i = 0; i <= 400; ++i) m = std::max(m, s * V(a + (b - a) * i / 400.));
            return s * m;
        }

        // exponent of the largest forbidden region between two allowed ones
        double barrier(double E) const {
            double best = 0, now = 0;
            bool inside = false;
            for (int i = 0; i < 1000; ++i) {
                double d = V(a + (b - a) * (i + .5) / 1000) - E;
                if (d > 0) now += std::sqrt(d) * (b - a) / 1000;
                else {
                    if (inside) best = std::max(best, now);
                    inside = true;
                    now = 0;
                }
            }
            return best;
        }

        // exponent of the growth of solutions for this E
        double growth(double E) const {
            double g = 0;
            for (int i = 0; i < 400; ++i) {
                double d = V(a + (b - a) * (i + .5) / 400) - E;
                if (d > 0) g += std::sqrt(d);
            }
            return g * (b - a) / 400;
        }
    };

    // boundary condition; side -1: left, +1: right
    inline BC randomBC(Rng &r, double len, int side) {
        switch (r.I(0, 6)) {
            case 0:
            case 1:
                return {0, r.P(.5) ? 1 : r.S() * r.L(1e-3, 1e3), "D"};
            case 2:
                return {r.P(.5) ? 1 : r.S() * r.L(1e-3, 1e3), 0, "N"};
            case 3: // attractive: may have an eigenvalue that belongs to the boundary
            {
                double k = r.U(0, 12) / len, s = r.S() * r.L(1e-2, 1e2);
                return {s, side * k * s, "R-"};
            }
            case 4: // repulsive
            {
                double k = r.L(1e-3, 1e4) / len, s = r.S() * r.L(1e-2, 1e2);
                return {s, -side * k * s, "R+"};
            }
            default: {
                double s = r.L(1e-2, 1e2), u = r.U(-1, 1), v = r.U(-1, 1);
                if (std::fabs(u) < .1) u = .1;
                if (std::fabs(v) > 12 * std::fabs(u) / len) v *= 12 * std::fabs(u) / (std::fabs(v) * len);
                return {s * u, s * v, "R"};
            }
        }
    }

    inline Term cosTerm(Rng &r, double amp, double len, double maxOsc) {
        return {COS, r.U(-amp, amp), r.U(0, maxOsc) / len, r.U(0, 6.283)};
    }

    struct Options {
        bool jumps = true;
        bool evenOnly = false;
        double tolMin = 3, tolMax = 12; // -log10
        double growthMax = 60;
        int family = -1;
        double maxLen = 25;
    };

    inline Problem randomProblem(Rng &r, const Options &o = {}) {
        for (int attempt = 0; attempt < 200; ++attempt) {
            Problem p;
            int fam = o.family >= 0 ? o.family : r.I(0, o.jumps ? 11 : 10);
            double len = r.L(.05, o.maxLen);
            double a = r.P(.15) ? r.U(-200, 200) : r.U(-5, 5);
            p.a = a;
            p.b = a + len;
            auto &t = p.V.terms;
            switch (fam) {
                case 0: { // trigonometric
                    p.family = "trig";
                    double amp = r.L(.1, 200);
                    for (int k = r.I(1, 4); k; --k) t.push_back(cosTerm(r, amp, len, 12));
                    break;
                }
                case 1: { // oscillator
                    p.family = "oscillator";
                    double A = r.L(.05, 100), c = r.P(.5) ? 0 : r.U(-3, 3);
                    double half = std::sqrt(2 * r.U(2, 25) / std::sqrt(A));
                    p.a = c - half * r.U(.3, 1);
                    p.b = c + half * r.U(.3, 1);
                    t.push_back({POW, A, 2, c});
                    if (r.P(.4)) t.push_back({POW, A * r.U(0, 1) / (half * half), 4, c});
                    if (r.P(.3)) t.push_back({POW, A * r.U(-1, 1) * half * .3, 1, c});
                    break;
                }
                case 2: { // double well A ((x-c)^2/d^2 - 1)^2 + tilt
                    p.family = "doublewell";
                    double A = r.L(1, 400), d = r.L(.3, 3), c = r.P(.6) ? 0 : r.U(-2, 2);
                    t.push_back({POW, A / (d * d * d * d), 4, c});
                    t.push_back({POW, -2 * A / (d * d), 2, c});
                    t.push_back({POW, A, 0, 0});
                    if (r.P(.5)) t.push_back({POW, r.U(-.3, .3) * A, 1, c});
                    p.a = c - d * r.U(1.1, 1.7);
                    p.b = r.P(.5) ? 2 * c - p.a : c + d * r.U(1.1, 1.7);
                    break;
                }
                case 3: { // bumps and holes
                    p.family = "gauss";
                    double amp = r.L(.5, 300);
                    for (int k = r.I(1, 5); k; --k)
                        t.push_back({r.P(.7) ? GAUSS : RAT, r.U(-amp, amp), len * r.U(.06, .6),
                                     p.a + len * r.U(-.1, 1.1)});
                    break;
                }
                case 4: { // Coffey-Evans
                    p.family = "coffey-evans";
                    double B = r.U(1, 25);
                    t.push_back({COS, -2 * B, 2, 0});
                    t.push_back({POW, B * B / 2, 0, 0});
                    t.push_back({COS, -B * B / 2, 4, 0});
                    p.a = -M_PI / 2;
                    p.b = M_PI / 2;
                    break;
                }
                case 5: { // Morse
                    p.family = "morse";
                    double D = r.L(2, 60), k = r.U(.5, 1.5);
                    t.push_back({POW, D, 0, 0});
                    t.push_back({EXP, -2 * D, -k, 0});
                    t.push_back({EXP, D, -2 * k, 0});
                    p.a = -r.U(.5, 1.2) / k;
                    p.b = r.U(1, 6) / k;
                    break;
                }
                case 6: { // constant or linear
                    p.family = "simple";
                    int w = r.I(0, 2);
                    if (w > 0) t.push_back({POW, r.S() * r.L(.1, 1000), 0, 0});
                    if (w > 1) t.push_back({POW, r.S() * r.L(.01, 100) / len, 1, p.a + len / 2});
                    break;
                }
                case 7: { // centrifugal + coulomb
                    p.family = "radial";
                    p.a = r.L(.05, 1);
                    p.b = p.a + r.U(2, 20);
                    int l = r.I(0, 4);
                    t.push_back({INV2, l * (l + 1.) * r.U(.8, 1.2), 0, 0});
                    t.push_back({INV, r.U(-10, 2), 0, 0});
                    if (r.P(.5)) t.push_back({POW, r.L(.01, 1), 2, 0});
                    if (r.P(.3)) { // mirrored
                        double s = p.a + p.b;
                        Potential q;
                        for (auto &u: t) {
                            if (u.kind == INV) q.terms.push_back({INV, -u.A, 0, s});
                            else q.terms.push_back({u.kind, u.A, u.p, s});
                        }
                        p.V = q;
                    }
                    break;
                }
                case 8: { // sech^2
                    p.family = "sech2";
                    double c = p.a + len * r.U(.2, .8);
                    t.push_back({SECH2, -r.L(1, 200), len * r.U(.03, .3), c});
                    if (r.P(.5)) t.push_back({SECH2, -r.L(1, 200), len * r.U(.03, .3), p.a + len * r.U(.1, .9)});
                    break;
                }
                case 9: { // polynomial wiggle, moderate
                    p.family = "poly";
                    double amp = r.L(.5, 200);
                    for (int k = 1; k <= 6; ++k)
                        if (r.P(.6)) t.push_back({POW, r.U(-amp, amp) / std::pow(len / 2, k), (double) k, p.a + len / 2});
                    break;
                }
                case 10: { // symmetric around zero
                    p.family = "even";
                    p.even = true;
                    p.b = len / 2;
                    p.a = -p.b;
                    double amp = r.L(.5, 200);
                    for (int k = r.I(1, 3); k; --k)
                        switch (r.I(0, 3)) {
                            case 0:
                                t.push_back({COS, r.U(-amp, amp), r.U(0, 12) / len, 0});
                                break;
                            case 1:
                                t.push_back({POW, r.U(-amp, amp) / std::pow(len / 2, 2), 2, 0});
                                break;
                            case 2:
                                t.push_back({POW, r.U(0, amp) / std::pow(len / 2, 4), 4, 0});
                                break;
                            default:
                                t.push_back({GAUSS, r.U(-amp, amp), len * r.U(.06, .6), 0});
                        }
                    break;
                }
                default: { // jumps
                    p.family = "jumps";
                    double amp = r.L(.5, 100);
                    int n = r.I(1, 5);
                    for (int k = 0; k < n; ++k) {
                        double c = p.a + len * r.U(.02, .98);
                        p.jumps.push_back(c);
                        t.push_back({STEP, r.U(-amp, amp), 0, c});
                    }
                    std::sort(p.jumps.begin(), p.jumps.end());
                    if (r.P(.6))
                        for (int k = r.I(1, 2); k; --k) t.push_back(cosTerm(r, amp, len, 8));
                    break;
                }
            }
            if (o.evenOnly && !p.even) {
                bool ok = fam == 4;
                if (!ok) continue;
                p.even = true;
            }
            p.tol = std::pow(10, -r.U(o.tolMin, o.tolMax));
            p.left = randomBC(r, p.len(), -1);
            p.right = r.P(.3) ? BC{p.left.y, -p.left.dy, p.left.kind} : randomBC(r, p.len(), 1);
            if (p.growth(p.vMin()) > o.growthMax) continue;
            return p;
        }
        Mon::skip("no problem generated");
    }
}
#endif
