// C07: the Prüfer angle counts zeros and eigenvalues, the matching error is the Wronskian of both sides.
#include "api.hpp"

using namespace matslise;
using namespace std;
typedef long double LD;

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C07", [](Rng &r, Mon &m) {
        gen::Options o;
        gen::Problem p = gen::randomProblem(r, o);
        double len = p.len(), vMin = p.vMin(), vMax = p.vMax();
        int uniform = p.jumps.empty() && p.family != "radial" && r.P(.25) ? (int) (max(60., 5 * len * sqrt(max(vMax - vMin, 1 / (len * len)))) * r.U(1, 3)) : 0;
        unique_ptr<Matslise<>> ms;
        if (uniform) ms = make_unique<Matslise<>>(potential(p.V), p.a, p.b, p.tol, sector_builder::UniformSectorBuilder<Matslise<>>(uniform));
        else ms = makeMatslise(p);
        auto oracle = p.oracle(40);
        m.describe(p.str() + fmt(" uniform %d", uniform));
        double tol = uniform ? 1e-9 : p.tol;
        double loose = 1;
        const double PI = M_PI;
        auto energy = [&]() -> double {
            switch (r.I(0, 6)) {
                case 0: return r.U(vMin - 3 / (len * len), vMin);
                case 1: return r.U(vMin, vMax);
                case 2: return vMax + r.L(.01, 1000) / (len * len);
                case 3: return vMax + r.L(1000, 1e5) / (len * len);
                case 4: return ms->sectors[r.I(0, ms->sectorCount - 1)]->vs[0];
                case 5: return ms->sectors[ms->matchIndex]->vs[0] + r.U(.5, 2); // where the scaling of the angle starts
                default: return r.P(.5) ? 0 : p.V(r.U(p.a, p.b));
            }
        };
        // --- zeros on the way
        for (int k = 0; k < 5; ++k) {
            double E = energy();
            if (p.growth(E) > 30) continue;
            auto point = [&]() -> double {
                switch (r.I(0, 6)) {
                    case 0: return p.a;
                    case 1: return p.b;
                    case 2: return ms->sectors[r.I(0, ms->sectorCount - 1)]->max;
                    default: return r.U(p.a, p.b);
                }
            };
            double x0 = point(), x1 = point();
            if (fabs(x0 - x1) < 1e-9 * len) continue;
            double w = max(1 / len, sqrt(max(fabs(vMin - E), fabs(vMax - E))));
            Y<double, 1, 2> y0;
            for (int c = 0; c < 2; ++c) {
                double s = r.L(1e-3, 1e3);
                int kind = r.I(0, 5);
                y0.data(0, c) = kind == 0 ? 0 : r.U(-1, 1) * s;
                y0.data(1, c) = kind == 1 ? 0 : r.U(-1, 1) * w * s;
            }
            auto both = ms->propagate<2>(E, y0, x0, x1);
            for (int c = 0; c < 2; ++c) {
                ref::State<LD> s[3];
                s[0].u = y0.data(0, c), s[0].up = y0.data(1, c);
                s[1].u = 1 / w;
                s[2].up = 1;
                double M = 1, n0 = hypot(w * y0.data(0, c), y0.data(1, c));
                bool fwd = x0 < x1;
                // direction the solution leaves zero in
                int sgn = s[0].u > 0 ? 1 : s[0].u < 0 ? -1 : (fwd ? (s[0].up > 0 ? 1 : -1) : (s[0].up > 0 ? -1 : 1));
                long zeros = 0;
                oracle.propagateVisit(E, x0, x1, s, 3, false, [&](const LD &, ref::State<LD> *v) {
                    int now = v[0].u > 0 ? 1 : v[0].u < 0 ? -1 : sgn;
                    if (now != sgn) ++zeros, sgn = now;
                    for (int i = 1; i < 3; ++i) M = max(M, (double) hypotl(w * v[i].u, v[i].up));
                });
                double undecided = (loose * 40 * tol + 1e-10 * max(1., w * len)) * max(M, exp(p.growth(E))) * n0;
                double theta = both.second[c];
                auto text = [&] { return fmt("E=%.17g from %.17g to %.17g y=(%g,%g): theta/pi %.12g, %ld zeros", E, x0, x1, y0.data(0, c), y0.data(1, c), theta / PI, zeros); };
                auto one = ms->propagate(E, y0.col(c), x0, x1);
                m.check(one.second == theta, "columns are independent", text);
                if (fabs((double) s[0].u) * w < undecided) {
                    m.seen("zeros: undecided");
                    continue;
                }
                long counted = fwd ? (long) floor(theta / PI) : 1 - (long) ceil(theta / PI);
                m.check(counted == zeros, "zeros", text);
                // the direction of (y, y'): sin and cos of the angle have the signs of y and y'
                if (fabs((double) s[0].up) > undecided) {
                    bool same = ((double) s[0].u > 0) == ((double) s[0].up > 0);
                    double f = theta / PI - floor(theta / PI);
                    m.check(same ? f <= .5 + 1e-9 : f >= .5 - 1e-9, "quadrant", text);
                }
                m.seen(fmt("%s, %s", fwd ? "forward" : "backward", zeros == 0 ? "no zeros" : zeros < 4 ? "some zeros" : "many zeros"));
            }
        }
        // --- matching error
        auto l = makeY(p.left), rt = makeY(p.right);
        double xm = ms->sectors[ms->matchIndex]->max;
        vector<tuple<double, double, int>> found; // E, error, count
        auto count = [&](LD E) { return oracle.countBelow(E, p.left.y, p.left.dy, p.right.y, p.right.dy); };
        double anchor = energy();
        vector<double> Es;
        for (int k = 0; k < 5; ++k) Es.push_back(r.P(.5) ? energy() : anchor + r.S() * r.L(.01, 30) / (len * len));
        sort(Es.begin(), Es.end());
        int prev = -1;
        for (double E: Es) {
            if (p.growth(E) > 50) continue;
            double d = 10 * tol * loose * max(1., fabs(E)) + 1e-11 * (fabs(vMin) + fabs(vMax) + fabs(E) + 10 / (len * len));
            int below = count(E - d), above = count(E + d);
            double err, derr, theta;
            bool useH = r.P(.5);
            tie(err, derr, theta) = ms->matchingError(E, l, rt, useH);
            auto text = [&] { return fmt("E=%.17g theta/pi %.12g error %.10g derivative %.10g, %d eigenvalues below", E, theta / PI, err, derr, below); };
            if (below != above) {
                m.seen("index: undecided");
                continue;
            }
            int index = max(0, (int) ceil(theta / PI));
            m.check(index == below, "index", text);
            m.check(index >= prev, "index is monotone", text);
            prev = index;
            m.seen(below == 0 ? "index: below the spectrum" : "index");
            found.emplace_back(E, err, below);
            // Wronskian
            double w = max(1 / len, sqrt(max(fabs(vMin - E), fabs(vMax - E))));
            ref::State<LD> a[3], b[3];
            double Ma = 1, Mb = 1, MaE = len / w, MbE = len / w;
            auto run = [&](ref::State<LD> *s, const gen::BC &bc, double from, double &M, double &ME) {
                s[0].u = bc.y, s[0].up = bc.dy;
                s[1].u = 1 / w;
                s[2].up = 1;
                oracle.propagateVisit(E, from, xm, s, 3, true, [&](const LD &, ref::State<LD> *v) {
                    for (int i = 1; i < 3; ++i) {
                        M = max(M, (double) hypotl(w * v[i].u, v[i].up));
                        ME = max(ME, (double) hypotl(w * v[i].ue, v[i].upe));
                    }
                });
                return hypot(w * bc.y, bc.dy);
            };
            double na = run(a, p.left, p.a, Ma, MaE), nb = run(b, p.right, p.b, Mb, MbE);
            LD W = a[0].up * b[0].u - b[0].up * a[0].u;
            LD WE = a[0].upe * b[0].u + a[0].up * b[0].ue - b[0].upe * a[0].u - b[0].up * a[0].ue;
            double G = p.growth(E), rel = loose * 40 * tol + 1e-11 * max(1., w * len) + 1e-14 * w * (fabs(p.a) + fabs(p.b)) * ms->sectorCount + 4e-12 * w;
            double scale = max(Ma, exp(G)) * max(Mb, exp(G)) * na * nb / w;
            if (G < 15) {
                m.within(fabs(err - (double) W), rel * scale, "matching error", text);
                m.within(fabs(derr - (double) WE), (loose * 200 * tol + 1e-10 * max(1., w * len)) * (Ma * MbE + MaE * Mb) * exp(G) * na * nb / w, "derivative of the matching error", text);
                m.seen("Wronskian");
            }
        }
        for (size_t i = 0; i < found.size(); ++i)
            for (size_t j = 0; j < i; ++j) {
                bool flips = (get<1>(found[i]) > 0) != (get<1>(found[j]) > 0);
                m.check(flips == (bool) ((get<2>(found[i]) - get<2>(found[j])) & 1), "sign of the matching error",
                        [&] { return fmt("E=%.17g error %g, %d below; E=%.17g error %g, %d below", get<0>(found[i]), get<1>(found[i]), get<2>(found[i]), get<0>(found[j]), get<1>(found[j]), get<2>(found[j])); });
            }
        m.distinct(fmt("%s %d %d %d %s %s", p.family.c_str(), (int) floor(log10(p.tol)), ms->sectorCount, uniform, p.left.kind, p.right.kind));
    });
}
