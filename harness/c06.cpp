// C06: Matslise::propagate is the flow of y'' = (V - E) y and of its derivative to E.
#include "api.hpp"

using namespace matslise;
using namespace std;

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C06", [](Rng &r, Mon &m) {
        gen::Options o;
        gen::Problem p = gen::randomProblem(r, o);
        double len = p.len(), vMin = p.vMin(), vMax = p.vMax();
        int uniform = p.jumps.empty() && p.family != "radial" && r.P(.25) ? (int) (max(60., 5 * len * sqrt(max(vMax - vMin, 1 / (len * len)))) * r.U(1, 3)) : 0;
        unique_ptr<Matslise<>> ms;
        if (uniform) ms = make_unique<Matslise<>>(potential(p.V), p.a, p.b, p.tol, sector_builder::UniformSectorBuilder<Matslise<>>(uniform));
        else ms = makeMatslise(p);
        auto oracle = p.oracle(40);
        m.describe(p.str() + fmt(" uniform %d", uniform));
        double tol = uniform ? 1e-9 : p.tol;
        // next to a singularity the error estimates are less reliable
        double loose = p.family == "radial" ? 5 : 1;
        for (int k = 0; k < 6; ++k) {
            double E;
            switch (r.I(0, 5)) {
                case 0: E = r.U(vMin - 3 / (len * len), vMin); break;
                case 1: E = r.U(vMin, vMax); break;
                case 2: E = vMax + r.L(.01, 1000) / (len * len); break;
                case 3: E = vMax + r.L(1000, 1e5) / (len * len); break;
                case 4: E = ms->sectors[r.I(0, ms->sectorCount - 1)]->vs[0]; break; // eta functions at zero
                default: E = r.P(.5) ? 0 : p.V(r.U(p.a, p.b));
            }
            double G = p.growth(E);
            if (G > 30) {
                m.seen("skipped: growth");
                continue;
            }
            auto point = [&]() -> double {
                switch (r.I(0, 6)) {
                    case 0: return p.a;
                    case 1: return p.b;
                    case 2: return ms->sectors[r.I(0, ms->sectorCount - 1)]->max;
                    case 3: {
                        double s = ms->sectors[r.I(0, ms->sectorCount - 1)]->min;
                        return min(p.b, max(p.a, s + r.S() * r.L(1e-15, 1e-2) * len));
                    }
                    default: return r.U(p.a, p.b);
                }
            };
            double x0 = point(), x1 = r.P(.1) ? x0 : point();
            bool useH = r.P(.7);
            double w = max(1 / len, sqrt(max(fabs(vMin - E), fabs(vMax - E)))), tE = len / w;
            Y<double, 1, 2> y0;
            for (int c = 0; c < 2; ++c) {
                double s = r.L(1e-3, 1e3);
                y0.data(0, c) = r.P(.2) ? 0 : r.U(-1, 1) * s;
                y0.data(1, c) = r.P(.2) ? 0 : r.U(-1, 1) * w * s;
                if (r.P(.5)) {
                    y0.data(2, c) = r.U(-1, 1) * s * tE;
                    y0.data(3, c) = r.U(-1, 1) * w * s * tE;
                }
            }
            // a point inside of a sector is reached from one of its ends, which costs digits where solutions grow
            double back = 0;
            for (auto &sec: ms->sectors)
                for (double x: {x0, x1})
                    if (sec->min <= x && x <= sec->max)
                        back = max(back, sqrt(max(0., p.V((sec->min + sec->max) / 2) - E)) * (sec->max - sec->min));
            ref::State<long double> s[4];
            for (int c = 0; c < 2; ++c) s[c].u = y0.data(0, c), s[c].up = y0.data(1, c), s[c].ue = y0.data(2, c), s[c].upe = y0.data(3, c);
            // the last two measure how much errors can grow on the way
            s[2].u = 1 / w;
            s[3].up = 1;
            double M = 1, ME = tE;
            oracle.propagateVisit(E, x0, x1, s, 4, true, [&](const long double &, ref::State<long double> *v) {
                for (int c = 2; c < 4; ++c) {
                    M = max(M, (double) hypotl(w * v[c].u, v[c].up));
                    ME = max(ME, (double) hypotl(w * v[c].ue, v[c].upe));
                }
            });
            // a sector is crossed from one of its ends to reach a point inside of it
            for (auto &sec: ms->sectors)
                for (double x: {x0, x1})
                    if (sec->min <= x && x <= sec->max) {
                        ref::State<long double> t[2];
                        t[0].u = 1 / w;
                        t[1].up = 1;
                        oracle.propagateVisit(E, sec->min, sec->max, t, 2, true, [&](const long double &, ref::State<long double> *v) {
                            for (int c = 0; c < 2; ++c) ME = max(ME, (double) hypotl(w * v[c].ue, v[c].upe));
                        });
                    }
            auto both = ms->propagate<2>(E, y0, x0, x1, useH).first;
            for (int c = 0; c < 2; ++c) {
                double n0 = hypot(w * y0.data(0, c), y0.data(1, c)), nE = hypot(w * y0.data(2, c), y0.data(3, c)) + n0 * ME;
                double grow = max(exp(G), M), allowed = (loose * 20 * tol + 1e-11 * max(1., w * len)) * grow + 1e-13 * exp(2 * back) * M + w * (4e-12 + 1e-14 * (fabs(p.a) + fabs(p.b)) * ms->sectorCount);
                double allowedE = loose * 100 * tol * grow * (loose > 1 ? 5 : 1) + 1e-10 * max(1., w * len) * grow + 1e-12 * exp(2 * back) * M;
                auto text = [&] { return fmt("E=%.17g from %.17g to %.17g use_h=%d growth %.3g y=(%g,%g,%g,%g)", E, x0, x1, useH, G, y0.data(0, c), y0.data(1, c), y0.data(2, c), y0.data(3, c)); };
                auto one = r.P(.5) ? ms->propagate(E, y0.col(c), x0, x1, useH).first : both.col(c);
                double err = max(w * fabs((double) (one.data[0] - s[c].u)), (double) fabsl(one.data[1] - s[c].up));
                double errE = max(w * fabs((double) (one.data[2] - s[c].ue)), (double) fabsl(one.data[3] - s[c].upe));
                m.within(err, allowed * n0, uniform ? "flow (uniform sectors)" : "flow", text);
                m.within(errE, allowedE * nE, uniform ? "derivative to E (uniform sectors)" : "derivative to E", text);
                m.within((one.data - both.data.col(c)).norm(), 1e-9 * one.data.norm(), "columns are independent", text);
            }
            m.seen(x0 == x1 ? "no distance" : x0 < x1 ? "forward" : "backward");
        }
        if (r.P(.3)) {
            double out = r.P(.5) ? p.b + r.L(1e-9, 5) : p.a - r.L(1e-9, 5), in = r.U(p.a, p.b);
            bool thrown = false, from = r.P(.5);
            try {
                ms->propagate(1., makeY(1, 0), from ? out : in, from ? in : out);
            } catch (runtime_error &) {
                thrown = true;
            }
            m.check(thrown, "outside of the domain is refused", [&] { return fmt("%.17g", out); });
        }
        m.distinct(fmt("%s %d %d %d", p.family.c_str(), (int) floor(log10(p.tol)), ms->sectorCount, uniform));
    });
}
