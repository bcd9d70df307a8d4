// C13: the Liouville transformation is a change of variables: coordinates, values, derivatives, potential and solutions.
#include "api.hpp"
#include "sl_ref.hpp"

using namespace matslise;
using namespace std;
typedef long double LD;

// value and two derivatives
struct Jet {
    LD v, d, dd;
    Jet(LD v = 0, LD d = 0, LD dd = 0) : v(v), d(d), dd(dd) {}
    Jet &operator+=(const Jet &o) { v += o.v, d += o.d, dd += o.dd; return *this; }
    Jet &operator*=(const Jet &o) { return *this = Jet(v * o.v, d * o.v + v * o.d, dd * o.v + 2 * d * o.d + v * o.dd); }
    Jet of(LD f, LD f1, LD f2) const { return {f, f1 * d, f2 * d * d + f1 * dd}; }
};
static Jet operator+(Jet a, const Jet &b) { return a += b; }
static Jet operator-(const Jet &a) { return {-a.v, -a.d, -a.dd}; }
static Jet operator-(const Jet &a, const Jet &b) { return a + -b; }
static Jet operator*(Jet a, const Jet &b) { return a *= b; }
static Jet operator/(const Jet &a, const Jet &b) { return a * b.of(1 / b.v, -1 / (b.v * b.v), 2 / (b.v * b.v * b.v)); }
static bool operator>=(const Jet &a, const Jet &b) { return a.v >= b.v; }
static Jet cos(const Jet &a) { return a.of(cosl(a.v), -sinl(a.v), -cosl(a.v)); }
static Jet exp(const Jet &a) { return a.of(expl(a.v), expl(a.v), expl(a.v)); }
static Jet cosh(const Jet &a) { return a.of(coshl(a.v), sinhl(a.v), coshl(a.v)); }

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C13", [](Rng &r, Mon &m) {
        gen::SLProblem p(r);
        m.describe(p.str());
        LiouvilleTransformation<double> lt({p.a, p.b}, p.fun(p.p), p.fun(p.q), p.fun(p.w));
        auto &pc = lt.pieces;
        double L = p.xLength(), len = p.b - p.a, eps = 2.3e-16;

        // the pieces tile both domains
        m.check(lt.rDomain().min == p.a && lt.rDomain().max == p.b, "domain of r", [&] { return fmt("[%.17g, %.17g]", lt.rDomain().min, lt.rDomain().max); });
        bool tiles = pc.front().r.min == p.a && pc.back().r.max == p.b && pc.front().x.min == 0;
        for (size_t i = 0; i < pc.size(); ++i) {
            tiles &= pc[i].r.max > pc[i].r.min && pc[i].x.max > pc[i].x.min;
            if (i) tiles &= pc[i].r.min == pc[i - 1].r.max && pc[i].x.min == pc[i - 1].x.max;
        }
        m.check(tiles, "pieces tile the domain", [&] { return fmt("%zu pieces", pc.size()); });

        // points: random, ends of the domain and of pieces and next to them
        vector<double> rs{p.a, p.b};
        for (int k = 0; k < 24; ++k) rs.push_back(r.U(p.a, p.b));
        for (int k = 0; k < 8; ++k) {
            auto &q = pc[r.I(0, (int) pc.size() - 1)];
            for (double c: {q.r.min, q.r.max}) {
                rs.push_back(c);
                rs.push_back(nextafter(c, p.a));
                rs.push_back(nextafter(c, p.b));
                rs.push_back(min(max(c + r.S() * len * r.L(1e-14, 1e-3), p.a), p.b));
            }
        }
        sort(rs.begin(), rs.end());

        const auto &g = ref::Gauss<LD>::get();
        LD X = 0, at = p.a;
        Jet jp, jw;
        auto exact = [&](double rr) {
            jp = p.p(Jet(rr, 1)), jw = p.w(Jet(rr, 1));
        };
        double lastX = -1;
        Domain<double> xd = lt.xDomain();
        m.check(xd.min == 0, "domain of x", [&] { return fmt("starts at %g", xd.min); });
        for (double rr: rs) {
            // exact x
            int n = max(1, (int) ceil((double) (rr - at) / len * 64));
            LD h = (rr - at) / n;
            if (h > 0)
                for (int k = 0; k < n; ++k)
                    for (int j = 0; j < g.s; ++j) {
                        LD t = at + h * (k + g.c[j]);
                        X += h * g.b[j] * sqrtl(p.w(t) / p.p(t));
                    }
            at = rr;
            double x = lt.r2x(rr);
            exact(rr);
            double slope = (double) sqrtl(jw.v / jp.v);
            auto text = [&] { return fmt("r=%.17g x=%.17g exact %.17Lg", rr, x, X); };
            m.within(fabsl(x - X), 1e-10 * L + eps * 8 * fabs(rr) * slope, "r to x", text);
            m.check(x >= lastX - 4e-15 * L, "r to x is increasing", text);
            lastX = max(lastX, x);
            double xc = min(max(x, xd.min), xd.max);
            m.within(fabs(x - xc), 1e-14 * L, "x in its domain", text);
            double back = lt.x2r(xc);
            m.within(fabs(back - rr), 4e-14 * max(len, fabs(rr)) + 4e-15 * L / slope, "x to r is the inverse", [&] { return fmt("back %.17g, ", back) + text(); });

            // potential
            LD s = sqrtl(jp.v / jw.v), ds = s / 2 * (jp.d / jp.v - jw.d / jw.v);
            Jet F = jp * jw;
            LD Fx = F.d * s, Fxx = s * (F.dd * s + F.d * ds), q = p.q((LD) rr);
            double V = (double) (q / jw.v - 3 * Fx * Fx / (16 * F.v * F.v) + Fxx / (4 * F.v));
            double vs = (double) (fabsl(q / jw.v) + 1 / (L * L) + 3 * Fx * Fx / (16 * F.v * F.v) + fabsl(Fxx / (4 * F.v)));
            // the potential takes two derivatives of a polynomial on a piece of this length
            size_t in = 0;
            while (in + 1 < pc.size() && pc[in].x.max <= xc) ++in;
            double hx = pc[in].x.max - pc[in].x.min, hr = pc[in].r.max - pc[in].r.min;
            double got = lt.V(xc);
            m.within(fabs(got - V), 2e-5 * vs + 3e4 * eps / (hx * hx), "potential", [&] { return fmt("V=%.15g exact %.15g ", got, V) + text(); });

            // values
            LD sigma = powl(F.v, -.25L), dsigma = -.25L * sigma * F.d / F.v;
            Y<> z;
            double zs = r.L(1e-3, 1e3) * r.S();
            z.data << r.U(-1, 1) * zs, r.U(-1, 1) * zs / len, r.U(-1, 1) * zs, r.U(-1, 1) * zs / len;
            Y<> y = lt.z2y(rr, z);
            for (int c = 0; c < 2; ++c) { // value, derivative to E
                LD zv = z.data(2 * c), zd = z.data(2 * c + 1);
                LD yv = zv / sigma, yd = (zd - dsigma * yv) / (sigma * slope);
                LD sz = fabsl(yv) / L + fabsl(yd) + fabsl(dsigma * yv) / (sigma * slope);
                const char *n0 = c ? "derivative to E to y" : "value to y", *n1 = c ? "derivative to E, derivative to y" : "derivative to y";
                m.within(fabsl(y.data(2 * c) - yv), 1e-11 * fabsl(yv), n0, [&] { return fmt("%.15g exact %.15Lg ", y.data(2 * c), yv) + text(); });
                m.within(fabsl(y.data(2 * c + 1) - yd), 3e-9 * sz + 1000 * eps / hr * fabsl(yv) / slope, n1, [&] { return fmt("%.15g exact %.15Lg ", y.data(2 * c + 1), yd) + text(); });
            }
            Y<> zz = lt.y2z(xc, y);
            for (int c = 0; c < 2; ++c) {
                double v = z.data(2 * c), d = z.data(2 * c + 1);
                double sz = fabs(v) * (double) fabsl(dsigma / sigma) + fabs(d) + fabs(v) / len;
                m.within(fabs(zz.data(2 * c) - v), 1e-11 * fabs(v), "value there and back", [&] { return fmt("%.15g from %.15g ", zz.data(2 * c), v) + text(); });
                m.within(fabs(zz.data(2 * c + 1) - d), 3e-9 * sz + 1000 * eps / hr * fabs(v), "derivative there and back", [&] { return fmt("%.15g from %.15g ", zz.data(2 * c + 1), d) + text(); });
            }
            m.seen("points");
        }
        m.within(fabs(lt.r2x(p.b) - xd.max), 1e-14 * L, "ends are mapped to ends", [&] { return fmt("%.17g %.17g", lt.r2x(p.b), xd.max); });
        m.check(lt.r2x(p.a) == 0, "ends are mapped to ends", [&] { return fmt("start %g", lt.r2x(p.a)); });

        // solutions are mapped to solutions
        double tol = 1e-9;
        Matslise<double> ms([&](double x) { return lt.V(x); }, xd.min, xd.max, tol);
        ref::SL oracle = p.oracle();
        for (int k = 0; k < 3; ++k) {
            double r0 = r.P(.2) ? p.a : r.U(p.a, p.b), r1 = r.P(.2) ? p.b : r.U(p.a, p.b);
            double lo = 1e300;
            for (int i = 0; i <= 100; ++i) lo = min(lo, p.q(p.a + len * i / 100) / p.w(p.a + len * i / 100));
            double E = lo + r.L(.1, 1000) * 10 / (L * L), om = max(1 / L, sqrt(max(0., E - lo)));
            exact(r0);
            double sl0 = (double) sqrtl(jw.v / jp.v);
            double al = r.U(0, 6.3);
            Y<> z;
            z.y() << cos(al), sin(al) * om * sl0;
            double x0 = min(lt.r2x(r0), xd.max), x1 = min(lt.r2x(r1), xd.max);
            Y<> z1 = lt.y2z(x1, ms.propagate(E, lt.z2y(r0, z), x0, x1).first);
            // how large does it become?
            LD s[2] = {z.y()[0], z.y()[1] * jp.v};
            LD M = 0;
            auto size = [&](LD x, LD (&v)[2]) {
                LD f = powl(p.p(x) * p.w(x), .25L), sl = sqrtl(p.w(x) / p.p(x));
                M = max(M, f * (fabsl(v[0]) + fabsl(v[1]) / p.p(x) / (om * sl)));
            };
            size(r0, s);
            oracle.propagate(E, r0, r1, s, size);
            LD f = powl(p.p((LD) r1) * p.w((LD) r1), .25L), sl = sqrtl(p.w((LD) r1) / p.p((LD) r1));
            LD zd = s[1] / p.p((LD) r1);
            double err = (double) (max(fabsl(z1.y()[0] - s[0]), fabsl(z1.y()[1] - zd) / (om * sl)) * f / M);
            m.within(err, 2e-5, "solutions are mapped to solutions", [&] {
                return fmt("E=%.15g from %.15g to %.15g: (%.12g, %.12g) exact (%.12Lg, %.12Lg)", E, r0, r1, z1.y()[0], z1.y()[1], s[0], zd);
            });
            m.seen(r1 > r0 ? "solution forwards" : "solution backwards");
        }
        m.distinct(p.kindP + " " + p.kindW + fmt(" %d %zu", (int) p.q.terms.size(), pc.size()));
    });
}
