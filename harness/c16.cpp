// C16: eigenfunctions of -(p z')' + q z = E w z.
#include "efun.hpp"
#include "sl_ref.hpp"

using namespace matslise;
using namespace std;
typedef long double LD;
typedef Eigen::Array<double, -1, 1> Xs;
typedef Eigen::Array<double, -1, 2> Ys;

// exact eigenfunction: solutions from both sides, joined where they agree best
struct SLEfun {
    double mismatch = 10;
    vector<double> z, dz;

    SLEfun(const ref::SL &s, LD E, const gen::BC &left, const gen::BC &right, const Grid &g, const vector<double> &scale) {
        size_t n = g.size();
        struct V { LD z, v, lg; };
        vector<V> l(n), r(n);
        auto sweep = [&](LD from, const gen::BC &bc, bool forward, vector<V> &out) {
            LD y[2] = {bc.y, bc.dy * s.p(from)}, x = from, lf = 0;
            for (size_t k = 0; k < n; ++k) {
                size_t i = forward ? k : n - 1 - k;
                s.propagate(E, x, (LD) g.x[i], y, [&](LD, LD (&v)[2]) {
                    LD m = fabsl(v[0]) * scale[i] + fabsl(v[1]);
                    if (m > 1e50L || m < 1e-50L) v[0] /= m, v[1] /= m, lf += logl(m);
                });
                x = g.x[i];
                out[i] = {y[0], y[1], lf};
            }
        };
        sweep(s.a, left, true, l);
        sweep(s.b, right, false, r);
        size_t m = 0;
        for (size_t i = 0; i < n; ++i) {
            LD c = scale[i];
            double mis = (double) (fabsl(c * l[i].z * r[i].v - c * l[i].v * r[i].z) / (hypotl(c * l[i].z, l[i].v) * hypotl(c * r[i].z, r[i].v)));
            if (mis < mismatch) mismatch = mis, m = i;
        }
        LD c = scale[m], f = (c * c * l[m].z * r[m].z + l[m].v * r[m].v) / (c * c * r[m].z * r[m].z + r[m].v * r[m].v), nrm = 0;
        vector<LD> a(n), b(n);
        for (size_t i = 0; i < n; ++i) {
            LD k = i <= m ? expl(l[i].lg - l[m].lg) : f * expl(r[i].lg - r[m].lg);
            a[i] = k * (i <= m ? l[i] : r[i]).z;
            b[i] = k * (i <= m ? l[i] : r[i]).v / s.p((LD) g.x[i]);
            nrm += g.w[i] * s.w((LD) g.x[i]) * a[i] * a[i];
        }
        nrm = sqrtl(nrm);
        for (size_t i = 0; i < n; ++i) z.push_back((double) (a[i] / nrm)), dz.push_back((double) (b[i] / nrm));
    }
};

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C16", [](Rng &r, Mon &m) {
        gen::SLProblem p(r);
        int lo = r.P(.5) ? 0 : r.P(.8) ? r.I(0, 12) : r.I(12, 50), hi = lo + r.I(1, 4);
        m.describe(p.str() + fmt(" [%d,%d)", lo, hi));
        auto sl = p.build();
        auto pairs = sl->eigenpairsByIndex(lo, hi, makeY(p.left), makeY(p.right));
        if (!m.check((int) pairs.size() == hi - lo, "complete")) return;
        ref::SL oracle = p.oracle();
        double L = p.xLength(), len = p.b - p.a, Emax = get<1>(pairs.back()), qw = 1e300;
        for (int i = 0; i <= 100; ++i) qw = min(qw, p.q(p.a + len * i / 100) / p.w(p.a + len * i / 100));
        double om = max(sqrt(max(0., Emax - qw)), 2 / L), vs = p.potentialScale();
        Grid grid(p.a, p.b, {}, max(24, (int) (L * om)));
        for (double e: {p.a, p.b}) { // the ends of the domain too
            grid.x.insert(e == p.a ? grid.x.begin() : grid.x.end(), e);
            grid.w.insert(e == p.a ? grid.w.begin() : grid.w.end(), 0.);
        }
        Xs xs = Eigen::Map<Xs>(grid.x.data(), grid.x.size());
        size_t n = grid.size();
        // (f z, g z'): comparable sizes over the whole domain
        vector<double> f(n), g(n), scale(n);
        for (size_t i = 0; i < n; ++i) {
            double P = p.p(grid.x[i]), W = p.w(grid.x[i]);
            f[i] = pow(P * W, .25);
            g[i] = f[i] * sqrt(P / W);
            scale[i] = om * f[i] / g[i] * P;
        }
        vector<Ys> values;
        vector<double> trusted;
        for (auto &t: pairs) {
            int index = get<0>(t);
            double E = get<1>(t);
            if (!m.check((bool) get<2>(t), "has a function")) return;
            const auto &fun = *get<2>(t);
            Ys z = fun(xs);
            values.push_back(z);
            trusted.push_back(1);
            double dE = 3 * p.tol * max(1., fabs(E)) + 1e-11 * (vs + fabs(E));
            auto count = [&](LD x) { return oracle.countBelow(x, p.left.y, p.left.dy, p.right.y, p.right.dy); };
            LD a = E - dE, b = E + dE;
            if (!(count(a) <= index && count(b) > index)) {
                m.seen("not compared: eigenvalue is not accurate"); // C12
                continue;
            }
            for (int k = 0; k < 60 && b - a > 1e-18L * fabsl(b); ++k) {
                LD c = (a + b) / 2;
                (count(c) > index ? b : a) = c;
            }
            LD ex = (a + b) / 2;
            double gap = 1e300;
            for (double d = 1 / (L * L); d > 1e-14 * (1 + fabs(E)); d /= 4)
                if (count(ex + d) - count(ex - d) <= 1) {
                    gap = d;
                    break;
                }
            double cond = dE / gap;
            SLEfun u(oracle, ex, p.left, p.right, grid, scale);
            if (u.mismatch > 1e-9 || cond > .02) {
                m.seen(cond > .02 ? "not compared: nearly equal eigenvalues" : "not compared: reference not accurate");
                continue;
            }
            double dot = grid.integrate([&](size_t i) { return p.w(grid.x[i]) * z(i, 0) * u.z[i]; }), norm2 = grid.integrate([&](size_t i) { return p.w(grid.x[i]) * z(i, 0) * z(i, 0); });
            double sgn = dot < 0 ? -1 : 1, err = 0, errp = 0, zM = 0, dM = 0;
            for (size_t i = 0; i < n; ++i) {
                err = max(err, f[i] * fabs(z(i, 0) - sgn * u.z[i]));
                errp = max(errp, g[i] * fabs(z(i, 1) - sgn * u.dz[i]));
                zM = max(zM, f[i] * fabs(u.z[i])), dM = max(dM, g[i] * fabs(u.dz[i]));
                if (!(fabs(z(i, 0)) < 1e200 && fabs(z(i, 1)) < 1e200)) err = 1e300;
            }
            double size = max(dM, om * zM), rel = max(err / zM, errp / size);
            double growth = 0;
            for (int i = 0; i <= 100; ++i) {
                double x = p.a + len * i / 100;
                growth += sqrt(max(0., (p.q(x) - E * p.w(x)) / p.p(x))) * len / 101;
            }
            double allowed = 1.5 * cond + 30 * p.tol + 1e-8;
            string kinds = string(p.left.kind) + p.right.kind;
            if (kinds.find('R') != string::npos) allowed += 5 * p.tol * exp(min(30., growth));
            auto text = [&] { return fmt("E%d=%.15g gap %.3g ", index, E, gap); };
            for (int side = 0; side < 2; ++side) {
                const gen::BC &bc = side ? p.right : p.left;
                size_t i = side ? n - 1 : 0;
                Eigen::Array2d v = fun(grid.x[i]);
                double s = om * f[i] / g[i], along = hypot(bc.y * s, bc.dy), off = fabs(v[0] * s * bc.dy - v[1] * s * bc.y) / along;
                m.within(off, 1e-10 * hypot(v[0] * s, v[1]) + 1e-12 * size / g[i], "boundary condition", [&] { return fmt("side %d: (%.15g, %.15g) ", side, v[0], v[1]) + text(); });
            }
            m.within(fabs(norm2 - 1), .2 * allowed, "norm", text);
            m.within(rel, allowed, "function", [&] { return fmt("z %.3g z' %.3g ", err / zM, errp / size) + text(); });
            if (allowed < 1e-3 && growth < 10) {
                int nodes = 0, last = 0;
                for (size_t i = 1; i + 1 < n; ++i) {
                    int now = z(i, 0) > 0 ? 1 : z(i, 0) < 0 ? -1 : last;
                    if (last && last != now) ++nodes;
                    last = now;
                }
                m.check(nodes == index, "number of zeros", [&] { return fmt("%d zeros ", nodes) + text(); });
            }
            trusted.back() = allowed;
            m.seen("compared");
            m.distinct(fmt("%s %s %zu %s %s %d %d", p.kindP.c_str(), p.kindW.c_str(), p.q.terms.size(), p.left.kind, p.right.kind, index, (int) floor(log10(p.tol))));
        }
        for (size_t i = 0; i < values.size(); ++i)
            for (size_t j = 0; j < i; ++j) {
                double d = grid.integrate([&](size_t k) { return p.w(grid.x[k]) * values[i](k, 0) * values[j](k, 0); });
                if (trusted[i] < 1 && trusted[j] < 1) m.within(fabs(d), trusted[i] + trusted[j] + 1e-9, "orthogonal", [&] { return fmt("%d %d", lo + (int) i, lo + (int) j); });
            }
    });
}
