// C22: the numerical building blocks, in every scalar type, against arithmetic in 110 digits.
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/multiprecision/float128.hpp>
#include <Eigen/Dense>
#include "mon.hpp"
#include "matslise/matslise.h"
#include "matslise/util/calculateEta.h"
#include "matslise/util/horner.h"
#include "matslise/util/legendre.h"
#include "matslise/util/polynomial.h"
#include "matslise/util/theta.h"
#include "matslise/util/find_sector.h"

using namespace matslise;
using namespace std;
typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<110>, boost::multiprecision::et_off> R;
typedef boost::multiprecision::float128 Q;

static double dbl(const R &x) { return x.convert_to<double>(); }

static R exact(double x) { return R(x); }

static R exact(long double x) { return R(x); }

static R exact(const Q &x) {
    double hi = x.convert_to<double>();
    Q rest = x - Q(hi);
    double mid = rest.convert_to<double>();
    rest -= Q(mid);
    return R(hi) + R(mid) + R(rest.convert_to<double>());
}

template<typename S>
double eps() { return (double) numeric_limits<S>::epsilon(); }

template<>
double eps<Q>() { return 1.93e-34; }

template<typename S>
const char *nameOf() { return sizeof(S) == 8 ? "double" : is_same<S, Q>::value ? "quad" : "long double"; }

template<typename S>
S randomIn(Rng &r, double a, double b) { // with all digits of the type
    S x = r.U(a, b);
    S f = (b - a);
    for (int i = 0; i < 3; ++i) f *= S(ldexp(1, -40)), x += f * S(r.U(-1, 1));
    return x;
}

// eta_{-1}(Z), eta_0(Z) ... by their power series, or from sin and cos when that is too long
static vector<R> etas(const R &Z, int n) {
    vector<R> e(n);
    if (abs(Z) < 400) {
        for (int i = 0; i < n; ++i) {
            // eta_m = sum_q 2^m (q+m)! / q! / (2q+2m+1)! Z^q, m = i-1
            R term = 1; // q = 0: 1/(2m+1)!! = 1/(1*3*...(2i-1))
            for (int j = 1; j <= i; ++j) term /= 2 * j - 1;
            R sum = 0;
            for (int q = 0; q < 400; ++q) {
                sum += term;
                term *= Z / (R(2 * (q + 1)) * R(2 * (q + 1) + 2 * i - 1));
                if (abs(term) < abs(sum) * R(1e-60) * R(1e-50)) break;
            }
            e[i] = sum;
        }
    } else {
        R s = sqrt(abs(Z));
        e[0] = Z > 0 ? cosh(s) : cos(s);
        if (n > 1) e[1] = (Z > 0 ? sinh(s) : sin(s)) / s;
        for (int i = 2; i < n; ++i) e[i] = (e[i - 2] - (2 * i - 3) * e[i - 1]) / Z;
    }
    return e;
}

template<typename S, int n>
void eta(Rng &r, Mon &m) {
    S Z;
    switch (r.I(0, 5)) {
        case 0: Z = S(r.S()) * S(r.L(1e-300, 1)); break;
        case 1: Z = randomIn<S>(r, -100, 100); break;
        case 2: Z = S(r.S()) * (S(100) + randomIn<S>(r, -1, 1) * S(r.L(1e-12, 1))); break;
        case 3: Z = S(r.I(-110, 110)); break;
        case 4: Z = randomIn<S>(r, -3000, 3000); break;
        default: Z = S(r.L(1, 2e5)) * S(-1); if (r.P(.3)) Z = S(0);
    }
    m.describe(fmt("eta<%s,%d>(%.17g)", nameOf<S>(), n, (double) Z));
    auto got = calculateEta<S, n>(Z);
    auto want = etas(exact(Z), n);
    double z = (double) Z, e = eps<S>();
    // the size that counts: the functions go through zero when Z < 0
    double size = 1;
    for (int i = 0; i < n; ++i) {
        if (i > 0) size /= 2 * i - 1;
        // (above 100 they are the difference of larger ones)
        double scale = z >= 100 ? dbl(want[0]) / pow(z, i / 2.) : z >= 0 ? dbl(want[i]) : min(size, i == 0 ? 1 : pow(-z, -i / 2.) * (1 + i));
        // the argument of sin and exp is rounded
        double allowed = e * ((z >= 100 ? 300 : 60) + 4 * sqrt(fabs(z))) * scale;
        m.within(fabs(dbl(exact(got[i]) - want[i])), allowed, (string("eta ") + nameOf<S>() + (fabs(z) < 100 ? " below 100" : " above 100")).c_str(), [&] { return fmt("eta[%d](%.17g) is %.17g", i, z, (double) got[i]); });
    }
    // neighbours, with many values at once
    Eigen::Array<S, Eigen::Dynamic, 1> zs(r.I(0, 5));
    for (Eigen::Index k = 0; k < zs.size(); ++k) zs[k] = k == 2 ? Z : randomIn<S>(r, -150, 150);
    auto many = calculateEta<S, n>(zs);
    m.check(many.rows() == n && many.cols() == zs.size(), "as many etas");
    for (Eigen::Index k = 0; k < zs.size(); ++k)
        m.check((many.col(k) == calculateEta<S, n>(zs[k])).all(), "etas of an array");
    m.seen(fmt("eta %s n=%d", nameOf<S>(), n));
    m.seen(z < -100 ? "Z < -100" : z < 0 ? "-100 < Z < 0" : z < 100 ? "0 <= Z < 100" : "Z > 100");
    m.distinct(fmt("eta %s %d %d %g", nameOf<S>(), n, z < 0, z == 0 ? 0 : floor(4 * log10(fabs(z)))));
}

// A polynomial in s = (x - mid) / h
struct Poly {
    vector<double> c;

    template<typename T>
    T operator()(const T &s) const {
        T v = T(0);
        for (size_t i = c.size(); i-- > 0;) v = v * s + T(c[i]);
        return v;
    }

    double size() const {
        double v = 0;
        for (double x: c) v += fabs(x);
        return v;
    }
};

// (2i+1)/2 int_-1^1 p(s) P_i(s) ds
static R coefficient(const Poly &p, int i) {
    vector<R> a{1}, b{0, 1}; // P_0, P_1
    if (i == 0) b = a;
    for (int k = 2; k <= i; ++k) {
        vector<R> c(k + 1, R(0));
        for (int j = 0; j < k; ++j) c[j + 1] += b[j] * (2 * k - 1) / k;
        for (int j = 0; j < k - 1; ++j) c[j] -= a[j] * (k - 1) / k;
        a = b;
        b = c;
    }
    R sum = 0;
    for (size_t j = 0; j < b.size(); ++j)
        for (size_t k = 0; k < p.c.size(); ++k)
            if ((j + k) % 2 == 0) sum += b[j] * R(p.c[k]) / (R) (j + k + 1);
    return sum * (2 * i + 1);
}

template<typename S, int n>
void legendreTest(Rng &r, Mon &m) {
    constexpr int k = n + n % 2;
    double e = eps<S>();
    S h = S(r.L(1e-3, 30)), mid = S(r.U(-1, 1)) * h * S(r.L(1e-2, 30));
    S a = mid - h, b = mid + h;
    h = (b - a) / 2;
    mid = (a + b) / 2;
    double off = fabs((double) (mid / h));
    Poly p;
    int degree = r.P(.5) ? r.I(0, n - 1) : r.I(0, 2 * k - 1);
    for (int i = 0; i <= degree; ++i) p.c.push_back(i == degree || r.P(.7) ? r.U(-1, 1) : 0);
    m.describe(fmt("Legendre<%s,%d> on [%.17g,%.17g] degree %d", nameOf<S>(), n, (double) a, (double) b, degree));
    auto f = [&](const S &x) -> S { return p(S((x - mid) / h)); };
    legendre::Legendre<S, n> l(f, a, b);
    auto cs = l.getCoefficients();
    auto direct = legendre::getCoefficients<n, S>(f, a, b);
    double size = p.size(), slope = size * (degree + 1);
    double rounding = e * (20 * size + 8 * (1 + off) * slope);
    m.check(cs == direct, "coefficients directly");
    R H = 1, h_ = exact(h);
    double known = 0;
    vector<double> magnitude;
    for (int i = 0; i < n; ++i) {
        if (i + degree < 2 * k) { // quadrature is exact
            R want = coefficient(p, i), two = 1;
            // cs[i] (2h)^i P_i(2t-1)
            R got = exact(cs[i]) * H;
            m.within(fabs(dbl(got - want)), rounding * (2 * i + 1), (string("Legendre coefficients ") + nameOf<S>()).c_str(), [&] { return fmt("coefficient %d is %.17g instead of %.17g", i, dbl(got), dbl(want)); });
        }
        magnitude.push_back(fabs(dbl(exact(cs[i]) * H)));
        H *= 2 * h_;
    }
    R integral = 0;
    for (size_t j = 0; j < p.c.size(); j += 2) integral += R(p.c[j]) * 2 / (R) (j + 1) * h_;
    m.within(fabs(dbl((exact(l.integrate()) - integral) / h_)), 2 * rounding, (string("integral ") + nameOf<S>()).c_str(), [&] { return fmt("%.17g instead of %.17g", (double) l.integrate(), dbl(integral)); });
    if constexpr (n <= 16) if (degree < n) {
        auto q = l.asPolynomial();
        for (int t = 0; t < 6; ++t) {
            S x = t == 0 ? S(0) : t == 1 ? S(1) : randomIn<S>(r, 0, 1);
            // what cancels: the monomials of the shifted Legendre polynomials
            double bound = 0;
            for (int i = 0; i < n; ++i) {
                double terms = 0;
                for (int j = 0; j <= i; ++j) {
                    double c = 1; // binomial(i,j) binomial(i+j,j)
                    for (int z = 1; z <= j; ++z) c *= (i - z + 1.) / z;
                    for (int z = 1; z <= j; ++z) c *= (i + z + 0.) / z;
                    terms += c * pow((double) x, j);
                }
                bound += terms * (magnitude[i] * 8 * e + (2 * i + 1) * rounding);
            }
            m.within(fabs(dbl(exact(q(x)) - p(R(2 * exact(x) - 1)))), bound, (string("as polynomial ") + nameOf<S>()).c_str(), [&] { return fmt("at %.17g", (double) x); });
        }
    }
    // matrices have the coefficients of their elements
    if constexpr (!is_same<S, Q>::value) {
        double g = r.U(-2, 2);
        typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> M;
        legendre::Legendre<S, n, M> lm([&](const S &x) -> M {
            M v(2, 3);
            v << f(x), S(g) * f(x), S(1), S(0), -f(x), S(2) * f(x);
            return v;
        }, a, b);
        auto &cm = lm.getCoefficients();
        S hp = 1;
        for (int i = 0; i < n; ++i) {
            double d = 0;
            M want(2, 3);
            want << cs[i], S(g) * cs[i], S(i == 0 ? 1 : 0), S(0), -cs[i], S(2) * cs[i];
            m.check(cm[i].rows() == 2 && cm[i].cols() == 3, "size of the coefficients of a matrix");
            d = (double) (((cm[i] - want) * hp).cwiseAbs().maxCoeff());
            m.within(d, 200 * e * (1 + size) * pow(2., -i) * (2 * i + 1), "coefficients of a matrix", [&] { return fmt("coefficient %d", i); });
            hp *= h;
        }
    }
    m.seen(fmt("Legendre %s n=%d", nameOf<S>(), n));
    m.distinct(fmt("Legendre %s %d %d", nameOf<S>(), n, degree));
}

template<typename S, int n>
struct Exact { // a polynomial of the library and its coefficients
    Polynomial<S, n> p;
    vector<R> c;

    Exact(Rng &r) : c(n + 1) {
        for (int i = 0; i <= n; ++i) {
            p[i] = r.P(.15) ? S(0) : randomIn<S>(r, -3, 3);
            c[i] = exact(p[i]);
        }
    }
};

static R value(const vector<R> &c, const R &x, double &size) {
    R v = 0, power = 1;
    size = 0;
    for (auto &t: c) {
        v += t * power;
        size += fabs(dbl(t * power));
        power *= x;
    }
    return v;
}

static vector<R> derived(vector<R> c, int d) {
    for (; d; --d) {
        vector<R> n;
        for (size_t i = 1; i < c.size(); ++i) n.push_back(c[i] * (R) i);
        c = n;
    }
    return c;
}

template<typename S, int n>
void polynomialIs(Mon &m, const Polynomial<S, n> &p, const vector<R> &c, const S &x, const char *what) {
    m.check(p.size() == n + 1 && (int) c.size() <= n + 1, "degree", [&] { return fmt("%s %zu of %d", what, c.size(), n); });
    double size;
    R want = value(c, exact(x), size);
    string oracle = string(what) + " " + nameOf<S>();
    m.within(fabs(dbl(exact(p(x)) - want)), eps<S>() * (8 + 4 * n) * size + 1e-300, oracle.c_str(), [&] { return fmt("at %.17g: %.17g instead of %.17g", (double) x, (double) p(x), dbl(want)); });
    double all = 0;
    for (auto &t: c) all = max(all, fabs(dbl(t)));
    for (int i = 0; i <= n; ++i)
        m.within(fabs(dbl(exact(p[i]) - (i < (int) c.size() ? c[i] : R(0)))), eps<S>() * 8 * (1 + n) * all, (oracle + " coefficients").c_str(), [&] { return fmt("coefficient %d: %.17g", i, (double) p[i]); });
}

template<typename S, int n, int d>
void derivatives(Mon &m, const Exact<S, n> &a, const S &x) {
    if constexpr (d <= n) polynomialIs<S, n - d>(m, a.p.template derivative<d>(), derived(a.c, d), x, "derivative");
    double size;
    R want = value(derived(a.c, d), exact(x), size);
    m.within(fabs(dbl(exact(a.p.template derivative<d>(x)) - want)), eps<S>() * (8 + 4 * n) * size + 1e-300, (string("derivative at a point ") + nameOf<S>()).c_str(), [&] { return fmt("order %d at %.17g", d, (double) x); });
    if constexpr (d < 4) derivatives<S, n, d + 1>(m, a, x);
}

template<typename S, int np, int nq>
void polynomials(Rng &r, Mon &m) {
    Exact<S, np> a(r);
    Exact<S, nq> b(r);
    S x = r.P(.1) ? S(0) : r.P(.1) ? S(r.S()) : randomIn<S>(r, -2, 2), v = randomIn<S>(r, -3, 3);
    if (v == S(0)) v = S(1);
    R v_ = exact(v);
    m.describe(fmt("polynomials<%s> of degree %d and %d at %.17g", nameOf<S>(), np, nq, (double) x));
    polynomialIs<S, np>(m, a.p, a.c, x, "value");
    auto plus = [](vector<R> x, const vector<R> &y, int sign) {
        x.resize(max(x.size(), y.size()), R(0));
        for (size_t i = 0; i < y.size(); ++i) x[i] += sign * y[i];
        return x;
    };
    auto times = [](vector<R> x, const R &f) {
        for (auto &t: x) t *= f;
        return x;
    };
    polynomialIs<S, max(np, nq)>(m, a.p + b.p, plus(a.c, b.c, 1), x, "sum");
    polynomialIs<S, max(np, nq)>(m, a.p - b.p, plus(a.c, b.c, -1), x, "difference");
    vector<R> product(np + nq + 1, R(0));
    for (int i = 0; i <= np; ++i) for (int j = 0; j <= nq; ++j) product[i + j] += a.c[i] * b.c[j];
    {
        auto p = a.p * b.p;
        double size = 0, sizes = 0, dummy;
        R xa = abs(exact(x));
        vector<R> ca, cb;
        for (auto &t: a.c) ca.push_back(abs(t));
        for (auto &t: b.c) cb.push_back(abs(t));
        sizes = dbl(value(ca, xa, dummy) * value(cb, xa, dummy));
        R want = value(product, exact(x), size);
        m.within(fabs(dbl(exact(p(x)) - want)), eps<S>() * (8 + 4 * (np + nq)) * sizes + 1e-300, (string("product ") + nameOf<S>()).c_str(), [&] { return fmt("at %.17g", (double) x); });
        m.check(p.size() == np + nq + 1, "degree");
    }
    if constexpr (nq <= np) {
        auto s = a.p, t = a.p;
        s += b.p;
        t -= b.p;
        polynomialIs<S, np>(m, s, plus(a.c, b.c, 1), x, "+=");
        polynomialIs<S, np>(m, t, plus(a.c, b.c, -1), x, "-=");
        Polynomial<S, np> wide(b.p);
        polynomialIs<S, np>(m, wide, b.c, x, "conversion");
    }
    vector<R> shifted = a.c, lowered = a.c;
    shifted[0] += v_;
    lowered[0] -= v_;
    polynomialIs<S, np>(m, a.p + v, shifted, x, "+ number");
    polynomialIs<S, np>(m, v + a.p, shifted, x, "number +");
    polynomialIs<S, np>(m, a.p - v, lowered, x, "- number");
    polynomialIs<S, np>(m, v - a.p, times(lowered, R(-1)), x, "number -");
    polynomialIs<S, np>(m, a.p * v, times(a.c, v_), x, "* number");
    polynomialIs<S, np>(m, v * a.p, times(a.c, v_), x, "number *");
    polynomialIs<S, np>(m, a.p / v, times(a.c, 1 / v_), x, "/ number");
    polynomialIs<S, np>(m, -a.p, times(a.c, R(-1)), x, "negative");
    polynomialIs<S, np>(m, +a.p, a.c, x, "positive");
    {
        auto s = a.p;
        s += v, s *= v, s -= v, s /= v;
        auto c = times(shifted, v_);
        c[0] -= v_;
        c = times(c, 1 / v_);
        for (int i = 0; i <= np; ++i)
            m.within(fabs(dbl(exact(s[i]) - c[i])), eps<S>() * 10 * (fabs(dbl(a.c[i])) + (i ? 0 : fabs((double) v) + 1)), "in place", [&] { return fmt("coefficient %d", i); });
    }
    vector<R> in{0};
    for (int i = 0; i <= np; ++i) in.push_back(a.c[i] / (i + 1));
    polynomialIs<S, np + 1>(m, a.p.integral(), in, x, "integral of a polynomial");
    double size;
    R want = value(in, exact(x), size);
    m.within(fabs(dbl(exact(a.p.integral(x)) - want)), eps<S>() * (8 + 4 * np) * size + 1e-300, (string("integral up to a point ") + nameOf<S>()).c_str(), [&] { return fmt("at %.17g", (double) x); });
    derivatives<S, np, 0>(m, a, x);
    // comparisons
    auto same = a.p;
    m.check(same == a.p && !(same != a.p), "equal polynomials");
    int which = r.I(0, np);
    same[which] += S(1);
    m.check(same != a.p && !(same == a.p), "other polynomials", [&] { return fmt("coefficient %d", which); });
    Polynomial<S, np> zero, constant(v);
    vector<R> none{0}, one{v_};
    polynomialIs<S, np>(m, zero, none, x, "zero");
    polynomialIs<S, np>(m, constant, one, x, "constant");
    m.seen(fmt("polynomials %s %d %d", nameOf<S>(), np, nq));
    m.distinct(fmt("polynomials %s %d %d", nameOf<S>(), np, nq) + to_string((int) (4 * (double) x)));
}

// Vectors with derivatives and the matrices that act on them
template<typename S>
void vectors(Rng &r, Mon &m) {
    auto rnd = [&] { return randomIn<S>(r, -2, 2); };
    T<S> t;
    S x = rnd(), y = rnd(), z = rnd() + S(3), dx = rnd(), dy = rnd(), dz = rnd();
    // determinant one, for all E
    t.t << z, x, y, (S(1) + x * y) / z;
    t.dt << dz, dx, dy, (dx * y + x * dy) / z - (S(1) + x * y) * dz / (z * z);
    Y<S, 1, 2> v;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 2; ++j) v.data(i, j) = rnd();
    m.describe(fmt("vectors %s", nameOf<S>()));
    auto size = [](const auto &M) { return (double) M.cwiseAbs().maxCoeff(); };
    double e = eps<S>() * 3000;
    auto back = t / (t * v), forth = t * (t / v);
    m.within(max(size((back.data - v.data).eval()), size((forth.data - v.data).eval())), e * 100, "T and its inverse", [&] { return string(nameOf<S>()); });
    // the same through the derivative to E, by the product rule
    auto w = t * v;
    for (int j = 0; j < 2; ++j) {
        S u = t.t(0, 0) * v.data(0, j) + t.t(0, 1) * v.data(1, j), up = t.t(1, 0) * v.data(0, j) + t.t(1, 1) * v.data(1, j);
        S du = t.t(0, 0) * v.data(2, j) + t.t(0, 1) * v.data(3, j) + t.dt(0, 0) * v.data(0, j) + t.dt(0, 1) * v.data(1, j);
        S dup = t.t(1, 0) * v.data(2, j) + t.t(1, 1) * v.data(3, j) + t.dt(1, 0) * v.data(0, j) + t.dt(1, 1) * v.data(1, j);
        Eigen::Matrix<S, 4, 1> want;
        want << u, up, du, dup;
        m.within(size((w.data.col(j) - want).eval()), e, "T times Y", [&] { return fmt("column %d", j); });
        Y<S, 1, 1> c = v.col(j);
        m.check((c.data - v.data.col(j)).isZero(0) && c.cols() == 1, "column");
        S a = atan_safe<S>(c.data(0, 0), c.data(1, 0)), s = sin(a), k = cos(a);
        S scale = sqrt(c.data(0, 0) * c.data(0, 0) + c.data(1, 0) * c.data(1, 0));
        m.check(a <= constants<S>::PI / 2 && a > -constants<S>::PI / 2, "angle in range");
        m.within((double) abs((s * c.data(1, 0) - k * c.data(0, 0)) / scale), e, "angle", [&] { return fmt("(%.17g, %.17g)", (double) c.data(0, 0), (double) c.data(1, 0)); });
    }
    S f = rnd();
    Y<S, 1, 2> g = v;
    g *= f;
    m.check(g == v * f && (-v).data == (v.data * S(-1)).eval() && v == v && !(v != v) && g.cols() == 2 && g.dimension() == 1, "numbers");
    g = v;
    g.reverse();
    bool ok = true;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 2; ++j) ok = ok && g.data(i, j) == (i % 2 ? -v.data(i, j) : v.data(i, j));
    m.check(ok, "reverse");
    Eigen::Matrix<S, 2, 2> M;
    M << rnd(), rnd(), rnd(), rnd();
    g = v;
    g *= M;
    m.within(size((g.data - v.data * M).eval()), e, "columns combined", "");
    auto D = Y<S>::Dirichlet(), N = Y<S>::Neumann();
    m.check(D.data(0, 0) == 0 && D.data(1, 0) == 1 && D.data(2, 0) == 0 && D.data(3, 0) == 0 && N.data(0, 0) == 1 && N.data(1, 0) == 0 && N.data(2, 0) == 0 && N.data(3, 0) == 0, "Dirichlet and Neumann");
    // blocks
    if constexpr (!is_same<S, Q>::value) {
        int n = r.I(1, 4);
        T<S, Eigen::Dynamic> b(n);
        m.check(b.t.isIdentity(0) && b.dt.isZero(0), "identity");
        for (int i = 0; i < 2 * n; ++i) for (int j = 0; j < 2 * n; ++j) b.t(i, j) = rnd() / S(4 * n) + (i == j ? S(2) : S(0)), b.dt(i, j) = rnd();
        Y<S, Eigen::Dynamic> u(n);
        for (int i = 0; i < 4 * n; ++i) for (int j = 0; j < n; ++j) u.data(i, j) = rnd();
        Y<S, Eigen::Dynamic> bu = b * u, there = b / bu;
        m.within(size((there.data - u.data).eval()), e * 100, "block T and its inverse", "");
        m.within(size((bu.ydE() - b.t * u.ydE() - b.dt * u.y()).eval()), e, "block T times Y", "");
        for (int d = 0; d < 4; ++d) m.check(u.block((YDiff) d) == u.data.middleRows(d * n, n), "blocks");
        m.check(u.dimension() == n && u.cols() == n, "dimensions");
        auto Dn = Y<S, Eigen::Dynamic>::Dirichlet(n), Nn = Y<S, Eigen::Dynamic>::Neumann(n);
        m.check(Dn.block(dX).isIdentity(0) && Dn.block(None).isZero(0) && Dn.ydE().isZero(0) && Nn.block(None).isIdentity(0) && Nn.block(dX).isZero(0) && Nn.ydE().isZero(0), "Dirichlet and Neumann blocks");
    }
    // horner
    vector<S> c(r.I(1, 12));
    vector<R> cr;
    for (auto &t: c) t = rnd(), cr.push_back(exact(t));
    double sz;
    S at = rnd();
    R want = value(cr, exact(at), sz);
    m.within(fabs(dbl(exact(horner<S>(c, at, (int) c.size())) - want)), eps<S>() * 50 * sz, "horner", "");
    m.seen(string("vectors ") + nameOf<S>());
    m.distinct(fmt("vectors %s %zu", nameOf<S>(), c.size()));
}

// A sector is found by a point
static void sectors(Rng &r, Mon &m) {
    int n = r.P(.2) ? 1 : r.I(2, 60);
    double a = r.U(-5, 5), b = a + r.L(1e-3, 30);
    m.describe(fmt("find_sector on [%.17g,%.17g] with %d", a, b, n));
    Matslise<> ms([](double x) { return x * x; }, a, b, 1e-5, sector_builder::UniformSectorBuilder<Matslise<>>(n));
    for (int k = 0; k < 20; ++k) {
        double x = k == 0 ? a : k == 1 ? b : r.P(.3) ? ms.sectors[r.I(0, n - 1)]->max : r.P(.2) ? nextafter(ms.sectors[r.I(0, n - 1)]->max, r.S() * 1e300) : r.U(a, b);
        if (r.P(.2)) x = r.P(.5) ? b + r.L(1e-12, 10) : a - r.L(1e-12, 10);
        int i = find_sector(&ms, x);
        bool in = ms.sectors.front()->min <= x && x <= ms.sectors.back()->max;
        m.check(in ? i >= 0 && i < n && ms.sectors[i]->min <= x && x <= ms.sectors[i]->max : i == -1, "sector of a point", [&] { return fmt("%.17g: %d", x, i); });
    }
    m.seen("find_sector");
    m.distinct(fmt("find %d", n));
}

template<typename S>
void one(Rng &r, Mon &m) {
    switch (r.I(0, 9)) {
        case 0: case 1: case 2:
            switch (r.I(0, 5)) {
                case 0: return eta<S, 2>(r, m);
                case 1: return eta<S, 6>(r, m);
                case 2: return eta<S, 7>(r, m);
                case 3: return eta<S, 10>(r, m);
                case 4: return eta<S, 11>(r, m);
                default: return eta<S, 9>(r, m);
            }
        case 3: case 4: case 5:
            switch (r.I(0, 9)) {
                case 0: return legendreTest<S, 1>(r, m);
                case 1: return legendreTest<S, 3>(r, m);
                case 2: return legendreTest<S, 4>(r, m);
                case 3: return legendreTest<S, 6>(r, m);
                case 4: return legendreTest<S, 8>(r, m);
                case 5: return legendreTest<S, 9>(r, m);
                case 6: return legendreTest<S, 11>(r, m);
                case 7: return legendreTest<S, 13>(r, m);
                case 8: return legendreTest<S, 18>(r, m);
                default: return legendreTest<S, 16>(r, m);
            }
        case 6: case 7: case 8:
            switch (r.I(0, 6)) {
                case 0: return polynomials<S, 0, 0>(r, m);
                case 1: return polynomials<S, 1, 4>(r, m);
                case 2: return polynomials<S, 3, 2>(r, m);
                case 3: return polynomials<S, 5, 5>(r, m);
                case 4: return polynomials<S, 9, 3>(r, m);
                case 5: return polynomials<S, 12, 0>(r, m);
                default: return polynomials<S, 7, 16>(r, m);
            }
        default: r.P(.3) ? sectors(r, m) : vectors<S>(r, m);
    }
}

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C22", [](Rng &r, Mon &m) {
        switch (r.I(0, 2)) {
            case 0: return one<double>(r, m);
            case 1: return one<long double>(r, m);
            default: return one<Q>(r, m);
        }
    });
}
