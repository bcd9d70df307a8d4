// C19: programs of valid calls. Sanitizers, assertions of the library, Eigen and the standard library, and valgrind
// decide; every number of every answer is looked at, so that uninitialised ones are noticed.
#include "program.hpp"
#include "matslise/util/calculateEta.h"
#include "matslise/util/legendre.h"
#include "matslise/util/polynomial.h"

#ifdef __clang__ // the sanitizers use clang

#include <sanitizer/lsan_interface.h>

static int leaks() { return __lsan_do_recoverable_leak_check(); }

#else

static int leaks() { return 0; }

#endif

using namespace std;
using namespace prog;

static long look(const Answer &a) {
    long odd = 0;
    for (double v: a) {
        if (v > 0) ++odd;
        if (std::isnan(v)) odd += 3;
    }
    return odd;
}

// Two objects of which one is destroyed while the other one is still in use
static void buildingBlocks(Rng &r, Mon &m) {
    using namespace matslise;
    long odd = 0;
    for (int k = 0; k < 20; ++k) {
        double Z = r.P(.5) ? r.U(-1000, 1000) : r.S() * r.L(1e-300, 1e5);
        auto e9 = calculateEta<double, 9>(Z);
        auto e3 = calculateEta<double, 3>(Z);
        Eigen::ArrayXd zs = Eigen::ArrayXd::Random(r.I(0, 6)) * 200;
        auto es = calculateEta<double, 5>(zs);
        odd += look(Answer(e9.data(), e9.data() + 9)) + look(Answer(e3.data(), e3.data() + 3)) + look(Answer(es.data(), es.data() + es.size()));
    }
    double a = r.U(-2, 2), b = a + r.L(1e-6, 5), c = r.U(-3, 3);
    auto f = [c](double x) { return sin(c * x); };
    legendre::Legendre<double, 16> l(f, a, b);
    legendre::Legendre<double, 9> l9(f, a, b);
    legendre::Legendre<double, 1> l1(f, a, b);
    auto cs = legendre::getCoefficients<16, double>(f, a, b);
    auto p = l.asPolynomial();
    auto q = l9.asPolynomial();
    odd += look(Answer(cs.begin(), cs.end())) + look({l.integrate(), l9.integrate(), l1.integrate(), p(.3), q(.4), p.derivative(.2), p.derivative<3>(.2), p.integral(.7)});
    auto pq = p * q;
    auto s = p, d = p;
    s += q;
    s -= q;
    auto sum = p + q, dif = q - p;
    odd += look({sum(.1), dif(.2)});
    auto dp = pq.derivative<2>();
    auto ip = q.integral();
    odd += look({pq(.1), s(.1), d(.2), dp(.3), ip(.4), (2. * p)(.1), (p - 1.)(.2), (-q)(.1), (1. - q)(.1)});
    Polynomial<double, 3> lit{1, r.U(), 2};
    odd += look({lit(.5), (lit == lit) + 0., (double) lit.size()});
    legendre::Legendre<double, 4, Eigen::MatrixXd> lm([c](double x) -> Eigen::MatrixXd { return Eigen::MatrixXd::Constant(3, 3, c * x); }, a, b);
    for (auto &M: lm.getCoefficients()) for (int i = 0; i < 9; ++i) odd += look({M(i)});
    m.check(odd >= 0, "ends");
}

int main(int argc, char **argv) {
    Mon mon;
    return mon.run(argc, argv, "C19", [](Rng &r, Mon &m) {
        if (r.P(.05)) {
            m.describe("building blocks");
            buildingBlocks(r, m);
            m.seen("building blocks");
            m.check(!leaks(), "no leaks");
            return;
        }
        Factory f = randomFactory(r);
        m.describe(f.text);
        long odd = 0;
        {
            auto probe = make_shared<Probe>();
            Object o = f.build(probe);
            int n = r.I(1, 10);
            for (int i = 0; i < n; ++i) {
                Query q = o.query(r);
                m.desc = f.text + " : " + q.text;
                odd += look(q.ask());
                m.check(true, "query ends");
                string what = f.kind + " " + q.text.substr(0, q.text.find_first_of("( "));
                m.seen(what);
                m.distinct(what + f.text.substr(0, 40));
            }
            // misuse that is documented to be refused
            if (auto ms = f.kind.substr(0, 4) == "full" ? static_pointer_cast<matslise::Matslise<>>(o.keep) : nullptr) {
                double a = ms->domain.min, b = ms->domain.max;
                for (double x: {a - r.L(1e-10, 10), b + r.L(1e-10, 10)}) {
                    bool refused = false;
                    try {
                        if (r.P(.5)) ms->propagate(r.U(-10, 10), matslise::Y<>::Dirichlet(), x, r.U(a, b));
                        else ms->propagate(r.U(-10, 10), matslise::Y<>::Dirichlet(), r.U(a, b), x);
                    } catch (std::exception &) { refused = true; }
                    m.check(refused, "outside is refused");
                }
                for (int k = 0; k < 2; ++k) {
                    bool refused = false;
                    try {
                        ms->eigenvaluesByIndex(k ? -1 : 3, k ? 3 : 2, matslise::Y<>::Dirichlet(), matslise::Y<>::Dirichlet());
                    } catch (std::exception &) { refused = true; }
                    m.check(refused, "impossible indices are refused");
                }
            }
        }
        if (odd % 2) m.seen("odd");
        m.check(!leaks(), "no leaks");
    });
}
