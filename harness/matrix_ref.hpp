// Reference for coupled systems Y'' = (V(x) - E) Y with symmetric V, plus generators of such problems.
#ifndef VERIF_MATRIX_REF_HPP
#define VERIF_MATRIX_REF_HPP

#include "gen.hpp"
#include <complex>

namespace ref {
    typedef Eigen::MatrixXd MatX;
    typedef Eigen::Matrix<long double, -1, -1> MatL;

    struct MState { // Y, Y' and their derivatives to E
        MatL u, up, ue, upe;
    };

    struct MatrixPotential {
        std::vector<std::pair<MatX, gen::Potential>> terms;

        template<typename T>
        Eigen::Matrix<T, -1, -1> operator()(const T &x) const {
            Eigen::Matrix<T, -1, -1> r = Eigen::Matrix<T, -1, -1>::Zero(terms[0].first.rows(), terms[0].first.rows());
            for (auto &t: terms) r += t.first.cast<T>() * t.second(x);
            return r;
        }

        std::string str() const {
            std::string s;
            for (auto &t: terms) {
                s += "[";
                for (int i = 0; i < t.first.rows(); ++i)
                    for (int j = 0; j <= i; ++j) s += fmt("%.17g ", t.first(i, j));
                s += "]*(" + t.second.str() + ") ";
            }
            return s;
        }
    };

    struct MatrixSchrodinger {
        MatrixPotential V;
        int n;
        long double len;
        int base = 24;
        std::vector<long double> breaks; // sorted

        void step(long double E, long double x0, long double h, MState &y) const {
            const auto &g = Gauss<long double>::get();
            const int s = g.s;
            std::vector<MatL> Q(s);
            MatL M = MatL::Identity(s * n, s * n), R(s * n, y.u.cols());
            for (int i = 0; i < s; ++i) {
                Q[i] = V(x0 + g.c[i] * h) - E * MatL::Identity(n, n);
                for (int j = 0; j < s; ++j) M.block(i * n, j * n, n, n) -= h * h * g.Abar[i * s + j] * Q[i];
                R.middleRows(i * n, n) = Q[i] * (y.u + g.c[i] * h * y.up);
            }
            Eigen::PartialPivLU<MatL> lu(M);
            MatL F = lu.solve(R);
            for (int i = 0; i < s; ++i) {
                MatL ui = y.u + g.c[i] * h * y.up;
                for (int j = 0; j < s; ++j) ui += h * h * g.Abar[i * s + j] * F.middleRows(j * n, n);
                R.middleRows(i * n, n) = Q[i] * (y.ue + g.c[i] * h * y.upe) - ui;
            }
            MatL Fe = lu.solve(R);
            y.u += h * y.up;
            y.ue += h * y.upe;
            for (int j = 0; j < s; ++j) {
                y.u += h * h * g.bbar[j] * F.middleRows(j * n, n);
                y.up += h * g.b[j] * F.middleRows(j * n, n);
                y.ue += h * h * g.bbar[j] * Fe.middleRows(j * n, n);
                y.upe += h * g.b[j] * Fe.middleRows(j * n, n);
            }
        }

        long double norm(long double E, long double x) const {
            return (V(x) - E * MatL::Identity(n, n)).norm();
        }

        // |step| <= phase / sqrt(max norm)
        template<typename Visit>
        void propagate(long double E, long double from, long double to, MState &y, long double phase, Visit visit) const {
            std::vector<long double> cuts;
            for (auto &b: breaks) if ((b - from) * (b - to) < 0) cuts.push_back(b);
            if (from > to) std::reverse(cuts.begin(), cuts.end());
            cuts.push_back(to);
            long double x = from;
            for (auto &cut: cuts)
                while (x != cut) {
                    long double rem = fabsl(cut - x), dir = cut > x ? 1 : -1, h = std::min(len / base, rem);
                    for (int it = 0; it < 60; ++it) {
                        long double m = 0;
                        for (int i = 0; i <= 3; ++i)
                            m = std::max(m, norm(E, x + dir * h * (i == 0 ? .001L : i == 3 ? .999L : i / 3.L)));
                        if (h * sqrtl(m) <= phase) break;
                        h *= .7L;
                    }
                    long double nx = h >= rem * .999L ? cut : x + dir * h;
                    step(E, x, nx - x, y);
                    x = nx;
                    visit(x, y);
                }
        }

        // arg det (U' + i w U) in (-pi, pi]
        static long double argdet(const MState &y, long double w) {
            Eigen::Matrix<std::complex<long double>, -1, -1> m = y.up.cast<std::complex<long double>>() +
                                                                 std::complex<long double>(0, w) * y.u.cast<std::complex<long double>>();
            return std::arg(m.determinant());
        }

        // angles of the eigenvalues of (U'+iwU)(U'-iwU)^-1 in [0, 2pi)
        static std::vector<long double> angles(const MState &y, long double w) {
            typedef Eigen::Matrix<std::complex<double>, -1, -1> MC;
            MC p = y.up.cast<std::complex<double>>() + std::complex<double>(0, (double) w) * y.u.cast<std::complex<double>>();
            MC q = y.up.cast<std::complex<double>>() - std::complex<double>(0, (double) w) * y.u.cast<std::complex<double>>();
            MC th = q.transpose().fullPivLu().solve(p.transpose()).transpose();
            Eigen::ComplexEigenSolver<MC> es(th, false);
            std::vector<long double> r;
            for (int i = 0; i < th.rows(); ++i) {
                long double a = std::arg(es.eigenvalues()[i]);
                r.push_back(a < 0 ? a + 2 * M_PIl : a);
            }
            return r;
        }
    };

    // log of the growth
    inline double growth(const MatrixPotential &V, double a, double b, double E) {
        double g = 0;
        for (int i = 0; i < 100; ++i) {
            Eigen::SelfAdjointEigenSolver<MatX> es(V(a + (b - a) * (i + .5) / 100), Eigen::EigenvaluesOnly);
            double d = es.eigenvalues().maxCoeff() - E;
            if (d > 0) g += sqrt(d);
        }
        return g * (b - a) / 100;
    }
}
#endif
