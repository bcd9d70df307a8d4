// Random Matscs problems
#ifndef VERIF_MATSCS_GEN_HPP
#define VERIF_MATSCS_GEN_HPP

struct MatscsProblem {
    int n, uniform = 0;
    double a, b, E, w, tE, tol, G;
    std::vector<double> jumps;
    ref::MatrixPotential V;
    ref::MatrixSchrodinger oracle;

    static ref::MatX randomSymmetric(Rng &r, int n, double amp) {
        ref::MatX S(n, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) S(i, j) = S(j, i) = r.U(-amp, amp);
        return S;
    }

    ref::MatX randomMatrix(Rng &r) const {
        ref::MatX S(n, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) S(i, j) = r.U(-1, 1);
        return S;
    }

    MatscsProblem(Rng &r, double growthMax, double tolMax = 10) {
        for (int attempt = 0;; ++attempt) {
            if (attempt > 100) Mon::skip("no problem");
            V.terms.clear();
            jumps.clear();
            n = r.P(.15) ? 1 : r.I(2, 5);
            double len = r.L(.1, 8);
            a = r.U(-3, 3);
            b = a + len;
            double amp = r.L(.3, 60);
            int k = r.I(1, 3);
            bool diag = r.P(.15);
            for (int i = 0; i < k; ++i) {
                gen::Potential f;
                switch (r.I(0, 4)) {
                    case 0: f.terms.push_back({gen::POW, 1, 0, 0}); break;
                    case 1: f.terms.push_back({gen::POW, 1 / std::pow(len / 2, 2), 2, a + len * r.U(.2, .8)}); break;
                    case 2: f.terms.push_back({gen::COS, 1, r.U(.5, 8) / len, r.U(0, 6)}); break;
                    case 3: f.terms.push_back({gen::GAUSS, 1, len * r.U(.2, .6), a + len * r.U(0, 1)}); break;
                    default:
                        if (jumps.size() < 2 && r.P(.5)) {
                            double c = a + len * r.U(.05, .95);
                            jumps.push_back(c);
                            f.terms.push_back({gen::STEP, 1, 0, c});
                        } else f.terms.push_back({gen::POW, 2 / len, 1, a + len / 2});
                }
                ref::MatX S = randomSymmetric(r, n, amp);
                if (diag) S = ref::MatX(S.diagonal().asDiagonal());
                V.terms.push_back({S, f});
            }
            std::sort(jumps.begin(), jumps.end());
            E = r.P(.2) ? r.U(-amp, amp) : r.U(-amp, 3 * amp) + r.U(0, 1) * std::pow(r.U(0, 10) / len, 2);
            G = ref::growth(V, a, b, E);
            if (G > growthMax) continue;
            tol = std::pow(10, -r.U(4, tolMax));
            double mx = 0;
            for (int i = 0; i <= 40; ++i)
                mx = std::max(mx, (V(a + len * i / 40.) - E * ref::MatX::Identity(n, n)).norm());
            w = std::max(1 / len, sqrt(mx));
            tE = std::min(len * len, len / w);
            if (mx * len * len > 3000) continue;
            if (jumps.empty() && r.P(.3)) uniform = std::max(12, (int) (len * w * r.L(2, 8)));
            break;
        }
        oracle.V = V;
        oracle.n = n;
        oracle.len = b - a;
        oracle.base = 16;
        for (double j: jumps) oracle.breaks.push_back(j);
    }

    std::string str() const {
        std::string j;
        for (double x: jumps) j += fmt("%.17g ", x);
        return fmt("n=%d [%.17g,%.17g] E=%.17g tol=%.3g uniform=%d jumps=[%s] G=%.3g w=%.3g V=", n, a, b, E, tol, uniform, j.c_str(), G, w) + V.str();
    }

    std::unique_ptr<matslise::Matscs<>> build() const {
        using namespace matslise;
        auto v = V;
        auto f = [v](double x) -> Eigen::MatrixXd { return v(x); };
        if (uniform) return std::make_unique<Matscs<>>(f, n, a, b, sector_builder::UniformSectorBuilder<Matscs<>>(uniform));
        sector_builder::AutomaticSectorBuilder<Matscs<>> sb(tol);
        sb.jumps = jumps;
        return std::make_unique<Matscs<>>(f, n, a, b, sb);
    }

    double flowTolerance(const matslise::Matscs<> &scs) const {
        double t = uniform ? 1e-6 : tol;
        return (t * 10 * scs.sectorCount + 1e-12) * std::exp(G);
    }
};

#endif
