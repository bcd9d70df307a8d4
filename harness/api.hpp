// Construction of matslise objects for generated problems
#ifndef VERIF_API_HPP
#define VERIF_API_HPP

#include "gen.hpp"
#include "matslise/matslise.h"

template<typename S = double>
matslise::Y<S> makeY(double y, double dy) {
    matslise::Y<S> r;
    r.y() << S(y), S(dy);
    return r;
}

template<typename S = double>
matslise::Y<S> makeY(const gen::BC &b) { return makeY<S>(b.y, b.dy); }

template<typename S = double>
std::function<S(S)> potential(const gen::Potential &v) {
    return [v](S x) { return v(x); };
}

template<typename S = double>
std::unique_ptr<matslise::Matslise<S>> makeMatslise(const gen::Problem &p) {
    using namespace matslise;
    if (p.jumps.empty())
        return std::make_unique<Matslise<S>>(potential<S>(p.V), S(p.a), S(p.b), S(p.tol));
    sector_builder::AutomaticSectorBuilder<Matslise<S>> sb((S(p.tol)));
    for (double j: p.jumps) sb.jumps.push_back(S(j));
    return std::make_unique<Matslise<S>>(potential<S>(p.V), S(p.a), S(p.b), S(p.tol), sb);
}

#endif
