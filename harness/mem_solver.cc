// All configurations of one solver (-DSOLVER=name), registered in the table of mem.cc.
#include <chdr.hpp>
#include "mem.h"
using namespace chdr;
using S = uint32_t;
#define STR2(x) #x
#define STR(x) STR2(x)

template<typename maze_t, typename W, typename C, bool LAZY, bool NOCLEAN, bool REV, bool OCT>
struct P {
    using weight_type = W; using scalar_type = S; using index_type = uint32_t; using coord_type = C;
    using lazy_sorting = std::bool_constant<LAZY>; using no_cleanup = std::bool_constant<NOCLEAN>;
    using reverse_equivalence = std::bool_constant<REV>; using octile_neighbours = std::bool_constant<OCT>;
    const maze_t& maze; const C start, end, size;
    S (*h)(const C&, const C&) noexcept;
    Any* monotonic_pmr; Any* heterogeneous_pmr; Any* homogeneous_pmr;
    const S weight; const size_t capacity; const size_t memory_limit;
};
namespace {
template<typename C> S zero_h(const C&, const C&) noexcept { return 0; }

template<bool LAZY, bool NOCLEAN, bool REV, bool OCT, typename W, typename M>
void run(const Inst& in, Any* a, Any* b, Any* c, std::vector<long long>& path) {
    using C = coord<uint32_t, 2>;
    using PP = P<M, W, C, LAZY, NOCLEAN, REV, OCT>;
    S (*h)(const C&, const C&) noexcept = in.hid == 0 ? &zero_h<C> : in.hid == 1 ? &heuristics::manhattan_distance<S, C> : &heuristics::chebyshev_distance<S, C>;
    const C sz{ in.size[0], in.size[1] };
    const PP p { *static_cast<const M*>(in.maze[std::is_same_v<W, uint8_t>]), C{ in.start[0], in.start[1] }, C{ in.end[0], in.end[1] }, sz, h, a, b, c, 1, in.capacity, in.limit };
    const auto r = solvers::solver<solvers::SOLVER, PP>::solve(p);
    harness_region(true);
    for (auto& x : r) path.push_back(x[0] < sz[0] && x[1] < sz[1] ? (long long)x[0] + (long long)x[1] * sz[0] : -1);
    harness_region(false);
}
template<bool LAZY, bool REV, bool OCT, typename W, typename M> void add(char cfg) {
    entries().push_back({ STR(SOLVER), cfg, true,  &run<LAZY, false, REV, OCT, W, M> });
    entries().push_back({ STR(SOLVER), cfg, false, &run<LAZY, true,  REV, OCT, W, M> });
}
using C2 = coord<uint32_t, 2>;
const int reg = [] {
#ifdef JPS
    add<false, true,  true, bool,    mazes::grid<C2, bool>>('b');
    add<true,  false, true, uint8_t, mazes::grid<C2, uint8_t>>('l');
#else
    add<false, true,  false, bool,    mazes::grid<C2, bool>>('b');
    add<true,  false, true,  uint8_t, mazes::grid<C2, uint8_t>>('l');
#ifndef NOGRAPH
    add<false, true,  false, S,       mazes::graph<uint32_t, S>>('g');
#endif
#endif
    return 0;
}();
}
