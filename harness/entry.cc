// Sends requests to the entry point of the solvers with a stand-in algorithm and stand-in memory pools, and prints
// what the entry point did with them.
//
// Input:  id maze rank size*k cells start*k end*k form nocleanup algo pools
//   maze: c grid, b byte grid, g graph (its nodes are the open cells)
//   form: c const object, m mutable object, l list of arguments, o/p/q the same by operator()
//   algo: ok or throw;  pools: three letters for monotonic, heterogeneous and homogeneous:
//   k resets, t reset throws, n null pointer, h no reset() is visible
// Output: R id log outcome      log: events joined by ',' (run, r0, r1, r2) or '-'; outcome: path of indices or exception
#include <chdr.hpp>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
using namespace chdr;
using S = uint32_t;

static std::string g_events, g_algo;
static void event(const std::string& e) { if (!g_events.empty()) g_events += ','; g_events += e; }

struct Boom { std::string what; };
struct HiddenPool { int id; };
struct Pool { int id; bool fails; void reset() { event("r" + std::to_string(id)); if (fails) throw Boom { "r" + std::to_string(id) }; } };

template<typename maze_t, typename C, bool NOCLEAN, typename A, typename B, typename D>
struct P {
    using weight_type = bool; using scalar_type = S; using index_type = uint32_t; using coord_type = C;
    using lazy_sorting = std::false_type; using no_cleanup = std::bool_constant<NOCLEAN>;
    using reverse_equivalence = std::true_type; using octile_neighbours = std::false_type;
    const maze_t& maze; const C start, end, size;
    S (*h)(const C&, const C&) noexcept;
    A* monotonic_pmr; B* heterogeneous_pmr; D* homogeneous_pmr;
    const S weight; const size_t capacity; const size_t memory_limit;
};
template<typename params_t> struct stub {
    static std::vector<typename params_t::coord_type> invoke(const params_t& p) {
        event("run");
        if (g_algo == "throw") throw Boom { "algo" };
        return { p.end, p.start, p.end };
    }
};
template<typename C> S zero_h(const C&, const C&) noexcept { return 0; }

template<typename C, typename M, bool NC, typename A, typename B, typename D>
void run(const std::string& id, const M& m, C sz, C s, C e, char form, A* a, B* b, D* d) {
    using PP = P<M, C, NC, A, B, D>;
    using SV = solvers::solver<stub, PP>;
    g_events.clear();
    std::string out;
    printf("B %s\n", id.c_str()); fflush(stdout);
    try {
        std::vector<C> r;
        const PP cp { m, s, e, sz, &zero_h<C>, a, b, d, 1, 0, 100 };
        PP mp { m, s, e, sz, &zero_h<C>, a, b, d, 1, 0, 100 };
        const S w = 1; const size_t cap = 0, lim = 100; S (*h)(const C&, const C&) noexcept = &zero_h<C>;
        SV sv;
        switch (form) {
            case 'c': r = SV::solve(cp); break;
            case 'm': r = SV::solve(mp); break;
            case 'l': r = SV::solve(m, s, e, sz, h, a, b, d, w, cap, lim); break;
            case 'o': r = sv(cp); break;
            case 'p': r = sv(mp); break;
            case 'q': r = sv(m, s, e, sz, h, a, b, d, w, cap, lim); break;
        }
        out = "P ";
        for (size_t k = 0; k < r.size(); ++k) {
            long long idx = 0, f = 1;
            for (size_t i = 0; i < sz.size(); ++i) { idx += f * r[k][i]; f *= sz[i]; }
            if (k) out += ',';
            out += std::to_string(idx);
        }
    }
    catch (const Boom& x) { out = "X " + x.what; }
    catch (const std::exception& x) { out = std::string("X std:") + x.what(); }
    printf("R %s %s %s\n", id.c_str(), g_events.empty() ? "-" : g_events.c_str(), out.c_str());
    fflush(stdout);
}

template<typename F> void with_pool(char c, int id, F f) {
    if (c == 'h') { HiddenPool p { id }; f(&p); }
    else { Pool p { id, c == 't' }; f(c == 'n' ? (Pool*) nullptr : &p); }
}

template<size_t K> void go(std::istringstream& is, const std::string& id, char maze) {
    using C = coord<uint32_t, K>;
    C sz, s, e; std::string cells, pools; char form; int nc;
    for (auto& x : sz) is >> x;
    is >> cells;
    for (auto& x : s)  is >> x;
    for (auto& x : e)  is >> x;
    is >> form >> nc >> g_algo >> pools;
    auto all = [&](const auto& m) {
        using M = std::decay_t<decltype(m)>;
        with_pool(pools[0], 0, [&](auto* a) { with_pool(pools[1], 1, [&](auto* b) { with_pool(pools[2], 2, [&](auto* d) {
            using A = std::decay_t<decltype(*a)>; using B = std::decay_t<decltype(*b)>; using D = std::decay_t<decltype(*d)>;
            if (nc) run<C, M, true,  A, B, D>(id, m, sz, s, e, form, a, b, d);
            else    run<C, M, false, A, B, D>(id, m, sz, s, e, form, a, b, d);
        }); }); });
    };
    if (maze == 'c') { std::vector<bool> v; for (char c : cells) v.push_back(c == '1'); mazes::grid<C, bool> m(sz, v); all(m); }
    if (maze == 'b') { std::vector<uint8_t> v; for (char c : cells) v.push_back(c == '1' ? 255 : 3); mazes::grid<C, uint8_t> m(sz, v); all(m); }
    if (maze == 'g') { mazes::graph<uint32_t, S> m; for (size_t i = 0; i < cells.size(); ++i) if (cells[i] == '0') m.add(i); all(m); }
}

int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l); std::string id; char maze; int k;
        is >> id >> maze >> k;
        switch (k) { case 1: go<1>(is, id, maze); break; case 2: go<2>(is, id, maze); break; case 3: go<3>(is, id, maze); break; }
    }
}
