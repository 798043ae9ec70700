// Runs one CHDR solver (-DSOLVER=name) on many instances, and prints what it returned.
//
// Input, one instance per line:  id cfgs kind k size*k start*k end*k cells limit hid weight
//   kind: 'c' cells is a string of 0 (open) / 1 (blocked), index order (first axis fastest)
//         'g' cells is "-" or a comma separated list of undirected edges u:v:w
//   cfgs: letters, each a compile-time configuration (see run_cfg)
//   hid:  0 zero heuristic, 1 manhattan, 2 chebyshev
// Output, one line per (instance, cfg), preceded by a line "B id cfg":
//   R id cfg P i,i,i...    the path, as indices computed here (-1: coordinate outside of the maze)
//   R id cfg X what        an exception
// With -DGUARD the pools are ones that take every block from the heap and give it back at once (so that the address
// sanitizer sees every use of a block after its end), and that abort when given what they did not hand out.
#include <chdr.hpp>
#include <cstdio>
#include <map>
#include <new>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <csignal>
using namespace chdr;

#ifdef GUARD
struct Guard : std::pmr::memory_resource {
    std::map<void*, std::pair<size_t, size_t>> live;
    void reset() { for (auto& x : live) ::operator delete(x.first, std::align_val_t(x.second.second)); live.clear(); }
    void* do_allocate(size_t b, size_t a) override {
        if (b == 0) return nullptr;
        void* p = ::operator new(b, std::align_val_t(a)); live.emplace(p, std::make_pair(b, a)); return p;
    }
    void do_deallocate(void* p, size_t b, size_t a) override {
        if (b == 0) return;
        const auto it = live.find(p);
        if (it == live.end() || it->second != std::make_pair(b, a)) { fprintf(stderr, "ERROR: a block of %zu bytes is returned that was not handed out\n", b); abort(); }
        live.erase(it); ::operator delete(p, std::align_val_t(a));
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
    ~Guard() override { reset(); }
};
using Mono = Guard; using Het = Guard; using Hom = Guard;
#else
using Mono = monotonic_pool<>; using Het = heterogeneous_pool<>; using Hom = homogeneous_pool<>;
#endif

template<typename maze_t, typename W, typename C, typename S, typename I, bool LAZY, bool NOCLEAN, bool REV, bool OCT>
struct P {
    using weight_type = W; using scalar_type = S; using index_type = I; using coord_type = C;
    using lazy_sorting = std::bool_constant<LAZY>; using no_cleanup = std::bool_constant<NOCLEAN>;
    using reverse_equivalence = std::bool_constant<REV>; using octile_neighbours = std::bool_constant<OCT>;
    const maze_t& maze; const C start, end, size;
    S (*h)(const C&, const C&) noexcept;
    Mono* monotonic_pmr; Het* heterogeneous_pmr; Hom* homogeneous_pmr;
    const S weight; const size_t capacity; const size_t memory_limit;
};
template<typename S, typename C> S zero_h(const C&, const C&) noexcept { return 0; }

struct Inst { std::string id, cells; char kind; size_t lim; int hid; unsigned weight; };
static int g_alarm = 20;
static size_t g_capacity = 0;

template<bool LAZY, bool REV, bool OCT, typename W, typename S = uint32_t, typename I = uint32_t, typename M, typename C>
void run(char cfg, const Inst& in, const M& m, C sz, C s, C e) {
    printf("B %s %c\n", in.id.c_str(), cfg); fflush(stdout);
    using PP = P<M, W, C, S, I, LAZY, false, REV, OCT>;
    Mono mono; Het het; Hom hom;
    S (*h)(const C&, const C&) noexcept = in.hid == 0 ? &zero_h<S, C> : in.hid == 1 ? &heuristics::manhattan_distance<S, C> : &heuristics::chebyshev_distance<S, C>;
    const PP p { m, s, e, sz, h, &mono, &het, &hom, static_cast<S>(in.weight), g_capacity, in.lim };
    alarm(g_alarm);
    std::string out;
    try {
        auto r = solvers::solver<solvers::SOLVER, PP>::solve(p);
        alarm(0);
        out = "P ";
        bool first = true;
        for (auto& c : r) {
            long long idx = 0, f = 1;
            for (size_t i = 0; i < c.size(); ++i) { if ((unsigned long long)c[i] >= sz[i]) idx = -1; if (idx >= 0) { idx += f * c[i]; f *= sz[i]; } }
            if (!first) out += ',';
            first = false; out += std::to_string(idx);
        }
    }
    catch (const std::exception& x) { alarm(0); out = std::string("X ") + x.what(); }
    printf("R %s %c %s\n", in.id.c_str(), cfg, out.c_str());
    fflush(stdout);
}

template<size_t K> void go(std::istringstream& is, const std::string& cfgs, Inst& in) {
    using C = coord<uint32_t, K>;
    C sz, s, e;
    for (auto& x : sz) is >> x;
    for (auto& x : s)  is >> x;
    for (auto& x : e)  is >> x;
    is >> in.cells >> in.lim >> in.hid >> in.weight;
    g_capacity = 0;
    is >> g_capacity;

    if (in.kind == 'c') {
        std::vector<bool> bits; std::vector<uint8_t> bytes;
        for (char c : in.cells) { bits.push_back(c == '1'); bytes.push_back(c == '1' ? std::numeric_limits<uint8_t>::max() : uint8_t(1)); }
        for (char cfg : cfgs) {
#define BITS(LAZY, REV, OCT)  { mazes::grid<C, bool> m(sz, bits); run<LAZY, REV, OCT, bool>(cfg, in, m, sz, s, e); }
#define BYTES(LAZY, REV, OCT) { mazes::grid<C, uint8_t> m(sz, bytes); run<LAZY, REV, OCT, uint8_t>(cfg, in, m, sz, s, e); }
#define OTHER(T, W, S, I, LAZY, REV, OCT) { using D = coord<T, K>; D z {}, a {}, b {}; \
                for (size_t i = 0; i < K; ++i) { z[i] = static_cast<T>(sz[i]); a[i] = static_cast<T>(s[i]); b[i] = static_cast<T>(e[i]); } \
                std::vector<W> ws; for (char c : in.cells) ws.push_back(c == '1' ? std::numeric_limits<W>::max() : W(0)); \
                mazes::grid<D, W> m(z, ws); run<LAZY, REV, OCT, W, S, I>(cfg, in, m, z, a, b); }
#ifdef JPS
#define ALWAYS true
#else
#define ALWAYS false
#endif
#ifndef JPS
            if (cfg == 'b') { BITS(false, true,  false) }
            if constexpr (K == 2) {
                if (cfg == 'r') { BITS(false, false, false) }
                if (cfg == 'l') { BITS(true,  true,  false) }
                if (cfg == 'p') { BITS(false, false, true) }
            }
            if constexpr (K == 3) { if (cfg == 'r') { BYTES(false, false, false) } }
            if constexpr (K == 2 || K == 3) {
                if (cfg == 'w') { BYTES(false, true, false) }
            }
#endif
            if constexpr (K == 2 || K == 3) {
                if (cfg == 'o') { if constexpr (K == 2) { BITS(false, true,  true) }
#ifndef JPS
                  else { BITS(false, true, true) }
#endif
                }
            }
            if constexpr (K == 2) { // other types
                if (cfg == 't') OTHER(uint8_t,  bool,    float,    uint16_t, false, true,  ALWAYS)
                if (cfg == 'u') OTHER(int32_t,  bool,    int32_t,  int32_t,  false, false, true)
                if (cfg == 'v') OTHER(size_t,   int16_t, double,   uint64_t, true,  false, ALWAYS)
                if (cfg == 'y') OTHER(int16_t,  bool,    uint16_t, uint8_t,  true,  true,  true)
            }
#ifdef JPS
            if constexpr (K == 2) {
                if (cfg == 'p') { BITS(false, false, true) }
                if (cfg == 'l') { BITS(true,  true,  true) }
                if (cfg == 'w') { BYTES(false, true, true) }
            }
#endif
        }
    }
#ifndef NOGRAPH
    else if constexpr (K <= 2) {
        using S = uint32_t;
        mazes::graph<uint32_t, S> g;
        std::istringstream es(in.cells == "-" ? "" : in.cells); std::string t;
        while (std::getline(es, t, ',')) {
            unsigned u, v, w; sscanf(t.c_str(), "%u:%u:%u", &u, &v, &w);
            g.add(u); g.add(v); g.add(u, { v, w }); g.add(v, { u, w });
        }
        for (char cfg : cfgs) {
            if (cfg == 'g') run<false, true, false, S>(cfg, in, g, sz, s, e);
            if constexpr (K == 2) {
                if (cfg == 'h') run<true,  true,  false, S>(cfg, in, g, sz, s, e);
                if (cfg == 'i') run<false, false, false, S>(cfg, in, g, sz, s, e);
                if (cfg == 'x') {
                    mazes::graph<uint16_t, double> f;
                    std::istringstream es(in.cells == "-" ? "" : in.cells); std::string t;
                    while (std::getline(es, t, ',')) {
                        unsigned u, v, w; sscanf(t.c_str(), "%u:%u:%u", &u, &v, &w);
                        f.add(u); f.add(v); f.add(u, { v, w }); f.add(v, { u, w });
                    }
                    using D = coord<uint16_t, 2>;
                    const auto to = [](const C& c) { return D { static_cast<uint16_t>(c[0]), static_cast<uint16_t>(c[1]) }; };
                    run<false, true, false, double, double, uint16_t>(cfg, in, f, to(sz), to(s), to(e));
                }
            }
        }
    }
#endif
}

int main(int argc, char** argv) {
    if (argc > 1) g_alarm = atoi(argv[1]);
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l); Inst in; std::string cfgs; int k;
        is >> in.id >> cfgs >> in.kind >> k;
        switch (k) {
            case 2: go<2>(is, cfgs, in); break;
#ifndef JPS
            case 1: go<1>(is, cfgs, in); break;
            case 3: go<3>(is, cfgs, in); break;
            case 4: go<4>(is, cfgs, in); break;
            case 5: go<5>(is, cfgs, in); break;
#endif
        }
    }
}
