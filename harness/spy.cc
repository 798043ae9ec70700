// Runs one CHDR solver (-DSOLVER=name) on mazes that record which cells the solver asks for the neighbours of.
//
// Input, one instance per line:  id cfgs c k size*k start*k end*k cells limit hid weight shuffle
//   or, for graphs,             id cfgs g k ... edges limit hid weight shuffle
//   as in solve.cc; shuffle: 0 keeps the order in which the grid lists neighbours, otherwise a seed for another order
// Output, one line per (instance, cfg), preceded by a line "B id cfg":
//   R id cfg T path-length truncated cell,cell,...
//   R id cfg X what
// With -DHOLD the pools are ones that count the blocks they have handed out, and the line of a search ends with
//   ... blocks of the homogeneous pool in use at every question, blocks in use at the end, most blocks in use at a time
//   (homogeneous and heterogeneous pool together)
#include <chdr.hpp>
#include <cstdio>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
using namespace chdr;
using S = uint32_t;

static std::vector<uint32_t> g_log;
static size_t g_cap = 4000;
static bool g_trunc;

#ifdef HOLD
static std::vector<long> g_held;
static long g_live[3], g_peak, g_last;
template<int N> struct Count : std::pmr::memory_resource {
    std::map<void*, size_t> live;
    void reset() { if (N == 2 && g_last < 0) g_last = g_live[2]; for (auto& x : live) ::operator delete(x.first, std::align_val_t(x.second)); live.clear(); g_live[N] = 0; }
    void* do_allocate(size_t b, size_t a) override {
        void* p = ::operator new(b ? b : 1, std::align_val_t(a)); live[p] = a; ++g_live[N];
        if (g_live[1] + g_live[2] > g_peak) g_peak = g_live[1] + g_live[2];
        return p;
    }
    void do_deallocate(void* p, size_t, size_t a) override {
        if (p == nullptr) return;
        if (!live.erase(p)) { fprintf(stderr, "ERROR: a block is returned that was not handed out\n"); abort(); }
        --g_live[N]; ::operator delete(p, std::align_val_t(a));
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
    ~Count() override { reset(); }
};
using Mono = Count<0>; using Het = Count<1>; using Hom = Count<2>;
#else
using Mono = monotonic_pool<>; using Het = heterogeneous_pool<>; using Hom = homogeneous_pool<>;
#endif

static void note(size_t i) {
    if (g_log.size() < g_cap) {
        g_log.push_back(i);
#ifdef HOLD
        g_held.push_back(g_live[2]);
#endif
    }
    else g_trunc = true;
}

template<typename C, typename W>
struct spy final {
    mazes::grid<C, W> m;
    unsigned seed;
    static constexpr auto s_rank = mazes::grid<C, W>::s_rank;
    using neighbour_t = typename mazes::grid<C, W>::neighbour_t;
    using neighbours_t = typename mazes::grid<C, W>::neighbours_t;

    template<typename A> void shuffle(A& a, size_t i) const {
        if (!seed) return;
        unsigned long long x = seed * 2654435761ull + i * 40503ull + 12345;
        for (size_t k = a.size(); k > 1; --k) {
            x = x * 6364136223846793005ull + 1442695040888963407ull;
            std::swap(a[k - 1], a[(x >> 33) % k]);
        }
    }
    template<bool D = false, typename T, typename = std::enable_if_t<std::is_integral_v<T>>> auto get_neighbours(T i) const {
        note(i);
        auto a = m.template get_neighbours<D>(static_cast<typename C::value_type>(i));
        shuffle(a, i);
        return a;
    }
    template<bool D = false> auto get_neighbours(const C& c) const {
        size_t i = utils::to_1d(c, m.size());
        note(i);
        auto a = m.template get_neighbours<D>(c);
        shuffle(a, i);
        return a;
    }
    template<typename T> bool contains(const T& i) const { return m.contains(i); }
    size_t count() const { return m.count(); }
    const C& size() const { return m.size(); }
    template<typename T> decltype(auto) operator[](const T& i) const { return m[i]; }
};

// A graph that records is a specialisation of CHDR's own, as the solvers recognise graphs by their type.
using spy_scalar = unsigned long long;
template<> class chdr::mazes::graph<uint32_t, spy_scalar> final {
public:
    using edge_t = std::pair<uint32_t, spy_scalar>;
    using neighbour_t = edge_t;
    using neighbours_t = std::vector<edge_t>;
    chdr::mazes::graph<uint32_t, uint32_t> m;
    unsigned seed = 0;
    template<typename... A> neighbours_t get_neighbours(uint32_t i) const { return list(i); }
    template<bool D> neighbours_t get_neighbours(uint32_t i) const { return list(i); }
    template<typename T> bool contains(const T& i) const { return m.contains(i); }
    size_t count() const { return m.count(); }
    decltype(auto) operator[](uint32_t i) const { return m[i]; }
private:
    neighbours_t list(uint32_t i) const {
        note(i);
        neighbours_t r;
        for (auto& [v, w] : m.get_neighbours(i)) r.push_back({ v, w });
        if (seed) {
            unsigned long long x = seed * 2654435761ull + i * 40503ull + 12345;
            for (size_t k = r.size(); k > 1; --k) { x = x * 6364136223846793005ull + 1442695040888963407ull; std::swap(r[k - 1], r[(x >> 33) % k]); }
        }
        return r;
    }
};

template<typename maze_t, typename W, typename C, bool LAZY, bool NOCLEAN, bool REV, bool OCT, typename S = ::S>
struct P {
    using weight_type = W; using scalar_type = S; using index_type = uint32_t; using coord_type = C;
    using lazy_sorting = std::bool_constant<LAZY>; using no_cleanup = std::bool_constant<NOCLEAN>;
    using reverse_equivalence = std::bool_constant<REV>; using octile_neighbours = std::bool_constant<OCT>;
    const maze_t& maze; const C start, end, size;
    S (*h)(const C&, const C&) noexcept;
    Mono* monotonic_pmr; Het* heterogeneous_pmr; Hom* homogeneous_pmr;
    const S weight; const size_t capacity; const size_t memory_limit;
};
template<typename C, typename S> S zero_h(const C&, const C&) noexcept { return 0; }

struct Inst { std::string id, cells; char kind; size_t lim; int hid; unsigned weight, shuffle; };
static int g_alarm = 20;

template<bool LAZY, bool REV, bool OCT, typename W, typename S = ::S, typename M, typename C>
void run(char cfg, const Inst& in, const M& m, C sz, C s, C e) {
    printf("B %s %c\n", in.id.c_str(), cfg); fflush(stdout);
    using PP = P<M, W, C, LAZY, false, REV, OCT, S>;
    Mono mono; Het het; Hom hom;
    S (*h)(const C&, const C&) noexcept = in.hid == 0 ? &zero_h<C, S> : in.hid == 1 ? &heuristics::manhattan_distance<S, C> : &heuristics::chebyshev_distance<S, C>;
    const PP p { m, s, e, sz, h, &mono, &het, &hom, in.weight, 0, in.lim };
    alarm(g_alarm);
    g_log.clear(); g_trunc = false;
#ifdef HOLD
    g_held.clear(); g_live[0] = g_live[1] = g_live[2] = g_peak = 0; g_last = -1;
#endif
    std::string out;
    try {
        auto r = solvers::solver<solvers::SOLVER, PP>::solve(p);
        alarm(0);
        out = "T " + std::to_string(r.size()) + (g_trunc ? " 1 " : " 0 ");
        for (size_t i = 0; i < g_log.size(); ++i) { if (i) out += ','; out += std::to_string(g_log[i]); }
#ifdef HOLD
        out += " ";
        for (size_t i = 0; i < g_held.size(); ++i) { if (i) out += ','; out += std::to_string(g_held[i]); }
        out += " " + std::to_string(g_last < 0 ? g_live[2] : g_last) + " " + std::to_string(g_peak);
#endif
    }
    catch (const std::exception& x) { alarm(0); out = std::string("X ") + x.what(); }
    printf("R %s %c %s\n", in.id.c_str(), cfg, out.c_str());
    fflush(stdout);
}

template<size_t K> void go(std::istringstream& is, const std::string& cfgs, Inst& in) {
    using C = coord<uint32_t, K>;
    C sz, s, e;
    for (auto& x : sz) is >> x;
    for (auto& x : s)  is >> x;
    for (auto& x : e)  is >> x;
    is >> in.cells >> in.lim >> in.hid >> in.weight >> in.shuffle;
    if (in.kind == 'g') {
#ifndef NOGRAPH
        if constexpr (K == 2) {
            mazes::graph<uint32_t, spy_scalar> g;
            g.seed = in.shuffle;
            std::istringstream es(in.cells == "-" ? "" : in.cells); std::string t;
            while (std::getline(es, t, ',')) {
                unsigned u, v, w; sscanf(t.c_str(), "%u:%u:%u", &u, &v, &w);
                g.m.add(u); g.m.add(v); g.m.add(u, { v, w }); g.m.add(v, { u, w });
            }
            for (char cfg : cfgs) {
                if (cfg == 'g') run<false, true, false, spy_scalar, spy_scalar>(cfg, in, g, sz, s, e);
                if (cfg == 'h') run<true, true, false, spy_scalar, spy_scalar>(cfg, in, g, sz, s, e);
                if (cfg == 'i') run<false, false, false, spy_scalar, spy_scalar>(cfg, in, g, sz, s, e);
            }
        }
#endif
        return;
    }
    std::vector<bool> bits; std::vector<uint8_t> bytes;
    for (char c : in.cells) { bits.push_back(c == '1'); bytes.push_back(c == '1' ? std::numeric_limits<uint8_t>::max() : uint8_t(1)); }
    for (char cfg : cfgs) {
#ifdef PLAIN // the grid itself, which records nothing
#define SPY(W, cells) const mazes::grid<C, W> m(sz, cells);
#else
#define SPY(W, cells) const spy<C, W> m { mazes::grid<C, W>(sz, cells), in.shuffle };
#endif
#define BITS(LAZY, REV, OCT)  { SPY(bool, bits) run<LAZY, REV, OCT, bool>(cfg, in, m, sz, s, e); }
#define BYTES(LAZY, REV, OCT) { SPY(uint8_t, bytes) run<LAZY, REV, OCT, uint8_t>(cfg, in, m, sz, s, e); }
#ifdef PLAIN
        if constexpr (K == 2) {
            if (cfg == 'o') { BITS(false, true, true) }
            if (cfg == 'p') { BITS(false, false, true) }
        }
#else
        if (cfg == 'b') { BITS(false, true, false) }
        if constexpr (K == 2) {
            if (cfg == 'r') { BITS(false, false, false) }
            if (cfg == 'l') { BITS(true,  true,  false) }
            if (cfg == 'p') { BITS(false, false, true) }
        }
        if constexpr (K == 3) { if (cfg == 'r') { BYTES(false, false, false) } }
        if constexpr (K == 2 || K == 3) { if (cfg == 'o') { BITS(false, true, true) } }
#endif
    }
}

int main(int argc, char** argv) {
    if (argc > 1) g_alarm = atoi(argv[1]);
    if (argc > 2) g_cap = atoi(argv[2]);
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l); Inst in; std::string cfgs; int k;
        is >> in.id >> cfgs >> in.kind >> k;
        switch (k) {
            case 2: go<2>(is, cfgs, in); break;
            case 3: go<3>(is, cfgs, in); break;
        }
    }
}
