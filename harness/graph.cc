// Drives real graphs and records what they contain, for spec/GraphTrace.tla and spec/CompactionContract.tla.
//
// Input, one item per line:
//   id S v ops...                 a session on the graphs in slots 0..2
//      n s,r            new graph, on memory resource r          L s,k         new graph from adjacency list k
//      a s,i            add a node          e s,i,j,w  add an edge           E s,i,j,w  add it in both directions
//      r s,i,j,w        remove an edge      R s,i,j,w  in both directions    C s  clear
//      m s,d            move d to s         P s        prune                 z s  destroy          q s   look everything up
//   id B v d d ... cells | t ...  the graphs built from a grid by t threads, and so on
// Output: "B id", "R id {...}"
#include <atomic>
#include <chdr.hpp>
#include <chrono>
#include <cstdio>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <thread>
#include <unistd.h>
using namespace chdr;

static unsigned g_threads = 0;
unsigned std::thread::hardware_concurrency() noexcept { return g_threads; }

static std::string g;
static void num(long long x) { g += std::to_string(x); }

// A resource that is not synchronised: calls must not overlap. It takes its time, so that the threads get in each other's way.
struct slow : std::pmr::memory_resource {
    std::atomic<int> in{ 0 }, overlaps{ 0 }; std::atomic<unsigned> calls{ 0 }; unsigned seed = 1;
    void pause() {
        const unsigned k = calls++ * 2654435761u + seed * 40503u;
        if ((k >> 7) % 4 == 0) std::this_thread::sleep_for(std::chrono::microseconds((k >> 9) % 60)); else if ((k >> 7) % 4 == 1) std::this_thread::yield();
    }
    void* do_allocate(size_t n, size_t a) override { if (in++) ++overlaps; pause(); void* p = std::pmr::new_delete_resource()->allocate(n, a); --in; return p; }
    void do_deallocate(void* p, size_t n, size_t a) override { if (in++) ++overlaps; std::pmr::new_delete_resource()->deallocate(p, n, a); --in; }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

template<typename G> void show(const G& x, long hi) {
    using I = typename std::decay_t<decltype(*x.begin())>::first_type;
    bool odd = false; size_t n = 0;
    g += "\"nodes\":["; bool f = true;
    for (const auto& [id, edges] : x) {
        ++n;
        if (!f) g += ","; f = false;
        g += "["; num(static_cast<long long>(id)); g += ",["; bool ff = true;
        for (const auto& [to, w] : edges) { if (!ff) g += ","; ff = false; g += "["; num(static_cast<long long>(to)); g += ","; num(static_cast<long long>(w)); g += "]"; odd |= static_cast<long long>(w) != w; }
        g += "]]";
        odd |= !x.contains(id) || &x.get_neighbours(id) != &edges || &x.template get_neighbours<true>(id) != &edges || !x[id].is_active() || x[id].id() != id;
    }
    odd |= size_t(std::distance(x.cbegin(), x.cend())) != n;
    g += "],\"count\":"; num(x.count());
    g += ",\"has\":["; f = true;
    for (long i = 0; i <= hi; ++i) if (x.contains(static_cast<I>(i))) { if (!f) g += ","; f = false; num(i); }
    g += "],\"odd\":"; num(odd);
}

template<typename G> struct Slot { std::unique_ptr<G> c; bool gone = false; bool usable() const { return c && !gone; } };

template<typename I, typename S> void session(std::istringstream& is) {
    using G = mazes::graph<I, S>;
    std::pmr::unsynchronized_pool_resource up; heterogeneous_pool<> hp; monotonic_pool<> mp;
    std::pmr::memory_resource* res[4] = { std::pmr::get_default_resource(), &up, &hp, &mp };
    using A = std::initializer_list<std::initializer_list<std::pair<I, S>>>;
    Slot<G> sl[3];
    std::string op; bool first = true; long hi = 9;
    g = "[";
    while (is >> op) {
        int s = 0; long a = 0, b = 0, w = 0;
        sscanf(op.c_str() + 1, "%d,%ld,%ld,%ld", &s, &a, &b, &w);
        auto& X = sl[s]; const char o = op[0];
        if (std::string("nLm").find(o) == std::string::npos && !(o == 'C' || o == 'z' ? bool(X.c) : X.usable())) continue;
        const I i = static_cast<I>(a), j = static_cast<I>(b); const S c = static_cast<S>(w);
        std::string list;
        switch (o) {
            case 'n': if (X.c) continue; X.c.reset(new G(res[a % 4])); X.gone = false; break;
            case 'L': if (X.c) continue; // each list is written down for the specification, too
                switch (a % 6) {
                    case 0: X.c.reset(new G(A{})); list = "[]"; break;
                    case 1: X.c.reset(new G(A{ {} })); list = "[[]]"; break;
                    case 2: X.c.reset(new G(A{ { { I(1), S(4) } }, { { I(0), S(4) }, { I(2), S(1) } }, { { I(1), S(1) } } })); list = "[[[1,4]],[[0,4],[2,1]],[[1,1]]]"; break;
                    case 3: X.c.reset(new G(A{ { { I(2), S(3) }, { I(2), S(3) } }, {}, { { I(0), S(3) } } }, res[1])); list = "[[[2,3],[2,3]],[],[[0,3]]]"; break;
                    case 4: X.c.reset(new G(A{ {}, {}, { { I(5), S(1) }, { I(2), S(2) } }, { { I(9), S(0) } } }, res[2])); list = "[[],[],[[5,1],[2,2]],[[9,0]]]"; break;
                    default: X.c.reset(new G(A{ { { I(1), S(1) } }, { { I(0), S(1) }, { I(2), S(1) } }, { { I(1), S(1) }, { I(3), S(1) } }, { { I(2), S(1) } } }, res[3])); list = "[[[1,1]],[[0,1],[2,1]],[[1,1],[3,1]],[[2,1]]]"; break;
                }
                X.gone = false; break;
            case 'a': X.c->add(i); break;
            case 'e': X.c->add(i, { j, c }); break;
            case 'E': X.c->add(i, { j, c }); if (i != j) X.c->add(j, { i, c }); break;
            case 'r': X.c->remove(i, { j, c }); break;
            case 'R': X.c->remove(i, { j, c }); if (i != j) X.c->remove(j, { i, c }); break;
            case 'C': X.c->clear(); X.gone = false; break;
            case 'm': { auto& Y = sl[a % 3]; if (&Y == &X || !Y.usable()) continue; if (X.c) *X.c = std::move(*Y.c); else X.c.reset(new G(std::move(*Y.c))); X.gone = false; Y.gone = true; break; }
            case 'P': if (b) X.c->template prune<false>(); else X.c->prune(); break;
            case 'z': X.c.reset(); X.gone = false; break;
            case 'q': { size_t k = 0; for (auto it = X.c->begin(); it != X.c->end(); ++it) ++k; if (k != X.c->count()) continue; break; }
            default: continue;
        }
        if (!first) g += ","; first = false;
        g += std::string("{\"op\":\"") + o + "\",\"s\":"; num(s); g += ",\"a\":"; num(a); g += ",\"b\":"; num(b); g += ",\"w\":"; num(w);
        if (o == 'L') g += ",\"list\":" + list;
        g += ",\"obs\":["; bool f = true;
        for (int k = 0; k < 3; ++k) if (sl[k].usable()) { if (!f) g += ","; f = false; g += "{\"s\":"; num(k); g += ","; show(*sl[k].c, hi); g += "}"; }
        g += "]}";
    }
    g += "]";
}

template<size_t K, typename T, typename W, typename I, typename S> void builds(const std::vector<size_t>& d, const std::string& cells, const std::vector<int>& threads) {
    using C = coord<T, K>; C sz{};
    for (size_t k = 0; k < K; ++k) sz[k] = static_cast<T>(d[k]);
    std::vector<W> w(cells.size());
    for (size_t i = 0; i < cells.size(); ++i) w[i] = cells[i] == '1' ? std::numeric_limits<W>::max() : static_cast<W>(0);
    const mazes::grid<C, W> m(sz, w);
    g = "{\"sizes\":["; for (size_t i = 0; i < K; ++i) { if (i) g += ','; num(d[i]); }
    g += "],\"walls\":["; bool first = true; for (size_t i = 0; i < cells.size(); ++i) if (cells[i] == '1') { if (!first) g += ','; first = false; num(i); }
    g += "],\"runs\":[";
    first = true; unsigned seed = 0;
    for (int t : threads) {
        g_threads = unsigned(t);
        slow r; r.seed = ++seed + unsigned(cells.size());
        if (!first) g += ","; first = false;
        g += "{\"threads\":"; num(t); g += ",";
        { mazes::graph<I, S> x(m, &r); show(x, long(cells.size())); g += ",\"overlaps\":"; num(r.overlaps); }
        g += "}";
    }
    g += "]}";
}

template<typename T, typename W, typename I, typename S> void builds_of(const std::vector<size_t>& d, const std::string& cells, const std::vector<int>& t) {
    switch (d.size()) {
        case 1: return builds<1, T, W, I, S>(d, cells, t);
        case 2: return builds<2, T, W, I, S>(d, cells, t);
        default: return builds<3, T, W, I, S>(d, cells, t);
    }
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string id, kind, tok; int v = 0;
        if (!(is >> id >> kind >> v)) continue;
        printf("B %s\n", id.c_str()); fflush(stdout);
        alarm(60);
        if (kind == "S") switch (v) {
            case 0: session<uint32_t, int>(is); break;
            case 1: session<size_t, float>(is); break;
            case 2: session<int, uint32_t>(is); break;
            default: session<uint8_t, double>(is);
        }
        else {
            std::vector<size_t> d; std::vector<int> t; std::string cells;
            std::vector<std::string> a; while (is >> tok && tok != "|") a.push_back(tok);
            cells = a.back(); a.pop_back(); for (auto& x : a) d.push_back(std::stoul(x));
            while (is >> tok) t.push_back(std::stoi(tok));
            switch (v) {
                case 0: builds_of<uint32_t, bool, uint32_t, int>(d, cells, t); break;
                case 1: builds_of<size_t, uint8_t, size_t, float>(d, cells, t); break;
                case 2: builds_of<int, bool, int, uint32_t>(d, cells, t); break;
                default: builds_of<int64_t, int, int64_t, double>(d, cells, t);
            }
        }
        printf("R %s %s\n", id.c_str(), g.c_str()); fflush(stdout);
        alarm(0);
    }
}
