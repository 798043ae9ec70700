// Dumps what grids and coordinate conversions say about shapes and mazes, for spec/GridContract.tla.
// Compiled once per coordinate type: -DCOORD_T=<type>.
//
// Input, one item per line:   id I d d ...          conversions over all cells of the shape
//                             id N w d d ... cells  neighbourhoods; w: 0 bit grid, 1 uint8_t, 2 int8_t, 3 int, 4 uint64_t; cells: '0' open, '1' wall
// Output: "B id", "R id {...}"
#include <chdr.hpp>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <unistd.h>
using namespace chdr;
using T = COORD_T;

static std::string g;
template<typename V> static std::conditional_t<std::is_signed_v<V>, long long, unsigned long long> shown(V x) { return x; }
template<typename V> static void num(V x) { g += std::to_string(shown(x)); }
template<typename C> static void coordinate(const C& c) { g += '['; for (size_t k = 0; k < c.size(); ++k) { if (k) g += ','; num(shown(c[k])); } g += ']'; }
template<typename It, typename F> static void list(It b, It e, F f) { g += '['; bool first = true; for (; b != e; ++b) { if (!first) g += ','; first = false; f(*b); } g += ']'; }

template<size_t K> void conversions(const std::vector<size_t>& d) {
    using C = coord<T, K>; C sz{}; size_t n = 1;
    for (size_t k = 0; k < K; ++k) { sz[k] = static_cast<T>(d[k]); n *= d[k]; }
    g += "{\"sizes\":"; coordinate(sz);
    g += ",\"product\":"; num(shown(utils::product<size_t>(sz)));
    g += ",\"nd\":[";
    for (size_t i = 0; i < n; ++i) { if (i) g += ','; coordinate(utils::to_nd(static_cast<T>(i), sz)); }
    g += "],\"back\":[";
    for (size_t i = 0; i < n; ++i) { if (i) g += ','; num(shown(utils::to_1d(utils::to_nd(static_cast<T>(i), sz), sz))); }
    g += "],\"d1\":["; // to_1d of every coordinate, the first axis varying fastest
    C c{};
    for (size_t i = 0; i < n; ++i) {
        if (i) g += ',';
        num(shown(utils::to_1d(c, sz)));
        for (size_t k = 0; k < K; ++k) { if (size_t(++c[k]) < size_t(sz[k])) break; c[k] = 0; }
    }
    g += "]}";
}

template<size_t K> void some_conversions(const std::vector<size_t>& d, const std::vector<size_t>& is) {
    using C = coord<T, K>; C sz{};
    for (size_t k = 0; k < K; ++k) sz[k] = static_cast<T>(d[k]);
    g += "{\"sizes\":"; coordinate(sz);
    g += ",\"product\":"; num(utils::product<size_t>(sz));
    g += ",\"cases\":["; bool first = true;
    for (size_t i : is) {
        if (!first) g += ','; first = false;
        const auto c = utils::to_nd(static_cast<T>(i), sz);
        g += "{\"i\":"; num(i);
        g += ",\"nd\":"; coordinate(c);
        g += ",\"back\":"; num(utils::to_1d(c, sz));
        g += '}';
    }
    g += "]}";
}

template<typename N> static void active(const N& ns) {
    g += '['; bool first = true;
    for (const auto& [a, c] : ns) if (a) { if (!first) g += ','; first = false; coordinate(c); }
    g += ']';
}

template<typename G, typename C> void neighbourhoods(const G& m, const C& sz, size_t n) {
    constexpr size_t K = std::tuple_size_v<C>;
    g += "\"count\":"; num(shown(m.count()));
    g += ",\"size\":"; coordinate(m.size());
    g += ",\"open\":[";
    for (size_t i = 0; i < n; ++i) { if (i) g += ','; num(m[i].is_active()); }
    g += "],\"values\":[";
    for (size_t i = 0; i < n; ++i) { if (i) g += ','; const auto v = m[i].value(); if (v == std::numeric_limits<std::decay_t<decltype(v)>>::max()) g += "-1"; else num(v); }
    g += "],\"has\":["; // indices 0 .. n + 2 and the largest
    for (size_t i = 0; i < n + 3; ++i) { if (i) g += ','; num(m.contains(size_t(i))); }
    g += ','; num(m.contains(std::numeric_limits<size_t>::max()));
    g += "],\"inside\":["; // coordinates of the box from one below to one beyond the grid
    {
        long long c[K]; for (auto& x : c) x = -1;
        bool first = true;
        while (true) {
            C q{}; for (size_t k = 0; k < K; ++k) q[k] = static_cast<T>(c[k]);
            if (m.contains(q)) { if (!first) g += ','; first = false; g += '['; for (size_t k = 0; k < K; ++k) { if (k) g += ','; num(c[k]); } g += ']'; }
            size_t k = 0;
            for (; k < K; ++k) { if (++c[k] <= static_cast<long long>(sz[k])) break; c[k] = -1; }
            if (k == K) break;
        }
    }
    g += "],\"cells\":[";
    for (size_t i = 0; i < n; ++i) {
        const C c = utils::to_nd(static_cast<T>(i), sz);
        if (i) g += ',';
        g += "{\"c\":"; coordinate(c);
        g += ",\"ai\":"; active(m.template get_neighbours<false>(static_cast<T>(i)));
        g += ",\"ac\":"; active(m.template get_neighbours<false>(c));
        g += ",\"oi\":"; active(m.template get_neighbours<true>(static_cast<T>(i)));
        g += ",\"oc\":"; active(m.template get_neighbours<true>(c));
        g += ",\"ck\":["; // one at a time, in every direction
        {
            C dir{}; bool first = true;
            while (true) {
                bool centre = true; for (auto x : dir) centre &= x == 1;
                if (!centre) { const auto [a, q] = m.check_neighbour(c, dir); if (a) { if (!first) g += ','; first = false; coordinate(q); } }
                size_t k = 0;
                for (; k < K; ++k) { if (++dir[k] <= 2) break; dir[k] = 0; }
                if (k == K) break;
            }
        }
        g += "],\"ti\":"; num(m.is_transitory(size_t(i)));
        g += ",\"tn\":"; num(m.is_transitory(m.template get_neighbours<false>(c)));
        g += ",\"to\":"; num(m.is_transitory(m.template get_neighbours<true>(c)));
        g += ",\"o\":"; num(m[c].is_active());
        g += '}';
    }
    g += "]";
}

template<size_t K, typename W> void maze(const std::vector<size_t>& d, const std::string& cells) {
    using C = coord<T, K>; C sz{}; size_t n = 1;
    for (size_t k = 0; k < K; ++k) { sz[k] = static_cast<T>(d[k]); n *= d[k]; }
    std::vector<W> w(n);
    for (size_t i = 0; i < n; ++i) w[i] = cells[i] == '1' ? std::numeric_limits<W>::max() : static_cast<W>(std::is_same_v<W, bool> ? 0 : (i * 37 + 5) % 100);
    using G = mazes::grid<C, W>;
    // three ways to come by the same grid
    G* m = nullptr;
    switch (n % 4) {
        case 0: m = new G(sz, w); break;
        case 1: { auto v = w; m = new G(sz, std::move(v)); break; }
        case 2: m = new G(sz); m->nodes(w); break;
        default: { G a(sz, w); m = new G(std::move(a)); }
    }
    const G& k = *m;
    bool same = k.nodes() == w && std::equal(w.begin(), w.end(), m->begin(), m->end()) && std::equal(w.begin(), w.end(), k.begin(), k.end()) && std::equal(w.begin(), w.end(), k.cbegin(), k.cend()) &&
                std::equal(w.rbegin(), w.rend(), m->rbegin(), m->rend()) && std::equal(w.rbegin(), w.rend(), k.rbegin(), k.rend()) && std::equal(w.rbegin(), w.rend(), k.crbegin(), k.crend());
    g += "{\"sizes\":["; for (size_t i = 0; i < K; ++i) { if (i) g += ','; num(d[i]); }
    g += "],\"walls\":["; bool first = true; for (size_t i = 0; i < n; ++i) if (cells[i] == '1') { if (!first) g += ','; first = false; num(i); }
    g += "],\"bit\":"; num(std::is_same_v<W, bool>);
    g += ",\"same\":"; num(same); g += ',';
    neighbourhoods(k, sz, n);
    { // a grid without cells given is open everywhere
        const G e(sz); bool all = true; for (size_t i = 0; i < n; ++i) all &= e[i].is_active();
        g += ",\"fresh\":"; num(all && e.count() == n);
    }
    g += "}";
    delete m;
}

template<size_t K> void mazes_of(int w, const std::vector<size_t>& d, const std::string& cells) {
    switch (w) {
        case 0: return maze<K, bool>(d, cells);
        case 1: return maze<K, uint8_t>(d, cells);
        case 2: return maze<K, int8_t>(d, cells);
        case 3: return maze<K, int>(d, cells);
        default: return maze<K, uint64_t>(d, cells);
    }
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string id, kind, tok, cells; int w = 0;
        if (!(is >> id >> kind)) continue;
        printf("B %s\n", id.c_str()); fflush(stdout);
        alarm(60);
        if (kind == "N") is >> w;
        std::vector<std::string> toks; while (is >> tok) toks.push_back(tok);
        if (kind == "N") { cells = toks.back(); toks.pop_back(); }
        std::vector<size_t> d; std::vector<size_t> is_; bool bar = false;
        for (auto& t : toks) if (t == "|") bar = true; else if (bar) is_.push_back(std::stoull(t)); else d.push_back(std::stoull(t));
        g.clear();
        if (kind == "I") switch (d.size()) {
            case 1: conversions<1>(d); break; case 2: conversions<2>(d); break; case 3: conversions<3>(d); break;
            case 4: conversions<4>(d); break; case 5: conversions<5>(d); break; default: conversions<6>(d);
        }
        else if (kind == "J") switch (d.size()) {
            case 1: some_conversions<1>(d, is_); break; case 2: some_conversions<2>(d, is_); break; case 3: some_conversions<3>(d, is_); break;
            case 4: some_conversions<4>(d, is_); break; case 5: some_conversions<5>(d, is_); break; default: some_conversions<6>(d, is_);
        }
        else switch (d.size()) {
            case 1: mazes_of<1>(w, d, cells); break; case 2: mazes_of<2>(w, d, cells); break; case 3: mazes_of<3>(w, d, cells); break; default: mazes_of<4>(w, d, cells);
        }
        printf("R %s %s\n", id.c_str(), g.c_str()); fflush(stdout);
    }
}
