// Tables of the numeric utilities, for spec/MetricContract.tla and spec/NumberContract.tla.
//
//   id D t s K m               distances between all pairs of cells of an empty grid of K sides of m; t: coordinate type, s: scalar type
//   id P t s K a... b...       between two cells
//   id F t s K a... b...       Euclidean and Canberra distance between two cells (s: f or d)
//   id O t v...                order: min, max, clamp of the ascending values v (by rank)
//   id A t v...                sign and abs
//   id W t b e ...             powui
//   id M t r K c... ...        products of coordinates of type t, as type r
//   id S n k [scale]           to_string of the duration n / 2^k, rounded to scale (as a fraction 1 / scale)
//   id Z text                  trim_trailing_zeros
// Types: u8 u16 u32 u64 i8 i16 i32 i64 f d
#include <chdr.hpp>
#include <cmath>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <unistd.h>
using namespace chdr;

static std::string g;
static void raw(const std::string& s) { g += s; }
template<typename V> static void num(V x) { // integers of any type
    if constexpr (std::is_floating_point_v<V>) { char b[64]; snprintf(b, sizeof b, "%.0Lf", static_cast<long double>(x)); g += x == std::floor(x) ? b : "\"fraction\""; }
    else if constexpr (std::is_signed_v<V>) g += std::to_string(static_cast<long long>(x));
    else g += std::to_string(static_cast<unsigned long long>(x));
}
template<typename V> static V read(const std::string& s) {
    if constexpr (std::is_floating_point_v<V>) return static_cast<V>(std::stold(s));
    else if constexpr (std::is_signed_v<V>) return static_cast<V>(std::stoll(s));
    else return static_cast<V>(std::stoull(s));
}
using Args = std::vector<std::string>;
template<typename T, typename F> static void list(const std::vector<T>& v, F f) { g += '['; bool first = true; for (const auto& x : v) { if (!first) g += ','; first = false; f(x); } g += ']'; }
template<typename V> static int cmp(V a, V b) { return a < b ? -1 : a > b ? 1 : 0; }

// ---- distances

template<typename S, typename C> static void distances(const C& a, const C& b, bool euclid) {
    using H = heuristics;
    const S m = H::manhattan_distance<S>(a, b), c = H::chebyshev_distance<S>(a, b);
    g += "[";
    num(m); g += ","; num(c);
    if (euclid) {
        const S q = H::sqr_euclidean_distance<S>(a, b), e = H::euclidean_distance<S>(a, b);
        g += ","; num(q); g += ",";
        if constexpr (std::is_floating_point_v<S>) num(static_cast<long long>(std::floor(static_cast<double>(e) * 1000.0))); else num(e);
        g += ","; num(cmp(e, m)); g += ","; num(cmp(e, c));
        // in thousandths: octile, canberra and cosine distance
        const auto milli = [](double x) { return static_cast<long long>(std::floor(x * 1000.0)); };
        g += ","; num(milli(H::octile_distance<S>(a, b)));
        g += ","; num(milli(H::canberra_distance<S>(a, b)));
        g += ","; num(milli(H::cosine_distance<S>(a, b)));
    }
    g += "]";
}

template<typename T, typename S, size_t K> static void all_pairs(long m) {
    using C = coord<T, K>;
    std::vector<C> cells; C c{};
    while (true) { cells.push_back(c); size_t k = 0; for (; k < K; ++k) { if (++c[k] < T(m)) break; c[k] = 0; } if (k == K) break; }
    g += "{\"K\":"; num(K); g += ",\"m\":"; num(m); g += ",\"float\":"; num(std::is_floating_point_v<S> ? 1 : 0); g += ",\"d\":[";
    bool first = true;
    for (auto& a : cells) for (auto& b : cells) { if (!first) g += ","; first = false; distances<S>(a, b, true); }
    g += "]}";
}

template<typename T, typename S, size_t K> static void pair(const Args& v) {
    coord<T, K> a, b;
    for (size_t k = 0; k < K; ++k) { a[k] = read<T>(v[k]); b[k] = read<T>(v[K + k]); }
    g += "{\"a\":["; for (size_t k = 0; k < K; ++k) { if (k) g += ","; num(a[k]); }
    g += "],\"b\":["; for (size_t k = 0; k < K; ++k) { if (k) g += ","; num(b[k]); }
    g += "],\"ab\":"; distances<S>(a, b, false); g += ",\"ba\":"; distances<S>(b, a, false); g += "}";
}

template<typename T, typename S, size_t K> static void far_pair(const Args& v) {
    coord<T, K> a, b;
    for (size_t k = 0; k < K; ++k) { a[k] = read<T>(v[k]); b[k] = read<T>(v[K + k]); }
    g += "{\"a\":["; for (size_t k = 0; k < K; ++k) { if (k) g += ","; num(a[k]); }
    g += "],\"b\":["; for (size_t k = 0; k < K; ++k) { if (k) g += ","; num(b[k]); }
    const auto out = [](const auto& x, const auto& y) {
        g += "["; num(std::floor(static_cast<double>(heuristics::euclidean_distance<S>(x, y))));
        g += ","; num(std::floor(static_cast<double>(heuristics::canberra_distance<S>(x, y)) * 1000.0)); g += "]";
    };
    g += "],\"exact\":"; num(sizeof(S) > 4 ? 1 : 0);
    g += ",\"ab\":"; out(a, b); g += ",\"ba\":"; out(b, a); g += "}";
}

template<typename T, typename S> static void metric(const std::string& kind, Args v) {
    const int K = std::stoi(v[0]); v.erase(v.begin());
    if (kind == "D") {
        const long m = std::stol(v[0]);
        switch (K) { case 1: return all_pairs<T, S, 1>(m); case 2: return all_pairs<T, S, 2>(m); case 3: return all_pairs<T, S, 3>(m); case 4: return all_pairs<T, S, 4>(m); case 5: return all_pairs<T, S, 5>(m); default: return all_pairs<T, S, 6>(m); }
    }
    if (kind == "F") {
        if constexpr (std::is_floating_point_v<S>) {
            switch (K) { case 1: return far_pair<T, S, 1>(v); case 2: return far_pair<T, S, 2>(v); case 3: return far_pair<T, S, 3>(v); case 4: return far_pair<T, S, 4>(v); default: return far_pair<T, S, 5>(v); }
        }
        return;
    }
    switch (K) { case 1: return pair<T, S, 1>(v); case 2: return pair<T, S, 2>(v); case 3: return pair<T, S, 3>(v); case 4: return pair<T, S, 4>(v); case 5: return pair<T, S, 5>(v); default: return pair<T, S, 7>(v); }
}

template<typename T> static void metric_of(const std::string& kind, Args v) {
    const auto s = v[0]; v.erase(v.begin());
    if (s == "i32") return metric<T, int32_t>(kind, v);
    if (s == "u32") return metric<T, uint32_t>(kind, v);
    if (s == "i64") return metric<T, int64_t>(kind, v);
    if (s == "u64") return metric<T, uint64_t>(kind, v);
    if (s == "f") return metric<T, float>(kind, v);
    return metric<T, double>(kind, v);
}

// ---- order, sign, abs, powers, products

template<typename T> static void order(const Args& a) {
    std::vector<T> v; for (auto& s : a) v.push_back(read<T>(s));
    const auto rank = [&](T x) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == x) { num(i + 1); return; } num(0); };
    const size_t n = v.size(); bool f;
    g += "{\"n\":"; num(n);
    g += ",\"min\":["; f = true; for (auto x : v) for (auto y : v) { if (!f) g += ","; f = false; rank(utils::min(x, y)); }
    g += "],\"max\":["; f = true; for (auto x : v) for (auto y : v) { if (!f) g += ","; f = false; rank(utils::max(x, y)); }
    g += "],\"clamp\":["; f = true; for (auto x : v) for (size_t l = 0; l < n; ++l) for (size_t h = l; h < n; ++h) { if (!f) g += ","; f = false; rank(utils::clamp(x, v[l], v[h])); }
    g += "]}";
}

template<typename T> static void signs(const Args& a) {
    std::vector<T> v; for (auto& s : a) v.push_back(read<T>(s));
    g += "{\"v\":"; list(v, [](T x) { num(x); });
    g += ",\"sign\":"; list(v, [](T x) { num(utils::sign<int>(x)); });
    g += ",\"wide\":"; list(v, [](T x) { num(utils::sign<long>(x)); });
    g += ",\"abs\":"; list(v, [](T x) { num(utils::abs(x)); });
    g += "}";
}

template<typename T> static void powers(const Args& a) {
    g += "{\"p\":["; bool f = true;
    for (size_t i = 0; i + 1 < a.size(); i += 2) {
        if (!f) g += ","; f = false;
        const T b = read<T>(a[i]), e = read<T>(a[i + 1]);
        g += "["; num(b); g += ","; num(e); g += ","; num(utils::powui(b, e)); g += "]";
    }
    g += "]}";
}

template<typename T, typename R, size_t K> static void products(const Args& a) {
    g += "{\"top\":"; num(std::numeric_limits<R>::max()); g += ",\"p\":["; bool f = true;
    for (size_t i = 0; i + K <= a.size(); i += K) {
        coord<T, K> c; for (size_t k = 0; k < K; ++k) c[k] = read<T>(a[i + k]);
        if (!f) g += ","; f = false;
        g += "[["; for (size_t k = 0; k < K; ++k) { if (k) g += ","; num(c[k]); }
        g += "],"; num(utils::product<R>(c)); g += "]";
    }
    g += "]}";
}

template<typename T, typename R> static void products_as(Args a) {
    const int K = std::stoi(a[0]); a.erase(a.begin());
    switch (K) { case 1: return products<T, R, 1>(a); case 2: return products<T, R, 2>(a); case 3: return products<T, R, 3>(a); case 4: return products<T, R, 4>(a); default: return products<T, R, 6>(a); }
}

template<typename T> static void by_kind(const std::string& kind, Args v) {
    if (kind == "O") return order<T>(v);
    if constexpr (std::is_integral_v<T>) {
        if (kind == "A") return signs<T>(v);
        if (kind == "W") { if constexpr (std::is_unsigned_v<T>) powers<T>(v); return; }
        if (kind == "M") {
            const auto r = v[0]; v.erase(v.begin());
            if (r == "same") return products_as<T, T>(v);
            return products_as<T, size_t>(v);
        }
        if constexpr (sizeof(T) != 2) metric_of<T>(kind, v);
    }
}

static void text(const std::string& s) { g += '['; bool f = true; for (unsigned char c : s) { if (!f) g += ','; f = false; num(int(c)); } g += ']'; }

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string id, kind, tok; if (!(is >> id >> kind)) continue;
        Args v; while (is >> tok) v.push_back(tok);
        printf("B %s\n", id.c_str()); fflush(stdout);
        alarm(60);
        g.clear();
        if (kind == "S") {
            const long double d = std::ldexp(static_cast<long double>(std::stoll(v[0])), -std::stoi(v[1]));
            g += "{\"text\":"; text(v.size() < 3 ? utils::to_string(d) : v[2] == "0" ? utils::to_string(d, 0.0L) : utils::to_string(d, 1.0L / std::stold(v[2]))); g += "}";
        }
        else if (kind == "Z") { g += "{\"in\":"; text(v[0]); g += ",\"text\":"; text(utils::trim_trailing_zeros(v[0])); g += "}"; }
        else {
            const auto t = v[0]; v.erase(v.begin());
            if (t == "u8") by_kind<uint8_t>(kind, v); else if (t == "u16") by_kind<uint16_t>(kind, v); else if (t == "u32") by_kind<uint32_t>(kind, v); else if (t == "u64") by_kind<uint64_t>(kind, v);
            else if (t == "i8") by_kind<int8_t>(kind, v); else if (t == "i16") by_kind<int16_t>(kind, v); else if (t == "i32") by_kind<int32_t>(kind, v); else if (t == "i64") by_kind<int64_t>(kind, v);
            else if (t == "f") by_kind<float>(kind, v); else by_kind<double>(kind, v);
        }
        printf("R %s %s\n", id.c_str(), g.c_str()); fflush(stdout);
        alarm(0);
    }
}
