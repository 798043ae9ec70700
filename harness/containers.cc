// Drives the containers through sequences of operations and records what can be observed of them after each.
//
// Input, one session per line: id kind variant op op ...
//   kind: H heap (variant 2..5: arity; 12..15: the same with the reverse order; 23: the same on a pool; 30: pointers),
//         Q queue, K stack (variant 0 strings, 1 on a pool), E existence_set (variant 0 bool, 1 char, 2 int, 3 size_t)
// Output: "B id", "R id [event, ...]" with event = {"op","s","d","id","key","ids","ret","obs"}, see spec/HeapTrace.tla, SeqTrace.tla, KeySetTrace.tla.
// Three slots exist for containers; a slot is empty (no container), or holds one, possibly moved from (not looked at).
#include <chdr.hpp>
#include <cstdio>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <unistd.h>
using namespace chdr;

static std::string g_out;
static void add(const char* f, long a = 0, long b = 0, long c = 0) { char t[128]; snprintf(t, sizeof t, f, a, b, c); g_out += t; }

// An element which notices when it was damaged or used after its end.
struct Item {
    long key = 0, id = 0; std::string tag; 
    Item() : tag("super element, not one of those inserted") {}
    Item(long k, long i) : key(k), id(i), tag(word(i)) {}
    static std::string word(long i) { return "element with the number " + std::to_string(i * 1000003); }
    bool good() const { return tag == word(id); }
    bool operator==(const Item& o) const { return key == o.key; }
};
struct Less { bool operator()(const Item& a, const Item& b) const { return a.key < b.key; } };
struct More { bool operator()(const Item& a, const Item& b) const { return a.key > b.key; } };
struct PLess { bool operator()(const Item* a, const Item* b) const { return a->key < b->key; } };

template<typename T> struct Slot {
    std::optional<T> c; bool gone = false; long pend = -1; bool loose = false;
    bool usable() const { return c.has_value() && !gone; }
};

// ---------------------------------------------------------------- heap

static std::list<Item> g_own; // what pointers point to
template<typename E> E make(long key, long id) {
    if constexpr (std::is_pointer_v<E>) { g_own.emplace_back(key, id); return &g_own.back(); } else return Item(key, id);
}
static const Item& ref(const Item& x) { return x; }
static const Item& ref(const Item* x) { return *x; }

template<typename Cmp, size_t K, typename E = Item> void heaps(const std::string& id, std::istringstream& is, std::pmr::memory_resource* res, bool rev) {
    using H = heap<E, Cmp, std::pmr::vector<E>, K>;
    Slot<H> sl[3];
    g_own.clear();
    const auto put = [&](const Item& x) { add("[%ld,%ld]", x.good() ? (rev ? -x.key : x.key) : 999999, x.id); };
    const auto K_of = [&](long k) { return rev ? -k : k; };
    std::string op; bool first = true;
    g_out = "[";
    while (is >> op) {
        int s = 0; long a = 0, b = 0;
        sscanf(op.c_str() + 1, "%d,%ld,%ld", &s, &a, &b);
        Slot<H>& S = sl[s];
        const char o = op[0];
        const bool makes = std::string("nFcm").find(o) != std::string::npos;
        if (!makes && !S.usable()) continue;
        std::string ids; long ret = 0, rkey = 0; int d = s;
        const auto size = [&] { return long(S.c->size()); };
        const auto at = [&](long i) -> const E& { return *(S.c->begin() + i); };
        const auto settle = [&] { if (S.c->size() <= 1) { S.loose = false; S.pend = -1; } };
        const auto disturb = [&] { if (S.pend >= 0) { S.loose = true; S.pend = -1; } settle(); };
        switch (o) {
            case 'n': if (S.c) continue; if (a) S.c.emplace(size_t(a), res); else S.c.emplace(res); break;
            case 'F': { // from a container
                if (S.c) continue;
                std::pmr::vector<E> v(res);
                for (long i = 0; i < a; ++i) { v.push_back(make<E>(K_of((b / (i + 1)) % 7), 1000 + i)); ids += (i ? ",[" : "[") + std::to_string((b / (i + 1)) % 7) + "," + std::to_string(1000 + i) + "]"; }
                if (a % 2) S.c.emplace(v); else S.c.emplace(std::move(v));
                break;
            }
            case 'c': { // s := copy of slot a
                d = int(a); if (d == s || !sl[d].usable() || (sl[d].pend >= 0)) continue;
                if (S.c) *S.c = *sl[d].c; else S.c.emplace(*sl[d].c);
                S.gone = false; S.loose = sl[d].loose; S.pend = -1; break;
            }
            case 'm': { // s := moved from slot a
                d = int(a); if (d == s || !sl[d].usable() || (sl[d].pend >= 0)) continue;
                if (S.c) *S.c = std::move(*sl[d].c); else S.c.emplace(std::move(*sl[d].c));
                S.gone = false; S.loose = sl[d].loose; S.pend = -1; sl[d].gone = true; break;
            }
            case 'w': { d = int(a); if (d == s || !sl[d].usable() || res != std::pmr::get_default_resource()) continue; /* (one resource, as std requires) */ S.c->swap(*sl[d].c); std::swap(S.pend, sl[d].pend); std::swap(S.loose, sl[d].loose); break; }
            case 'z': S.c.reset(); break;
            case 'p': case 'e': case 'q': case 'Q': case 'i': case 'L': {
                E x = make<E>(K_of(b), a);
                if (o == 'p') { if (a % 2) S.c->push(x); else S.c->push(std::move(x)); }
                else if (o == 'e') { if constexpr (std::is_pointer_v<E>) S.c->emplace(x); else S.c->emplace(K_of(b), a); }
                else if (o == 'q') S.c->enqueue(static_cast<const E&>(x));
                else if (o == 'Q') { if constexpr (std::is_pointer_v<E>) S.c->enqueue(x); else S.c->enqueue(K_of(b), a); }
                else if (o == 'i') { auto it = S.c->insert(S.c->begin() + (a % (size() + 1)), x); ret = ref(*it).id; }
                else { E xs[1] = { x }; S.c->insert(xs, xs + 1); }
                disturb(); break;
            }
            case 'N': {
                E x = make<E>(K_of(b), a);
                if (S.pend < 0 && !S.loose) S.pend = size();
                if (a % 3 == 0) S.c->push_nosort(x); else if (a % 3 == 1) S.c->enqueue_nosort(static_cast<const E&>(x));
                else { if constexpr (std::is_pointer_v<E>) S.c->emplace_nosort(x); else S.c->emplace_nosort(K_of(b), a); }
                settle(); break;
            }
            case 'S': if (S.pend < 0 || S.loose) continue; for (long i = S.pend; i < size(); ++i) S.c->sort_up(at(i)); S.pend = -1; break;
            case 'o': if (!size()) continue; ret = ref(S.c->top()).id; S.c->pop(); disturb(); break;
            case 'D': { if (!size()) continue; E x = S.c->dequeue(); ret = ref(x).id; rkey = ref(x).good() ? (rev ? -ref(x).key : ref(x).key) : 999999; disturb(); break; }
            case 'b': if (!size()) continue; ret = ref(S.c->back()).id; S.c->pop_back(); disturb(); break;
            case 'E': { if (!size()) continue; const E& x = at(a % size()); ret = ref(x).id; S.c->erase(x); disturb(); break; }
            case 'I': { if (!size()) continue; ret = ref(at(a % size())).id; S.c->erase(S.c->begin() + (a % size())); disturb(); break; }
            case 'R': {
                long i = a % (size() + 1), j = b % (size() + 1); if (i > j) std::swap(i, j);
                for (long k = i; k < j; ++k) { ids += (k > i ? ",[" : "[") + std::to_string(rev ? -ref(at(k)).key : ref(at(k)).key) + "," + std::to_string(ref(at(k)).id) + "]"; }
                S.c->erase(S.c->begin() + i, S.c->begin() + j); disturb(); break;
            }
            case 'U': { // the key of an element changes, and it is sorted up or down accordingly
                if constexpr (std::is_pointer_v<E>) continue;
                else {
                    if (!size() || S.pend >= 0 || S.loose) continue;
                    auto it = S.c->begin() + (a % size());
                    const long old = it->key; ret = it->id; it->key = K_of(b);
                    const Cmp cmp{}; Item was; was.key = old;
                    if (cmp(was, *it)) S.c->sort_up(*it); else S.c->sort_down(*it);
                    break;
                }
            }
            case 'C': S.c->clear(); S.pend = -1; S.loose = false; break;
            case 'T': S.c->reserve(size_t(a)); break;
            case 'X': S.c->shrink_to_fit(); break;
            case 'k': { if (!size()) continue; if constexpr (std::is_pointer_v<E>) continue; else ret = S.c->contains(const_cast<E&>(at(a % size()))) ? 1 : 0; break; }
            case 'l': case 'u': { // an element not less than (greater than) one with key a
                if (S.pend >= 0 || S.loose) continue;
                const E x = make<E>(K_of(a), -1);
                auto it = o == 'l' ? S.c->lower_bounds(x) : S.c->upper_bounds(x);
                ret = it == S.c->end() ? 0 : ref(*it).id; break;
            }
            case 'r': { bool f = true; for (auto it = S.c->rbegin(); it != S.c->rend(); ++it) { ids += std::string(f ? "[" : ",[") + std::to_string(rev ? -ref(*it).key : ref(*it).key) + "," + std::to_string(ref(*it).id) + "]"; f = false; } break; }
            default: continue;
        }
        if (!first) g_out += ","; first = false;
        g_out += std::string("{\"op\":\"") + o + "\"";
        add(",\"s\":%ld,\"d\":%ld", s, d); add(",\"a\":%ld,\"b\":%ld,\"ret\":%ld", a, b, ret); add(",\"rkey\":%ld", rkey);
        g_out += ",\"ids\":[" + ids + "],\"obs\":[";
        bool f = true;
        for (int i = 0; i < 3; ++i) if (sl[i].usable()) {
            H& h = *sl[i].c; const H& g = h;
            if (!f) g_out += ","; f = false;
            add("{\"s\":%ld,\"size\":%ld,\"empty\":%ld,\"top\":", i, long(g.size()), g.empty() ? 1 : 0);
            if (g.size()) { put(ref(g.top())); g_out += ",\"back\":"; put(ref(h.back())); 
                if (&h.front() != &h.top() || &g.front() != &g.top() || &g.back() != &h.back()) g_out += ",\"odd\":1"; }
            else g_out += "[0,0],\"back\":[0,0]";
            g_out += ",\"seen\":[";
            size_t k = 0; bool same = true;
            for (const auto& x : g) { if (k) g_out += ","; put(ref(x)); if (&g.at(k) != &x || &g[k] != &x) same = false; if (++k > g.size() + 2) break; }
            g_out += same ? "]}" : "],\"odd\":1}";
        }
        g_out += "]}";
    }
    g_out += "]";
    printf("R %s %s\n", id.c_str(), g_out.c_str()); fflush(stdout);
}

// ---------------------------------------------------------------- queue and stack

template<typename C> void seqs(const std::string& id, std::istringstream& is, std::pmr::memory_resource* res, bool lifo) {
    Slot<C> sl[3];
    std::string op; bool first = true;
    g_out = "[";
    while (is >> op) {
        int s = 0; long a = 0;
        sscanf(op.c_str() + 1, "%d,%ld", &s, &a);
        Slot<C>& S = sl[s];
        const char o = op[0];
        if (std::string("ncm").find(o) == std::string::npos && !S.usable() && !(o == 'C' && S.c)) continue;
        int d = s; long ret = 0;
        switch (o) {
            case 'n': if (S.c) continue; S.c.emplace(res); break;
            case 'c': d = int(a); if (!sl[d].usable() || (d == s && !S.c)) continue; if (S.c) *S.c = *sl[d].c; else S.c.emplace(*sl[d].c); S.gone = false; break;
            case 'm': d = int(a); if (d == s || !sl[d].usable()) continue; if (S.c) *S.c = std::move(*sl[d].c); else S.c.emplace(std::move(*sl[d].c)); S.gone = false; sl[d].gone = true; break;
            case 'w': d = int(a); if (d == s || !sl[d].usable()) continue; std::swap(*S.c, *sl[d].c); break;
            case 'z': S.c.reset(); break;
            case 'p': { Item x(a, a); if (a % 2) S.c->push(x); else S.c->push(std::move(x)); break; }
            case 'e': S.c->emplace(a, a); break;
            case 'o': if (S.c->empty()) continue; ret = S.c->top().good() ? S.c->top().id : -1; S.c->pop(); break;
            case 'C': S.c->clear(); S.gone = false; break;
            default: continue;
        }
        if (!first) g_out += ","; first = false;
        g_out += std::string("{\"op\":\"") + o + "\"";
        add(",\"s\":%ld,\"d\":%ld", s, d); add(",\"a\":%ld,\"ret\":%ld,\"obs\":[", a, ret);
        bool f = true;
        for (int i = 0; i < 3; ++i) if (sl[i].usable()) {
            C& h = *sl[i].c; const C& g = h;
            if (!f) g_out += ","; f = false;
            add("{\"s\":%ld,\"size\":%ld,\"empty\":%ld,\"top\":", i, long(g.size()), g.empty() ? 1 : 0);
            if (g.empty()) g_out += "0"; else { add("%ld", g.top().good() ? g.top().id : -1); if (&g.top() != &g.front() || &h.top() != &h.front() || &g.top() != &h.top()) g_out += ",\"odd\":1"; }
            g_out += ",\"seen\":["; bool ff = true;
            for (const auto& x : g) { if (!ff) g_out += ","; ff = false; add("%ld", x.good() ? x.id : -1); }
            g_out += "],\"back\":["; ff = true;
            for (auto it = h.rbegin(); it != h.rend(); ++it) { if (!ff) g_out += ","; ff = false; add("%ld", it->id); }
            g_out += "]}";
        }
        g_out += "]}";
    }
    g_out += "]";
    (void)lifo;
    printf("R %s %s\n", id.c_str(), g_out.c_str()); fflush(stdout);
}

// ---------------------------------------------------------------- existence_set

template<typename W> void sets(const std::string& id, std::istringstream& is) {
    using C = existence_set<W>;
    Slot<C> sl[3];
    std::string op; bool first = true;
    g_out = "[";
    std::set<size_t> keys{ 0, 1, 2, 3, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129 };
    std::vector<std::string> ops;
    while (is >> op) { ops.push_back(op); int s; long a = 0; if (sscanf(op.c_str() + 1, "%d,%ld", &s, &a) == 2 && a < 2000000) for (long k = std::max(0l, a - 1); k <= a + 1; ++k) keys.insert(size_t(k)); }
    for (const auto& op : ops) {
        int s = 0; long a = 0, b = 0;
        sscanf(op.c_str() + 1, "%d,%ld,%ld", &s, &a, &b);
        Slot<C>& S = sl[s];
        const char o = op[0];
        if (std::string("ncm").find(o) == std::string::npos && !S.usable()) continue;
        int d = s; long ret = S.usable() ? long(S.c->size()) : 0; int threw = 0;
        try { switch (o) {
            case 'n': if (S.c) continue; if (a) S.c.emplace(size_t(a)); else S.c.emplace(); break;
            case 'c': d = int(a); if (!sl[d].usable() || (d == s && !S.c)) continue; if (S.c) *S.c = *sl[d].c; else S.c.emplace(*sl[d].c); S.gone = false; break;
            case 'm': d = int(a); if (d == s || !sl[d].usable()) continue; if (S.c) *S.c = std::move(*sl[d].c); else S.c.emplace(std::move(*sl[d].c)); S.gone = false; sl[d].gone = true; break;
            case 'z': S.c.reset(); break;
            case 'p': if (b == 1) S.c->emplace(a); else if (b == 3) S.c->emplace(static_cast<uint32_t>(a)); else if (b == 2) S.c->push(static_cast<unsigned>(a)); else S.c->push(size_t(a)); break;
            case 'H': S.c->push(std::numeric_limits<size_t>::max() - size_t(a)); break; // a key no set can hold
            case 'x': S.c->erase(size_t(a)); break;
            case 'X': S.c->erase(std::numeric_limits<size_t>::max() - size_t(a)); break;
            case 't': S.c->trim(); break;
            case 'C': S.c->clear(); break;
            case 'T': S.c->reserve(size_t(a)); break;
            case 'k': S.c->shrink_to_fit(); break;
            case 'A': if (b) S.c->allocate(size_t(a), size_t(b)); else S.c->allocate(size_t(a), 16, 64); break;
            case 'r': if (b) S.c->resize(size_t(a), static_cast<W>(1)); else S.c->resize(size_t(a)); break;
            default: continue;
        } }
        catch (const std::length_error&) { threw = 1; }
        catch (const std::bad_alloc&) { threw = 1; }
        if (!first) g_out += ","; first = false;
        g_out += std::string("{\"op\":\"") + o + "\"";
        add(",\"s\":%ld,\"d\":%ld,\"threw\":%ld", s, d, threw); add(",\"a\":%ld,\"b\":%ld,\"size\":%ld,\"obs\":[", a, b, ret);
        bool f = true;
        for (int i = 0; i < 3; ++i) if (sl[i].usable()) {
            const C& g = *sl[i].c;
            if (!f) g_out += ","; f = false;
            add("{\"s\":%ld,\"size\":%ld,\"empty\":%ld,", i, long(g.size()), g.empty() ? 1 : 0);
            add("\"room\":%ld,", long(std::min<size_t>(g.capacity(), 2000000000)));
            add("\"huge\":%ld,\"seen\":[", g.contains(std::numeric_limits<size_t>::max()) || g.contains(std::numeric_limits<size_t>::max() / 2) || g.contains(g.size()) || g.contains(g.size() + 100000) ? 1 : 0);
            bool ff = true;
            for (size_t k : keys) if (g.contains(k)) { if (!ff) g_out += ","; ff = false; add("%ld", long(k)); }
            g_out += "],\"all\":["; ff = true; long k = 0;
            for (auto it = g.begin(); it != g.end(); ++it, ++k) if (*it) { if (!ff) g_out += ","; ff = false; add("%ld", k); }
            g_out += "]}";
        }
        g_out += "]}";
    }
    g_out += "]";
    printf("R %s %s\n", id.c_str(), g_out.c_str()); fflush(stdout);
}

int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l); std::string id; char kind; int v;
        is >> id >> kind >> v;
        printf("B %s\n", id.c_str()); fflush(stdout);
        alarm(20);
        monotonic_pool<256> mp; heterogeneous_pool<256> hp;
        auto* def = std::pmr::get_default_resource();
        if (kind == 'H') switch (v) {
            case 2: heaps<Less, 2>(id, is, def, false); break;
            case 3: heaps<Less, 3>(id, is, def, false); break;
            case 4: heaps<Less, 4>(id, is, def, false); break;
            case 5: heaps<Less, 5>(id, is, def, false); break;
            case 12: heaps<More, 2>(id, is, def, true); break;
            case 14: heaps<More, 4>(id, is, def, true); break;
            case 22: heaps<Less, 2>(id, is, &mp, false); break;
            case 23: heaps<Less, 3>(id, is, &hp, false); break;
            case 30: heaps<PLess, 2, Item*>(id, is, def, false); break;
        }
        else if (kind == 'Q') seqs<chdr::queue<Item>>(id, is, v ? static_cast<std::pmr::memory_resource*>(&hp) : def, false);
        else if (kind == 'K') seqs<chdr::stack<Item>>(id, is, v ? static_cast<std::pmr::memory_resource*>(&mp) : def, true);
        else if (kind == 'E') { if (v == 0) sets<bool>(id, is); else if (v == 1) sets<char>(id, is); else if (v == 2) sets<int>(id, is); else sets<size_t>(id, is); }
        alarm(0);
    }
}
