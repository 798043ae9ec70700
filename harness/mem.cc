// Sessions of searches on shared pools, with every allocation recorded and, on request, one of them failing.
//
// Input:
//   I idx kind w h sx sy ex ey cells limit capacity hid      an instance (see solve.cc; size is 2D)
//   id pools mode k commands                                 a session
//     pools: R blocks of their own, D the real pools, T the real pools without stack blocks and small, H the real pools, large
//     mode:  '-' nothing fails; 'P' the k-th allocation from a pool fails; 'U' the k-th allocation from the heap fails,
//            'p', 'u': every allocation from the k-th on fails, within one search
//     commands: ';' separated: "solver,cfg,cleanup,idx" (a search; '!' before it: the failing search), or "Z" (the caller resets the pools)
// Output: "B id", then "R id [[...],...] [outcomes]" in JSON; events:
//   [1,r,id,size,align] allocation   [2,r,id,size,align] return   [3,r] reset   [4,r,size] allocation that failed
//   [5,request,cleanup] search begins   [6,outcome] search ends   [7] pools destroyed
//   r: 0 heap, 1..3 the pools. request: index of the command's first like.
#include <chdr.hpp>
#include "mem.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <unistd.h>
using namespace chdr;

// ---------------------------------------------------------------- recording
struct Ev { int t, a; long b; size_t c, d; };
static Ev* g_ev = nullptr; static size_t g_n = 0, g_cap = 0;
static void log(int t, int a, long b = 0, size_t c = 0, size_t d = 0) {
    if (g_n == g_cap) { g_cap = g_cap ? g_cap * 2 : 4096; g_ev = static_cast<Ev*>(realloc(g_ev, g_cap * sizeof(Ev))); }
    g_ev[g_n++] = { t, a, b, c, d };
}
template<typename T> struct MA { using value_type = T; MA() = default; template<typename U> MA(const MA<U>&) {}
    T* allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); } void deallocate(T* p, size_t) { free(p); }
    template<typename U> bool operator==(const MA<U>&) const { return true; } template<typename U> bool operator!=(const MA<U>&) const { return false; } };
struct Blk { long id; int r; bool live; };
using Table = std::map<void*, Blk, std::less<>, MA<std::pair<void* const, Blk>>>;
static Table& heap_table() { static Table t; return t; }
static Table& pool_table() { static Table t; return t; }
static long g_id = 0;
static bool g_rec = false, g_harness = true;   // recording a session; inside of the harness
static bool g_armed = false; static char g_mode = '-'; static long g_k = 0, g_count = 0;
void harness_region(bool on) { g_harness = on; }
struct Bypass { bool was; Bypass() : was(g_harness) { g_harness = true; } ~Bypass() { g_harness = was; } };

static bool fail_now(bool pool) {
    if (!g_armed || (pool ? (g_mode != 'P' && g_mode != 'p') : (g_mode != 'U' && g_mode != 'u'))) return false;
    ++g_count;
    return g_count == g_k || (g_count > g_k && g_mode >= 'a');
}
static void* heap_get(size_t n, size_t al) {
    const bool rec = g_rec && !g_harness;
    if (rec && fail_now(false)) { log(4, 0, 0, n, al); return nullptr; }
    void* p = nullptr;
    if (al <= alignof(std::max_align_t)) p = malloc(n ? n : 1);
    else if (posix_memalign(&p, al, n ? n : 1)) p = nullptr;
    if (rec && p) { Bypass b; heap_table()[p] = { ++g_id, 0, true }; log(1, 0, g_id, n, al); }
    return p;
}
static void heap_put(void* p, size_t n, size_t al) {
    if (!p) return;
    if (g_rec) {
        Bypass b;
        auto it = heap_table().find(p);
        if (it != heap_table().end()) {
            const bool live = it->second.live;
            log(2, 0, it->second.id, n, al);
            it->second.live = false;
            if (!live) return; // returned twice: recorded, but harmless
        }
    }
    free(p);
}
// The size is recorded as 0 if the caller does not tell it. (Alignment 0: the one every allocation has.)
void* operator new(size_t n)                       { if (void* p = heap_get(n, 0)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n)                     { if (void* p = heap_get(n, 0)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, std::align_val_t a)   { if (void* p = heap_get(n, size_t(a))) return p; throw std::bad_alloc(); }
void* operator new[](size_t n, std::align_val_t a) { if (void* p = heap_get(n, size_t(a))) return p; throw std::bad_alloc(); }
void* operator new(size_t n, const std::nothrow_t&) noexcept   { return heap_get(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heap_get(n, 0); }
void operator delete(void* p) noexcept                                  { heap_put(p, 0, 0); }
void operator delete[](void* p) noexcept                                { heap_put(p, 0, 0); }
void operator delete(void* p, size_t n) noexcept                        { heap_put(p, n, 0); }
void operator delete[](void* p, size_t n) noexcept                      { heap_put(p, n, 0); }
void operator delete(void* p, std::align_val_t a) noexcept              { heap_put(p, 0, size_t(a)); }
void operator delete[](void* p, std::align_val_t a) noexcept            { heap_put(p, 0, size_t(a)); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept    { heap_put(p, n, size_t(a)); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept  { heap_put(p, n, size_t(a)); }

// ---------------------------------------------------------------- pools
void* Any::do_allocate(size_t b, size_t a) {
    if (g_rec && fail_now(true)) { log(4, id, 0, b, a); throw std::bad_alloc(); }
    void* p = impl->get(b, a);
    if (b != 0) {
        Bypass y;
        const bool was_heap = false; (void)was_heap;
        pool_table()[p] = { ++g_id, id, true };
        log(1, id, (reinterpret_cast<uintptr_t>(p) % a) ? -g_id : g_id, b, a);
    }
    return p;
}
void Any::do_deallocate(void* p, size_t b, size_t a) {
    bool fwd = true;
    if (b != 0) {
        Bypass y;
        auto it = pool_table().find(p);
        log(2, id, it == pool_table().end() ? -1 : it->second.id, b, a);
        if (it == pool_table().end() || !it->second.live || it->second.r != id) fwd = false; // recorded, but harmless
        else it->second.live = false;
    }
    if (fwd) impl->put(p, b, a);
}
void Any::reset() {
    { Bypass y; log(3, id);
      for (auto& [p, x] : pool_table()) if (x.r == id) x.live = false; }
    impl->clear();
}
struct Own final : Any::Impl {
    std::set<void*, std::less<>, MA<void*>> all;
    void* get(size_t b, size_t a) override {
        void* p = nullptr;
        if (b == 0) return nullptr;
        if (posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, b)) throw std::bad_alloc();
        all.insert(p);
        return p;
    }
    void put(void* p, size_t, size_t) override { if (all.erase(p)) free(p); }
    void clear() override { for (void* p : all) free(p); all.clear(); }
    ~Own() override { clear(); }
};
template<typename T> struct Real final : Any::Impl {
    T pool;
    template<typename... A> explicit Real(A... a) : pool(a...) {}
    void* get(size_t b, size_t a) override { return pool.allocate(b, a); }
    void put(void* p, size_t b, size_t a) override { pool.deallocate(p, b, a); }
    void clear() override { pool.reset(); }
};

std::vector<Entry>& entries() { static std::vector<Entry> e; return e; }

int main(int argc, char** argv) {
    const int secs = argc > 1 ? atoi(argv[1]) : 20;
    std::map<int, Inst> insts;
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l); std::string id; is >> id;
        if (id == "I") {
            int k; is >> k; Inst& x = insts[k];
            x.size.resize(2); x.start.resize(2); x.end.resize(2);
            is >> x.kind >> x.size[0] >> x.size[1] >> x.start[0] >> x.start[1] >> x.end[0] >> x.end[1] >> x.cells >> x.limit >> x.capacity >> x.hid;
            const coord<uint32_t, 2> sz{ x.size[0], x.size[1] };
            if (x.kind == 'c') {
                std::vector<bool> bits; std::vector<uint8_t> bytes;
                for (char c : x.cells) { bits.push_back(c == '1'); bytes.push_back(c == '1' ? 255 : 1); }
                x.maze[0] = new mazes::grid<coord<uint32_t, 2>, bool>(sz, bits);
                x.maze[1] = new mazes::grid<coord<uint32_t, 2>, uint8_t>(sz, bytes);
            }
            else {
                auto* g = new mazes::graph<uint32_t, uint32_t>();
                std::istringstream es(x.cells == "-" ? "" : x.cells); std::string t;
                while (std::getline(es, t, ',')) { unsigned u, v, w; sscanf(t.c_str(), "%u:%u:%u", &u, &v, &w); g->add(u); g->add(v); g->add(u, { v, w }); g->add(v, { u, w }); }
                x.maze[0] = g;
            }
            continue;
        }
        std::string pools, mode, cmds; long k; is >> pools >> mode >> k >> cmds;
        printf("B %s\n", id.c_str()); fflush(stdout);
        std::vector<std::string> outs, reqs, digests;
        std::string json;
        {
            heap_table().clear(); pool_table().clear(); g_n = 0; g_id = 0;
            g_rec = true; g_harness = false;
            Any a, b, c; a.id = 1; b.id = 2; c.id = 3;
            if (pools == "R") { Bypass y; a.impl = new Own; b.impl = new Own; c.impl = new Own; }
            else if (pools == "D") { a.impl = new Real<monotonic_pool<>>(); b.impl = new Real<heterogeneous_pool<>>(); c.impl = new Real<homogeneous_pool<>>(); }
            else if (pools == "T") { a.impl = new Real<monotonic_pool<16, 16, 512>>(64); b.impl = new Real<heterogeneous_pool<16, 16, 512>>(64, 1); c.impl = new Real<homogeneous_pool<16, 16, 512>>(128, 1); }
            else { a.impl = new Real<monotonic_pool<1 << 16>>(1 << 16); b.impl = new Real<heterogeneous_pool<1 << 16>>(1 << 16); c.impl = new Real<homogeneous_pool<1 << 16>>(1 << 16); }
            g_harness = true;
            std::istringstream cs(cmds); std::string cmd;
            while (std::getline(cs, cmd, ';')) {
                if (cmd == "Z") { g_harness = false; a.reset(); b.reset(); c.reset(); g_harness = true; continue; }
                const bool arm = cmd[0] == '!'; if (arm) cmd.erase(0, 1);
                char name[64], cfg; int cl, idx;
                sscanf(cmd.c_str(), "%63[^,],%c,%d,%d", name, &cfg, &cl, &idx);
                const Inst& in = insts.at(idx);
                const Entry* en = nullptr;
                for (auto& x : entries()) if (!strcmp(x.name, name) && x.cfg == cfg && x.cleanup == (cl != 0)) en = &x;
                if (!en) { fprintf(stderr, "no such search %s\n", cmd.c_str()); return 3; }
                const std::string req = std::string(name) + "," + cfg + "," + std::to_string(idx);
                size_t ri = 0; while (ri < reqs.size() && reqs[ri] != req) ++ri;
                if (ri == reqs.size()) reqs.push_back(req);
                log(5, int(ri), cl);
                std::vector<long long> path; path.reserve(256);
                std::string out;
                alarm(secs);
                g_mode = mode[0]; g_k = k; g_count = 0; g_armed = arm; g_harness = false;
                try { en->fn(in, &a, &b, &c, path); g_armed = false; g_harness = true; alarm(0); out = "P"; for (auto x : path) out += " " + std::to_string(x); }
                catch (const std::bad_alloc&)   { g_armed = false; g_harness = true; alarm(0); out = "bad_alloc"; }
                catch (const std::exception& x) { g_armed = false; g_harness = true; alarm(0); out = std::string("other: ") + x.what(); }
                catch (...)                     { g_armed = false; g_harness = true; alarm(0); out = "other"; }
                g_harness = true;
                { // what the maze looks like afterwards
                    std::string m;
                    if (in.kind == 'c') {
                        auto& g = *static_cast<mazes::grid<coord<uint32_t, 2>, bool>*>(in.maze[0]);
                        auto& h = *static_cast<mazes::grid<coord<uint32_t, 2>, uint8_t>*>(in.maze[1]);
                        for (uint32_t i = 0; i < in.size[0] * in.size[1]; ++i) m += (cfg == 'l' ? h[i].is_active() : g[i].is_active()) ? '0' : '1';
                        if (m != in.cells) out += " (and the maze changed to " + m + ")";
                    }
                    else {
                        auto& g = *static_cast<mazes::graph<uint32_t, uint32_t>*>(in.maze[0]);
                        mazes::graph<uint32_t, uint32_t> o;
                        std::istringstream es(in.cells == "-" ? "" : in.cells); std::string t;
                        while (std::getline(es, t, ',')) { unsigned u, v, w; sscanf(t.c_str(), "%u:%u:%u", &u, &v, &w); o.add(u); o.add(v); o.add(u, { v, w }); o.add(v, { u, w }); }
                        bool same = g.count() == o.count();
                        for (uint32_t i = 0; same && i < in.size[0] * in.size[1]; ++i) {
                            same = g.contains(i) == o.contains(i);
                            if (same && o.contains(i)) {
                                std::multiset<std::pair<uint32_t, uint32_t>> x, y;
                                for (auto& e : g.get_neighbours(i)) x.emplace(e.first, e.second);
                                for (auto& e : o.get_neighbours(i)) y.emplace(e.first, e.second);
                                same = x == y;
                            }
                        }
                        if (!same) out += " (and the graph changed)";
                    }
                }
                size_t oi = 0; while (oi < outs.size() && outs[oi] != out) ++oi;
                if (oi == outs.size()) outs.push_back(out);
                log(6, int(oi), long(g_count));
            }
            g_harness = false;
            if (pools == "R") { Bypass y; delete a.impl; delete b.impl; delete c.impl; }
            else { delete a.impl; delete b.impl; delete c.impl; }
            g_harness = true;
            log(7, 0);
            g_rec = false;
        }
        std::string o = "[";
        for (size_t i = 0; i < g_n; ++i) {
            const Ev& e = g_ev[i];
            auto cl = [](size_t x) { return std::to_string(x > 2000000000u ? 2000000000u : x); };
            if (i) o += ',';
            o += "[" + std::to_string(e.t) + "," + std::to_string(e.a) + "," + std::to_string(e.b) + "," + cl(e.c) + "," + cl(e.d) + "]";
        }
        o += "] [";
        for (size_t i = 0; i < outs.size(); ++i) { if (i) o += ','; o += "\"" + outs[i] + "\""; }
        printf("R %s %s]\n", id.c_str(), o.c_str()); fflush(stdout);
    }
}
