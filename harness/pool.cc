// Drives the memory pools through sequences of operations, with every upstream allocation recorded (and some failing).
//
// Input, one session per line: id kind cfg op op ...
//   kind: M monotonic, E heterogeneous, O homogeneous.  cfg: 0..3, template arguments (see below)
//   ops:  n<p>,<width>   construct pool p          k<p>       destroy it
//         a<p>,<name>,<size>,<align>[!k]  allocate (the k-th upstream allocation fails)
//         d<p>,<name>    deallocate (skipped if the block is not live)
//         r<p>[!k] reset   x<p> release   m<p>,<q> construct q from p by moving   s<p>,<q> q = move(p)
// Output: "B id", "R id [[...],...]": events, all addresses relative to one arena which holds everything, the pools included:
//   [1,addr,size,align] from upstream  [2,addr] returned to upstream  [3] upstream failed
//   [0] allocation begins  [4,p,name,addr,size,align] it succeeded  [5,size] it threw bad_alloc  [6,p,name] deallocated
//   [7,p] reset  [8,p] release  [9,p,q] moved  [10,p,q] move assigned  [11,p] destroyed  [12,name] corrupted
//   [13,p,addr,size] pool constructed here   [14] returned null for 0 bytes   [15] threw something else
//   [16,p,q,e] do pools p and q compare equal?
#include <chdr.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
using namespace chdr;

static uint8_t* g_arena; static size_t g_top, g_size = size_t(1) << 28, g_dirty;
static bool g_rec = false; static long g_k = 0, g_count = 0;
static char* g_log; static size_t g_len, g_cap;
template<typename... A> static void ev(const char* f, A... a) {
    if (g_cap - g_len < 256) { g_cap = g_cap ? g_cap * 2 : 1 << 16; g_log = static_cast<char*>(realloc(g_log, g_cap)); }
    g_len += size_t(snprintf(g_log + g_len, g_cap - g_len, f, a...));
}
struct U { size_t a, n; bool live; };
static U g_up[1 << 16]; static size_t g_upn;

static void* take(size_t n, size_t al) {
    const size_t at = (g_top + al - 1) / al * al;
    if (at + n > g_size) return nullptr;
    g_top = at + n;
    return g_arena + at;
}
static void* up_get(size_t n, size_t al) {
    if (!g_rec) { void* p = nullptr; if (al <= 16) return malloc(n ? n : 1); return posix_memalign(&p, al, n ? n : 1) ? nullptr : p; }
    if (++g_count == g_k || n > (1u << 26)) { ev("[3],"); return nullptr; }
    g_top += 0;
    void* p = take(n ? n : 1, al < 16 ? 16 : al);
    if (!p || g_upn == sizeof(g_up) / sizeof(U)) { ev("[3],"); return nullptr; }
    g_up[g_upn++] = { size_t(static_cast<uint8_t*>(p) - g_arena), n, true };
    ev("[1,%zu,%zu,%zu],", g_up[g_upn - 1].a, n, al);
    return p;
}
static void up_put(void* p) {
    if (!p) return;
    auto* b = static_cast<uint8_t*>(p);
    if (b >= g_arena && b < g_arena + g_size) {
        ev("[2,%zu],", size_t(b - g_arena));
        for (size_t i = 0; i < g_upn; ++i) if (g_up[i].a == size_t(b - g_arena)) memset(p, 0xDD, g_up[i].n);
    }
    else free(p);
}
void* operator new(size_t n)                       { if (void* p = up_get(n, 1)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n)                     { if (void* p = up_get(n, 1)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, std::align_val_t a)   { if (void* p = up_get(n, size_t(a))) return p; throw std::bad_alloc(); }
void* operator new[](size_t n, std::align_val_t a) { if (void* p = up_get(n, size_t(a))) return p; throw std::bad_alloc(); }
void* operator new(size_t n, const std::nothrow_t&) noexcept   { return up_get(n, 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return up_get(n, 1); }
void operator delete(void* p) noexcept                                { up_put(p); }
void operator delete[](void* p) noexcept                              { up_put(p); }
void operator delete(void* p, size_t) noexcept                        { up_put(p); }
void operator delete[](void* p, size_t) noexcept                      { up_put(p); }
void operator delete(void* p, std::align_val_t) noexcept              { up_put(p); }
void operator delete[](void* p, std::align_val_t) noexcept            { up_put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept      { up_put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept    { up_put(p); }

struct Rec { bool on; Rec() { g_rec = true; } ~Rec() { g_rec = false; } };
struct Blk { int pool; size_t at, n; bool dead; };

template<typename T> void session(const std::string& id, std::istringstream& is, bool mono) {
    T* pool[3] = { nullptr, nullptr, nullptr };
    void* room[3];
    g_top = 64; g_upn = 0; g_len = 0;
    memset(g_arena, 0xEE, g_dirty); 
    for (auto& r : room) { r = take(sizeof(T), alignof(T)); }
    std::map<int, Blk> live;
    const auto rel = [](void* p) { return size_t(static_cast<uint8_t*>(p) - g_arena); };
    std::string op;
    while (is >> op) {
        g_k = 0; g_count = 0;
        if (auto x = op.find('!'); x != std::string::npos) { g_k = atoi(op.c_str() + x + 1); op.erase(x); }
        int p = 0, a1 = 0; size_t a2 = 0, a3 = 0;
        sscanf(op.c_str() + 1, "%d,%d,%zu,%zu", &p, &a1, &a2, &a3);
        const auto kill = [&](int q) { for (auto it = live.begin(); it != live.end();) it = it->second.pool == q ? live.erase(it) : std::next(it); };
        const auto moved = [&](int from, int to) {
            for (auto it = live.begin(); it != live.end();) {
                if (it->second.pool == from) {
                    if (it->second.at >= rel(room[from]) && it->second.at < rel(room[from]) + sizeof(T)) { it = live.erase(it); continue; }
                    it->second.pool = to;
                }
                ++it;
            }
        };
        switch (op[0]) {
            case 'n': ev("[13,%d,%zu,%zu],", p, rel(room[p]), sizeof(T)); { Rec r; pool[p] = ::new (room[p]) T(size_t(a1)); } break;
            case 'k': ev("[11,%d],", p); kill(p); { Rec r; pool[p]->~T(); } pool[p] = nullptr; break;
            case 'a': {
                void* m = nullptr; int how = 0;
                ev("[0],");
                try { Rec r; m = pool[p]->allocate(a2, a3); }
                catch (const std::bad_alloc&) { how = 1; }
                catch (...) { how = 2; }
                if (how == 1) ev("[5,%zu],", a2 < 2000000000u ? a2 : size_t(2000000000u));
                else if (how == 2) ev("[15],");
                else if (a2 == 0) { if (m) ev("[15],"); else ev("[14],"); }
                else {
                    const auto off = reinterpret_cast<uintptr_t>(m) - reinterpret_cast<uintptr_t>(g_arena);
                    ev("[4,%d,%d,%zd,%zu,%zu],", p, a1, off < g_size ? ssize_t(off) : ssize_t(-1), a2 < 2000000000u ? a2 : size_t(2000000000u), a3);
                    if (off < g_size && a2 < g_size && off + a2 <= g_size) { live[a1] = { p, off, a2, false }; memset(m, (a1 * 37 + 1) & 255, a2); }
                }
                break;
            }
            case 'd': {
                auto it = live.find(a1);
                if (it == live.end() || it->second.pool != p || it->second.dead) break;
                const Blk b = it->second;
                ev("[6,%d,%d],", p, a1);
                if (mono) it->second.dead = true; else live.erase(it);
                Rec r; pool[p]->deallocate(g_arena + b.at, b.n, a3);
                break;
            }
            case 'r': ev("[7,%d],", p); kill(p); { Rec r; pool[p]->reset(); } break;
            case 'x': ev("[8,%d],", p); kill(p); { Rec r; pool[p]->release(); } break;
            case 'm': ev("[9,%d,%d],", p, a1); ev("[13,%d,%zu,%zu],", a1, rel(room[a1]), sizeof(T)); moved(p, a1); { Rec r; pool[a1] = ::new (room[a1]) T(std::move(*pool[p])); } break;
            case 's': ev("[10,%d,%d],", p, a1); if (p != a1) { kill(a1); moved(p, a1); } { Rec r; *pool[a1] = std::move(*pool[p]); } break;
        }
        if (op[0] == 'n' || op[0] == 'm' || op[0] == 's')
            for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (pool[a] && pool[b]) { const std::pmr::memory_resource &x = *pool[a], &y = *pool[b]; const bool e = a <= b ? x.is_equal(y) : x == y; ev("[16,%d,%d,%d],", a, b, int(e)); }
        for (auto& [name, b] : live) for (size_t i = 0; i < b.n; ++i) if (g_arena[b.at + i] != ((name * 37 + 1) & 255)) { ev("[12,%d],", name); break; }
    }
    for (int p = 0; p < 3; ++p) if (pool[p]) { ev("[11,%d],", p); Rec r; pool[p]->~T(); }
    g_dirty = std::max(g_dirty, g_top);
    if (g_len) g_log[--g_len] = 0;
    printf("R %s [%s]\n", id.c_str(), g_len ? g_log : ""); fflush(stdout);
}

int main(int argc, char** argv) {
    g_arena = static_cast<uint8_t*>(mmap(nullptr, g_size + (1 << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    g_arena = reinterpret_cast<uint8_t*>((reinterpret_cast<uintptr_t>(g_arena) + (1 << 20) - 1) & ~uintptr_t((1 << 20) - 1));
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l); std::string id; char kind; int cfg;
        is >> id >> kind >> cfg;
        printf("B %s\n", id.c_str()); fflush(stdout);
        alarm(20);
        constexpr auto MAX = std::numeric_limits<size_t>::max();
#define CASES(T) switch (cfg) { \
            case 0: session<T<>>(id, is, kind == 'M'); break; \
            case 1: session<T<64, 32, 512>>(id, is, kind == 'M'); break; \
            case 2: session<T<100, MAX, 4096>>(id, is, kind == 'M'); break; \
            case 3: session<T<1, 1, 256>>(id, is, kind == 'M'); break; }
        if (kind == 'M') { CASES(monotonic_pool) }
        else if (kind == 'E') { if (cfg == 4) session<heterogeneous_pool<64, 32, 512, false>>(id, is, false); else { CASES(heterogeneous_pool) } }
        else { CASES(homogeneous_pool) }
        alarm(0);
    }
}
