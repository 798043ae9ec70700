// Shared by mem.cc and mem_solver.cc: pools whose traffic is recorded, instances, and the table of searches.
#pragma once
#include <memory_resource>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

// What the solvers are given as a pool: forwards to a real pool (or to blocks of its own), and records.
struct Any final : std::pmr::memory_resource {
    int id = 0;
    struct Impl { virtual void* get(size_t, size_t) = 0; virtual void put(void*, size_t, size_t) = 0; virtual void clear() = 0; virtual ~Impl() = default; };
    Impl* impl = nullptr;
    void reset();
protected:
    void* do_allocate(size_t b, size_t a) override;
    void  do_deallocate(void* p, size_t b, size_t a) override;
    bool  do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

struct Inst {
    char kind; // 'c' grid, 'g' graph
    std::vector<uint32_t> size, start, end;
    std::string cells; size_t limit = 0, capacity = 0; int hid = 0;
    void* maze[2] = { nullptr, nullptr }; // bit grid or graph; byte grid
};

// Runs a search: fills path with cell indices (-1: outside of the maze).
using Search = void (*)(const Inst&, Any*, Any*, Any*, std::vector<long long>& path);
struct Entry { const char* name; char cfg; bool cleanup; Search fn; };
std::vector<Entry>& entries();
void harness_region(bool on); // allocations of the harness itself are not recorded
