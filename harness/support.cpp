#include "alloc.hpp"
#include "types.hpp"
#include "fancy.hpp"
TrStats tr_stats;
namespace fancy {
u64 derefs = 0;
}
namespace mem {
State st;
long long construct_calls, destroy_calls;
decltype(built) built;
constexpr std::size_t limit = std::size_t(1) << 31;

void reset() {
  for (auto& b : st.live) std::free(b.first);
  st = State{};
  construct_calls = destroy_calls = 0;
  built.clear();
}
void* get(std::size_t n, std::size_t size, int arena, bool is_element) {
  if (n == 0) pbt::note_error("allocate(0)");
  if (n > limit / size || st.bytes + n * size > limit)
    pbt::fail("the container asks for more memory than any case needs");
  void* p = std::malloc(n * size);
  if (!p) std::abort();
  std::memset(p, 0xA5, n * size);
  st.live[p] = Block{n, size, arena, is_element};
  ++st.allocs;
  st.last_arena = arena;
  if (is_element) ++st.segments;
  st.bytes += n * size;
  if (st.bytes > st.peak) st.peak = st.bytes;
  return p;
}
void put(void* p, std::size_t n, std::size_t size, int arena,
         bool is_element) {
  ++st.frees;
  auto it = st.live.find(p);
  if (it == st.live.end()) {
    pbt::note_error(p ? "deallocate of memory that is not allocated"
                      : "deallocate of a null pointer");
    return;
  }
  Block b = it->second;
  if (b.n != n) pbt::note_error("deallocate with another count");
  if (b.size != size || b.is_element != is_element)
    pbt::note_error("deallocate through an allocator of another type");
  if (b.arena != arena)
    pbt::note_error("deallocate through an allocator that is not equal to the "
                    "one the memory came from");
  st.bytes -= b.n * b.size;
  if (b.is_element) --st.segments;
  st.live.erase(it);
  if (!built.empty() && is_element)
    for (std::size_t i = 0; i != n; ++i)
      built.erase(static_cast<char*>(p) + i * size);
  std::memset(p, 0xDD, b.n * b.size);
  std::free(p);
}
}  // namespace mem
