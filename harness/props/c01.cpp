// C01: every history of editing calls leaves what std::vector would hold.
#include "drive.hpp"
using namespace d;

#if PART == 0
char const* const pbt::rule =
    "A case is a history of 6 to 70 calls (single, bulk and range insertions "
    "and erasures, pushes, pops, resize, assign, clear, element writes; growth "
    "and shrink phases; positions at segment boundaries, ends, near the last "
    "edit, anywhere) on three containers, each beside a std::vector; after "
    "every call the container it touched is read through and compared. "
    "Non-trivial: some container had an index of at least two levels "
    "(height >= 3), or gained and lost an index level.";
#endif

template <class C>
struct Add {
  Add(char const* name, Size z, u64 quick, u64 thorough) {
    pbt::Register(histories<C>(
        name, z.wide ? everything() : editing(), z, quick, thorough,
        [](World<C>& x, Op const&, Seen&) { x.check_touched(); },
        [](World<C>& x, Seen& s) {
          x.check_all();
          if (s.top >= 3 || (s.grew && s.shrank)) pbt::nontrivial();
        }));
  }
};
static Size const small{};
#if PART == 0
static Add<K<u32, 1, 3>> a("u32 seg1 base3", small, 2500, 30000);
static Add<K<u32, 2, 3>> b("u32 seg2 base3", small, 2500, 30000);
#elif PART == 1
static Add<K<u64, 3, 4>> a("u64 seg3 base4", small, 2500, 30000);
static Add<Cfg<u32, std::allocator<u32>, 0, 0>> b("u32 seg0 base0", small, 2500, 30000);
#elif PART == 2
static Add<K<u32, 4, 5>> a("u32 seg4 base5", middle(), 300, 4000);
static Add<Dflt<u32>> b("u32 defaults", big(), 40, 600);
#elif PART == 3
static Add<K<std::uint8_t, 5, 6>> a("u8 seg5 base6", middle(), 300, 4000);
static Add<K<std::string, 3, 3>> b("string seg3 base3", small, 1500, 20000);
#elif PART == 4
static Add<K<Trk, 4, 4, TrackAlloc<Trk>>> a("Trk seg4 base4", small, 1500, 20000);
static Add<K<MoveOnly, 2, 3>> b("MoveOnly seg2 base3", small, 1500, 20000);
#elif PART == 5
static Add<K<CopyOnly, 3, 3>> a("CopyOnly seg3 base3", small, 1000, 15000);
static Add<K<Pod<17>, 7, 7>> b("Pod17 seg7 base7", middle(), 300, 4000);
#elif PART == 6
static Add<Dflt<std::string>> a("string defaults", Size{6, 25, 8000, 20000}, 40, 600);
static Add<K<u64, 16, 3>> b("u64 seg16 base3", middle(), 400, 5000);
#elif PART == 7
static Add<K<u32, 3, 3, fancy::RelativeAlloc<u32>>> a("u32 relative pointers", small, 1000, 15000);
static Add<Cfg<u32, std::allocator<u32>, 0, 768>> b("u32 seg1 base47", Size{6, 25, 20000, 30000}, 40, 600);
#endif
static Add<WideCfg> wide_(WIDE_NAME, wide(), 50, 500);
