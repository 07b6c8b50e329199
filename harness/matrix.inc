#if PART == 0
static Add<K<u32, 1, 3>> a("u32 seg1 base3", Size{}, 1500, 15000);
static Add<K<u32, 2, 3>> b("u32 seg2 base3", Size{}, 1500, 15000);
#elif PART == 1
static Add<K<u64, 3, 4>> a("u64 seg3 base4", Size{}, 1500, 15000);
static Add<Cfg<u32, std::allocator<u32>, 0, 0>> b("u32 seg0 base0", Size{}, 1500, 15000);
#elif PART == 2
static Add<K<u32, 4, 5>> a("u32 seg4 base5", middle(), 150, 1500);
static Add<Dflt<u32>> b("u32 defaults", big(), 20, 200);
#elif PART == 3
static Add<K<std::uint8_t, 5, 6>> a("u8 seg5 base6", middle(), 150, 1500);
static Add<K<std::string, 3, 3>> b("string seg3 base3", Size{}, 800, 8000);
#elif PART == 4
static Add<K<Trk, 4, 4, TrackAlloc<Trk>>> a("Trk seg4 base4", Size{}, 800, 8000);
static Add<K<MoveOnly, 2, 3>> b("MoveOnly seg2 base3", Size{}, 800, 8000);
#elif PART == 5
static Add<K<CopyOnly, 3, 3>> a("CopyOnly seg3 base3", Size{}, 800, 8000);
static Add<K<Pod<17>, 7, 7>> b("Pod17 seg7 base7", middle(), 150, 1500);
#elif PART == 6
static Add<Dflt<std::string>> a("string defaults", Size{6, 25, 8000, 20000}, 20, 200);
static Add<K<u64, 16, 3>> b("u64 seg16 base3", middle(), 200, 2000);
#elif PART == 7
static Add<K<u32, 3, 3, fancy::RelativeAlloc<u32>>> a("u32 relative pointers", Size{}, 800, 8000);
static Add<Cfg<u32, std::allocator<u32>, 0, 768>> b("u32 seg1 base47", Size{6, 25, 20000, 30000}, 20, 200);
#endif
static Add<WideCfg> wide_(WIDE_NAME, wide(), 20, 200);
