// C13: damaged .kigumi data are rejected cleanly.  Built with ASan and UBSan, with cpp_rational and with mpq_class.
#include <sanitizer/allocator_interface.h>

#include "region_gen.h"

extern "C" const char* __asan_default_options() { return "max_allocation_size_mb=512:hard_rss_limit_mb=3000"; }

namespace {

// Memory in use by the code under test, from the sanitizer's allocation hooks.
bool counting = false;
long live = 0, peak = 0;
void on_malloc(const volatile void* p, std::size_t n) {
  (void)p;
  if (counting) {
    live += long(n);
    peak = std::max(peak, live);
  }
}
void on_free(const volatile void* p) {
  if (counting && p != nullptr) {
    live -= long(__sanitizer_get_allocated_size(const_cast<const void*>(p)));
  }
}

// Delivers the bytes in pieces, and fails (by an exception, as a device error would) at a given place.
struct Pieces : std::streambuf {
  std::string s;
  std::size_t at{}, piece, fail_at;
  Pieces(std::string b, std::size_t piece, std::size_t fail_at) : s{std::move(b)}, piece{piece}, fail_at{fail_at} {}
  int_type underflow() override {
    if (at >= fail_at) {
      throw std::runtime_error("device error");
    }
    if (at >= s.size()) {
      return traits_type::eof();
    }
    auto n = std::min({piece, s.size() - at, fail_at - at});
    setg(s.data() + at, s.data() + at, s.data() + at + n);
    at += n;
    return traits_type::to_int_type(*gptr());
  }
};

std::int32_t odd_number(pbt::Source& s, const kbytes::Mesh& m) {
  switch (s.below(4)) {
    case 0:
      return s.one_of<std::int32_t>({0, -1, 1, INT32_MAX, INT32_MIN, INT32_MAX - 1, 65535, 65536, 65537, 1 << 20, 1 << 28, 1 << 30, -2});
    case 1:
      return std::int32_t(m.v.size()) + std::int32_t(s.around(2));
    case 2:
      return std::int32_t(m.f.size()) + std::int32_t(s.around(2));
    default:
      return std::int32_t(s.below(1ULL << 32));
  }
}

double odd_double(pbt::Source& s) {
  return s.one_of({std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
                   std::numeric_limits<double>::signaling_NaN(), 1e308, 5e-324});
}

// One damage; returns what was done.
std::string damage(pbt::Source& s, std::string& b, const kbytes::Mesh& m, const kbytes::Marks& marks) {
  auto at = [&] { return s.below(b.size() + 1); };
  switch (s.weighted({6, 5, 8, 2, 2, 2, 1, 1})) {
    case 0: {
      auto n = at();
      b.resize(n);
      return "cut to " + std::to_string(n) + " bytes";
    }
    case 1: {
      if (b.empty()) {
        return "";
      }
      auto i = s.below(b.size());
      auto x = s.flip() ? 1U << s.below(8) : unsigned(s.range(1, 255));
      b[i] = char((unsigned char)b[i] ^ x);
      return "byte " + std::to_string(i) + " xor " + std::to_string(x);
    }
    case 2: {  // a field
      auto [o, n] = marks.field[s.below(marks.field.size())];
      if (o + n > b.size() || n == 0) {
        return "";
      }
      std::string v;
      if (n == 4) {
        kbytes::put32(v, odd_number(s, m));
      } else if (n == 8) {
        double d = odd_double(s);
        std::uint64_t u{};
        std::memcpy(&u, &d, 8);
        kbytes::put64(v, u);
      } else if (n == 1) {
        v = char(s.one_of({0, 1, 2, 3, 255, 128}));
      } else {
        v = std::string(n, s.flip() ? char(0) : char(255));
      }
      b.replace(o, n, v);
      return "field at " + std::to_string(o) + " set to " + rg::hex(v, 16);
    }
    case 3: {  // bytes left out
      auto i = at(), n = std::min<std::size_t>(s.size(1, 40), b.size() - i);
      b.erase(i, n);
      return std::to_string(n) + " bytes left out at " + std::to_string(i);
    }
    case 4: {  // bytes put in
      auto i = at();
      std::string x;
      for (auto n = s.size(1, 40); n > 0; --n) {
        x += char(s.below(256));
      }
      b.insert(i, x);
      return std::to_string(x.size()) + " bytes put in at " + std::to_string(i);
    }
    case 5: {  // a part repeated
      auto i = at(), n = std::min<std::size_t>(s.size(1, 80), b.size() - i);
      b.insert(i, b.substr(i, n));
      return std::to_string(n) + " bytes repeated at " + std::to_string(i);
    }
    case 6: {  // anything
      b.clear();
      for (auto n = s.below(120); n > 0; --n) {
        b += char(s.flip() ? s.below(4) : s.below(256));
      }
      return "arbitrary bytes";
    }
    default:
      b += std::string(s.size(1, 20), char(s.below(256)));
      return "bytes appended";
  }
}

double cpu() {
  timespec t{};
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

struct Stream {
  std::size_t how, piece, fail_at;  // how: 0 string, 1 pieces, 2 pieces and failing, 3 file
  Stream(pbt::Source& s, std::size_t size)
      : how{s.weighted({4, 3, 2, 1})},
        piece{how == 1 || how == 2 ? s.one_of<std::size_t>({1, 3, 7, 4096}) : 0},
        fail_at{how == 2 ? s.below(size + 1) : SIZE_MAX} {}
};

// Reads the bytes into the target in some way and decides whether the outcome is right.
template <class T>
void decide(pbt::Case& c, rg::Any<T>& target, const std::string& b, const Stream& stream, const std::string& what) {
  auto [how, piece, fail_at] = stream;
  c.describe("target of kind " + std::to_string(target.mesh.kind) + "; " + what + "\nstream: " +
             std::to_string(how) + " piece " + std::to_string(piece) + " fails at " + std::to_string(long(fail_at)) + "\n" + rg::hex(b, 600) + "\n");
  // What should happen.
  kbytes::Mesh want;
  kbytes::Decoder d{b};
  bool valid = d.decode(want, rg::Data<T>::size);
  bool may = valid && d.lax;
  if (valid && std::is_same_v<T, rg::Rich>) {
    for (auto& x : want.data) {
      may |= (unsigned char)x[16] > 1;
      x[16] = char(x[16] != 0);
    }
  }
  if (fail_at < d.at) {
    valid = false;
  }
  // What happens.
  bool ok{};
  std::string thrown;
  auto& r = target.region;
  auto run = [&](std::istream& in) { ok = kigumi::read_kigumi_region(in, r); };
  static bool hooked = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0;
  (void)hooked;
  std::string file;
  if (how == 3) {
    file = std::string{std::getenv("KIGUMI_TMP") ? std::getenv("KIGUMI_TMP") : "/tmp"} + "/c13.kigumi";
    std::ofstream{file, std::ios::binary} << b;
  }
  std::istringstream plain{b};
  Pieces pieces{b, piece, fail_at};
  std::istream ps{&pieces};
  live = peak = 0;
  counting = true;
  auto t0 = cpu();
  try {
    if (how == 3) {
      ok = kigumi::read_kigumi_region(file, r);
    } else {
      run(how == 0 ? plain : ps);
    }
  } catch (const std::bad_alloc&) {
    counting = false;
    pbt::fail("memory", "std::bad_alloc");
  } catch (const std::length_error& e) {
    counting = false;
    pbt::fail("memory", std::string{"std::length_error: "} + e.what());
  } catch (const std::exception& e) {
    thrown = e.what();
    ok = false;
  }
  counting = false;
  auto t1 = cpu();
  if (how == 3) {
    unlink(file.c_str());
  }
  if (peak > (1L << 20) + 1000L * long(b.size())) {
    pbt::fail("memory", "reading " + std::to_string(b.size()) + " bytes took " + std::to_string(peak) + " bytes of memory");
  }
  if (t1 - t0 > 5) {
    pbt::fail("time", "reading " + std::to_string(b.size()) + " bytes took " + std::to_string(t1 - t0) + " s");
  }
  if (ok) {
    if (!valid) {
      auto why = fail_at < d.at ? "the stream failed" : d.truncated ? "the data are truncated" : "the data are not well-formed";
      pbt::fail("accepted", std::string{"reading reports success though "} + why);
    }
    if (auto diff = rg::compare(r, want); !diff.empty()) {
      pbt::fail("wrong-region", "the region read is not what the bytes say: " + diff);
    }
  } else {
    if (valid && !may) {
      pbt::fail("rejected", "well-formed data are rejected" + (thrown.empty() ? "" : ": " + thrown));
    }
    if (auto diff = rg::compare(r, target.mesh); !diff.empty()) {
      pbt::fail("target-changed", "reading failed but the target changed: " + diff);
    }
  }
  c.nontrivial = !valid && b.size() > 9;
  c.label(ok                ? "accepted"
          : !thrown.empty() ? "rejected by an exception"
          : fail_at < d.at  ? "rejected: stream failure"
          : d.truncated     ? "rejected: truncated"
                            : "rejected: ill-formed");
  c.evals(2);
}

template <class T>
void one(pbt::Case& c) {
  auto& s = c.src;
  // The target and what it holds.
  rg::Any<T> target;
  auto tk = s.weighted({2, 1, 4});
  if (tk == 0) {
    target.mesh.kind = 0;
  } else if (tk == 1) {
    target.region = kigumi::Region<K, T>::full();
    target.mesh.kind = 1;
  } else {
    target = rg::any_region<T>(s, 4);
  }
  // The bytes.
  auto a = rg::any_region<T>(s, s.chance(1, 6) ? 40 : 5);
  kbytes::Marks marks;
  auto b = kbytes::encode(a.mesh, &marks);
  std::string what;
  for (auto n = s.weighted({1, 8, 3, 1}); n > 0; --n) {
    what += damage(s, b, a.mesh, marks) + "; ";
  }
  Stream stream{s, b.size()};
  decide(c, target, b, stream, rg::show(a.mesh) + "damage: " + what);
}

// Any bytes.
template <class T>
void raw_bytes(pbt::Case& c) {
  auto& s = c.src;
  rg::Any<T> target;
  target.mesh.kind = 0;
  if (s.flip()) {
    target.region = kigumi::Region<K, T>::full();
    target.mesh.kind = 1;
  }
  Stream stream{s, 255};
  decide(c, target, s.rest(4096), stream, "any bytes");
}

}  // namespace

PBT_SUB(damaged, 40000, 2000000,
        "the bytes of an arbitrary region with 0 to 3 damages (cut, bit flips, odd values in fields known from the layout, parts left out, "
        "put in or repeated, arbitrary bytes), read from a string, in pieces, from a failing device or a file into targets of every kind: "
        "accepted exactly if an independent strict decoder accepts, then equal; otherwise failure is reported and the target is "
        "unchanged; memory and time are bounded; non-trivial: damaged beyond the header") {
  switch (c.src.below(3)) {
    case 0:
      return one<FD>(c);
    case 1:
      return one<kigumi::Null_data>(c);
    default:
      return one<rg::Rich>(c);
  }
}

PBT_SUB(raw, 0, 0,
        "any bytes, mutated by the coverage-guided search from encodings of regions; same oracle as damaged; non-trivial: ill-formed beyond "
        "the header") {
  switch (c.src.below(3)) {
    case 0:
      return raw_bytes<FD>(c);
    case 1:
      return raw_bytes<kigumi::Null_data>(c);
    default:
      return raw_bytes<rg::Rich>(c);
  }
}

namespace {
template <class T>
std::string valid_bytes(pbt::Source& s) {
  return kbytes::encode(rg::any_region<T>(s, 5).mesh);
}
const bool seeder = [] {
  pbt::seeders()["raw"] = [](pbt::Source& s, std::vector<std::uint8_t>& out) {
    auto k = s.below(3);
    auto b = k == 0 ? valid_bytes<FD>(s) : k == 1 ? valid_bytes<kigumi::Null_data>(s) : valid_bytes<rg::Rich>(s);
    pbt::Source::to_bytes(out, k, 3);
    out.push_back(std::uint8_t(s.below(2)));  // the target
    out.push_back(0);                         // the stream
    out.insert(out.end(), b.begin(), b.end());
  };
  return true;
}();
}  // namespace

int main(int argc, char** argv) {
  pbt::Engine e;
  e.batch = 500;
  return e.main(argc, argv);
}
