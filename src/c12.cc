// C12: the .kigumi format is lossless and byte-for-byte portable.  Built twice: with cpp_rational and with mpq_class.
#include "region_gen.h"

namespace {

template <class T>
std::string write(const kigumi::Region<K, T>& r) {
  std::ostringstream o;
  if (!kigumi::write_kigumi_region(o, r)) {
    pbt::fail("write-failed", "writing to a string stream reported failure");
  }
  return o.str();
}


template <class T>
void one(pbt::Case& c, std::size_t large = 0) {
  auto& s = c.src;
  auto a = large != 0 ? rg::large_region<T>(s, large) : rg::any_region<T>(s);
  c.describe(large != 0 ? std::to_string(a.mesh.v.size()) + " vertices, " + std::to_string(a.mesh.f.size()) + " faces\n" : rg::show(a.mesh));
  if (large != 0) {
    c.label(std::max(a.mesh.v.size(), a.mesh.f.size()) > 65536 ? "more than 65536 vertices or faces" : "fewer");
  }
  auto bytes = write(a.region);
  auto want = kbytes::encode(a.mesh);
  // 1. The bytes are those of the fixed layout.
  kbytes::Mesh dec;
  kbytes::Decoder d{bytes};
  if (!d.decode(dec, rg::Data<T>::size) || d.at != bytes.size()) {
    pbt::fail("layout", "the bytes do not follow the layout (at " + std::to_string(d.at) + "): " + rg::hex(bytes));
  }
  if (kbytes::encode(dec) != want) {
    pbt::fail("layout", "the bytes decode to another region: " + rg::hex(bytes) + "\nexpected " + rg::hex(want));
  }
  // ... one encoding per region, up to the sign of zero in doubles.
  auto zero = [](std::string x) {
    for (std::size_t i = 0; i + 8 <= x.size(); ++i) {
      if (x.compare(i, 8, std::string{"\0\0\0\0\0\0\0\x80", 8}) == 0) {
        x[i + 7] = 0;
      }
    }
    return x;
  };
  // (A coordinate of subnormal magnitude may be in either encoding: CGAL's intervals are not tight there.)
  bool subnormal = false;
  for (const auto& p : a.mesh.v) {
    for (const auto& x : p) {
      subnormal |= x.d && std::fpclassify(*x.d) == FP_SUBNORMAL;
    }
  }
  if (!subnormal && zero(bytes) != zero(want)) {
    pbt::fail("layout", "the bytes are not the fixed encoding: " + rg::hex(bytes) + "\nexpected " + rg::hex(want));
  }
  // 2. Writing the same region again gives the same bytes.
  if (!subnormal && zero(write(a.region)) != zero(bytes)) {
    pbt::fail("not-reproducible", "writing the same region a second time gives other bytes");
  }
  // 3. Reading gives the region back, whatever the target was.
  kigumi::Region<K, T> back;
  auto before = s.weighted({3, 1, 1, 2});
  if (before == 1) {
    back = kigumi::Region<K, T>::full();
  } else if (before == 2) {
    back = kigumi::Region<K, T>::empty();
  } else if (before == 3) {
    back = rg::any_region<T>(s, 4).region;
  }
  auto check = [&](const char* how) {
    if (auto diff = rg::compare(back, a.mesh); !diff.empty()) {
      pbt::fail("round-trip", std::string{"read back "} + how + ": " + diff);
    }
  };
  auto via = s.below(3);
  if (via == 0) {
    std::istringstream in{bytes};
    if (!kigumi::read_kigumi_region(in, back)) {
      pbt::fail("read-failed", "reading what was written reported failure");
    }
    check("from a stream");
  } else if (via == 1) {  // several regions in one stream
    auto b = rg::any_region<T>(s, 4);
    std::stringstream io;
    kigumi::kigumi_write<kigumi::Region<K, T>>(io, b.region);
    kigumi::kigumi_write<kigumi::Region<K, T>>(io, a.region);
    kigumi::kigumi_write<kigumi::Region<K, T>>(io, b.region);
    kigumi::Region<K, T> first;
    if (!kigumi::read_kigumi_region(io, first) || !kigumi::read_kigumi_region(io, back)) {
      pbt::fail("read-failed", "reading concatenated regions reported failure");
    }
    if (auto diff = rg::compare(first, b.mesh); !diff.empty()) {
      pbt::fail("round-trip", "the first of concatenated regions: " + diff);
    }
    check("from concatenated regions");
  } else {
    auto f = std::string{std::getenv("KIGUMI_TMP") ? std::getenv("KIGUMI_TMP") : "/tmp"} + "/c12.kigumi";
    if (s.flip()) {  // an existing longer file
      std::ofstream{f} << std::string(5000, 'x');
    }
    if (!kigumi::write_kigumi_region(f, a.region)) {
      pbt::fail("write-failed", "writing to a file reported failure");
    }
    std::ifstream in{f, std::ios::binary};
    std::string got((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    if (got != bytes) {
      pbt::fail("file", "the file's bytes differ from the stream's");
    }
    if (!kigumi::read_kigumi_region(f, back)) {
      pbt::fail("read-failed", "reading the file reported failure");
    }
    check("from a file");
    unlink(f.c_str());
  }
  // 4. Writing what was read gives the same bytes again.
  if (auto again = write(back); !subnormal && zero(again) != zero(bytes)) {
    pbt::fail("not-reproducible", "writing the region read back gives other bytes: " + rg::hex(again) + "\ninstead of " + rg::hex(bytes));
  }
  bool exact = false;
  for (const auto& p : a.mesh.v) {
    exact |= !(p[0].d && p[1].d && p[2].d);
  }
  c.nontrivial = a.mesh.f.size() > 1;
  c.label(a.mesh.kind != 2 ? "empty or full" : exact ? "with rational coordinates" : "doubles only");
  c.evals(4);
}

}  // namespace

PBT_SUB(round_trip, 24000, 600000,
        "an arbitrary region (any finite doubles, long fractions, lazily computed coordinates, any faces; three face data types): its "
        "bytes must equal an independent encoder's, writing twice must agree, reading (stream, concatenation, file; any target) must "
        "give the same exact vertices, faces and data, and writing that must give the same bytes; non-trivial: at least two faces") {
  switch (c.src.below(3)) {
    case 0:
      return one<FD>(c);
    case 1:
      return one<kigumi::Null_data>(c);
    default:
      return one<rg::Rich>(c);
  }
}

PBT_SUB(large, 60, 1500,
        "regions of up to 100000 vertices and faces (doubles, sometimes with some rationals): the same checks; non-trivial: at least two faces") {
  std::size_t n = c.tier == "thorough" ? 100000 : c.src.chance(1, 8) ? 80000 : 20000;
  switch (c.src.below(3)) {
    case 0:
      return one<FD>(c, n);
    case 1:
      return one<kigumi::Null_data>(c, n);
    default:
      return one<rg::Rich>(c, n);
  }
}

int main(int argc, char** argv) {
  pbt::Engine e;
  e.batch = 400;
  return e.main(argc, argv);
}
