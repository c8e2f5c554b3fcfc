// C14: meshes written as OBJ, OFF or PLY read back as the same meshes.
#include "region_gen.h"
#include "text_common.h"

namespace {

using kbytes::Rat;

rg::Value value(pbt::Source& s) {
  for (int i = 0; i < 50; ++i) {
    auto v = rg::any_value(s);
    if (v.c.d ? std::fpclassify(*v.c.d) != FP_SUBNORMAL
              : abs(v.c.q) < kbytes::rat_of(1e308) && abs(v.c.q) > kbytes::rat_of(1e-300)) {
      return v;
    }
  }
  return {{Rat{0}, 0.0}, FT{0}};
}

std::string write(txt::Format f, const Soup& m, bool negative, pbt::Source& s) {
  std::string r;
  auto go = [&] {
    if (s.chance(1, 6)) {
      auto file = txt::tmp_file(f);
      if (s.flip()) {  // an existing longer file
        std::ofstream{file} << std::string(20000, '#');
      }
      if (!kigumi::write_triangle_soup(file, m)) {
        pbt::fail("write-failed", "writing a file reported failure");
      }
      r = txt::slurp(file);
      unlink(file.c_str());
    } else {
      std::ostringstream o;
      if (!txt::write(f, o, m)) {
        pbt::fail("write-failed", "writing to a string stream reported failure");
      }
      r = o.str();
    }
  };
  if (negative) {
    kigumi::io::Write_obj_options opt;
    opt.set_negative_indices(true);
    kigumi::io::Write_obj_context ctx{opt};
    go();
  } else {
    go();
  }
  return r;
}

void read(txt::Format f, const std::string& text, Soup& m, pbt::Source& s) {
  bool ok{};
  switch (s.below(6)) {
    case 0: {
      auto file = txt::tmp_file(f);
      std::ofstream{file, std::ios::binary} << text;
      ok = kigumi::read_triangle_soup(file, m);
      unlink(file.c_str());
      break;
    }
    case 1: {
      txt::Pieces b{text, s.one_of<std::size_t>({1, 5, 64})};
      std::istream in{&b};
      ok = txt::read(f, in, m);
      break;
    }
    default: {
      std::istringstream in{text};
      ok = txt::read(f, in, m);
      break;
    }
  }
  if (!ok) {
    pbt::fail("read-failed", "reading what was written reported failure:\n" + text.substr(0, 1500));
  }
}

void one(pbt::Case& c, std::size_t max) {
  auto& s = c.src;
  auto f = txt::Format(s.below(3));
  bool negative = s.chance(1, 3);
  Soup m;
  std::vector<std::array<kbytes::Coord, 3>> v;
  std::vector<std::array<int, 3>> faces;
  bool large = max != 0 || s.chance(1, 200);
  auto nv = max != 0 ? s.size(3000, max) : large ? s.size(500, 3000) : s.size(1, 12);
  auto nf = max != 0 ? s.size(3000, max) : large ? s.size(0, 3000) : s.size(0, 14);
  std::uint64_t seed = max != 0 ? s.below(1 << 20) : 0;
  if (max == 0 && s.chance(1, 60)) {
    nv = nf = 0;
  }
  for (std::size_t i = 0; i < nv; ++i) {
    if (large && i > 20) {
      double x = double(i) / 7;
      m.add_vertex({x, 1, 2});
      v.push_back({kbytes::Coord{kbytes::rat_of(x), x}, kbytes::Coord{Rat{1}, 1.0}, kbytes::Coord{Rat{2}, 2.0}});
      continue;
    }
    auto x = value(s), y = value(s), z = value(s);
    P3 p{x.x, y.x, z.x};
    if (s.chance(1, 4)) {
      p.exact();
    }
    m.add_vertex(p);
    v.push_back({x.c, y.c, z.c});
  }
  for (std::size_t i = 0; i < nf; ++i) {
    std::array<int, 3> t{};
    for (auto& x : t) {
      x = int(max != 0 ? pbt::splitmix(seed) % nv : s.below(nv));
    }
    m.add_face({Vertex_index{std::size_t(t[0])}, Vertex_index{std::size_t(t[1])}, Vertex_index{std::size_t(t[2])}});
    faces.push_back(t);
  }
  auto text = write(f, m, negative, s);
  c.describe(std::string{txt::name(f)} + (negative ? ", negative indices" : "") + ":\n" + text.substr(0, 2000));
  // The text, as another program sees it.
  txt::Poly p;
  if (auto err = txt::parse_plain(f, text, p); !err.empty()) {
    pbt::fail("format", "the text does not conform: " + err + "\n" + text.substr(0, 1500));
  }
  if (p.v.size() != nv || p.f.size() != nf) {
    pbt::fail("format", "the text has " + std::to_string(p.v.size()) + " vertices and " + std::to_string(p.f.size()) + " faces instead of " +
                            std::to_string(nv) + " and " + std::to_string(nf));
  }
  if (f == txt::OBJ && nf != 0) {
    auto l = text.find("\nf ");
    if ((text[l + 3] == '-') != negative) {
      pbt::fail("format", "the index style is not the one asked for");
    }
  }
  for (std::size_t i = 0; i < nv; ++i) {
    for (int k = 0; k < 3; ++k) {
      const auto& want = v[i][k];
      auto got = p.v[i][k];
      bool good = want.d ? got == *want.d
                         : kbytes::rat_of(std::nextafter(got, -INFINITY)) < want.q && want.q < kbytes::rat_of(std::nextafter(got, INFINITY));
      if (!good) {
        char b[64];
        std::snprintf(b, sizeof b, "%.17g", got);
        pbt::fail("coordinate", "coordinate " + std::to_string(k) + " of vertex " + std::to_string(i) + " is written as " + b + ", its value is " +
                                    (want.d ? (std::snprintf(b, sizeof b, "%.17g", *want.d), std::string{b}) : want.q.str()));
      }
    }
  }
  for (std::size_t i = 0; i < nf; ++i) {
    if (p.f[i] != std::vector<int>(faces[i].begin(), faces[i].end())) {
      pbt::fail("faces", "face " + std::to_string(i) + " is written with other vertices");
    }
  }
  // Reading it.
  Soup back;
  if (s.chance(1, 3)) {
    back = txt::soup_of(txt::poly(s, 4, 3));
    if (s.flip()) {
      back.aabb_tree();
    }
  }
  read(f, text, back, s);
  if (auto d = txt::compare(back, p); !d.empty()) {
    pbt::fail("round-trip", "read back: " + d);
  }
  if (auto again = write(f, back, negative, s); again != text) {
    pbt::fail("not-reproducible", "written again:\n" + again.substr(0, 1000) + "\ninstead of\n" + text.substr(0, 1000));
  }
  c.nontrivial = nf >= 2;
  c.label(txt::name(f));
  c.evals(4);
}

}  // namespace

PBT_SUB(round_trip, 40000, 1500000,
        "any mesh (all kinds of finite coordinates, doubles and rationals in any representation; any faces, unused and repeated vertices) "
        "in each format, OBJ with either index style: the text must conform to the format (independent parser), hold each double "
        "exactly and each other coordinate to one unit in the last place, read back as that mesh over any target, and be written again "
        "identically; non-trivial: at least two faces") {
  one(c, 0);
}

PBT_SUB(large, 60, 1500,
        "meshes of 3000 to 100000 vertices and faces: the same checks; non-trivial: at least two faces") {
  one(c, c.tier == "thorough" ? 100000 : c.src.chance(1, 8) ? 80000 : 20000);
}

int main(int argc, char** argv) {
  pbt::Engine e;
  e.batch = 300;
  return e.main(argc, argv);
}
