// C15: every text the formats allow is read as the mesh it describes.
#include "kig.h"
#include "text_common.h"

PBT_SUB(variations, 120000, 3000000,
        "a mesh with polygonal faces rendered with random variations the format allows (comments, blank lines, white space, line endings, "
        "number notations, index forms and signs, extra elements, properties, keywords and fields), read as a stream, in pieces or as a "
        "file over any target: the mesh must be the one described, polygons as fans; non-trivial: a polygon with more than three vertices") {
  auto& s = c.src;
  auto f = txt::Format(s.below(3));
  bool large = s.chance(1, 400);
  auto p = large ? txt::poly(s, 300, 300) : txt::poly(s);
  auto text = txt::render(s, f, p).out;
  c.describe(std::string{txt::name(f)} + ":\n" + text.substr(0, 2500));
  Soup m;
  if (s.chance(1, 3)) {
    m = txt::soup_of(txt::poly(s, 4, 3));
    if (s.flip()) {
      m.aabb_tree();
    }
  }
  bool ok{};
  switch (s.weighted({4, 1, 1})) {
    case 0: {
      std::istringstream in{text};
      ok = txt::read(f, in, m);
      break;
    }
    case 1: {
      txt::Pieces b{text, s.one_of<std::size_t>({1, 2, 17, 4096})};
      std::istream in{&b};
      ok = txt::read(f, in, m);
      break;
    }
    default: {
      auto file = txt::tmp_file(f);
      std::ofstream{file, std::ios::binary} << text;
      ok = kigumi::read_triangle_soup(file, m);
      unlink(file.c_str());
      break;
    }
  }
  if (!ok) {
    pbt::fail("rejected", "a conforming text is rejected:\n" + text.substr(0, 2000));
  }
  if (auto d = txt::compare(m, p); !d.empty()) {
    pbt::fail("mesh", d + "\n" + text.substr(0, 2000));
  }
  for (const auto& q : p.f) {
    c.nontrivial |= q.size() > 3;
  }
  c.label(txt::name(f));
}

int main(int argc, char** argv) {
  pbt::Engine e;
  e.batch = 500;
  return e.main(argc, argv);
}
