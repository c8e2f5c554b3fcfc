// Independent descriptions of the OBJ, OFF and PLY text formats: a renderer with every variation the formats allow, and strict
// parsers of what the library writes.
#pragma once
#include <array>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>

#include "engine.h"

namespace txt {

enum Format { OBJ, OFF, PLY };
inline const char* name(Format f) { return f == OBJ ? "obj" : f == OFF ? "off" : "ply"; }

struct Poly {
  std::vector<std::array<double, 3>> v;
  std::vector<std::vector<int>> f;

  std::vector<std::array<int, 3>> fans() const {
    std::vector<std::array<int, 3>> r;
    for (const auto& p : f) {
      for (std::size_t i = 2; i < p.size(); ++i) {
        r.push_back({p[0], p[i - 1], p[i]});
      }
    }
    return r;
  }
};

inline double any_double(pbt::Source& s) {
  switch (s.weighted({6, 3, 3, 2})) {
    case 0:
      return double(s.around(20));
    case 1:
      return double(s.around(100000)) / 1000;
    case 2: {
      std::uint64_t u = s.below(UINT64_MAX);
      auto e = (u >> 52) & 0x7ff;
      if (e == 0x7ff || e == 0) {  // finite and normal
        u ^= std::uint64_t{1} << 62;
        if (((u >> 52) & 0x7ff) == 0x7ff) {
          u &= ~(std::uint64_t{1} << 53);
        }
      }
      double d{};
      std::memcpy(&d, &u, 8);
      return d;
    }
    default:
      return s.one_of({0.0, -0.0, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 0.1, 0.3, 1e22, 1e23, 1e-5,
                       9007199254740993.0, 123456789012345680.0, 1e15, 1e16, 1e17, 0.5});
  }
}

inline Poly poly(pbt::Source& s, std::size_t max_v = 12, std::size_t max_f = 12) {
  Poly p;
  auto nv = s.size(1, max_v), nf = s.size(0, max_f);
  for (std::size_t i = 0; i < nv; ++i) {
    p.v.push_back({any_double(s), any_double(s), any_double(s)});
  }
  for (std::size_t i = 0; i < nf; ++i) {
    auto k = s.weighted({8, 4, 3, 1});
    auto n = k == 0 ? 3 : k == 1 ? s.size(4, 6) : k == 2 ? s.size(3, 12) : s.size(3, 60);
    std::vector<int> f;
    for (std::size_t j = 0; j < n; ++j) {
      f.push_back(int(s.below(nv)));
    }
    p.f.push_back(f);
  }
  return p;
}

// A notation of exactly this double.
inline std::string number(pbt::Source& s, double d) {
  char b[1500];
  std::snprintf(b, sizeof b, "%.17g", d);
  std::string r = b;
  auto same = [&](const std::string& t) {
    auto x = std::strtod(t.c_str(), nullptr);
    return x == d && std::signbit(x) == std::signbit(d);
  };
  auto k = s.below(10);
  if (k == 1) {
    for (int p = 1; p < 17; ++p) {
      std::snprintf(b, sizeof b, "%.*g", p, d);
      if (same(b)) {
        r = b;
        break;
      }
    }
  } else if (k == 2) {
    std::snprintf(b, sizeof b, "%.16e", d);
    r = b;
  } else if (k == 3) {
    std::snprintf(b, sizeof b, "%.16E", d);
    r = b;
  } else if (k == 4) {
    std::snprintf(b, sizeof b, "%.*f", int(s.below(8)), d);
    r = b;
  } else if (k == 5 && d == std::floor(d) && std::fabs(d) < 1e15) {
    std::snprintf(b, sizeof b, "%.0f.", d);
    r = b;
  } else if (k == 6 && std::fabs(d) < 1 && d != 0) {  // no digit before the point
    std::snprintf(b, sizeof b, "%.20f", d);
    r = b;
    auto z = r.find('0');
    r.erase(z, 1);
  } else if (k == 7) {
    std::snprintf(b, sizeof b, "%.25g", d);
    r = b;
  } else if (k == 8 && std::fabs(d) < 1e15) {
    std::snprintf(b, sizeof b, "%.60f", d);
    r = b;
  }
  if (!same(r)) {
    std::snprintf(b, sizeof b, "%.17g", d);
    r = b;
  }
  if (r[0] != '-' && s.chance(1, 10)) {
    r = (s.flip() ? "+" : "0") + r;
  }
  return r;
}

struct Style {
  std::string eol = "\n";
  bool last_eol = true, comments = false, blanks = false, spaces = false, mixed = false;
};

inline Style style(pbt::Source& s) {
  Style t;
  t.eol = s.chance(1, 4) ? "\r\n" : "\n";
  t.mixed = s.chance(1, 12);
  t.last_eol = !s.chance(1, 4);
  t.comments = s.chance(1, 2);
  t.blanks = s.chance(1, 2);
  t.spaces = s.chance(1, 2);
  return t;
}

// Where the tokens of a coordinate triple or of a face's vertex references are.
struct Mark {
  std::size_t line;
  std::vector<std::size_t> tokens;
  std::size_t seen{};  // vertices before the line (OBJ)
};

class Writer {
 public:
  std::vector<Mark> vertices, faces;
  std::size_t header{};  // lines of the header (OFF, PLY)
  Writer(pbt::Source& s, Style t) : s_{s}, t_{std::move(t)} {}
  std::string out;
  std::vector<std::string> lines;  // for damage by line

  std::string sep() { return t_.spaces ? s_.one_of<const char*>({" ", "  ", "\t", " \t ", "    "}) : " "; }

  // A line of the given tokens.
  void line(const std::vector<std::string>& tokens, bool tail_comment = false) {
    std::string l;
    if (t_.spaces && s_.chance(1, 4)) {
      l += sep();
    }
    for (std::size_t i = 0; i < tokens.size(); ++i) {
      l += (i == 0 ? "" : sep()) + tokens[i];
    }
    if (tail_comment && t_.comments && s_.chance(1, 6)) {
      l += " # " + words();
    }
    if (t_.spaces && s_.chance(1, 4)) {
      l += sep();
    }
    put(l);
  }
  void put(const std::string& l) { lines.push_back(l); }
  // Optional comment and blank lines.
  void between(const char* mark, bool blanks = true) {
    while (t_.comments && s_.chance(1, 5)) {
      put(std::string{t_.spaces && s_.flip() && mark[0] == '#' ? " " : ""} + mark + (mark[0] != '#' || s_.flip() ? " " : "") + words());
    }
    while (blanks && t_.blanks && s_.chance(1, 5)) {
      put(s_.one_of<const char*>({"", " ", "\t", "   "}));
    }
  }
  std::string words() {
    std::string r;
    for (auto n = s_.below(4); n > 0; --n) {
      r += s_.one_of<const char*>({"abc ", "v 1 2 3 ", "f 1 2 3 ", "3 0 1 2 ", "# ", "-1 ", "end_header ", "\"x\" ", "0.5,", "\xc3\xa9 ", "\\n "});
    }
    return r;
  }
  static std::string join(pbt::Source& s, const Style& t, const std::vector<std::string>& lines) {
    std::string r;
    for (std::size_t i = 0; i < lines.size(); ++i) {
      r += lines[i];
      if (i + 1 < lines.size() || t.last_eol) {
        r += t.mixed && s.flip() ? "\n" : t.eol;
      }
    }
    return r;
  }
  const Style& style() const { return t_; }

 private:
  pbt::Source& s_;
  Style t_;
};

inline std::vector<std::string> coords(pbt::Source& s, const std::array<double, 3>& p) {
  return {number(s, p[0]), number(s, p[1]), number(s, p[2])};
}
inline std::string small(pbt::Source& s) {
  return s.flip() ? std::to_string(s.below(256)) : s.one_of<const char*>({"0.5", "1", "-1", "0", "255", "1e-3", "3"});
}

inline void obj(pbt::Source& s, Writer& w, const Poly& p) {
  bool extras = s.flip(), interleave = s.chance(1, 3);
  auto tuples = s.below(5);  // form of the references
  auto sign = s.below(3);
  std::size_t nv = 0, nf = 0;
  auto other = [&] {
    while (extras && s.chance(1, 4)) {
      switch (s.below(9)) {
        case 0:
          w.line({"vt", small(s), small(s)});
          break;
        case 1:
          w.line({"vn", small(s), small(s), small(s)});
          break;
        case 2:
          w.line({"g", "group", "v"});
          break;
        case 3:
          w.line({"o", "object"});
          break;
        case 4:
          w.line({"s", s.flip() ? "off" : "1"});
          break;
        case 5:
          w.line({"usemtl", "f"});
          break;
        case 6:
          w.line({"mtllib", "v.mtl"});
          break;
        case 7:
          w.line({"vp", "0.5", "0.5"});
          break;
        default:
          w.line({"g"});
          break;
      }
    }
  };
  while (nv < p.v.size() || nf < p.f.size()) {
    w.between("#");
    other();
    bool face = nv == p.v.size();
    if (!face && interleave && nf < p.f.size() && s.flip()) {
      face = true;
      for (auto i : p.f[nf]) {
        face &= std::size_t(i) < nv;
      }
    }
    if (face) {
      std::vector<std::string> t{"f"};
      for (auto i : p.f[nf]) {
        bool neg = sign == 1 || (sign == 2 && s.flip());
        auto r = std::to_string(neg ? long(i) - long(nv) : long(i) + 1);
        auto form = tuples == 4 ? s.below(4) : tuples;
        r += form == 0 ? "" : form == 1 ? "/" + std::to_string(s.range(1, 99)) : form == 2 ? "//" + std::to_string(s.range(1, 99)) : "/-7/12";
        t.push_back(r);
      }
      w.line(t, true);
      w.faces.push_back({w.lines.size() - 1, {}, nv});
      for (std::size_t k = 1; k < t.size(); ++k) {
        w.faces.back().tokens.push_back(k);
      }
      ++nf;
    } else {
      auto t = coords(s, p.v[nv]);
      t.insert(t.begin(), "v");
      if (extras) {
        for (auto k = s.one_of({0, 1, 3}); k > 0; --k) {
          t.push_back(small(s));
        }
      }
      w.line(t, true);
      w.vertices.push_back({w.lines.size() - 1, {1, 2, 3}});
      ++nv;
    }
  }
  w.between("#");
  other();
}

inline void off(pbt::Source& s, Writer& w, const Poly& p) {
  w.between("#");
  auto sig = s.weighted({6, 1, 1, 1, 1, 1, 1, 1});
  bool st = sig == 3 || sig == 5 || sig == 7, c = sig == 1 || sig == 4 || sig == 5 || sig == 7, n = sig == 2 || sig == 4 || sig == 7;
  w.line({std::string{st ? "ST" : ""} + (c ? "C" : "") + (n ? "N" : "") + "OFF"}, true);
  w.between("#");
  // Faces of one or two vertices describe no triangle.
  std::vector<std::vector<int>> faces;
  bool slim = s.chance(1, 6);
  for (const auto& f : p.f) {
    if (slim && s.chance(1, 3)) {
      faces.push_back(std::vector<int>(s.size(1, 2), int(s.below(p.v.size()))));
    }
    faces.push_back(f);
  }
  w.line({std::to_string(p.v.size()), std::to_string(faces.size()), std::to_string(s.below(40))}, true);
  w.header = w.lines.size();
  for (const auto& v : p.v) {
    w.between("#");
    auto t = coords(s, v);
    for (auto k = (n ? 3 : 0) + (c ? 4 : 0) + (st ? 2 : 0); k > 0; --k) {
      t.push_back(small(s));
    }
    w.line(t, true);
    w.vertices.push_back({w.lines.size() - 1, {0, 1, 2}});
  }
  bool colours = s.flip();
  for (const auto& f : faces) {
    w.between("#");
    std::vector<std::string> t{std::to_string(f.size())};
    for (auto i : f) {
      t.push_back(std::to_string(i));
    }
    for (auto k = colours ? s.one_of({0, 1, 3, 4}) : 0; k > 0; --k) {
      t.push_back(small(s));
    }
    w.line(t, true);
    w.faces.push_back({w.lines.size() - 1, {}});
    for (std::size_t k = 1; k <= f.size(); ++k) {
      w.faces.back().tokens.push_back(k);
    }
  }
  w.between("#");
}

inline void ply(pbt::Source& s, Writer& w, const Poly& p) {
  auto type = [&] { return s.one_of<const char*>({"float", "double", "float32", "float64", "int", "uchar", "short", "char", "uint8", "ushort"}); };
  w.line({"ply"});
  w.between("comment");
  w.line({"format", "ascii", "1.0"});
  struct Prop {
    int role;  // 0-2 coordinate, 3 vertex indices, 4 scalar, 5 list
    std::string name;
  };
  struct Elem {
    int role;  // 0 vertex, 1 face, 2 other
    std::string name;
    std::size_t count;
    std::vector<Prop> props;
  };
  bool extras = s.flip();
  int serial = 0;
  std::vector<Elem> elems;
  auto extra = [&](Elem& e) {
    while (extras && s.chance(1, 3)) {
      e.props.push_back({s.chance(1, 3) ? 5 : 4, s.one_of<const char*>({"nx", "red", "quality", "flags", "u", "xx", "vertex_id"}) + std::to_string(serial++)});
    }
  };
  auto other = [&] {
    while (extras && s.chance(1, 3)) {
      Elem e{2, s.one_of<const char*>({"edge", "material", "tristrips", "vertices", "camera"}) + std::to_string(serial++), s.below(4), {}};
      e.props.push_back({4, "a"});
      extra(e);
      elems.push_back(e);
    }
  };
  other();
  Elem v{0, "vertex", p.v.size(), {}};
  std::vector<Prop> xyz{{0, "x"}, {1, "y"}, {2, "z"}};
  if (s.chance(1, 5)) {
    s.shuffle(xyz);
  }
  for (auto& q : xyz) {
    extra(v);
    v.props.push_back(q);
  }
  extra(v);
  Elem f{1, "face", p.f.size(), {}};
  extra(f);
  f.props.push_back({3, s.flip() ? "vertex_indices" : "vertex_index"});
  extra(f);
  bool reversed = s.chance(1, 8);
  elems.push_back(reversed ? f : v);
  other();
  elems.push_back(reversed ? v : f);
  other();
  for (const auto& e : elems) {
    w.between("comment");
    w.line({"element", e.name, std::to_string(e.count)});
    for (const auto& q : e.props) {
      w.between("comment");
      if (q.role == 3 || q.role == 5) {
        w.line({"property", "list", s.one_of<const char*>({"uchar", "int", "uint8", "ushort", "uint"}), q.role == 3 ? s.one_of<const char*>({"int", "uint", "int32", "uint32"}) : type(), q.name});
      } else {
        w.line({"property", type(), q.name});
      }
    }
  }
  w.between("comment");
  w.line({"end_header"});
  w.header = w.lines.size();
  for (const auto& e : elems) {
    for (std::size_t i = 0; i < e.count; ++i) {
      std::vector<std::string> t;
      Mark mark{w.lines.size(), std::vector<std::size_t>(e.role == 0 ? 3 : 0)};
      for (const auto& q : e.props) {
        if (q.role < 3) {
          mark.tokens[std::size_t(q.role)] = t.size();
          t.push_back(number(s, p.v[i][std::size_t(q.role)]));
        } else if (q.role == 3) {
          t.push_back(std::to_string(p.f[i].size()));
          for (auto k : p.f[i]) {
            mark.tokens.push_back(t.size());
            t.push_back(std::to_string(k));
          }
        } else if (q.role == 4) {
          t.push_back(small(s));
        } else {
          auto n = s.below(4);
          t.push_back(std::to_string(n));
          for (; n > 0; --n) {
            t.push_back(small(s));
          }
        }
      }
      w.line(t);
      if (e.role < 2) {
        (e.role == 0 ? w.vertices : w.faces).push_back(mark);
      }
    }
  }
}

// The lines of a text that describes the mesh.
inline Writer render(pbt::Source& s, Format f, const Poly& p) {
  Writer w{s, style(s)};
  if (f == OBJ) {
    obj(s, w, p);
  } else if (f == OFF) {
    off(s, w, p);
  } else {
    ply(s, w, p);
  }
  w.out = Writer::join(s, w.style(), w.lines);
  return w;
}

// Replaces a token of a line (by nothing: cuts the line there).
inline void set_token(std::string& line, std::size_t token, const std::string& to) {
  std::size_t a = 0, b = 0;
  for (std::size_t k = 0;; ++k) {
    a = line.find_first_not_of(" \t", b);
    if (a == std::string::npos) {
      return;
    }
    b = std::min(line.find_first_of(" \t", a), line.size());
    if (k == token) {
      break;
    }
  }
  line = to.empty() ? line.substr(0, a) : line.substr(0, a) + to + line.substr(b);
}
inline std::size_t num_tokens(const std::string& line) {
  std::istringstream in{line};
  std::string t;
  std::size_t n = 0;
  while (in >> t) {
    ++n;
  }
  return n;
}

// Strict parser of the plain form of each format (what other programs understand without ambiguity).  Empty string: no error.
inline std::string parse_plain(Format fmt, const std::string& text, Poly& p) {
  std::vector<std::vector<std::string>> lines;
  std::istringstream in{text};
  std::string l;
  if (!text.empty() && text.back() != '\n') {
    return "the last line does not end";
  }
  while (std::getline(in, l)) {
    std::istringstream ls{l};
    std::vector<std::string> t;
    std::string x;
    while (ls >> x) {
      t.push_back(x);
    }
    lines.push_back(t);
  }
  std::string err;
  auto real = [&](const std::string& t) {
    char* e{};
    auto d = std::strtod(t.c_str(), &e);
    if (*e != 0 || t.empty() || !std::isfinite(d) || t.find_first_not_of("0123456789+-.e") != std::string::npos) {
      err = "bad number '" + t + "'";
    }
    return d;
  };
  auto integer = [&](const std::string& t) {
    char* e{};
    auto d = std::strtol(t.c_str(), &e, 10);
    if (*e != 0 || t.empty()) {
      err = "bad integer '" + t + "'";
    }
    return d;
  };
  auto vertex = [&](const std::vector<std::string>& t, std::size_t first) {
    if (t.size() != first + 3) {
      err = "a vertex line of " + std::to_string(t.size()) + " tokens";
      return;
    }
    p.v.push_back({real(t[first]), real(t[first + 1]), real(t[first + 2])});
  };
  auto face = [&](const std::vector<std::string>& t, long base, bool relative) {
    if (t.size() != 4) {
      err = "a face line of " + std::to_string(t.size()) + " tokens";
      return;
    }
    std::vector<int> f;
    for (int k = 1; k < 4; ++k) {
      auto i = integer(t[k]);
      i = relative && i < 0 ? long(p.v.size()) + i : i - base;
      if (i < 0 || i >= long(p.v.size())) {
        err = "index '" + t[k] + "' out of range";
      }
      f.push_back(int(i));
    }
    p.f.push_back(f);
  };
  if (fmt == OBJ) {
    for (const auto& t : lines) {
      if (t.empty() || (t[0] != "v" && t[0] != "f")) {
        err = "unknown line";
      } else if (t[0] == "v") {
        vertex(t, 1);
      } else {
        face(t, 1, true);
      }
    }
    return err;
  }
  std::size_t at = 0, nv = 0, nf = 0;
  if (fmt == OFF) {
    if (lines.size() < 2 || lines[0] != std::vector<std::string>{"OFF"} || lines[1].size() != 3) {
      return "bad header";
    }
    nv = std::size_t(integer(lines[1][0]));
    nf = std::size_t(integer(lines[1][1]));
    integer(lines[1][2]);
    at = 2;
  } else {
    using L = std::vector<std::string>;
    auto is = [&](const L& want) { return at < lines.size() && lines[at++] == want; };
    auto elem = [&](const char* n, std::size_t& c) {
      if (at >= lines.size() || lines[at].size() != 3 || lines[at][0] != "element" || lines[at][1] != n) {
        return false;
      }
      c = std::size_t(integer(lines[at++][2]));
      return true;
    };
    auto prop = [&](const char* n) {
      return at < lines.size() && lines[at].size() == 3 && lines[at][0] == "property" && (lines[at][1] == "float" || lines[at][1] == "double") &&
             lines[at++][2] == n;
    };
    if (!is({"ply"}) || !is({"format", "ascii", "1.0"}) || !elem("vertex", nv) || !prop("x") || !prop("y") || !prop("z") ||
        !elem("face", nf) || at >= lines.size() || lines[at].size() != 5 || lines[at][0] != "property" || lines[at][1] != "list" ||
        (lines[at][4] != "vertex_index" && lines[at][4] != "vertex_indices")) {
      return "bad header";
    }
    ++at;
    if (!is({"end_header"})) {
      return "bad header";
    }
  }
  if (nv > lines.size() || nf > lines.size() || lines.size() != at + nv + nf) {
    return "the counts are " + std::to_string(nv) + " and " + std::to_string(nf) + " but there are " + std::to_string(lines.size() - at) + " lines";
  }
  for (std::size_t i = 0; i < nv; ++i) {
    vertex(lines[at++], 0);
  }
  for (std::size_t i = 0; i < nf; ++i) {
    if (lines[at].empty() || lines[at][0] != "3") {
      return "a face without the count 3";
    }
    face(lines[at++], 0, false);
  }
  return err;
}

}  // namespace txt
