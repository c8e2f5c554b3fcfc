// C16: malformed text meshes are rejected cleanly and leave the target unchanged.
#include "kig.h"
// After kig.h.
#include "text_common.h"
// After the engine.
#include <sys/stat.h>

#include "memory_meter.h"

namespace {

using Lines = std::vector<std::string>;

std::string odd_token(pbt::Source& s, std::size_t nv) {
  if (s.chance(1, 3)) {
    return std::to_string(long(nv) + s.around(2));
  }
  return s.one_of<const char*>({"-1", "0", "1", "3", "4", "nan", "inf", "-inf", "infinity", "NaN(1)", "1e999", "-1e999", "1e-999", "x", "1.5", "1.5x",
                                "99999999999999999999", "18446744073709551615", "18446744073709551616", "9223372036854775807",
                                "9223372036854775808", "-9223372036854775808", "4294967295", "4294967296", "2147483648", "1000000000", "-2",
                                "-0", "+", "-", ".", "#", "0x10", "1e", "1,2", "/", "1/", "v", "f", "OFF", "element", "property", "list",
                                "end_header", "\xff\xfe", "3 0 1 2"});
}

std::string damage(pbt::Source& s, Lines& l, std::string& text, std::size_t nv) {
  // Line and token damages come first (text is empty), then damages of the bytes.
  if (text.empty()) {
    if (l.empty()) {
      return "";
    }
    auto i = s.below(l.size());
    switch (s.weighted({8, 3, 2, 2, 2, 1})) {
      case 0: {
        auto n = txt::num_tokens(l[i]);
        auto k = s.below(n + 1);
        auto to = odd_token(s, nv);
        if (k == n) {
          l[i] += " " + to;
        } else {
          txt::set_token(l[i], k, to);
        }
        return "token " + std::to_string(k) + " of line " + std::to_string(i) + " set to " + to;
      }
      case 1: {
        auto n = txt::num_tokens(l[i]);
        if (n != 0) {
          txt::set_token(l[i], s.below(n), "");
        }
        return "line " + std::to_string(i) + " cut";
      }
      case 2:
        l.erase(l.begin() + long(i));
        return "line " + std::to_string(i) + " left out";
      case 3:
        l.insert(l.begin() + long(i), l[s.below(l.size())]);
        return "a line repeated at " + std::to_string(i);
      case 4:
        std::swap(l[i], l[s.below(l.size())]);
        return "line " + std::to_string(i) + " exchanged";
      default:
        l.insert(l.begin() + long(i), odd_token(s, nv) + " " + odd_token(s, nv) + " " + odd_token(s, nv) + " " + odd_token(s, nv));
        return "odd line at " + std::to_string(i);
    }
  }
  auto i = s.below(text.size());
  switch (s.below(4)) {
    case 0:
      text.resize(i);
      return "cut to " + std::to_string(i) + " bytes";
    case 1:
      text[i] = char((unsigned char)text[i] ^ (1U << s.below(8)));
      return "bit flip at " + std::to_string(i);
    case 2:
      text.erase(i, s.size(1, 6));
      return "bytes left out at " + std::to_string(i);
    default: {
      std::string x;
      for (auto n = s.size(1, 4); n > 0; --n) {
        x += char(s.flip() ? s.below(256) : s.one_of<int>({'\n', ' ', '-', '0', '9', '#', 0, '.', 'e', '/', '\r', '\t'}));
      }
      text.insert(i, x);
      return "bytes put in at " + std::to_string(i);
    }
  }
}

std::string arbitrary(pbt::Source& s, txt::Format f) {
  std::string t;
  if (s.flip()) {
    t = f == txt::OBJ ? "" : f == txt::OFF ? "OFF\n3 1 0\n" : "ply\nformat ascii 1.0\nelement vertex 2\nproperty float x\nproperty float y\nproperty float z\nelement face 1\nproperty list uchar int vertex_index\nend_header\n";
  }
  for (auto n = s.below(40); n > 0; --n) {
    t += s.chance(1, 12) ? std::string(1, char(s.below(256))) : odd_token(s, 3);
    t += s.one_of<const char*>({" ", " ", "\n", "", "\t", "\r\n"});
  }
  return t;
}

// Reads the text into a target and checks what holds for every text.  Returns whether it was accepted.
bool attempt(pbt::Case& c, txt::Format f, bool faults, Soup& m, std::size_t size, const std::function<std::string()>& make_text) {
  auto& s = c.src;
  txt::Poly before;
  if (s.chance(2, 3)) {
    before = txt::poly(s, 4, 3);
    m = txt::soup_of(before);
    if (s.flip()) {
      m.aabb_tree();
    }
  }
  auto was = txt::contents(m);
  auto how = s.weighted({4, 1, 1, faults ? 2u : 0u});
  std::size_t piece = how == 1 || how == 3 ? s.one_of<std::size_t>({1, 7, 4096}) : 0;
  std::size_t fail_at = how == 3 ? s.below(size + 1) : SIZE_MAX;
  auto text = make_text();
  bool ok{};
  std::string thrown, file;
  if (how == 2) {
    file = txt::tmp_file(f);
    std::ofstream{file, std::ios::binary} << text;
  }
  std::istringstream plain{text};
  txt::Pieces pieces{text, piece, fail_at};
  std::istream in{&pieces};
  try {
    meter::Scope scope;
    ok = how == 2 ? kigumi::read_triangle_soup(file, m) : how == 0 ? txt::read(f, plain, m) : txt::read(f, in, m);
  } catch (const std::bad_alloc&) {
    pbt::fail("memory", "std::bad_alloc");
  } catch (const std::length_error& e) {
    pbt::fail("memory", std::string{"std::length_error: "} + e.what());
  } catch (const std::exception& e) {
    thrown = e.what();
    ok = false;
  }
  meter::check(text.size());
  if (how == 2) {
    unlink(file.c_str());
  }
  c.evals(2);
  if (!ok) {
    if (txt::contents(m) != was) {
      pbt::fail("target-changed", "reading failed but the target changed");
    }
    return false;
  }
  for (auto v : m.vertices()) {
    const auto& p = m.point(v);
    for (int k = 0; k < 3; ++k) {
      auto i = CGAL::to_interval(p[k]);
      if (!(std::isfinite(i.first) && std::isfinite(i.second))) {
        pbt::fail("not-finite", "a vertex is read with a coordinate that is not finite");
      }
    }
  }
  for (auto t : m.faces()) {
    for (auto v : m.face(t)) {
      if (v.idx() >= m.num_vertices()) {
        pbt::fail("index", "a face refers to vertex " + std::to_string(v.idx()) + " of " + std::to_string(m.num_vertices()));
      }
    }
  }
  if (fail_at < text.size()) {
    pbt::fail("device", "reading reports success though the device failed after " + std::to_string(fail_at) + " of " +
                            std::to_string(text.size()) + " bytes");
  }
  return true;
}

// What an accepted text must have: the elements it announces, and finite coordinates, which the mesh then has.  Empty: nothing is missing.
std::string missing(txt::Format f, const std::string& text, const Soup& m) {
  std::vector<std::vector<std::string>> lines;
  std::istringstream in{text};
  std::string l, t;
  bool body = false, blank = false;
  while (std::getline(in, l)) {
    std::istringstream ls{l};
    std::vector<std::string> ts;
    while (ls >> t) {
      ts.push_back(t);
    }
    if (f == txt::PLY ? !ts.empty() && (body || ts[0] != "comment") : !ts.empty() && ts[0][0] != '#') {
      lines.push_back(ts);
    }
    blank |= body && ts.empty();
    body |= !ts.empty() && ts[0] == "end_header";
  }
  std::vector<std::size_t> vertices;  // their lines
  std::size_t first = 0;              // the token of the first coordinate
  auto count = [&](const std::string& x) {
    std::size_t n = 0;
    for (auto ch : x) {
      if (ch < '0' || ch > '9' || n > 1000000) {
        return n > 1000000 ? n : SIZE_MAX;
      }
      n = 10 * n + std::size_t(ch - '0');
    }
    return n;
  };
  if (f == txt::OBJ) {
    first = 1;
    for (std::size_t i = 0; i < lines.size(); ++i) {
      if (lines[i][0] == "v") {
        vertices.push_back(i);
      }
    }
  } else if (f == txt::OFF) {
    if (lines.empty() || lines[0][0].size() < 3 || lines[0][0].substr(lines[0][0].size() - 3) != "OFF") {
      return "the signature";
    }
    if (lines.size() < 2 || (lines[1].size() < 2 && count(lines[1][0]) != SIZE_MAX)) {
      return "the counts";
    }
    if (lines[1].size() < 2) {
      return "";  // not so clear
    }
    auto nv = count(lines[1][0]), nf = count(lines[1][1]);
    if (nv == SIZE_MAX || nf == SIZE_MAX) {
      return "";  // not so clear
    }
    if (lines.size() < 2 + nv + nf) {
      return "elements";
    }
    for (std::size_t i = 0; i < nv; ++i) {
      vertices.push_back(2 + i);
    }
  } else {
    std::size_t i = 0;
    struct Element {
      std::string name;
      std::size_t count, at;
      std::vector<std::string> properties;
    };
    std::vector<Element> es;
    for (; i < lines.size() && lines[i][0] != "end_header"; ++i) {
      if (lines[i][0] == "element") {
        if (lines[i].size() < 3) {
          return "a count";
        }
        es.push_back({lines[i][1], count(lines[i][2]), 0, {}});
        if (es.back().count == SIZE_MAX) {
          return "";
        }
      } else if (lines[i][0] == "property") {
        if (es.empty() || lines[i].size() < 3) {
          return "a property's element or name";
        }
        es.back().properties.push_back(lines[i][1] == "list" ? "list" : lines[i][2]);
      }
    }
    if (i == lines.size() || lines[0][0] != "ply") {
      return "the signature or the end of the header";
    }
    auto at = ++i;
    const Element *v{}, *face{};
    for (auto& e : es) {
      e.at = at;
      at += e.count;
      v = v == nullptr && e.name == "vertex" ? &e : v;
      face = face == nullptr && e.name == "face" ? &e : face;
    }
    if (v == nullptr || face == nullptr) {
      return "vertices or faces";
    }
    if (v->count != 0) {
      for (auto x : {"x", "y", "z"}) {
        if (std::find(v->properties.begin(), v->properties.end(), x) == v->properties.end()) {
          return std::string{"the property "} + x;
        }
      }
    }
    // Elements without properties may have empty lines.
    for (const auto& e : es) {
      if (e.properties.empty() && e.count != 0) {
        return "";
      }
    }
    if (blank) {
      return "";  // blank lines may stand for elements
    }
    if (lines.size() < at) {
      return "elements";
    }
    if (m.num_vertices() != v->count) {
      return "vertices: " + std::to_string(m.num_vertices()) + " of " + std::to_string(v->count);
    }
    if (v->properties.size() < 3 || v->properties[0] != "x" || v->properties[1] != "y" || v->properties[2] != "z") {
      return "";
    }
    for (std::size_t k = 0; k < v->count; ++k) {
      vertices.push_back(v->at + k);
    }
  }
  if (m.num_vertices() != vertices.size()) {
    return "vertices: " + std::to_string(m.num_vertices()) + " of " + std::to_string(vertices.size());
  }
  auto vi = m.vertices().begin();
  for (auto i : vertices) {
    const auto& p = m.point(*vi);
    ++vi;
    for (std::size_t k = 0; k < 3; ++k) {
      if (first + k >= lines[i].size()) {
        return "a coordinate";
      }
      auto x = lines[i][first + k];
      char* e{};
      auto d = std::strtod(x.c_str(), &e);
      if (*e != 0 || e == x.c_str() || !std::isfinite(d) || x.find_first_of("xXnN") != std::string::npos) {
        return "a finite number: '" + x + "'";
      }
      if (p[int(k)] != d && std::fabs(d) >= std::numeric_limits<double>::min()) {
        return "the coordinate " + x;
      }
    }
  }
  return "";
}

}  // namespace

PBT_SUB(damaged, 80000, 3000000,
        "a conforming text with 0 to 4 damages (odd tokens, lines cut, left out, repeated or exchanged, bytes flipped, removed or put in, "
        "truncation) or an arbitrary text, read from a string, in pieces, a file or a failing device into any target: success only with "
        "finite coordinates and valid indices, otherwise the target is unchanged; memory and time bounded; non-trivial: rejected") {
  auto& s = c.src;
  auto f = txt::Format(s.below(3));
  std::string text, what;
  if (s.chance(1, 6)) {
    text = arbitrary(s, f);
    what = "arbitrary text";
  } else {
    auto p = txt::poly(s, s.chance(1, 8) ? 40 : 5, s.chance(1, 8) ? 30 : 5);
    auto w = txt::render(s, f, p);
    for (auto n = s.weighted({1, 6, 3, 1}); n > 0; --n) {
      what += damage(s, w.lines, text, p.v.size()) + "; ";
    }
    text = txt::Writer::join(s, w.style(), w.lines);
    for (auto n = s.weighted({5, 3, 1}); n > 0 && !text.empty(); --n) {
      what += damage(s, w.lines, text, p.v.size()) + "; ";
    }
  }
  c.describe(std::string{txt::name(f)} + ", " + what + "\n" + text.substr(0, 3000));
  Soup m;
  bool ok = attempt(c, f, true, m, text.size(), [&] { return text; });
  if (auto w = ok ? missing(f, text, m) : ""; !w.empty()) {
    pbt::fail("accepted", "a text is accepted that lacks " + w + "\n" + text.substr(0, 1500));
  }
  c.nontrivial = !ok;
  c.label(std::string{txt::name(f)} + (ok ? " accepted" : " rejected"));
}

PBT_SUB(must_reject, 50000, 1500000,
        "a conforming text with one damage that leaves it without meaning (cut before its last element, a coordinate missing, not a number "
        "or not finite, an index out of range, a broken header): it must be rejected and the target unchanged; all are non-trivial") {
  auto& s = c.src;
  auto f = txt::Format(s.below(3));
  auto p = txt::poly(s, 8, 8);
  auto w = txt::render(s, f, p);
  auto st = w.style();
  auto& l = w.lines;
  std::string what;
  auto kind = s.below(4);
  if (kind == 0 && f != txt::OBJ) {  // cut
    auto last = l.size();
    while (last > 0 && (txt::num_tokens(l[last - 1]) == 0 || l[last - 1][l[last - 1].find_first_not_of(" \t")] == '#')) {
      --last;
    }
    // At the start of its last element's line, or before.
    l.resize(last - 1 - (s.flip() ? s.below(last) : 0));
    what = "cut after " + std::to_string(l.size()) + " lines";
  } else if (kind == 1 && !w.faces.empty()) {  // an index
    const auto& m = w.faces[s.below(w.faces.size())];
    auto nv = p.v.size();
    auto t = m.tokens[s.below(m.tokens.size())];
    std::string to;
    if (f == txt::OBJ) {
      // Positive references may be to later vertices, so out of range means beyond all of them.
      to = s.flip() ? std::to_string(nv + 1 + s.below(3)) : s.flip() ? std::to_string(-long(m.seen) - 1 - long(s.below(3)))
                    : s.one_of<const char*>({"0", "4294967297", "9223372036854775807", "-9223372036854775808", "-4294967295"});
      if (s.chance(1, 3)) {
        to += s.one_of<const char*>({"/1", "//1", "/1/1"});
      }
    } else {
      to = s.flip() ? std::to_string(nv + s.below(3))
                    : s.one_of<const char*>({"-1", "-2", "4294967296", "18446744073709551615", "18446744073709551616", "9223372036854775808", "x", "nan"});
    }
    if (m.tokens.size() < 3) {
      throw pbt::Discard{};
    }
    txt::set_token(l[m.line], t, to);
    what = "an index set to " + to;
  } else if (kind == 2 && f != txt::OBJ) {  // the header
    switch (s.below(4)) {
      case 0: {  // a line of the header is lost
        std::vector<std::size_t> content;
        for (std::size_t i = 0; i < w.header; ++i) {
          std::istringstream in{l[i]};
          std::string t, u;
          in >> t >> u;
          if (t.empty() || t[0] == '#' || t == "comment") {
            continue;
          }
          std::string name;
          while (in >> name) {
          }
          // An extra property or element of the header may be missing only if the text then is still wrong.
          if (t == "property" && name != "x" && name != "y" && name != "z" && name != "vertex_index" && name != "vertex_indices") {
            continue;
          }
          if (t == "element" && u != "vertex" && u != "face") {
            continue;
          }
          content.push_back(i);
          if (f == txt::OFF) {
            break;  // without the counts, a vertex may pass for them
          }
        }
        auto i = s.pick(content);
        what = "header line '" + l[i] + "' lost";
        l.erase(l.begin() + long(i));
        break;
      }
      case 1: {  // the count of the last element is larger, or not a count
        std::vector<std::size_t> at;
        for (std::size_t i = 0; i < w.header; ++i) {
          std::istringstream in{l[i]};
          std::string t;
          in >> t;
          if (f == txt::PLY ? t == "element" : !t.empty() && t[0] != '#' && t.find("OFF") == std::string::npos) {
            at.push_back(i);
          }
        }
        auto i = s.pick(at);
        auto to = s.one_of<const char*>({"1000", "-1", "x", "18446744073709551615", "18446744073709551616"});
        txt::set_token(l[i], f == txt::PLY ? 2 : s.below(2), to);
        what = std::string{"a count set to "} + to;
        break;
      }
      case 2: {
        std::size_t i = 0;
        while (txt::num_tokens(l[i]) == 0 || l[i][l[i].find_first_not_of(" \t")] == '#') {
          ++i;
        }
        auto to = f == txt::OFF ? s.one_of<const char*>({"OF", "OFFX", "XOFF", "NCOFF", "off", "4OFF", "OFF BINARY", "3", "ply"})
                                : s.one_of<const char*>({"pl", "plyx", "PLY", "ply 1", "OFF", "format"});
        txt::set_token(l[i], 0, to);
        what = std::string{"signature "} + to;
        break;
      }
      default: {
        if (f == txt::OFF) {
          l.resize(s.below(w.header + 1));
          what = "cut in the header";
          break;
        }
        auto to = s.one_of<const char*>({"format binary_little_endian 1.0", "format binary_big_endian 1.0", "format ascii 2.0", "format ascii 1.1",
                                         "format ascii", "format", "formats ascii 1.0", "format ascii 1.0 x"});
        for (auto& x : l) {
          std::istringstream in{x};
          std::string t;
          if (in >> t && t == "format") {
            x = to;
            break;
          }
        }
        what = to;
        break;
      }
    }
  } else {  // a coordinate
    const auto& m = w.vertices[s.below(w.vertices.size())];
    auto k = s.below(3);
    if (s.chance(1, 3)) {
      auto t = *std::min_element(m.tokens.begin(), m.tokens.end());
      t = m.tokens[k] < t ? t : m.tokens[k];
      txt::set_token(l[m.line], t, "");
      what = "coordinates missing in line " + std::to_string(m.line);
    } else {
      auto to = s.one_of<const char*>({"nan", "NaN", "-nan", "inf", "-inf", "INFINITY", "1e999", "-1e999", "2e308", "abc", "1.2.3", "1.5x", "0x10", "1,5",
                                       "--1", "+-1", "-+1", "++1", "1e", "e5", "-", ".", "+", "1e+"});
      txt::set_token(l[m.line], m.tokens[k], to);
      what = std::string{"a coordinate set to "} + to;
    }
  }
  auto text = txt::Writer::join(s, st, l);
  c.describe(std::string{txt::name(f)} + ", " + what + "\n" + text.substr(0, 3000));
  Soup m;
  if (attempt(c, f, false, m, text.size(), [&] { return text; })) {
    pbt::fail("accepted", "a text with " + what + " is accepted\n" + text.substr(0, 1500));
  }
  c.nontrivial = true;
  c.label(txt::name(f));
}

namespace {
// Whether the text is of the plainest form, about which there is no doubt.
bool plain(txt::Format f, const std::string& text, txt::Poly& p) {
  if (text.find_first_not_of("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_.-\n ") != std::string::npos || !txt::parse_plain(f, text, p).empty()) {
    return false;
  }
  std::istringstream in{text};
  std::string l, t;
  bool body = f == txt::OBJ;
  while (std::getline(in, l)) {
    std::istringstream ls{l};
    std::vector<std::string> ts;
    while (ls >> t) {
      ts.push_back(t);
    }
    if (!body) {
      body = f == txt::OFF ? l != "OFF" : l == "end_header";
      if (f == txt::PLY && l.rfind("property list", 0) == 0 && l != "property list uchar int vertex_index" && l != "property list uchar int vertex_indices") {
        return false;
      }
      for (std::size_t k = 0; k < ts.size(); ++k) {
        // Counts have no sign.
        if ((f == txt::OFF && body && ts[k].find_first_not_of("0123456789") != std::string::npos) ||
            (ts[0] == "element" && k == 2 && ts[k].find_first_not_of("0123456789") != std::string::npos)) {
          return false;
        }
      }
      continue;
    }
    bool vertex = f == txt::OBJ ? ts[0] == "v" : false;
    // In OFF and PLY, vertex lines have three tokens and face lines four.
    vertex |= f != txt::OBJ && ts.size() == 3;
    for (std::size_t k = f == txt::OBJ ? 1 : 0; k < ts.size(); ++k) {
      const auto& x = ts[k];
      if (!vertex) {
        auto i = f == txt::OBJ && x[0] == '-' ? 1U : 0U;
        if (x.find_first_not_of("0123456789", i) != std::string::npos) {
          return false;
        }
        continue;
      }
      // [-]digits[.digits][e[-]digits] within the range of normal doubles.
      std::size_t i = x[0] == '-' ? 1 : 0;
      auto digits = [&] {
        auto b = i;
        while (i < x.size() && x[i] >= '0' && x[i] <= '9') {
          ++i;
        }
        return i != b;
      };
      if (!digits() || (i < x.size() && x[i] == '.' && (++i, !digits()))) {
        return false;
      }
      bool zero = x.find_first_of("123456789") >= i;
      if (i < x.size() && x[i] == 'e') {
        ++i;
        i += i < x.size() && x[i] == '-' ? 1 : 0;
        if (!digits()) {
          return false;
        }
      }
      auto d = std::fabs(std::strtod(x.c_str(), nullptr));
      if (i != x.size() || (d == 0 ? !zero : d < std::numeric_limits<double>::min())) {
        return false;
      }
    }
  }
  return true;
}
}  // namespace

PBT_SUB(raw, 0, 0,
        "any text, mutated by the coverage-guided search from conforming texts; same oracle as damaged, and a text of the plainest form "
        "must be read as the mesh it describes; non-trivial: rejected") {
  auto& s = c.src;
  auto f = txt::Format(s.below(3));
  Soup m;
  std::string text;
  bool ok = attempt(c, f, false, m, 0, [&] {
    text = s.rest(4096);
    c.describe(std::string{txt::name(f)} + "\n" + text + "\n");
    return text;
  });
  if (auto w = ok ? missing(f, text, m) : ""; !w.empty()) {
    pbt::fail("accepted", "a text is accepted that lacks " + w);
  }
  txt::Poly p;
  if (plain(f, text, p)) {
    c.label("plain");
    if (!ok) {
      pbt::fail("rejected", "a plain text is rejected");
    }
    if (auto d = txt::compare(m, p); !d.empty()) {
      pbt::fail("mesh", d);
    }
  }
  c.nontrivial = !ok;
  c.label(std::string{txt::name(f)} + (ok ? " accepted" : " rejected"));
}

namespace {
const bool seeder = [] {
  pbt::seeders()["raw"] = [](pbt::Source& s, std::vector<std::uint8_t>& out) {
    auto f = txt::Format(s.below(3));
    auto p = txt::poly(s, 5, 5);
    std::string text;
    if (s.flip()) {
      text = txt::render(s, f, p).out;
    } else {
      std::ostringstream o;
      txt::write(f, o, txt::soup_of(p));
      text = o.str();
    }
    out = {std::uint8_t(f), 0, 0};  // an empty target, a string
    out.insert(out.end(), text.begin(), text.end());
  };
  return true;
}();
}  // namespace

PBT_SUB(unreadable, 300, 3000,
        "names that cannot be read as files (a directory, a missing file, no permission to search, an unknown extension): reported as "
        "failure, target unchanged; all are non-trivial") {
  auto& s = c.src;
  auto f = txt::Format(s.below(3));
  auto file = txt::tmp_file(f);
  auto kind = s.below(3);
  if (kind == 0) {
    mkdir(file.c_str(), 0700);
  } else if (kind == 1) {
    file += s.one_of<const char*>({"", "/x.obj", "/x.off", "/x.ply"});
    if (file.find("/t.") != std::string::npos && file.back() != 'x') {
      unlink(file.c_str());
    }
  } else {
    file += s.one_of<const char*>({"x", ".", " ", ".OBJ2", ".kigumi", "_"});
    std::ofstream{file} << "OFF\n1 0 0\n0 0 0\n";
  }
  c.describe(file + "\n");
  auto p = txt::poly(s, 4, 3);
  auto m = txt::soup_of(p);
  auto was = txt::contents(m);
  bool ok = kigumi::read_triangle_soup(file, m);
  if (kind == 0) {
    rmdir(file.c_str());
  } else {
    unlink(file.c_str());
  }
  if (ok) {
    pbt::fail("unreadable", "reading " + file + " reports success");
  }
  if (txt::contents(m) != was) {
    pbt::fail("target-changed", "reading failed but the target changed");
  }
  c.nontrivial = true;
}

int main(int argc, char** argv) {
  pbt::Engine e;
  e.batch = 500;
  return e.main(argc, argv);
}
