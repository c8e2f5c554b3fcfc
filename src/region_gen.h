// Generators of arbitrary regions for the binary format: any exact coordinates in any representation, any faces and data.
#pragma once
#include "engine.h"
#include "kbytes.h"
#include "kig.h"
// After kig.h: kigumi/io.h includes CGAL headers inside its namespace.
#include <kigumi/Region_io.h>

namespace rg {
struct Rich {
  std::uint64_t a{};
  double b{};
  bool c{};
  std::int16_t d{};
  friend bool operator==(const Rich&, const Rich&) = default;
};
}  // namespace rg

namespace kigumi {
template <>
struct Write<rg::Rich> {
  void operator()(std::ostream& out, const rg::Rich& t) const {
    kigumi_write<std::uint64_t>(out, t.a);
    kigumi_write<double>(out, t.b);
    kigumi_write<bool>(out, t.c);
    kigumi_write<std::int16_t>(out, t.d);
  }
};
template <>
struct Read<rg::Rich> {
  void operator()(std::istream& in, rg::Rich& t) const {
    kigumi_read<std::uint64_t>(in, t.a);
    kigumi_read<double>(in, t.b);
    kigumi_read<bool>(in, t.c);
    kigumi_read<std::int16_t>(in, t.d);
  }
};
}  // namespace kigumi

namespace rg {

using kbytes::Coord;
using kbytes::Int;
using kbytes::Rat;

inline CGAL::Exact_rational exact_of(const Rat& q) {
  CGAL::Exact_rational r;
  std::istringstream in{numerator(q).str() + "/" + denominator(q).str()};
  in >> r;
  return r;
}
inline Rat rat_of_exact(const CGAL::Exact_rational& q) {
  std::ostringstream o;
  o << q;
  return Rat{o.str()};
}

struct Value {
  Coord c;
  FT x;
};

inline double any_double(pbt::Source& s) {
  switch (s.weighted({4, 3, 3, 2, 2})) {
    case 0:
      return double(s.around(9));
    case 1:
      return std::ldexp(double(s.around(1 << 20)), int(s.around(40)));
    case 2: {  // any finite bit pattern
      std::uint64_t u = s.below(UINT64_MAX);
      if (((u >> 52) & 0x7ff) == 0x7ff) {
        u &= ~(std::uint64_t{1} << 62);
      }
      double d{};
      std::memcpy(&d, &u, 8);
      return d;
    }
    case 3:
      return s.one_of({0.0, -0.0, 1e308, -1.7976931348623157e308, 5e-324, -5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308,
                       0.1, 1e22, 1e23, 9007199254740993.0, 4503599627370496.5, 123456789012345680.0});
    default:
      return double(s.around(1000000)) / 1000.0;
  }
}

inline Value any_value(pbt::Source& s) {
  Value v;
  auto from_rat = [&](const Rat& q) {
    v.c.q = q;
    v.c.d = kbytes::double_of(q);
    v.x = FT{exact_of(q)};
  };
  switch (s.weighted({5, 3, 2, 3})) {
    case 0: {
      double d = any_double(s);
      v.c.q = kbytes::rat_of(d);
      v.c.d = d;
      v.x = FT{d};
      break;
    }
    case 1: {  // a fraction, small or long
      if (s.flip()) {
        from_rat(Rat{Int{s.around(1000)}, Int{s.range(1, 40)}});
      } else {
        Int n = 1, d = 1;
        for (auto k = s.below(20); k > 0; --k) {
          n = (n << 61) + Int{s.below(std::uint64_t{1} << 61)};
        }
        for (auto k = s.below(12); k > 0; --k) {
          d = (d << 61) + Int{s.below(std::uint64_t{1} << 61)};
        }
        from_rat(Rat{s.flip() ? Int{-n} : n, d});
      }
      break;
    }
    case 2: {  // powers of two and their neighbours: the boundary of the magnitude's length
      Int n = Int{1} << unsigned(s.below(260));
      if (s.chance(1, 20000)) {
        n <<= unsigned(s.range(500000, 560000));
      }
      n += s.one_of({0, 1, -1});
      from_rat(Rat{n, s.flip() ? Int{1} << unsigned(s.below(140)) : Int{3}});
      break;
    }
    default: {  // a lazily computed value whose exact value has not been asked for
      double a = double(s.around(1000)), b = double(s.range(1, 50)), c = double(s.range(1, 9));
      switch (s.below(5)) {
        case 3: {  // digits are lost: the enclosure of the value is wide
          double big = s.one_of({1e4, 1e8, 1e12, 3e15});
          v.c.q = kbytes::rat_of(a) / kbytes::rat_of(b);
          v.x = (FT{big} + FT{a} / FT{b}) - FT{big};
          break;
        }
        case 4: {  // squares of close values
          double e = std::ldexp(double(s.range(1, 9)), -int(s.range(8, 50)));
          auto p = kbytes::rat_of(a) / kbytes::rat_of(b);
          auto q = p + kbytes::rat_of(e);
          v.c.q = q * q - p * p;
          auto x = FT{a} / FT{b};
          auto y = x + FT{e};
          v.x = y * y - x * x;
          break;
        }
        case 0:
          v.c.q = kbytes::rat_of(a) / kbytes::rat_of(b);
          v.x = FT{a} / FT{b};
          break;
        case 1:  // equal to a double, but not known to be
          v.c.q = kbytes::rat_of(a);
          v.x = FT{a} / FT{b} * FT{b};
          break;
        default:
          v.c.q = (kbytes::rat_of(a) + kbytes::rat_of(c)) / kbytes::rat_of(b);
          v.x = (FT{a} + FT{c}) / FT{b};
          break;
      }
      v.c.d = kbytes::double_of(v.c.q);
      break;
    }
  }
  return v;
}

// Face data types and their encodings.
template <class T>
struct Data;
template <>
struct Data<kigumi::Null_data> {
  static constexpr std::size_t size = 0;
  static kigumi::Null_data gen(pbt::Source&) { return {}; }
  static std::string bytes(const kigumi::Null_data&) { return ""; }
};
template <>
struct Data<FD> {
  static constexpr std::size_t size = 4;
  static FD gen(pbt::Source& s) { return FD{std::int32_t(s.weighted({3, 1}) ? s.below(1ULL << 32) : s.around(100))}; }
  static std::string bytes(const FD& d) {
    std::string r;
    kbytes::put32(r, d.v);
    return r;
  }
};
template <>
struct Data<Rich> {
  static constexpr std::size_t size = 19;
  static Rich gen(pbt::Source& s) { return Rich{s.below(UINT64_MAX), any_double(s) + 0.0, s.flip(), std::int16_t(s.below(65536))}; }
  static std::string bytes(const Rich& r) {
    std::string o;
    kbytes::put64(o, r.a);
    std::uint64_t u{};
    std::memcpy(&u, &r.b, 8);
    kbytes::put64(o, u);
    o += char(r.c);
    o += char(std::uint16_t(r.d));
    o += char(std::uint16_t(r.d) >> 8);
    return o;
  }
};

template <class T>
struct Any {
  kigumi::Region<K, T> region;
  kbytes::Mesh mesh;
};

template <class T>
Any<T> any_region(pbt::Source& s, std::size_t max_v = 12) {
  Any<T> r;
  auto kind = s.weighted({8, 1, 1});
  if (kind != 0) {
    r.region = kind == 1 ? kigumi::Region<K, T>::empty() : kigumi::Region<K, T>::full();
    r.mesh.kind = kind == 1 ? 0 : 1;
    return r;
  }
  kigumi::Triangle_soup<K, T> m;
  auto nv = s.size(1, max_v), nf = s.size(1, max_v);
  std::vector<P3> made;
  for (std::size_t i = 0; i < nv; ++i) {
    if (!made.empty() && s.chance(1, 10)) {  // another handle of the same point
      auto k = s.below(made.size());
      auto c = r.mesh.v[k];
      m.add_vertex(made[k]);
      made.push_back(made[k]);
      r.mesh.v.push_back(c);
      continue;
    }
    auto x = any_value(s), y = any_value(s), z = any_value(s);
    P3 p{x.x, y.x, z.x};
    if (s.chance(1, 4)) {
      p.exact();  // evaluated before
    }
    m.add_vertex(p);
    made.push_back(p);
    r.mesh.v.push_back({x.c, y.c, z.c});
  }
  for (std::size_t i = 0; i < nf; ++i) {
    std::array<std::int32_t, 3> f{std::int32_t(s.below(nv)), std::int32_t(s.below(nv)), std::int32_t(s.below(nv))};
    auto fi = m.add_face({Vertex_index{std::size_t(f[0])}, Vertex_index{std::size_t(f[1])}, Vertex_index{std::size_t(f[2])}});
    m.data(fi) = Data<T>::gen(s);
    r.mesh.f.push_back(f);
    r.mesh.data.push_back(Data<T>::bytes(m.data(fi)));
  }
  r.region = kigumi::Region<K, T>{std::move(m)};
  return r;
}

// The same with tens of thousands of vertices and faces.
template <class T>
Any<T> large_region(pbt::Source& s, std::size_t max) {
  Any<T> r;
  r.mesh.kind = 2;
  kigumi::Triangle_soup<K, T> m;
  auto nv = s.one_of<std::size_t>({s.size(300, 5000), s.size(5000, max)}), nf = s.one_of<std::size_t>({s.size(0, 5000), s.size(5000, max)});
  std::vector<Value> some;
  std::vector<decltype(Data<T>::gen(s))> data;
  for (int i = 0; i < 12; ++i) {
    some.push_back(any_value(s));
    data.push_back(Data<T>::gen(s));
  }
  std::uint64_t seed = s.below(1 << 20);
  bool third = s.chance(1, 3);
  for (std::size_t i = 0; i < nv; ++i) {
    std::array<Value, 3> v;
    for (auto& x : v) {
      auto h = pbt::splitmix(seed);
      if (h % 50 == 0) {
        x = some[h / 64 % some.size()];
      } else if (third && h % 50 == 1) {
        Rat q{std::int64_t(h / 64 % 100000) * 3 + 1, 3};
        x = {{q, std::nullopt}, FT{exact_of(q)}};
      } else {
        double d = std::ldexp(double(h >> 11), -50) - 4;
        x = {{kbytes::rat_of(d), d}, FT{d}};
      }
    }
    m.add_vertex(P3{v[0].x, v[1].x, v[2].x});
    r.mesh.v.push_back({v[0].c, v[1].c, v[2].c});
  }
  for (std::size_t i = 0; i < nf; ++i) {
    std::array<std::int32_t, 3> f{};
    for (auto& x : f) {
      x = std::int32_t(pbt::splitmix(seed) % nv);
    }
    auto fi = m.add_face({Vertex_index{std::size_t(f[0])}, Vertex_index{std::size_t(f[1])}, Vertex_index{std::size_t(f[2])}});
    m.data(fi) = data[pbt::splitmix(seed) % data.size()];
    r.mesh.f.push_back(f);
    r.mesh.data.push_back(Data<T>::bytes(m.data(fi)));
  }
  r.region = kigumi::Region<K, T>{std::move(m)};
  return r;
}

// Compares a region with the description; empty string if equal.
template <class T>
std::string compare(const kigumi::Region<K, T>& r, const kbytes::Mesh& m) {
  int k = r.is_empty() ? 0 : r.is_full() ? 1 : 2;
  if (k != m.kind) {
    return "kind " + std::to_string(k) + " instead of " + std::to_string(m.kind);
  }
  const auto& b = r.boundary();
  if (b.num_vertices() != m.v.size() || b.num_faces() != m.f.size()) {
    return std::to_string(b.num_vertices()) + " vertices and " + std::to_string(b.num_faces()) + " faces instead of " +
           std::to_string(m.v.size()) + " and " + std::to_string(m.f.size());
  }
  for (std::size_t i = 0; i < m.v.size(); ++i) {
    const auto& e = b.point(Vertex_index{i}).exact();
    const CGAL::Exact_rational* c[] = {&e.x(), &e.y(), &e.z()};
    for (int k = 0; k < 3; ++k) {
      if (*c[k] != exact_of(m.v[i][k].q)) {
        return "coordinate " + std::to_string(k) + " of vertex " + std::to_string(i) + " is " + rat_of_exact(*c[k]).str() + " instead of " +
               m.v[i][k].q.str();
      }
    }
  }
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    const auto& f = b.face(Face_index{i});
    for (int k = 0; k < 3; ++k) {
      if (f[k].idx() != std::size_t(m.f[i][k])) {
        return "face " + std::to_string(i) + " refers to vertex " + std::to_string(f[k].idx()) + " instead of " + std::to_string(m.f[i][k]);
      }
    }
    if (Data<T>::bytes(b.data(Face_index{i})) != m.data[i]) {
      return "the data of face " + std::to_string(i) + " differ";
    }
  }
  return "";
}

inline std::string show(const kbytes::Mesh& m) {
  std::ostringstream o;
  o << "kind " << m.kind << ", " << m.v.size() << " vertices, " << m.f.size() << " faces\n";
  for (const auto& p : m.v) {
    for (const auto& c : p) {
      auto t = c.d ? std::to_string(*c.d) : c.q.str();
      o << ' ' << (t.size() > 60 ? t.substr(0, 60) + "..." : t);
    }
    o << '\n';
  }
  for (const auto& f : m.f) {
    o << "f " << f[0] << ' ' << f[1] << ' ' << f[2] << '\n';
  }
  return o.str();
}

inline std::string hex(const std::string& s, std::size_t n = 400) {
  static const char* h = "0123456789abcdef";
  std::string r;
  for (std::size_t i = 0; i < s.size() && i < n; ++i) {
    r += h[(unsigned char)s[i] >> 4];
    r += h[(unsigned char)s[i] & 15];
    if (i % 4 == 3) {
      r += ' ';
    }
  }
  return r + (s.size() > n ? "..." : "");
}

}  // namespace rg
