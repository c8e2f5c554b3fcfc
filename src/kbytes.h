// An independent description of the .kigumi layout: encoder and strict decoder, sharing nothing with the code under test.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>

#include <cmath>
#include <cstring>
#include <optional>
#include <string>
#include <vector>

namespace kbytes {

using Int = boost::multiprecision::cpp_int;
using Rat = boost::multiprecision::cpp_rational;

// An exact coordinate.  Doubles keep their own value (for the encoding).
struct Coord {
  Rat q;
  std::optional<double> d;  // the double equal to q, if there is one
};

inline Rat rat_of(double d) {
  int e{};
  double m = std::frexp(d, &e);  // |m| in [0.5, 1)
  Int n{static_cast<long long>(std::ldexp(m, 53))};
  e -= 53;
  if (e >= 0) {
    return Rat{n << e};
  }
  return Rat{n, Int{1} << -e};
}

// The double equal to q, if any.
inline std::optional<double> double_of(const Rat& q) {
  Int n = numerator(q), d = denominator(q);
  if (n == 0) {
    return 0.0;
  }
  bool neg = n < 0;
  if (neg) {
    n = -n;
  }
  if ((d & (d - 1)) != 0) {
    return std::nullopt;
  }
  auto k = static_cast<long>(msb(d));  // d = 2^k
  auto t = static_cast<long>(lsb(n));
  n >>= t;
  auto e = t - k;  // q = n * 2^e, n odd
  auto bits = static_cast<long>(msb(n)) + 1;
  if (bits > 53 || bits + e > 1024 || e < -1074) {
    return std::nullopt;
  }
  auto m = static_cast<double>(static_cast<unsigned long long>(n));
  double r = std::ldexp(m, static_cast<int>(e));
  return neg ? -r : r;
}

struct Mesh {
  int kind = 2;  // 0 empty, 1 full, 2 boundary-defined
  std::vector<std::array<Coord, 3>> v;
  std::vector<std::array<std::int32_t, 3>> f;
  std::vector<std::string> data;  // encoded face data
};

inline void put32(std::string& s, std::int32_t x) {
  auto u = static_cast<std::uint32_t>(x);
  for (int i = 0; i < 4; ++i) {
    s += static_cast<char>(u >> (8 * i));
  }
}
inline void put64(std::string& s, std::uint64_t u) {
  for (int i = 0; i < 8; ++i) {
    s += static_cast<char>(u >> (8 * i));
  }
}
inline void put_double(std::string& s, double d) {
  if (d == 0) {
    d = 0;  // the sign of zero is not significant
  }
  std::uint64_t u{};
  std::memcpy(&u, &d, 8);
  put64(s, u);
}
inline void put_magnitude(std::string& s, Int n) {
  auto h = n.str(0, std::ios_base::hex);
  if (h.size() % 2 != 0) {
    h.insert(h.begin(), '0');
  }
  std::string b;
  for (std::size_t i = 0; i < h.size(); i += 2) {
    b += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
  }
  put32(s, static_cast<std::int32_t>(b.size()));
  s += b;
}
inline void put_rat(std::string& s, const Rat& q) {
  Int n = numerator(q);
  s += static_cast<char>(n < 0 ? 1 : 0);
  put_magnitude(s, n < 0 ? Int{-n} : n);
  put_magnitude(s, denominator(q));
}

// Byte offsets of fields, for corruption that knows the format.
struct Marks {
  std::vector<std::pair<std::size_t, std::size_t>> field;  // offset, length
};

inline std::string encode(const Mesh& m, Marks* marks = nullptr) {
  std::string s;
  auto mark = [&](std::size_t at) {
    if (marks) {
      marks->field.emplace_back(at, s.size() - at);
    }
  };
  s += static_cast<char>(m.kind);
  mark(0);
  put32(s, static_cast<std::int32_t>(m.v.size()));
  mark(1);
  put32(s, static_cast<std::int32_t>(m.f.size()));
  mark(5);
  for (const auto& p : m.v) {
    bool exact = !(p[0].d && p[1].d && p[2].d);
    s += static_cast<char>(exact);
    mark(s.size() - 1);
    for (const auto& c : p) {
      if (exact) {
        auto at = s.size();
        s += static_cast<char>(c.q < 0 ? 1 : 0);
        mark(at);
        for (const Int& n : {Int{abs(numerator(c.q))}, Int{denominator(c.q)}}) {
          at = s.size();
          put_magnitude(s, n);
          if (marks) {
            marks->field.emplace_back(at, 4);
            marks->field.emplace_back(at + 4, s.size() - at - 4);
          }
        }
      } else {
        auto at = s.size();
        put_double(s, *c.d);
        mark(at);
      }
    }
  }
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    for (auto v : m.f[i]) {
      auto at = s.size();
      put32(s, v);
      mark(at);
    }
    auto at = s.size();
    s += m.data[i];
    mark(at);
  }
  return s;
}

// Strict decoding of a prefix of s.  On success `used` is the number of bytes.
struct Decoder {
  const std::string& s;
  std::size_t at{};
  bool truncated{}, bad{};
  bool lax{};  // a reader may also reject: a boolean other than 0 and 1, or a number not in the form that is written

  bool take(std::size_t n, const unsigned char*& p) {
    if (s.size() - at < n) {
      truncated = true;
      return false;
    }
    p = reinterpret_cast<const unsigned char*>(s.data()) + at;
    at += n;
    return true;
  }
  bool i32(std::int32_t& x) {
    const unsigned char* p{};
    if (!take(4, p)) {
      return false;
    }
    x = static_cast<std::int32_t>(std::uint32_t{p[0]} | std::uint32_t{p[1]} << 8 | std::uint32_t{p[2]} << 16 |
                                  std::uint32_t{p[3]} << 24);
    return true;
  }
  bool u8(int& x) {
    const unsigned char* p{};
    if (!take(1, p)) {
      return false;
    }
    x = *p;
    return true;
  }
  bool count(std::int32_t& x) {
    if (!i32(x)) {
      return false;
    }
    bad |= x < 0;
    return x >= 0;
  }
  bool flag(int& x) {
    if (!u8(x)) {
      return false;
    }
    lax |= x > 1;
    return true;
  }
  bool magnitude(Int& n) {
    std::int32_t c{};
    const unsigned char* p{};
    if (!count(c) || !take(std::size_t(c), p)) {
      return false;
    }
    static const char* digits = "0123456789abcdef";
    std::string h = "0x0";
    for (std::int32_t i = 0; i < c; ++i) {
      h += digits[p[i] >> 4];
      h += digits[p[i] & 15];
    }
    n = Int{h};
    lax |= c == 0 || (c > 1 && p[0] == 0);
    return true;
  }
  // Well-formed: the kind is known and agrees with the boundary, coordinates are finite, indices are in range.
  bool decode(Mesh& m, std::size_t data_size) {
    int k{};
    std::int32_t nv{}, nf{};
    if (!u8(k)) {
      return false;
    }
    m.kind = k;
    bad |= k > 2;
    if (!count(nv) || !count(nf)) {
      return false;
    }
    bad |= (k == 2) != (nf != 0);
    for (std::int32_t i = 0; i < nv; ++i) {
      int exact{};
      if (!flag(exact)) {
        return false;
      }
      std::array<Coord, 3> p;
      for (auto& c : p) {
        if (exact) {
          int neg{};
          Int n, d;
          if (!flag(neg) || !magnitude(n) || !magnitude(d)) {
            return false;
          }
          if (d == 0) {
            bad = true;
            return false;
          }
          lax |= gcd(n, d) != 1 || (n == 0 && neg);
          c.q = Rat{n, d};
          if (neg) {
            c.q = -c.q;
          }
          c.d = double_of(c.q);
        } else {
          const unsigned char* b{};
          if (!take(8, b)) {
            return false;
          }
          std::uint64_t u{};
          for (int j = 0; j < 8; ++j) {
            u |= std::uint64_t{b[j]} << (8 * j);
          }
          double d{};
          std::memcpy(&d, &u, 8);
          if (!std::isfinite(d)) {
            bad = true;
            return false;
          }
          c.d = d;
          c.q = rat_of(d);
        }
      }
      lax |= exact && p[0].d && p[1].d && p[2].d;
      m.v.push_back(p);
    }
    for (std::int32_t i = 0; i < nf; ++i) {
      std::array<std::int32_t, 3> f{};
      for (auto& v : f) {
        if (!i32(v)) {
          return false;
        }
        bad |= v < 0 || v >= nv;
      }
      const unsigned char* b{};
      if (!take(data_size, b)) {
        return false;
      }
      m.f.push_back(f);
      m.data.emplace_back(reinterpret_cast<const char*>(b), data_size);
    }
    return !bad;
  }
};

}  // namespace kbytes
