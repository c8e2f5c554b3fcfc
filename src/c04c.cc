// C04: chains of operations on exact coordinates that grow long. Built with mpq_class, whose arithmetic is fast on long numbers.
#include <gmpxx.h>
#include "boolean_common.h"

namespace {

// The length of the longest numerator or denominator among the coordinates.
std::size_t longest(const gen::M& m) {
  std::size_t n = 0;
  for (const auto& p : m.p) {
    const auto& e = p.exact();
    for (int i = 0; i < 3; ++i) {
      n = std::max({n, mpz_sizeinbase(e[i].get_num_mpz_t(), 2), mpz_sizeinbase(e[i].get_den_mpz_t(), 2)});
    }
  }
  return n;
}

// A double that uses all of its digits.
FT irregular(pbt::Source& s, double range) { return FT{(double(s.below(std::uint64_t{1} << 52)) / 2251799813685248.0 - 1.0) * range}; }

// A tetrahedron or box in general position, or one that depends on the vertices that have been computed so far.
gen::M next_operand(pbt::Source& s, const gen::M& cur, std::string& what) {
  auto on_current = [&]() -> P3 {
    const auto& f = cur.f[s.below(cur.f.size())];
    const auto &a = cur.p[f[0]], &b = cur.p[f[1]], &c = cur.p[f[2]];
    switch (s.weighted({4, 2, 2, 2})) {
      case 0:
        return a;
      case 1:
        return CGAL::midpoint(a, b);
      case 2:
        return bary(a, b, c, int(s.range(1, 3)), int(s.range(1, 3)), int(s.range(1, 3)));
      default:
        return CGAL::midpoint(a, cur.p[s.below(cur.p.size())]);
    }
  };
  auto any_point = [&]() -> P3 {
    auto r = s.one_of({1.0, 2.0, 4.0});
    return P3{irregular(s, r), irregular(s, r), irregular(s, r)};
  };
  auto kind = s.weighted({2, 5, 2, 1});
  gen::M t;
  if (kind <= 1) {  // a tetrahedron with 0 or 1 to 4 corners on the current solid
    int k = kind == 0 ? 0 : int(s.range(1, 4));
    what = "tetrahedron with " + std::to_string(k) + " computed corners";
    for (int i = 0; i < 4; ++i) {
      t.p.push_back(i < k ? on_current() : any_point());
    }
    auto o = CGAL::orientation(t.p[0], t.p[1], t.p[2], t.p[3]);
    if (o == CGAL::COPLANAR) {
      t.p = {P3{0, 0, 0}, P3{1, 0, 0}, P3{0, 1, 0}, P3{0, 0, 1}};
      o = CGAL::POSITIVE;
    }
    t.f = {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}};
    return o == CGAL::POSITIVE ? t : gen::inverted(t);
  }
  if (kind == 2) {  // a sheared box at a point of the current solid
    what = "sheared box at a computed point";
    auto o = on_current();
    FT a = irregular(s, 0.5), b = irregular(s, 0.5), c = irregular(s, 0.5);
    auto k = s.one_of({1.0, 0.5, 2.0});
    return gen::mapped(gen::base_cube(), [&](const P3& p) {
      return P3{o.x() + FT{k} * (p.x() + a * p.y() + b * p.z()), o.y() + FT{k} * (p.y() + c * p.z()), o.z() + FT{k} * p.z()};
    });
  }
  what = "displaced copy of the current solid";
  auto v = on_current() - on_current();
  return gen::mapped(cur, [&](const P3& p) { return p + v / FT{2}; });
}

}  // namespace

PBT_SUB(chains, 260, 5000,
        "chains of up to 6 operations whose operands are solids in general position (coordinates using all digits of a double) or "
        "built on vertices, edges and faces that earlier steps computed, so that the exact coordinates grow to thousands of bits; "
        "after every step all three of intersection, difference and the operator that continues the chain are decided against "
        "exact membership, and the volumes of intersection and difference add up exactly; non-trivial: some coordinate of an operand "
        "is longer than 500 bits") {
  auto& s = c.src;
  gen::M cur = s.flip() ? gen::base_cube() : gen::tetra_solid(s);
  c.describe("start: " + gen::show(cur));
  int steps = int(s.range(3, 6));
  std::uint64_t n = 0;
  std::size_t bits = 0;
  for (int k = 0; k < steps; ++k) {
    std::string what;
    gen::M t = next_operand(s, cur, what);
    std::size_t len = std::max(longest(cur), longest(t));
    if (len > 6000 || cur.f.size() + t.f.size() > 160) {
      break;
    }
    bits = std::max(bits, len);
    Operand a{cur}, b{t};
    if (!validity(t).empty()) {
      c.label("DISCARDED generator");
      throw pbt::Discard{};
    }
    auto op = s.one_of({Op::K, Op::L, Op::L, Op::A, Op::J, Op::M});
    c.describe("step " + std::to_string(k + 1) + ": " + name(op) + " " + what + "\n" + (len < 1000 ? gen::show(t) : gen::show_short(t).substr(0, 300) + "\n"));
    Builder bld{a.region(), b.region()};
    if (bld.warnings() != Warnings::NONE) {
      pbt::fail("warning", "warnings reported at step " + std::to_string(k + 1));
    }
    Check_options o;
    o.surface_samples = 8;
    o.samples_per_face = 0;
    o.space_samples = 2;
    o.self_intersections = cur.f.size() + t.f.size() < 60;
    auto i = bld(Op::K), d = bld(Op::L), r = bld(op);
    n += check_result(s, a, b, Op::K, i, o) + check_result(s, a, b, Op::L, d, o);
    if (op != Op::K && op != Op::L) {
      n += check_result(s, a, b, op, r, o);
    }
    if (operand_of(i).g.volume6() + operand_of(d).g.volume6() != a.g.volume6()) {
      pbt::fail("volume", "the volumes of intersection and difference do not add up at step " + std::to_string(k + 1));
    }
    if (r.is_empty_or_full()) {
      break;
    }
    cur = gen::from_soup(r.boundary());
  }
  c.nontrivial = bits > 500;
  c.label("coordinates of up to " + std::string{bits > 4000 ? "6000" : bits > 1000 ? "4000" : bits > 500 ? "1000" : "500"} + " bits");
  c.evals(n);
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
