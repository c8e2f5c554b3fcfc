// Types of the code under test, as used by the harnesses.
#pragma once
#include <CGAL/Exact_predicates_exact_constructions_kernel.h>
#include <kigumi/Boolean_operator.h>
#include <kigumi/Region.h>
#include <kigumi/Triangle_soup.h>
#include <kigumi/Warnings.h>
#include <kigumi/io.h>
#include <kigumi/threading.h>

#include <cstdint>
#include <memory>

using K = CGAL::Epeck;
using P3 = K::Point_3;
using FT = K::FT;

// User data attached to faces.
struct FD {
  std::int32_t v{-1};
  friend bool operator==(const FD&, const FD&) = default;
};

namespace kigumi {
template <>
struct Write<FD> {
  void operator()(std::ostream& out, const FD& t) const { kigumi_write<std::int32_t>(out, t.v); }
};
template <>
struct Read<FD> {
  void operator()(std::istream& in, FD& t) const { kigumi_read<std::int32_t>(in, t.v); }
};
}  // namespace kigumi

using Soup = kigumi::Triangle_soup<K, FD>;
using Region = kigumi::Region<K, FD>;
using Op = kigumi::Boolean_operator;
using kigumi::Face;
using kigumi::Face_index;
using kigumi::Vertex_index;
using kigumi::Warnings;
