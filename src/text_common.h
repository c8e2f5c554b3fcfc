// Calling the text readers and writers in every way: streams, streams in pieces, files by name.
#pragma once
#include <kigumi/Context.h>
#include <kigumi/Triangle_soup_io.h>
#include <kigumi/io/obj.h>

#include "textfmt.h"

namespace txt {

template <class S>
bool read(Format f, std::istream& in, S& m) {
  return f == OBJ ? kigumi::io::read_obj(in, m) : f == OFF ? kigumi::io::read_off(in, m) : kigumi::io::read_ply(in, m);
}
template <class S>
bool write(Format f, std::ostream& out, const S& m) {
  return f == OBJ ? kigumi::io::write_obj(out, m) : f == OFF ? kigumi::io::write_off(out, m) : kigumi::io::write_ply(out, m);
}
inline std::string tmp_file(Format f) {
  return std::string{std::getenv("KIGUMI_TMP") ? std::getenv("KIGUMI_TMP") : "/tmp"} + "/t." + name(f);
}
inline std::string slurp(const std::string& file) {
  std::ifstream in{file, std::ios::binary};
  return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}

// Delivers the bytes in pieces, and fails (by an exception, as a device error would) at a given place.
struct Pieces : std::streambuf {
  std::string s;
  std::size_t at{}, piece, fail_at;
  Pieces(std::string b, std::size_t piece, std::size_t fail_at = SIZE_MAX) : s{std::move(b)}, piece{piece}, fail_at{fail_at} {}
  int_type underflow() override {
    if (at >= fail_at) {
      throw std::runtime_error("device error");
    }
    if (at >= s.size()) {
      return traits_type::eof();
    }
    auto n = std::min({piece, s.size() - at, fail_at - at});
    setg(s.data() + at, s.data() + at, s.data() + at + n);
    at += n;
    return traits_type::to_int_type(*gptr());
  }
};

// The mesh in a comparable form: exact coordinates and indices.
template <class S>
std::string contents(const S& m) {
  std::ostringstream o;
  for (auto v : m.vertices()) {
    const auto& e = m.point(v).exact();
    o << e.x() << ' ' << e.y() << ' ' << e.z() << '\n';
  }
  for (auto f : m.faces()) {
    const auto& t = m.face(f);
    o << t[0].idx() << ' ' << t[1].idx() << ' ' << t[2].idx() << '\n';
  }
  return o.str();
}

// Compares a mesh with the description (fans); empty if equal.
template <class S>
std::string compare(const S& m, const Poly& p) {
  auto fans = p.fans();
  if (m.num_vertices() != p.v.size() || m.num_faces() != fans.size()) {
    return std::to_string(m.num_vertices()) + " vertices and " + std::to_string(m.num_faces()) + " triangles instead of " +
           std::to_string(p.v.size()) + " and " + std::to_string(fans.size());
  }
  for (std::size_t i = 0; i < p.v.size(); ++i) {
    const auto& q = m.point(kigumi::Vertex_index{i});
    P3 want{p.v[i][0], p.v[i][1], p.v[i][2]};
    if (q != want) {
      std::ostringstream o;
      o.precision(17);
      o << "vertex " << i << " is (" << q << ") instead of (" << want << ")";
      return o.str();
    }
  }
  for (std::size_t i = 0; i < fans.size(); ++i) {
    const auto& f = m.face(kigumi::Face_index{i});
    for (int k = 0; k < 3; ++k) {
      if (f[k].idx() != std::size_t(fans[i][k])) {
        return "triangle " + std::to_string(i) + " is " + std::to_string(f[0].idx()) + " " + std::to_string(f[1].idx()) + " " +
               std::to_string(f[2].idx()) + " instead of " + std::to_string(fans[i][0]) + " " + std::to_string(fans[i][1]) + " " +
               std::to_string(fans[i][2]);
      }
    }
    if (!(m.data(kigumi::Face_index{i}) == FD{})) {
      return "triangle " + std::to_string(i) + " has other than default data";
    }
  }
  return "";
}

inline Soup soup_of(const Poly& p) {
  Soup m;
  for (const auto& v : p.v) {
    m.add_vertex({v[0], v[1], v[2]});
  }
  for (const auto& t : p.fans()) {
    m.add_face({kigumi::Vertex_index{std::size_t(t[0])}, kigumi::Vertex_index{std::size_t(t[1])}, kigumi::Vertex_index{std::size_t(t[2])}});
  }
  return m;
}

}  // namespace txt
