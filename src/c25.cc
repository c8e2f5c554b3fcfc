// C25: the command-line tool computes, converts and reports what the library does.
#include "boolean_common.h"
#include "defect_gen.h"
#include "disc_gen.h"
#include "kig_defects.h"
#include "region_gen.h"
#include "textfmt.h"

#include <dirent.h>
#include <sys/prctl.h>
#include <sys/stat.h>

namespace {

using kigumi::Null_data;
using rg::Rat;

// ---- Running the tool in a directory of its own.

struct Dir {
  std::string path;
  Dir() : path{std::string{std::getenv("KIGUMI_TMP")} + "/cli." + std::to_string(getpid())} {
    clear();
    if (mkdir(path.c_str(), 0700) != 0 || mkdir((path + "/sub dir").c_str(), 0700) != 0) {
      throw std::runtime_error("mkdir: " + path);
    }
  }
  ~Dir() { clear(); }
  Dir(const Dir&) = delete;

  static void list(const std::string& d, const std::string& prefix, std::vector<std::string>& r) {
    if (DIR* h = opendir(d.c_str())) {
      while (auto* e = readdir(h)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") {
          continue;
        }
        struct stat st {};
        auto f = d + "/" + n;
        if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
          list(f, prefix + n + "/", r);
        }
        r.push_back(prefix + n);
      }
      closedir(h);
    }
  }
  std::vector<std::string> files() const {
    std::vector<std::string> r;
    list(path, "", r);
    std::sort(r.begin(), r.end());
    return r;
  }
  void clear() const {
    std::vector<std::string> r;
    list(path, "", r);
    for (const auto& f : r) {  // contents before their directory
      if (unlink((path + "/" + f).c_str()) != 0) {
        rmdir((path + "/" + f).c_str());
      }
    }
    rmdir(path.c_str());
  }
  void put(const std::string& f, const std::string& bytes) const {
    std::ofstream o{path + "/" + f, std::ios::binary};
    o << bytes;
    if (!o.flush()) {
      throw std::runtime_error("cannot write the scratch file " + f);
    }
  }
  bool has(const std::string& f) const {
    struct stat st {};
    return lstat((path + "/" + f).c_str(), &st) == 0;
  }
  std::string get(const std::string& f) const {
    std::ifstream i{path + "/" + f, std::ios::binary};
    return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
  }
};

struct Ran {
  int status = -1;  // exit status, or -signal
  std::string out, err;
};

std::string command_line(const std::vector<std::string>& args) {
  std::string r = "kigumi";
  for (const auto& a : args) {
    r += " '" + a + "'";
  }
  return r;
}

// Runs the tool with the directory as current directory.
Ran run(const Dir& d, const std::vector<std::string>& args, const char* out_to = nullptr) {
  static const std::string exe = std::string{std::getenv("KIGUMI_BUILD")} + "/kigumi";
  auto of = d.path + ".out", ef = d.path + ".err";
  auto parent = getpid();
  auto pid = fork();
  if (pid < 0) {
    throw std::runtime_error("fork");
  }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent || chdir(d.path.c_str()) != 0) {
      _exit(120);
    }
    int in = open("/dev/null", O_RDONLY);
    int o = open(out_to ? out_to : of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    int e = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(in, 0);
    dup2(o, 1);
    dup2(e, 2);
    std::vector<char*> argv{const_cast<char*>("kigumi")};
    for (const auto& a : args) {
      argv.push_back(const_cast<char*>(a.c_str()));
    }
    argv.push_back(nullptr);
    execv(exe.c_str(), argv.data());
    _exit(121);
  }
  int st{};
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  auto slurp = [](const std::string& f) {
    std::ifstream i{f, std::ios::binary};
    std::string r((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    unlink(f.c_str());
    return r;
  };
  Ran r;
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
  r.out = out_to ? "" : slurp(of);
  r.err = slurp(ef);
  if (r.status == 120 || r.status == 121) {
    throw std::runtime_error("cannot start the tool");
  }
  return r;
}

[[noreturn]] void bad(const char* kind, const std::vector<std::string>& args, const Ran& r, const std::string& m) {
  pbt::fail(kind, m + "\n  " + command_line(args) + "\n  exit status " + std::to_string(r.status) + "\n  standard output: " +
                      r.out.substr(0, 500) + "\n  standard error: " + r.err.substr(0, 700));
}

// ---- Files in the formats of the tool.

enum Ext { KIGUMI, XOBJ, XOFF, XPLY };
const char* const ext_names[] = {".kigumi", ".obj", ".off", ".ply"};
txt::Format text_format(int e) { return e == XOBJ ? txt::OBJ : e == XOFF ? txt::OFF : txt::PLY; }

struct Namer {
  int n = 0;
  std::string operator()(pbt::Source& s, int ext) {
    static const std::vector<std::string> stems{"a", "b c", "sub dir/m", "x.obj", "y.kigumi", "\xc3\xa9t\xc3\xa9", "./q", ".hidden", "a=b", "off", "v.off.ply", ""};
    return s.pick(stems) + std::to_string(n++) + ext_names[ext];
  }
};

// Exact coordinates of a mesh.
kbytes::Mesh mesh_of(const gen::M& m) {
  kbytes::Mesh r;
  for (const auto& p : m.p) {
    const auto& e = p.exact();
    std::array<kbytes::Coord, 3> c;
    const CGAL::Exact_rational* q[] = {&e.x(), &e.y(), &e.z()};
    for (int k = 0; k < 3; ++k) {
      c[k].q = rg::rat_of_exact(*q[k]);
      c[k].d = kbytes::double_of(c[k].q);
    }
    r.v.push_back(c);
  }
  for (const auto& f : m.f) {
    r.f.push_back({f[0], f[1], f[2]});
    r.data.emplace_back();
  }
  return r;
}
bool all_doubles(const kbytes::Mesh& m) {
  for (const auto& p : m.v) {
    for (const auto& c : p) {
      if (!c.d) {
        return false;
      }
    }
  }
  return true;
}
// A text can hold (the rounding of) every coordinate.
bool normal(const kbytes::Mesh& m) {
  static const Rat lo = kbytes::rat_of(2.2250738585072014e-308) * 2, hi = kbytes::rat_of(1.7976931348623157e308) / 2;
  for (const auto& p : m.v) {
    for (const auto& c : p) {
      Rat a = abs(c.q);
      if (a != 0 && (a < lo || a > hi)) {
        return false;
      }
    }
  }
  return true;
}
txt::Poly poly_of(const kbytes::Mesh& m) {
  txt::Poly p;
  for (const auto& v : m.v) {
    p.v.push_back({*v[0].d, *v[1].d, *v[2].d});
  }
  for (const auto& f : m.f) {
    p.f.push_back({f[0], f[1], f[2]});
  }
  return p;
}
std::string file_of(pbt::Source& s, const kbytes::Mesh& m, int ext) {
  return ext == KIGUMI ? kbytes::encode(m) : txt::render(s, text_format(ext), poly_of(m)).out;
}

// What a file of the tool says.  Empty string: no error.
std::string parse(const std::string& bytes, int ext, kbytes::Mesh& m) {
  if (ext == KIGUMI) {
    kbytes::Decoder d{bytes};
    if (!d.decode(m, 0)) {
      return "not a .kigumi file";
    }
    return d.at == bytes.size() ? "" : "bytes after the end of the region";
  }
  txt::Poly p;
  if (auto e = txt::parse_plain(text_format(ext), bytes, p); !e.empty()) {
    return e;
  }
  for (const auto& v : p.v) {
    std::array<kbytes::Coord, 3> c;
    for (int k = 0; k < 3; ++k) {
      c[k].d = v[k];
      c[k].q = kbytes::rat_of(v[k]);
    }
    m.v.push_back(c);
  }
  for (const auto& f : p.f) {
    if (f.size() != 3) {
      return "a face that is not a triangle";
    }
    m.f.push_back({f[0], f[1], f[2]});
    m.data.emplace_back();
  }
  m.kind = m.f.empty() ? -1 : 2;
  return "";
}

bool rounds_to(const Rat& q, double d) {
  auto x = kbytes::double_of(q);
  if (x) {
    return *x == d;
  }
  return kbytes::rat_of(std::nextafter(d, -INFINITY)) < q && q < kbytes::rat_of(std::nextafter(d, INFINITY));
}

// Compares what a file says with what it should say, in order.  Empty string if equal.
std::string compare(const kbytes::Mesh& got, const kbytes::Mesh& want, int ext) {
  if (ext == KIGUMI && got.kind != want.kind) {
    return "kind " + std::to_string(got.kind) + " instead of " + std::to_string(want.kind);
  }
  if (got.v.size() != want.v.size() || got.f.size() != want.f.size()) {
    return std::to_string(got.v.size()) + " vertices and " + std::to_string(got.f.size()) + " faces instead of " +
           std::to_string(want.v.size()) + " and " + std::to_string(want.f.size());
  }
  for (std::size_t i = 0; i < want.v.size(); ++i) {
    for (int k = 0; k < 3; ++k) {
      if (ext == KIGUMI ? got.v[i][k].q != want.v[i][k].q : !rounds_to(want.v[i][k].q, *got.v[i][k].d)) {
        return "coordinate " + std::to_string(k) + " of vertex " + std::to_string(i) + " is " + got.v[i][k].q.str().substr(0, 100) +
               " instead of " + want.v[i][k].q.str().substr(0, 100);
      }
    }
  }
  for (std::size_t i = 0; i < want.f.size(); ++i) {
    if (got.f[i] != want.f[i]) {
      return "face " + std::to_string(i) + " differs";
    }
  }
  return "";
}

// The faces independent of numbering, with the coordinates as written or as doubles.
std::vector<std::string> face_texts(const kbytes::Mesh& m) {
  std::vector<std::string> pt, r;
  for (const auto& p : m.v) {
    pt.push_back(p[0].q.str() + " " + p[1].q.str() + " " + p[2].q.str());
  }
  for (const auto& f : m.f) {
    std::array<std::string, 3> q{pt[f[0]], pt[f[1]], pt[f[2]]};
    q = std::min({q, {q[1], q[2], q[0]}, {q[2], q[0], q[1]}});
    r.push_back("(" + q[0] + ") (" + q[1] + ") (" + q[2] + ")");
  }
  std::sort(r.begin(), r.end());
  return r;
}

kbytes::Mesh mesh_of(const Region& r) {
  auto m = mesh_of(gen::from_soup(r.boundary()));
  m.kind = r.is_empty() ? 0 : r.is_full() ? 1 : 2;
  return m;
}
Region region_of(const kbytes::Mesh& m) {
  if (m.kind != 2) {
    return m.kind == 0 ? Region::empty() : Region::full();
  }
  Soup t;
  for (const auto& p : m.v) {
    auto co = [](const kbytes::Coord& c) { return c.d ? FT{*c.d} : FT{rg::exact_of(c.q)}; };
    t.add_vertex({co(p[0]), co(p[1]), co(p[2])});
  }
  for (const auto& f : m.f) {
    t.add_face({Vertex_index{std::size_t(f[0])}, Vertex_index{std::size_t(f[1])}, Vertex_index{std::size_t(f[2])}});
  }
  return Region{std::move(t)};
}
// The mesh with its coordinates rounded as the text writers round them.
kbytes::Mesh rounded(const Region& r) {
  kbytes::Mesh m = mesh_of(r);
  std::size_t i = 0;
  for (auto v : r.boundary().vertices()) {
    auto p = r.boundary().point(v);
    p.exact();
    double d[] = {CGAL::to_double(p.x()), CGAL::to_double(p.y()), CGAL::to_double(p.z())};
    for (int k = 0; k < 3; ++k) {
      m.v[i][k].d = d[k];
      m.v[i][k].q = kbytes::rat_of(d[k]);
    }
    ++i;
  }
  return m;
}

// ---- Command lines.

// An option and its value, in any of the ways they can be written.
void add_option(pbt::Source& s, std::vector<std::string>& args, const std::string& name, const std::string& value) {
  if (!value.empty() && s.flip()) {
    args.push_back("--" + name + "=" + value);
  } else {
    args.push_back("--" + name);
    args.push_back(value);
  }
}
// Positional arguments (in this order) and options, in any order.
std::vector<std::string> arguments(pbt::Source& s, const std::string& command, const std::vector<std::pair<std::string, std::string>>& positional,
                                   const std::vector<std::pair<std::string, std::string>>& options) {
  struct Item {
    bool named;
    std::string name, value;
  };
  std::vector<Item> items;
  // Positional arguments fill the places from the first: only a tail of them may be named, or all.
  auto named = s.below(3);  // none, the last ones, all
  std::size_t k = named == 0 ? positional.size() : named == 1 ? s.below(positional.size()) : 0;
  std::vector<Item> pos, opt;
  for (std::size_t i = 0; i < positional.size(); ++i) {
    (i < k ? pos : opt).push_back({i >= k, positional[i].first, positional[i].second});
  }
  for (const auto& o : options) {
    opt.push_back({true, o.first, o.second});
  }
  s.shuffle(opt);
  std::vector<std::string> args{command};
  std::size_t i = 0, j = 0;
  while (i < pos.size() || j < opt.size()) {
    if (i < pos.size() && (j == opt.size() || !s.chance(1, 3))) {
      args.push_back(pos[i++].value);
    } else {
      add_option(s, args, opt[j].name, opt[j].value);
      ++j;
    }
  }
  return args;
}

const char* const op_options[] = {"int", "uni", "dif", "sym"};
Op op_of_option(int i) {
  // The documented meaning of the options, by truth table (inside first, inside second).
  static const bool table[4][4] = {{false, false, false, true}, {false, true, true, true}, {false, false, true, false}, {false, true, true, false}};
  for (int k = 0; k < 16; ++k) {
    auto op = op_of(std::uint64_t(k));
    bool same = true;
    for (int x = 0; x < 4; ++x) {
      same &= apply(op, (x & 2) != 0, (x & 1) != 0) == table[i][x];
    }
    if (same) {
      return op;
    }
  }
  throw std::logic_error("operator");
}

void warnings_match(const std::vector<std::string>& args, const Ran& r, Warnings w) {
  auto says = [&](const char* t) { return r.err.find(t) != std::string::npos; };
  bool first = (w & Warnings::FIRST_MESH_PARTIALLY_INTERSECTS_WITH_SECOND_MESH) != Warnings::NONE;
  bool second = (w & Warnings::SECOND_MESH_PARTIALLY_INTERSECTS_WITH_FIRST_MESH) != Warnings::NONE;
  if (says("the first mesh partially intersects") != first || says("the second mesh partially intersects") != second) {
    bad("warnings", args, r, std::string{"the library warns about: "} + (first ? "the first mesh " : "") + (second ? "the second mesh" : ""));
  }
}

}  // namespace

PBT_SUB(boolean, 5000, 60000,
        "kigumi boolean over valid closed pairs as for C01, partially cutting discs and the special operands, in files of every format, "
        "with any set of outputs in any format over new, existing and input files, and the arguments in any order and form: each output "
        "against the exact membership oracle (.kigumi) and the library's result, nothing else written; non-trivial: two or more outputs") {
  auto& s = c.src;
  Operand a, b;
  std::string relation;
  bool partial = s.chance(1, 5);
  if (partial) {
    bool closed{};
    auto [x, y] = gen::solid_and_disc(s, closed);
    if (!validity(x, closed).empty() || !validity(y, false).empty() || gen::degenerate_contact(x, y)) {
      throw pbt::Discard{};
    }
    a = Operand{x};
    b = Operand{y};
    if (s.flip()) {
      std::swap(a, b);
    }
  } else {
    gen::Pair_options po;
    po.affine = s.chance(1, 3);
    auto pr = gen::gen_pair(s, po);
    if (!validity(pr.a).empty() || !validity(pr.b).empty()) {
      throw pbt::Discard{};
    }
    a = Operand{pr.a};
    b = Operand{pr.b};
    relation = pr.relation;
    for (auto* o : {&a, &b}) {
      if (s.chance(1, 10)) {
        *o = Operand::constant(s.flip());
      }
    }
  }
  Dir d;
  Namer namer;
  std::map<std::string, std::string> contents;  // that must remain
  std::vector<std::pair<std::string, std::string>> pos, opt;
  Region ra, rb;
  int in_ext[2] = {};
  for (int i = 0; i < 2; ++i) {
    const auto& o = i == 0 ? a : b;
    auto& r = i == 0 ? ra : rb;
    std::string f;
    if (o.kind != 2) {
      f = o.kind == 0 ? ":empty:" : ":full:";
      in_ext[i] = -1;
      if (s.chance(1, 4)) {  // in a file
        kbytes::Mesh m;
        m.kind = o.kind;
        f = namer(s, KIGUMI);
        in_ext[i] = KIGUMI;
        contents[f] = kbytes::encode(m);
      }
      r = o.kind == 0 ? Region::empty() : Region::full();
    } else {
      auto m = mesh_of(o.m);
      int e = all_doubles(m) ? int(s.below(4)) : KIGUMI;
      in_ext[i] = e;
      f = namer(s, e);
      contents[f] = file_of(s, m, e);
      r = region_of(m);
    }
    pos.emplace_back(i == 0 ? "first" : "second", f);
  }
  if (s.chance(1, 12) && a.kind == 2) {  // twice the same file
    b = a;
    rb = ra;
    in_ext[1] = in_ext[0];
    contents.erase(pos[1].second);
    pos[1].second = pos[0].second;
  }
  for (const auto& [f, bytes] : contents) {
    d.put(f, bytes);
  }
  struct Output {
    int op, ext;
    std::string file;
  };
  std::vector<Output> outs;
  auto set = s.range(0, 15);
  for (int i = 0; i < 4; ++i) {
    if ((set >> i & 1) == 0) {
      continue;
    }
    Output o{i, int(s.below(4)), ""};
    if (s.chance(1, 8)) {  // over an input
      int k = int(s.below(2));
      if (in_ext[k] >= 0 && contents.count(pos[k].second) != 0) {
        o.ext = in_ext[k];
        o.file = pos[k].second;
        contents.erase(o.file);
      }
    }
    if (o.file.empty()) {
      o.file = namer(s, o.ext);
      if (s.chance(1, 4)) {  // over an existing file
        d.put(o.file, std::string(s.below(5000), 'x'));
      }
    }
    opt.emplace_back(op_options[i], o.file);
    outs.push_back(o);
  }
  auto args = arguments(s, "boolean", pos, opt);
  c.describe(command_line(args) + "\n" + relation + "\n" + describe_pair(a, b));
  auto expected_files = d.files();
  auto r = run(d, args);
  if (r.status != 0) {
    bad("status", args, r, "a request that can be done fails");
  }
  Builder lib{ra, rb};
  warnings_match(args, r, lib.warnings());
  for (const auto& [f, bytes] : contents) {
    if (d.get(f) != bytes) {
      bad("input", args, r, "the input " + f + " has changed");
    }
  }
  std::uint64_t n = 0;
  for (const auto& o : outs) {
    if (!d.has(o.file)) {
      bad("missing", args, r, "the output " + o.file + " does not exist");
    }
    auto bytes = d.get(o.file);
    kbytes::Mesh got;
    if (auto e = parse(bytes, o.ext, got); !e.empty()) {
      bad("format", args, r, "the output " + o.file + " is malformed: " + e + "\n" + (o.ext == KIGUMI ? rg::hex(bytes) : bytes.substr(0, 1000)));
    }
    if (partial && lib.warnings() != Warnings::NONE) {
      continue;  // the result is undefined
    }
    auto op = op_of_option(o.op);
    auto want = lib(op);
    auto wm = o.ext == KIGUMI ? mesh_of(want) : rounded(want);
    if (o.ext == KIGUMI && got.kind != wm.kind) {
      bad("result", args, r, std::string{op_options[o.op]} + ": kind " + std::to_string(got.kind) + " instead of " + std::to_string(wm.kind));
    }
    if (auto df = first_difference(face_texts(got), face_texts(wm)); !df.empty()) {
      bad("result", args, r, std::string{op_options[o.op]} + ": the output and the library's result differ: " + df);
    }
    if (o.ext == KIGUMI && !partial) {
      Check_options co;
      co.surface_samples = 8;
      n += check_result(s, a, b, op, region_of(got), co);
    }
    ++n;
    c.label(std::string{"output "} + ext_names[o.ext]);
  }
  for (const auto& o : outs) {
    expected_files.push_back(o.file.rfind("./", 0) == 0 ? o.file.substr(2) : o.file);
  }
  std::sort(expected_files.begin(), expected_files.end());
  expected_files.erase(std::unique(expected_files.begin(), expected_files.end()), expected_files.end());
  if (d.files() != expected_files) {
    bad("files", args, r, "files other than the outputs have been created or removed");
  }
  if (lib.warnings() != Warnings::NONE) {
    c.label("warnings");
  }
  c.evals(n);
  c.nontrivial = outs.size() >= 2;
}

PBT_SUB(convert, 10000, 150000,
        "kigumi convert of any mesh (also one that bounds nothing) or special region from every format to every format, over itself, an "
        "existing or a new file: the output holds exactly the same region, rounded to doubles in texts; non-trivial: a mesh") {
  auto& s = c.src;
  kbytes::Mesh m;
  int ie{}, oe = int(s.below(4));
  std::string bytes, in, out;
  Namer namer;
  Dir d;
  switch (s.weighted({6, 6, 2})) {
    case 0: {  // a text, with polygons
      ie = int(s.range(XOBJ, XPLY));
      auto p = txt::poly(s);
      auto fans = p.fans();
      for (const auto& v : p.v) {
        std::array<kbytes::Coord, 3> q;
        for (int k = 0; k < 3; ++k) {
          q[k].d = v[k];
          q[k].q = kbytes::rat_of(v[k]);
        }
        m.v.push_back(q);
      }
      for (const auto& f : fans) {
        m.f.push_back({f[0], f[1], f[2]});
        m.data.emplace_back();
      }
      bytes = txt::render(s, text_format(ie), p).out;
      in = namer(s, ie);
      break;
    }
    case 1: {
      ie = KIGUMI;
      m = rg::any_region<Null_data>(s).mesh;
      bytes = kbytes::encode(m);
      in = namer(s, ie);
      break;
    }
    default:
      ie = -1;
      m.kind = int(s.below(2));
      in = m.kind == 0 ? ":empty:" : ":full:";
      break;
  }
  if (oe != KIGUMI && !normal(m)) {
    oe = KIGUMI;
  }
  if (ie >= 0) {
    d.put(in, bytes);
  }
  if (ie >= 0 && s.chance(1, 5) && (ie == KIGUMI || normal(m))) {
    out = in;
    oe = ie;
  } else {
    out = namer(s, oe);
    if (s.chance(1, 4)) {
      d.put(out, std::string(s.below(5000), 'x'));
    }
  }
  auto args = arguments(s, "convert", {{"in", in}, {"out", out}}, {});
  c.describe(command_line(args) + "\n" + (ie == KIGUMI || ie < 0 ? rg::show(m) : bytes.substr(0, 1500)));
  auto expected_files = d.files();
  auto old = d.has(out) ? d.get(out) : std::string{};
  auto r = run(d, args);
  if (m.kind == 2 && m.f.empty()) {  // no region
    if (r.status == 0) {
      bad("status", args, r, "a mesh without faces is accepted");
    }
    if (d.files() != expected_files || (d.has(out) ? d.get(out) : std::string{}) != old) {
      bad("files", args, r, "a failed request changes files");
    }
    c.label("no faces");
    return;
  }
  if (r.status != 0) {
    bad("status", args, r, "a request that can be done fails");
  }
  auto got_bytes = d.get(out);
  kbytes::Mesh got;
  if (auto e = parse(got_bytes, oe, got); !e.empty()) {
    bad("format", args, r, "the output is malformed: " + e + "\n" + (oe == KIGUMI ? rg::hex(got_bytes) : got_bytes.substr(0, 1000)));
  }
  if (auto e = compare(got, m, oe); !e.empty()) {
    bad("region", args, r, "the region changes: " + e);
  }
  if (ie >= 0 && in != out && d.get(in) != bytes) {
    bad("input", args, r, "the input has changed");
  }
  expected_files.push_back(out.rfind("./", 0) == 0 ? out.substr(2) : out);
  std::sort(expected_files.begin(), expected_files.end());
  expected_files.erase(std::unique(expected_files.begin(), expected_files.end()), expected_files.end());
  if (d.files() != expected_files) {
    bad("files", args, r, "files other than the output have been created or removed");
  }
  c.label(std::string{ie < 0 ? "special" : ext_names[ie]} + " to " + ext_names[oe]);
  c.nontrivial = m.kind == 2;
}

PBT_SUB(defects, 6000, 100000,
        "kigumi defects on damaged meshes as for C18 in every format and on special regions: standard output has exactly one line per kind "
        "of defect that occurs, with its number as the library reports it; non-trivial: the mesh has a defect") {
  auto& s = c.src;
  std::string what;
  auto g = gen::damaged_mesh(c, what);
  auto m = mesh_of(g);
  Dir d;
  Namer namer;
  std::string in;
  Region region;
  if (m.f.empty() || s.chance(1, 40)) {
    bool full = s.flip();
    in = full ? ":full:" : ":empty:";
    region = full ? Region::full() : Region::empty();
  } else {
    int e = all_doubles(m) && normal(m) ? int(s.below(4)) : KIGUMI;
    in = namer(s, e);
    d.put(in, file_of(s, m, e));
    region = region_of(m);
  }
  auto args = arguments(s, "defects", {{"in", in}}, {});
  c.describe(command_line(args) + "\ndamages:" + what + "\n" + gen::show(g));
  auto before = d.files();
  auto r = run(d, args);
  if (r.status != 0) {
    bad("status", args, r, "a request that can be done fails");
  }
  if (d.files() != before) {
    bad("files", args, r, "files have been created or removed");
  }
  auto f = find_defects(region.boundary());
  std::map<std::string, std::size_t> want{{"isolated vertices", f.isolated_vertices.size()},
                                          {"non-manifold vertices", f.non_manifold_vertices.size()},
                                          {"boundary edges", f.boundary_edges.size()},
                                          {"inconsistent edges", f.inconsistent_edges.size()},
                                          {"non-manifold edges", f.non_manifold_edges.size()},
                                          {"trivial degenerate faces", f.trivial_degenerate_faces.size()},
                                          {"non-trivial degenerate faces", f.non_trivial_degenerate_faces.size()},
                                          {"overlapping faces", f.overlapping_faces.size()}};
  std::size_t lines = 0;
  std::istringstream o{r.out};
  std::string l;
  while (std::getline(o, l)) {
    std::istringstream ls{l};
    std::size_t n{};
    std::string name;
    ls >> n;
    std::getline(ls >> std::ws, name);
    auto it = want.find(name);
    if (!ls || it == want.end() || it->second != n || n == 0) {
      bad("report", args, r, "the line \"" + l + "\" is wrong" + (it == want.end() ? "" : ": the library reports " + std::to_string(it->second)));
    }
    it->second = 0;
    ++lines;
  }
  for (const auto& [name, n] : want) {
    if (n != 0) {
      bad("report", args, r, std::to_string(n) + " " + name + " are not reported");
    }
  }
  c.evals(lines);
  c.nontrivial = lines > 0;
}

PBT_SUB(faults, 10000, 150000,
        "correct command lines with one thing made impossible (missing, malformed, unsupported or unreadable input; unsupported, "
        "unwritable or full output; missing, extra, unknown or repeated arguments; unknown command): the status is not zero, something is "
        "said on standard error, no signal, and nothing is written unless the outputs are at fault; non-trivial: all") {
  auto& s = c.src;
  Dir d;
  Namer namer;
  int cmd = int(s.below(3));  // boolean, convert, defects
  // A correct command line.
  auto cube = [&] {
    auto m = gen::base_cube();
    auto p = double(s.around(3));
    return mesh_of(gen::translated(m, p, 0.5, 0.25));
  };
  std::vector<std::pair<std::string, std::string>> pos, opt;
  std::vector<int> in_ext;
  auto input = [&](const char* name) {
    int e = int(s.below(4));
    auto f = namer(s, e);
    d.put(f, file_of(s, cube(), e));
    pos.emplace_back(name, f);
    in_ext.push_back(e);
  };
  std::vector<std::size_t> out_at;  // in pos (convert) or opt (boolean)
  auto output = [&] {
    auto f = namer(s, int(s.below(4)));
    if (s.flip()) {
      d.put(f, "earlier");
    }
    return f;
  };
  if (cmd == 0) {
    input("first");
    input("second");
    auto set = s.range(1, 15);
    for (int i = 0; i < 4; ++i) {
      if ((set >> i & 1) != 0) {
        opt.emplace_back(op_options[i], output());
      }
    }
  } else if (cmd == 1) {
    input("in");
    pos.emplace_back("out", output());
  } else {
    input("in");
  }
  const char* const commands[] = {"boolean", "convert", "defects"};
  std::string command = commands[cmd];
  std::string what;
  bool output_fault = false, full_stdout = false;
  auto at = s.below(in_ext.size());
  auto& in = pos[at].second;
  auto stem = "z" + std::to_string(s.below(100));
  bool extra_last = false;
  std::vector<std::string> raw_tail;
  auto kind = s.weighted({4, 4, 2, 6, 1, 2, 2, 2, 1, 2, 6, 2});
  if (kind == 10 && cmd == 2) {
    kind = 11;
  }
  if (kind == 11 && cmd != 2) {
    kind = 10;
  }
  switch (kind) {
    case 0:
      what = "missing input";
      in = s.one_of<const char*>({"", "nowhere/", "sub dir/"}) + stem + ext_names[s.below(4)];
      break;
    case 1:
      what = "unsupported input";
      {
        auto f = stem + s.one_of<const char*>({".stl", "", ".OBJ", ".kigumi2", ".obj ", "obj", ".kigumi.gz", ".", "kigumi"});
        d.put(f, d.get(in));
        in = f;
      }
      break;
    case 2:
      what = "directory as input";
      in = stem + ext_names[s.below(4)];
      if (mkdir((d.path + "/" + in).c_str(), 0700) != 0) {
        throw std::runtime_error("mkdir");
      }
      break;
    case 3:
      what = "malformed input";
      {
        int e = in_ext[at];
        auto m = cube();
        auto bytes = file_of(s, m, e);
        if (e == KIGUMI) {
          switch (s.below(4)) {
            case 0:
              bytes.resize(s.below(bytes.size()));
              break;
            case 1:
              bytes[0] = char(s.range(3, 255));
              break;
            case 2:
              m.f[s.below(m.f.size())][s.below(3)] = s.one_of({-1, 8, 1000000});
              bytes = kbytes::encode(m);
              break;
            default:
              m.v[s.below(m.v.size())][s.below(3)].d = s.one_of({double(INFINITY), double(-INFINITY), double(NAN)});
              bytes = kbytes::encode(m);
              break;
          }
        } else {
          auto p = poly_of(m);
          // A plain text with one wrong token: the formats' readers must not accept it.
          auto w = txt::render(s, text_format(e), p);
          auto lines = w.lines;
          if (s.flip()) {
            const auto& k = s.pick(w.vertices);
            txt::set_token(lines[k.line], k.tokens[s.below(3)], s.one_of<const char*>({"nan", "inf", "abc", "-inf", "1e999"}));
          } else {
            w.faces.erase(std::remove_if(w.faces.begin(), w.faces.end(), [](const auto& x) { return x.tokens.size() < 3; }), w.faces.end());
            const auto& k = s.pick(w.faces);  // (faces of one or two vertices describe nothing)
            txt::set_token(lines[k.line], s.pick(k.tokens), e == XOBJ ? s.one_of<const char*>({"0", "9", "-9", "1000"}) : s.one_of<const char*>({"8", "-1", "1000"}));
          }
          bytes = txt::Writer::join(s, w.style(), lines);
          what += ":\n" + bytes;
        }
        d.put(in, bytes);
      }
      break;
    case 4:
      what = "no command";
      break;
    case 5:
      what = "unknown command";
      command = s.one_of<const char*>({"", "Boolean", "boolea", "booleans", "help", "--help", "-h", "union", "convert ", "defect"});
      break;
    case 6:
      what = "missing argument";
      pos.pop_back();
      if (cmd == 1) {
        opt.clear();
      }
      break;
    case 7:
      what = "extra argument";
      raw_tail = {stem};
      extra_last = true;
      break;
    case 8:
      what = "option without a value";
      raw_tail = {cmd == 0 ? s.one_of<const char*>({"--int", "--sym"}) : "--in"};
      if (cmd == 0) {
        opt.clear();
      } else {
        pos.erase(pos.begin());
      }
      break;
    case 9:
      what = "unknown or repeated option";
      if (s.flip()) {
        opt.emplace_back(s.one_of<const char*>({"bogus", "xor", "output", "help"}), stem);
      } else if (cmd == 0) {
        opt.push_back(opt[s.below(opt.size())]);
      } else {
        opt.emplace_back("in", in);
      }
      break;
    case 10: {
      what = "output: ";
      output_fault = true;
      auto& out = cmd == 1 ? pos.back().second : opt[s.below(opt.size())].second;
      switch (s.below(4)) {
        case 0:
          what += "unsupported";
          out = stem + s.one_of<const char*>({".stl", "", ".OBJ", ".kigumi2", "obj", "."});
          break;
        case 1:
          what += "no such directory";
          out = "nowhere/" + stem + ext_names[s.below(4)];
          break;
        case 2:
          what += "a directory";
          out = stem + ext_names[s.below(4)];
          if (mkdir((d.path + "/" + out).c_str(), 0700) != 0) {
            throw std::runtime_error("mkdir");
          }
          break;
        default:
          what += "full device";
          out = stem + s.one_of<const char*>({".kigumi", ".off", ".ply"});  // an empty OBJ has no bytes
          if (symlink("/dev/full", (d.path + "/" + out).c_str()) != 0) {
            throw std::runtime_error("symlink");
          }
          break;
      }
      break;
    }
    default:
      what = "full standard output";
      full_stdout = true;
      {
        // A mesh that has a defect.
        auto m = cube();
        m.f.pop_back();
        m.data.pop_back();
        d.put(in, file_of(s, m, in_ext[at]));
      }
      break;
  }
  (void)extra_last;
  std::vector<std::string> args;
  if (what != "no command") {
    if (pos.empty()) {
      args = {command};
      for (const auto& o : opt) {
        add_option(s, args, o.first, o.second);
      }
    } else {
      args = arguments(s, command, pos, opt);
    }
    args.insert(args.end(), raw_tail.begin(), raw_tail.end());
  }
  c.describe(what + ": " + command_line(args) + "\n");
  std::map<std::string, std::string> before;
  for (const auto& f : d.files()) {
    struct stat st {};
    if (lstat((d.path + "/" + f).c_str(), &st) == 0 && S_ISREG(st.st_mode)) {
      before[f] = d.get(f);
    }
  }
  auto files = d.files();
  auto r = run(d, args, full_stdout ? "/dev/full" : nullptr);
  if (r.status == 0) {
    bad("status", args, r, what + ": the status is zero");
  }
  if (r.status < 0 || r.status > 125) {
    bad("crash", args, r, what + ": the tool does not end normally");
  }
  if (r.err.empty()) {
    bad("silent", args, r, what + ": nothing is said on standard error");
  }
  for (const auto& [f, bytes] : before) {
    bool is_output = false;
    for (const auto& o : opt) {
      is_output |= o.second == f || o.second == "./" + f;
    }
    if ((!output_fault || !is_output) && d.get(f) != bytes) {
      bad("files", args, r, what + ": " + f + " has changed");
    }
  }
  if (!output_fault && d.files() != files) {
    bad("files", args, r, what + ": files have been created or removed");
  }
  c.label(what.substr(0, what.find(":\n")));
  c.nontrivial = true;
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
