// C09: results are independent of threads, schedules and earlier operations.
// Every case runs in a process of its own (Engine::batch = 1).  The reference answer of each request is computed in a fresh
// process that does nothing else; the history then runs in the case's process.
#include <poll.h>

#include "clipped_common.h"
#include "kig_defects.h"

namespace {

// What a request answered, in a form that can be sent through a pipe.
struct Answer {
  std::string error;  // what a thrown exception said
  int kind = 2;
  unsigned warnings{};
  gen::M m;
  std::vector<std::string> lists;  // defect reports, point locations

  void put(std::ostream& o) const {
    o << error.size() << ' ' << error << ' ' << kind << ' ' << warnings << ' ' << m.p.size() << ' ' << m.f.size() << ' ' << lists.size()
      << '\n';
    for (const auto& p : m.p) {
      const auto& e = p.exact();
      o << e.x() << ' ' << e.y() << ' ' << e.z() << '\n';
    }
    for (std::size_t i = 0; i < m.f.size(); ++i) {
      o << m.f[i][0] << ' ' << m.f[i][1] << ' ' << m.f[i][2] << ' ' << m.d.at(i) << '\n';
    }
    for (const auto& l : lists) {
      o << l << '\n';
    }
    o << "end\n";
  }
  bool get(std::istream& in) {
    std::size_t n{}, np{}, nf{}, nl{};
    in >> n;
    in.get();
    error.resize(n);
    in.read(error.data(), std::streamsize(n));
    in >> kind >> warnings >> np >> nf >> nl;
    for (std::size_t i = 0; i < np && in; ++i) {
      CGAL::Exact_rational x, y, z;
      in >> x >> y >> z;
      m.p.emplace_back(FT{x}, FT{y}, FT{z});
    }
    for (std::size_t i = 0; i < nf && in; ++i) {
      std::array<int, 3> f{};
      int d{};
      in >> f[0] >> f[1] >> f[2] >> d;
      m.f.push_back(f);
      m.d.push_back(d);
    }
    std::string l;
    std::getline(in, l);
    for (std::size_t i = 0; i < nl && in; ++i) {
      std::getline(in, l);
      lists.push_back(l);
    }
    in >> l;
    return l == "end";
  }
};

// A defective mesh as coordinates, so that a report does not depend on the numbering of merged vertices.
std::vector<std::string> report_lines(const Defect_report& r) {
  std::vector<std::string> o;
  auto pt = [&](std::size_t v) { return "(" + gen::fmt(r.soup.point(Vertex_index{v})) + ")"; };
  auto edges = [&](const char* n, const auto& v) {
    for (const auto& e : v) {
      auto a = pt(e[0]), b = pt(e[1]);
      o.push_back(std::string{n} + ' ' + std::min(a, b) + ' ' + std::max(a, b));
    }
  };
  auto vertices = [&](const char* n, const auto& v) {
    for (auto i : v) {
      o.push_back(std::string{n} + ' ' + pt(i));
    }
  };
  auto faces = [&](const char* n, const auto& v) {
    for (auto i : v) {
      o.push_back(std::string{n} + ' ' + std::to_string(i));
    }
  };
  edges("boundary", r.boundary_edges);
  edges("inconsistent", r.inconsistent_edges);
  edges("non-manifold", r.non_manifold_edges);
  vertices("isolated", r.isolated_vertices);
  vertices("non-manifold", r.non_manifold_vertices);
  faces("trivial-degenerate", r.trivial_degenerate_faces);
  faces("degenerate", r.non_trivial_degenerate_faces);
  faces("overlapping", r.overlapping_faces);
  std::sort(o.begin(), o.end());
  return o;
}

struct Job {
  int what{};  // 0 operation, 1 defects, 2 point location, 3 an operation that must fail
  Operand a, b;
  Op op{};
  bool prefer{true};
  std::vector<P3> points;
  std::string text;
};

// Builds its own operands when `shared` is null, else uses those of another thread.
Answer run_job(const Job& j, const Region* sa = nullptr, const Region* sb = nullptr) {
  Answer r;
  try {
    if (j.what == 0 || j.what == 3) {
      std::optional<Region> oa, ob;
      if (!sa) {
        sa = &oa.emplace(j.a.region());
        sb = &ob.emplace(j.b.region());
      }
      Builder b{*sa, *sb};
      auto x = b(j.op, j.prefer);
      r.warnings = unsigned(b.warnings());
      r.kind = x.is_empty() ? 0 : x.is_full() ? 1 : 2;
      r.m = gen::from_soup(x.boundary());
    } else if (j.what == 1) {
      r.lists = report_lines(find_defects(gen::to_soup(j.a.m)));
    } else {
      std::optional<Region> oa;
      if (!sa) {
        sa = &oa.emplace(j.a.region());
      }
      for (const auto& p : j.points) {
        r.lists.push_back(side_name(sa->bounded_side(p)) + " " + gen::fmt(p));
      }
    }
  } catch (const std::exception& e) {
    r.error = e.what();
  }
  return r;
}

// The same from another depth of the stack, as a caller in another place would.
__attribute__((noinline)) Answer run_deeper(std::size_t depth, const Job& j, const Region* sa = nullptr, const Region* sb = nullptr) {
  auto* p = static_cast<volatile char*>(__builtin_alloca(depth * 1024 + 16));
  for (std::size_t i = 0; i < depth * 1024; i += 8) {
    p[i] = char(0xa5);
  }
  return run_job(j, sa, sb);
}

Answer fresh(const Job& j) {
  int fd[2];
  if (pipe(fd) != 0) {
    throw pbt::Discard{};
  }
  auto pid = fork();
  if (pid == 0) {
    close(fd[0]);
    auto a = run_job(j);
    std::ostringstream o;
    a.put(o);
    auto s = o.str();
    for (std::size_t i = 0; i < s.size();) {
      auto n = write(fd[1], s.data() + i, s.size() - i);
      if (n <= 0) {
        break;
      }
      i += std::size_t(n);
    }
    _exit(0);
  }
  close(fd[1]);
  std::string s;
  char buf[65536];
  for (ssize_t n{}; (n = read(fd[0], buf, sizeof buf)) > 0;) {
    s.append(buf, std::size_t(n));
  }
  close(fd[0]);
  int st{};
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    pbt::fail("crash-alone", "the request crashed in a fresh process, status " + std::to_string(st) + ": " + j.text);
  }
  std::istringstream in{s};
  Answer a;
  if (!a.get(in)) {
    throw std::runtime_error("harness: garbled answer");
  }
  return a;
}

std::string data_difference(const Answer& x, const Answer& y) {
  oracle::Geo g{y.m};
  for (std::size_t i = 0; i < x.m.f.size(); ++i) {
    const auto& f = x.m.f[i];
    auto c = bary(x.m.p[f[0]], x.m.p[f[1]], x.m.p[f[2]], 3, 4, 6);
    bool ok = false;
    for (auto k : g.containing(c)) {
      ok |= y.m.d[k] == x.m.d[i];
    }
    if (!ok) {
      return "at (" + gen::fmt(c) + ") the face data differ";
    }
  }
  return "";
}

std::string difference(pbt::Source& s, const Job& j, const Answer& want, const Answer& got) {
  if (want.error != got.error) {
    return "it " + (got.error.empty() ? std::string{"succeeded"} : "failed with '" + got.error + "'") + ", expected " +
           (want.error.empty() ? std::string{"success"} : "'" + want.error + "'");
  }
  if (!want.error.empty()) {
    return "";
  }
  if (j.what != 0) {
    return want.lists == got.lists ? "" : first_difference(want.lists, got.lists);
  }
  if (want.warnings != got.warnings) {
    return "warnings " + std::to_string(got.warnings) + " instead of " + std::to_string(want.warnings);
  }
  auto operand = [](const Answer& a) { return a.kind == 2 ? Operand{a.m} : Operand::constant(a.kind == 1); };
  auto d = same_set(s, operand(want), operand(got));
  if (d.empty()) {
    d = data_difference(got, want);
  }
  if (d.empty()) {
    d = data_difference(want, got);
  }
  return d;
}

// Operations that throw, each at another stage.
void make_failing(pbt::Source& s, Job& j) {
  gen::M x, y;
  j.op = Op::A;
  switch (s.weighted({3, 4})) {
    case 0:
      // A mesh with two interpenetrating components, and one whose face crosses their line of intersection: the face cannot
      // be triangulated.
      x = gen::base_cube();
      gen::append(x, gen::translated(gen::base_cube(), 1, s.one_of({0.5, 0.25}), s.one_of({0.5, -0.25})));
      y = gen::translated(gen::scaled(gen::base_tetra(), s.one_of({2.0, 3.0, 2.5})), s.one_of({0.0, 0.125}), 0.25, 0);
      break;
    case 1: {
      // A flat sheet of any number of faces, and a face of a solid in its plane but beside it: its side cannot be determined.
      int n = int(s.range(1, 8));
      for (int i = 0; i <= n; ++i) {
        for (int k = 0; k <= n; ++k) {
          gen::add_point(x, P3{double(i), double(k), 0.0});
        }
      }
      for (int i = 0; i < n; ++i) {
        for (int k = 0; k < n; ++k) {
          int v = (n + 1) * i + k;
          x.f.push_back({v, v + n + 1, v + n + 2});
          x.f.push_back({v, v + n + 2, v + 1});
        }
      }
      y = gen::translated(gen::base_cube(), double(n) + 8, double(s.around(9)), 0);
      double low = 1e9;
      for (const auto& p : y.p) {
        low = std::min(low, CGAL::to_double(p.z()));
      }
      y = gen::translated(y, 0, 0, -low);
      // The flat bottom comes first, so that the side of the component is asked for at a point of it.
      std::stable_sort(y.f.begin(), y.f.end(), [&](const auto& f, const auto& g) {
        auto flat = [&](const auto& h) { return std::all_of(h.begin(), h.end(), [&](int v) { return y.p[v].z() == 0; }); };
        return flat(f) > flat(g);
      });
      break;
    }
  }
  j.a = Operand{x};
  j.b = Operand{y};
  if (s.flip()) {
    std::swap(j.a, j.b);
  }
}

Job make_job(pbt::Case& c, int what) {
  auto& s = c.src;
  Job j;
  j.what = what;
  if (what == 0 || what == 2) {
    if (what == 0 && s.chance(1, 5)) {
      // Partially cutting disc: warnings.
      gen::M a = gen::star_solid(s, false), b;
      b.p = {P3{double(s.around(100)) / 101, double(s.around(100)) / 103, double(s.around(100)) / 107},
             P3{double(s.around(100)) / 37, 0.0131, double(s.around(100)) / 31}, P3{0.0171, double(s.around(100)) / 29, 1.037}};
      b.f = {{0, 1, 2}};
      if (CGAL::collinear(b.p[0], b.p[1], b.p[2])) {
        throw pbt::Discard{};
      }
      // Only the warnings and the failure matter here; the result of a partial cut is not a region.
      j.what = 4;
      j.a = Operand{a};
      j.b = Operand{b};
    } else {
      gen::Pair_options po;
      po.big = s.chance(1, 6);
      po.components = 20;
      if (what == 0 && s.chance(1, 6)) {
        auto p = make_clipped_case(c, po);
        j.a = p.oa;
        j.b = p.ob;
      } else {
        auto p = gen::gen_pair(s, po);
        for (const auto* m : {&p.a, &p.b}) {
          if (!validity(*m).empty()) {
            throw pbt::Discard{};
          }
        }
        j.a = Operand{p.a};
        j.b = Operand{p.b};
      }
      set_data(j.a.m, 1000);
      set_data(j.b.m, 5000);
    }
    j.op = op_of(s.below(16));
    j.prefer = !s.chance(1, 4);
    if (what == 2) {
      auto bb = j.a.g.bbox();
      for (int i = 0; i < 12; ++i) {
        if (s.chance(1, 3)) {
          auto k = s.below(j.a.g.size());
          j.points.push_back(bary(j.a.g.v(k, 0), j.a.g.v(k, 1), j.a.g.v(k, 2), int(s.below(3)), int(s.below(3)), 1 + int(s.below(3))));
        } else {
          auto co = [&](double lo, double hi) { return lo + (hi - lo) * double(s.below(9)) / 8; };
          j.points.emplace_back(co(bb.xmin(), bb.xmax()), co(bb.ymin(), bb.ymax()), co(bb.zmin(), bb.zmax()));
        }
      }
    }
  } else if (what == 1) {
    gen::M m = gen::solid(s, false);
    if (s.flip()) {
      gen::append(m, gen::translated(gen::solid(s, false), gen::small_offset(s), gen::small_offset(s), 0));
    }
    j.a = Operand{gen::relabelled(s, m)};
  } else {
    make_failing(s, j);
  }
  static const char* n[] = {"operation", "defects", "point location", "failing operation", "partial cut"};
  j.text = n[j.what];
  if (j.what == 0 || j.what >= 3) {
    j.text += std::string{" "} + name(j.op);
  }
  return j;
}

void set_cpus(pbt::Source& s, std::string& log) {
  cpu_set_t all, use;
  CPU_ZERO(&all);
  CPU_ZERO(&use);
  sched_getaffinity(0, sizeof all, &all);
  std::vector<int> cpus;
  for (int i = 0; i < CPU_SETSIZE; ++i) {
    if (CPU_ISSET(i, &all)) {
      cpus.push_back(i);
    }
  }
  auto n = s.weighted({4, 2, 1, 1, 1});
  if (n == 0 || cpus.size() < n) {
    return;
  }
  auto first = s.below(cpus.size());
  for (std::size_t i = 0; i < n; ++i) {
    CPU_SET(cpus[(first + i) % cpus.size()], &use);
  }
  sched_setaffinity(0, sizeof use, &use);
  log += " [" + std::to_string(n) + " CPUs]";
}

}  // namespace

static void history_case(pbt::Case& c, bool check) {
  auto& s = c.src;
  std::size_t nj = s.size(2, 4);
  std::vector<Job> jobs;
  std::vector<Answer> want;
  for (std::size_t i = 0; i < nj; ++i) {
    jobs.push_back(make_job(c, int(std::array<int, 4>{0, 1, 2, 3}[s.weighted({8, 2, 1, 4})])));
    c.describe("job " + std::to_string(i) + ": " + jobs.back().text + "\n" + describe_pair(jobs.back().a, jobs.back().b));
    c.label(jobs.back().text.substr(0, jobs.back().text.rfind(' ')));
  }
  for (const auto& j : jobs) {
    want.push_back(check ? fresh(j) : Answer{});
    if (j.what == 3 && check) {
      c.label("failing operation: " + (want.back().error.empty() ? std::string{"did not fail"} : want.back().error));
    }
  }

  std::string log;
  if (check) {
    set_cpus(s, log);
  }
  auto compare = [&](std::size_t i, const Answer& got) {
    if (!check || jobs[i].what == 3) {
      return;
    }
    if (jobs[i].what == 4) {
      if (want[i].error != got.error || want[i].warnings != got.warnings) {
        pbt::fail("warnings", "after" + log + ": job " + std::to_string(i) + " reports warnings " + std::to_string(got.warnings) + " '" +
                                  got.error + "', in a fresh process " + std::to_string(want[i].warnings) + " '" + want[i].error + "'");
      }
    } else if (auto d = difference(s, jobs[i], want[i], got); !d.empty()) {
      pbt::fail("depends-on-history", "after" + log + ": job " + std::to_string(i) + " differs from its answer in a fresh process: " + d);
    }
    c.evals(1);
  };

  std::size_t steps = s.size(2, 6);
  bool single = false, concurrent = false;
  for (std::size_t k = 0; k < steps; ++k) {
    auto limit = s.one_of<std::size_t>({8, 1, 2, 3, 1, 4, 1, 8});
    kigumi::Threading_options opt;
    opt.set_num_threads(limit);
    auto mode = s.weighted({5, 2, 3});
    if (mode != 2) {
      auto i = s.below(nj);
      log += " job " + std::to_string(i) + (mode ? " in a new thread" : "") + " with " + std::to_string(limit) + " threads;";
      single |= limit == 1;
      Answer got;
      auto depth = s.one_of<std::size_t>({0, 8, 64, 3, 200});
      auto go = [&] {
        kigumi::Threading_context ctx{opt};
        got = run_deeper(depth, jobs[i]);
      };
      if (mode) {
        std::thread{go}.join();
      } else {
        go();
      }
      compare(i, got);
    } else {
      // Several requests at the same time, some of them on the same region objects.
      concurrent = true;
      auto n = s.size(2, 4);
      std::vector<std::size_t> is;
      std::vector<std::unique_ptr<Region>> ra, rb;
      std::vector<std::size_t> limits;
      log += " together {";
      for (const auto& j : jobs) {
        ra.push_back(j.what != 1 ? std::make_unique<Region>(j.a.region()) : nullptr);
        rb.push_back(j.what != 1 ? std::make_unique<Region>(j.b.region()) : nullptr);
      }
      for (std::size_t t = 0; t < n; ++t) {
        is.push_back(s.below(nj));
        limits.push_back(s.one_of<std::size_t>({8, 1, 2, 3}));
        log += " job " + std::to_string(is[t]) + " with " + std::to_string(limits[t]) + " threads;";
      }
      log += " }";
      std::vector<Answer> got(n);
      std::vector<std::thread> ts;
      bool share = s.flip();
      for (std::size_t t = 0; t < n; ++t) {
        ts.emplace_back([&, t] {
          kigumi::Threading_options o;
          o.set_num_threads(limits[t]);
          kigumi::Threading_context ctx{o};
          const auto& j = jobs[is[t]];
          got[t] = run_job(j, share && j.what != 1 ? ra[is[t]].get() : nullptr, share && j.what != 1 ? rb[is[t]].get() : nullptr);
        });
      }
      for (auto& t : ts) {
        t.join();
      }
      for (std::size_t t = 0; t < n; ++t) {
        compare(is[t], got[t]);
      }
    }
  }
  c.describe("history:" + log + "\n");
  c.label(std::string{single ? "single-threaded step" : "no single-threaded step"} + (concurrent ? ", concurrent step" : ""));
  c.nontrivial = true;
}

#ifndef C09_TSAN
PBT_SUB(histories, 2400, 30000,
        "a process that runs 2-6 steps over 2-4 requests (operations on valid pairs, closed or clipped, with face data, partial cuts, operations that fail "
        "on self-intersecting operands, defect reports, point location), in the main thread, in new threads or several at once (also "
        "on the same region objects), with thread limits 1-8 and 1-8 CPUs: every answer must equal the one from a fresh process, as "
        "sets with data; every case is non-trivial") {
  history_case(c, true);
}
#else
PBT_SUB(races, 800, 12000,
        "the same histories under ThreadSanitizer: no report; every case is "
        "non-trivial") {
  history_case(c, false);
}
#endif

int main(int argc, char** argv) {
  pbt::Engine e;
  e.batch = 1;
  return e.main(argc, argv);
}
