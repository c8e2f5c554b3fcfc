// C24: scoped options nest, restore and stay within their thread.
#include <kigumi/Context.h>
#include <kigumi/parallel_do.h>
#include <kigumi/threading.h>

#include <memory>
#include <mutex>

#include "kig.h"
#include "text_common.h"

namespace {

// Options of a type of our own, with a value that does not fit in a register.
struct Named {
  std::string name = "default";
  std::vector<int> values{1, 2, 3};
};
using Named_context = kigumi::Context<Named>;
using Number_context = kigumi::Context<int>;  // the default is zero
using kigumi::Threading_context;
using kigumi::Threading_options;
using kigumi::io::Write_obj_context;
using kigumi::io::Write_obj_options;

std::size_t hardware() { return std::max(1U, std::thread::hardware_concurrency()); }

// What should be current in a thread.
struct Model {
  std::size_t threads = hardware();
  bool negative = false;
  std::string name = "default";
  std::vector<int> values{1, 2, 3};
  int number = 0;
};

enum Kind { OBSERVE, WRITE, SCOPE, TRY, THROW, THREAD, LOOP, HEAP };
struct Node {
  Kind kind{};
  int type{};              // of a scope
  std::size_t value{};
  std::vector<Node> children;
};

Node gen(pbt::Source& s, int depth, std::size_t& budget, bool in_try, int loops = 0) {
  Node n;
  std::size_t k = s.weighted({4, 2, 8, 2, 1, 2, 1, 2});
  n.kind = Kind(k);
  if (depth >= 7 || budget == 0) {
    n.kind = k % 2 == 0 ? OBSERVE : WRITE;
  }
  if (n.kind == LOOP && loops == 2) {
    n.kind = SCOPE;
  }
  if (n.kind == THROW && !in_try) {
    n.kind = OBSERVE;
  }
  if (budget > 0) {
    --budget;
  }
  if (n.kind == SCOPE || n.kind == HEAP) {
    n.type = int(s.below(4));
    n.value = n.type == 0 ? s.one_of<std::size_t>({1, 2, 3, 0, hardware() - 1, hardware(), hardware() + 1, 1000, SIZE_MAX, SIZE_MAX / 2 + 1,
                                                   std::size_t{1} << 32, (std::size_t{1} << 32) + 2})
                          : s.below(n.type == 1 ? 2 : 50);
  }
  if (n.kind == SCOPE || n.kind == HEAP || n.kind == TRY || n.kind == THREAD || n.kind == LOOP) {
    auto m = s.size(0, 4);
    for (std::size_t i = 0; i < m; ++i) {
      n.children.push_back(gen(s, depth + 1, budget, n.kind == TRY || (in_try && n.kind != THREAD && n.kind != LOOP), loops + (n.kind == LOOP)));
    }
  }
  return n;
}

void show(const Node& n, std::string& o) {
  static const char* const names[] = {"observe", "write", "scope", "try", "throw", "thread", "loop", "heap"};
  static const char* const types[] = {"threads", "negative", "named", "number"};
  o += names[n.kind];
  if (n.kind == SCOPE || n.kind == HEAP) {
    o += std::string{" "} + types[n.type] + "=" + std::to_string(n.value);
  }
  if (!n.children.empty()) {
    o += "{";
    for (const auto& c : n.children) {
      show(c, o);
    }
    o += "}";
  }
  o += "; ";
}

struct Thrown {};

struct Run {
  std::mutex m;
  std::exception_ptr failure;
  std::size_t observations = 0, max_depth = 0, unwound = 0, threads = 0;
  Soup soup;
  std::string positive, negative;

  void keep(std::exception_ptr e) {
    std::lock_guard l{m};
    if (!failure) {
      failure = e;
    }
  }

  void observe(const Model& md, const char* when) {
    {
      std::lock_guard l{m};
      ++observations;
    }
    auto check = [&](bool ok, const std::string& what) {
      if (!ok) {
        pbt::fail("current", what + " (" + when + ")");
      }
    };
    auto t = Threading_context::current().num_threads();
    check(t == md.threads, "the current thread limit is " + std::to_string(t) + " instead of " + std::to_string(md.threads));
    check(Write_obj_context::current().negative_indices() == md.negative,
          std::string{"negative_indices() is "} + (md.negative ? "false instead of true" : "true instead of false"));
    const auto& n = Named_context::current();
    check(n.name == md.name && n.values == md.values, "the current named options are \"" + n.name + "\" instead of \"" + md.name + "\"");
    auto x = Number_context::current();
    check(x == md.number, "the current number is " + std::to_string(x) + " instead of " + std::to_string(md.number));
  }

  void write(const Model& md) {
    std::ostringstream o;
    if (!kigumi::io::write_obj(o, soup)) {
      pbt::fail("write", "write_obj fails");
    }
    if (o.str() != (md.negative ? negative : positive)) {
      pbt::fail("write", std::string{"the OBJ writer does not follow the current option (negative indices: "} + (md.negative ? "on" : "off") +
                             "):\n" + o.str());
    }
  }

  void body(const Node& n, Model md, std::size_t depth) {
    // Threads started here are joined before the enclosing scope ends, in whatever way.
    struct Joiner {
      std::vector<std::thread> t;
      ~Joiner() {
        for (auto& x : t) {
          x.join();
        }
      }
    } joiner;
    {
      std::lock_guard l{m};
      max_depth = std::max(max_depth, depth);
    }
    for (const auto& c : n.children) {
      switch (c.kind) {
        case OBSERVE:
          observe(md, "in the middle");
          break;
        case WRITE:
          write(md);
          break;
        case THROW:
          throw Thrown{};
        case TRY:
          try {
            body(c, md, depth);
          } catch (const Thrown&) {
            std::lock_guard l{m};
            ++unwound;
          }
          observe(md, "after an exception or none");
          break;
        case THREAD:
          {
            std::lock_guard l{m};
            ++threads;
          }
          joiner.t.emplace_back([this, &c] {
            try {
              observe(Model{}, "at the start of a thread");
              body(c, Model{}, 0);
              observe(Model{}, "at the end of a thread");
            } catch (...) {
              keep(std::current_exception());
            }
          });
          break;
        case LOOP:
          loop(c);
          observe(md, "after a loop");
          break;
        case SCOPE:
        case HEAP:
          scope(c, md, depth);
          observe(md, "after a scope");
          break;
      }
    }
  }

  // Each item of a parallel loop opens and closes scopes in the thread it runs in.
  void loop(const Node& c) {
    std::vector<int> items(7);
    std::mutex mm;
    std::exception_ptr e;
    kigumi::parallel_do(items.begin(), items.end(), [&](int) {
      try {
        Model md;
        md.threads = Threading_context::current().num_threads();
        md.negative = Write_obj_context::current().negative_indices();
        md.name = Named_context::current().name;
        md.values = Named_context::current().values;
        md.number = Number_context::current();
        body(c, md, 0);
        observe(md, "at the end of an item of a loop");
      } catch (...) {
        std::lock_guard l{mm};
        e = std::current_exception();
      }
    });
    if (e) {
      std::rethrow_exception(e);
    }
  }

  template <class C, class O>
  void open(const Node& c, const Model& md, std::size_t depth, const O& o) {
    if (c.kind == HEAP) {
      auto p = std::make_unique<C>(o);
      observe(md, "after a scope on the heap began");
      body(c, md, depth + 1);
    } else {
      C x{o};
      observe(md, "after a scope began");
      body(c, md, depth + 1);
    }
  }

  void scope(const Node& c, Model md, std::size_t depth) {
    switch (c.type) {
      case 0: {
        Threading_options o;
        o.set_num_threads(c.value);
        md.threads = c.value < 1 ? 1 : c.value > hardware() ? hardware() : c.value;
        if (o.num_threads() != md.threads) {
          pbt::fail("clamp", "set_num_threads(" + std::to_string(c.value) + ") sets " + std::to_string(o.num_threads()) + " of " +
                                 std::to_string(hardware()) + " hardware threads");
        }
        open<Threading_context>(c, md, depth, o);
        break;
      }
      case 1: {
        Write_obj_options o;
        o.set_negative_indices(c.value != 0);
        md.negative = c.value != 0;
        open<Write_obj_context>(c, md, depth, o);
        break;
      }
      case 2: {
        Named o;
        o.name = std::string(c.value, 'x');
        o.values.assign(c.value, int(c.value));
        md.name = o.name;
        md.values = o.values;
        open<Named_context>(c, md, depth, o);
        break;
      }
      default:
        md.number = int(c.value);
        open<Number_context>(c, md, depth, int(c.value));
        break;
    }
  }
};

#ifdef C24_TSAN
constexpr std::uint64_t kN = 1500, kT = 15000;
#else
constexpr std::uint64_t kN = 20000, kT = 200000;
#endif

}  // namespace

PBT_SUB(scopes, kN, kT,
        "well-nested trees of scopes of four option types (on the stack and on the heap), exceptions caught at any level, threads "
        "and parallel loops that open scopes of their own at the same time, the current options observed after every step and "
        "through the OBJ writer; non-trivial: scopes at least two deep and an exception, a thread or a loop") {
  auto& s = c.src;
  Node root{TRY, 0, 0, {}};
  std::size_t budget = s.size(3, 40);
  while (budget > 0) {
    root.children.push_back(gen(s, 0, budget, true));
  }
  std::string d;
  show(root, d);
  c.describe(d);
  Run r;
  auto nv = s.size(3, 6);
  std::string vs;
  for (std::size_t i = 0; i < nv; ++i) {
    auto x = s.around(9);
    r.soup.add_vertex({double(x), double(i), 0.0});
    vs += "v " + std::to_string(x) + " " + std::to_string(i) + " 0\n";
  }
  r.positive = r.negative = vs;
  auto nf = s.size(1, 4);
  for (std::size_t i = 0; i < nf; ++i) {
    std::size_t f[3] = {s.below(nv), s.below(nv), s.below(nv)};
    r.soup.add_face({kigumi::Vertex_index{f[0]}, kigumi::Vertex_index{f[1]}, kigumi::Vertex_index{f[2]}});
    r.positive += "f";
    r.negative += "f";
    for (auto x : f) {
      r.positive += " " + std::to_string(x + 1);
      r.negative += " " + std::to_string(std::int64_t(x) - std::int64_t(nv));
    }
    r.positive += "\n";
    r.negative += "\n";
  }
  r.observe(Model{}, "at the start");
  try {
    r.body(root, Model{}, 0);
  } catch (const Thrown&) {
    ++r.unwound;
  }
  r.observe(Model{}, "at the end");
  if (r.failure) {
    std::rethrow_exception(r.failure);
  }
  c.evals(r.observations);
  c.label("depth>=3", r.max_depth >= 3);
  c.label("exceptions", r.unwound);
  c.label("threads", r.threads);
  c.nontrivial = r.max_depth >= 2 && (r.unwound > 0 || r.threads > 0);
}

int main(int argc, char** argv) { return pbt::Engine{}.main(argc, argv); }
