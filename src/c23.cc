// C23: parallel loops and sorts do each item once, in bounds, and report failures.
#include <kigumi/parallel_do.h>
#include <kigumi/parallel_sort.h>
#include <kigumi/threading.h>

#include <condition_variable>
#include <mutex>

#include "engine.h"

namespace {

void set_threads(std::size_t n, kigumi::Threading_options& o) { o.set_num_threads(n); }

// What a body throws: an item's exception is of one of these types.
struct Item_error {
  int id;
};
struct Item_exception : std::runtime_error {
  explicit Item_exception(int id) : std::runtime_error{"item " + std::to_string(id)}, id{id} {}
  int id;
};
struct Item_range : std::out_of_range {
  explicit Item_range(int id) : std::out_of_range{"item " + std::to_string(id)}, id{id} {}
  int id;
};
[[noreturn]] void throw_item(int type, int id) {
  switch (type % 4) {
    case 0:
      throw Item_error{id};
    case 1:
      throw Item_exception{id};
    case 2:
      throw Item_range{id};
    default:
      throw id;
  }
}

// Counts the threads that have called in, and how many are inside at a time.
class Meter {
 public:
  void enter() {
    std::lock_guard l{m_};
    ids_.insert(std::this_thread::get_id());
    most_ = std::max(most_, ++inside_);
  }
  void leave() {
    std::lock_guard l{m_};
    --inside_;
  }
  std::size_t threads() const { return ids_.size(); }
  int inside() {
    std::lock_guard l{m_};
    return inside_;
  }
  int most() const { return most_; }

 private:
  std::mutex m_;
  std::set<std::thread::id> ids_;
  int inside_{}, most_{};
};

struct Scope {
  explicit Scope(Meter& m) : m_{m} { m_.enter(); }
  ~Scope() { m_.leave(); }
  Meter& m_;
};

void work(pbt::Source& s, int style, std::size_t i, std::uint64_t seed) {
  (void)s;
  std::uint64_t x = seed + i * 7919;
  auto r = pbt::splitmix(x);
  switch (style) {
    case 1:
      std::this_thread::yield();
      break;
    case 2:
      for (volatile int k = 0; k < int(r % 3000); k = k + 1) {
      }
      break;
    case 3:
      if (r % 16 == 0) {
        std::this_thread::sleep_for(std::chrono::microseconds(r % 200));
      }
      break;
    default:
      break;
  }
}

#ifdef C23_TSAN
constexpr std::uint64_t kDo = 1500, kDoT = 15000, kSort = 500, kSortT = 6000;
#else
constexpr std::uint64_t kDo = 20000, kDoT = 200000, kSort = 6000, kSortT = 60000;
#endif

}  // namespace

PBT_SUB(loops, kDo, kDoT,
        "parallel loops with and without state over 0 to 70000 items (vectors, arrays and pointers), thread limits from 1 to beyond the "
        "hardware's, bodies that do nothing, yield, spin or sleep, zero to many of them (or the merging step) throwing, possibly nested in "
        "a loop or started from several threads at once; non-trivial: more than one item and thread") {
  auto& s = c.src;
  std::size_t n = s.weighted({4, 3, 2}) == 0 ? s.size(0, 12) : s.size(0, 300);
  bool large = false;
  if (s.chance(1, 20)) {
    n = s.size(1000, 3000);
  } else if (s.chance(1, 40)) {
    large = true;
    n = s.flip() ? (std::size_t{1} << s.range(10, 16)) + s.size(0, 4) - 2 : s.size(3000, 70000);
  }
  auto limit = s.one_of<std::size_t>({1, 2, 3, 4, 7, 8, 16, 1000});
  auto hw = std::size_t{std::max(1U, std::thread::hardware_concurrency())};
  auto bound = std::min(std::max<std::size_t>(limit, 1), hw);
  bool state = s.flip();
  int style = int(s.below(4));
  if (large) {
    style = 0;
  }
  std::uint64_t seed = s.below(1 << 20);
  std::set<std::size_t> bad;
  auto kind = s.weighted({4, 2, 1, 1});
  if (large && kind >= 2) {
    kind = 0;
  }
  if (n > 0 && kind == 1) {
    bad.insert(s.below(n));
  } else if (n > 0 && kind == 2) {
    for (std::size_t i = 0; i < n; ++i) {
      if (s.chance(1, 3)) {
        bad.insert(i);
      }
    }
  } else if (n > 0 && kind == 3) {
    for (std::size_t i = 0; i < n; ++i) {
      bad.insert(i);
    }
  }
  bool post_throws = state && bad.empty() && n > 0 && s.chance(1, 6);
  int callers = s.chance(1, 6) ? int(s.range(2, 3)) : 1;
  c.describe(std::to_string(n) + " items, limit " + std::to_string(limit) + (state ? ", with state" : ", without state") + ", style " +
             std::to_string(style) + ", " + std::to_string(bad.size()) + " throwing" + (post_throws ? ", merging throws" : "") + ", " +
             std::to_string(callers) + " callers\n");
  c.label(std::string{state ? "with state" : "without state"} + (bad.empty() ? post_throws ? ", merging throws" : "" : ", throwing"));

  std::string failure;
  std::mutex failure_mutex;
  auto report = [&](const std::string& w) {
    std::lock_guard l{failure_mutex};
    if (failure.empty()) {
      failure = w;
    }
  };
  auto run = [&] {
    kigumi::Threading_options o;
    set_threads(limit, o);
    kigumi::Threading_context ctx{o};
    std::vector<std::size_t> items(n);
    std::vector<std::atomic<int>> calls(n), finished(n);
    for (std::size_t i = 0; i < n; ++i) {
      items[i] = i;
    }
    Meter meter;
    auto body = [&](std::size_t i) {
      Scope sc{meter};
      ++calls.at(i);
      work(s, style, i, seed);
      if (bad.count(i) != 0) {
        throw_item(int(i + seed), int(i));
      }
      ++finished.at(i);
    };
    struct State {
      std::vector<std::size_t> seen;
      int tag{7};
    };
    std::vector<std::size_t> merged;
    std::vector<std::thread::id> mergers;
    int in_post = 0;
    bool thrown = false;
    int what = -1, type = -1;
    try {
      if (state) {
        auto b = [&](std::size_t i, State& st) {
          if (st.tag != 7) {
            report("a worker's state is not a copy of the initial one");
          }
          st.seen.push_back(i);
          body(i);
        };
        auto post = [&](State& st) {
          if (++in_post != 1) {
            report("two workers are merged at the same time");
          }
          mergers.push_back(std::this_thread::get_id());
          merged.insert(merged.end(), st.seen.begin(), st.seen.end());
          work(s, style, 1, seed);
          --in_post;
          if (post_throws) {
            throw_item(int(seed), -5);
          }
        };
        kigumi::parallel_do(items.begin(), items.end(), State{}, b, post);
      } else {
        kigumi::parallel_do(items.data(), items.data() + n, body);
      }
    } catch (const Item_error& e) {
      thrown = true;
      what = e.id;
      type = 0;
    } catch (const Item_exception& e) {
      thrown = true;
      what = e.id;
      type = typeid(e) == typeid(Item_exception) && e.what() == "item " + std::to_string(what) ? 1 : -1;
    } catch (const Item_range& e) {
      thrown = true;
      what = e.id;
      type = typeid(e) == typeid(Item_range) && e.what() == "item " + std::to_string(what) ? 2 : -1;
    } catch (int e) {
      thrown = true;
      what = e;
      type = 3;
    } catch (...) {
      report("another exception than the body's arrives");
      return;
    }
    if (meter.inside() != 0) {
      report("the loop ends while its body is still running");
    }
    if (meter.threads() > bound) {
      report(std::to_string(meter.threads()) + " threads are used, the limit is " + std::to_string(bound));
    }
    for (std::size_t i = 0; i < n; ++i) {
      if (calls[i] > 1) {
        report("item " + std::to_string(i) + " is done " + std::to_string(int(calls[i])) + " times");
      }
    }
    if (bad.empty() && !post_throws) {
      if (thrown) {
        report("an exception arrives that was not thrown");
      }
      for (std::size_t i = 0; i < n; ++i) {
        if (calls[i] != 1) {
          report("item " + std::to_string(i) + " is not done");
        }
      }
      if (state) {
        std::sort(merged.begin(), merged.end());
        if (merged != items) {
          report("the merged states hold " + std::to_string(merged.size()) + " items of " + std::to_string(n));
        }
        auto k = mergers.size();
        std::sort(mergers.begin(), mergers.end());
        if (std::unique(mergers.begin(), mergers.end()) != mergers.end()) {
          report("a worker's state is merged twice");
        }
        if (k > bound) {
          report(std::to_string(k) + " states are merged, the thread limit is " + std::to_string(bound));
        }
      }
    } else {
      if (!thrown) {
        report("no exception arrives");
      } else if (post_throws ? what != -5 : (what < 0 || bad.count(std::size_t(what)) == 0 || calls[std::size_t(what)] != 1)) {
        report("an exception arrives that was not thrown");
      } else if (type != int(((post_throws ? 0 : std::size_t(what)) + seed) % 4)) {
        report("the exception that arrives is not of the type or content that was thrown");
      }
      if (state) {
        std::sort(merged.begin(), merged.end());
        if (std::adjacent_find(merged.begin(), merged.end()) != merged.end()) {
          report("an item is merged twice");
        }
      }
    }
  };
  if (callers == 1) {
    run();
  } else {
    std::vector<std::thread> t;
    for (int i = 0; i < callers; ++i) {
      t.emplace_back(run);
    }
    for (auto& x : t) {
      x.join();
    }
  }
  if (!failure.empty()) {
    pbt::fail("loop", failure);
  }
  c.nontrivial = n > 1 && bound > 1;
  c.evals(n * std::size_t(callers));
}

namespace {

struct Rec {
  int key{};
  int id{};
  friend bool operator<(const Rec& a, const Rec& b) { return a.key < b.key; }
};

}  // namespace

PBT_SUB(sorts, kSort, kSortT,
        "parallel sorts of 0 to 20000, sometimes 200000, elements (around multiples of the chunk size; random, sorted, reversed, all equal, few keys, "
        "organ pipes) with thread limits from 1 to beyond the hardware's and three orders, within a larger array that must stay "
        "untouched around the range; non-trivial: more than 1024 elements and one thread") {
  auto& s = c.src;
  std::size_t n{};
  switch (s.weighted({3, 4, 3})) {
    case 0:
      n = s.size(0, 40);
      break;
    case 1: {
      auto k = s.size(1, 10);
      n = 1024 * k + s.size(0, 4) - 2;
      break;
    }
    default:
      n = s.chance(1, 60) ? s.size(20000, 200000) : s.size(0, 20000);
  }
  auto limit = s.one_of<std::size_t>({1, 2, 3, 4, 5, 6, 7, 8, 1000});
  auto shape = s.below(6);
  std::uint64_t x = s.below(1 << 20);
  std::vector<Rec> v(n + 2);
  auto few = s.one_of<int>({2, 5, 100});
  for (std::size_t i = 0; i < n; ++i) {
    auto r = pbt::splitmix(x);
    int k{};
    switch (shape) {
      case 0:
        k = int(r % 1000000);
        break;
      case 1:
        k = int(i);
        break;
      case 2:
        k = int(n - i);
        break;
      case 3:
        k = 3;
        break;
      case 4:
        k = int(r % std::uint64_t(few));
        break;
      default:
        k = int(std::min(i, n - i));
    }
    v[i + 1] = {k, int(i)};
  }
  v.front() = {1 << 30, -1};
  v.back() = {-1, -2};
  auto order = s.below(3);
  c.describe(std::to_string(n) + " elements, shape " + std::to_string(shape) + ", limit " + std::to_string(limit) + ", order " +
             std::to_string(order) + "\n");
  c.label("shape " + std::to_string(shape));
  kigumi::Threading_options o;
  o.set_num_threads(limit);
  kigumi::Threading_context ctx{o};
  Meter meter;
  auto comp = [&](const Rec& a, const Rec& b) {
    bool r = order == 1 ? b < a : std::pair{a.key, a.id} < std::pair{b.key, b.id};
    return r;
  };
  auto want = v;
  auto bound = std::min(o.num_threads(), std::size_t{std::max(1U, std::thread::hardware_concurrency())});
  bool measured = order == 2;
  if (order == 0) {
    kigumi::parallel_sort(v.begin() + 1, v.end() - 1);
  } else if (measured) {
    std::mutex m;
    std::set<std::thread::id> ids;
    kigumi::parallel_sort(v.begin() + 1, v.end() - 1, [&](const Rec& a, const Rec& b) {
      thread_local int last = -1;
      if (last != int(getpid())) {
        last = int(getpid());
        std::lock_guard l{m};
        ids.insert(std::this_thread::get_id());
      }
      return comp(a, b);
    });
    if (ids.size() > bound) {
      pbt::fail("threads", std::to_string(ids.size()) + " threads are used, the limit is " + std::to_string(bound));
    }
  } else {
    kigumi::parallel_sort(v.data() + 1, v.data() + 1 + n, comp);
  }
  if (v.front().id != -1 || v.back().id != -2) {
    pbt::fail("bounds", "an element outside the range was touched");
  }
  std::vector<bool> seen(n);
  for (std::size_t i = 1; i <= n; ++i) {
    if (i > 1 && (order == 0 ? v[i] < v[i - 1] : comp(v[i], v[i - 1]))) {
      pbt::fail("order", "elements " + std::to_string(i - 2) + " and " + std::to_string(i - 1) + " of " + std::to_string(n) + " are out of order");
    }
    auto id = v[i].id;
    if (id < 0 || std::size_t(id) >= n || seen[std::size_t(id)] || want[std::size_t(id) + 1].key != v[i].key) {
      pbt::fail("permutation", "the result is not a permutation of the input");
    }
    seen[std::size_t(id)] = true;
  }
  c.nontrivial = n > 1024 && bound > 1;
  c.evals(n);
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
