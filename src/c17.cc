// C17: a write that does not reach its destination is never reported as success.
#include <sys/stat.h>

#include "region_gen.h"
#include "text_common.h"

namespace {

enum { KIGUMI = 3 };
const char* ext(int f) { return f == KIGUMI ? "kigumi" : txt::name(txt::Format(f)); }

bool write(int f, std::ostream& o, const Region& r) {
  return f == KIGUMI ? kigumi::write_kigumi_region(o, r) : txt::write(txt::Format(f), o, r.boundary());
}
bool write(int f, const std::string& file, const Region& r) {
  return f == KIGUMI ? kigumi::write_kigumi_region(file, r) : kigumi::write_triangle_soup(file, r.boundary());
}

// A destination that takes `limit` bytes, through a buffer of `size` bytes (0: none).
struct Sink : std::streambuf {
  std::string got;
  std::vector<char> buf;
  std::size_t limit;
  bool throws, sync_fails, failed{};
  Sink(std::size_t limit, std::size_t size, bool throws, bool sync_fails) : buf(size), limit{limit}, throws{throws}, sync_fails{sync_fails} {
    if (size != 0) {
      setp(buf.data(), buf.data() + size);
    }
  }
  bool take(const char* p, std::size_t n) {
    auto k = std::min(n, limit - got.size());
    got.append(p, k);
    if (k < n) {
      failed = true;
      if (throws) {
        throw std::runtime_error("device error");
      }
    }
    return k == n;
  }
  bool drain() {
    auto n = std::size_t(pptr() - pbase());
    bool ok = take(pbase(), n);
    setp(buf.data(), buf.data() + buf.size());
    return ok;
  }
  int_type overflow(int_type c) override {
    if (!buf.empty() && !drain()) {
      return traits_type::eof();
    }
    if (traits_type::eq_int_type(c, traits_type::eof())) {
      return traits_type::not_eof(c);
    }
    char x = traits_type::to_char_type(c);
    if (buf.empty()) {
      return take(&x, 1) ? c : traits_type::eof();
    }
    *pptr() = x;
    pbump(1);
    return c;
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    if (!buf.empty()) {
      return std::streambuf::xsputn(p, n);
    }
    auto before = got.size();
    take(p, std::size_t(n));
    return std::streamsize(got.size() - before);
  }
  int sync() override {
    if (!buf.empty() && !drain()) {
      return -1;
    }
    if (sync_fails) {
      failed = true;
      return -1;
    }
    return 0;
  }
};

struct Input {
  int f;
  Region r;
  std::string want;
};

Input input(pbt::Case& c) {
  auto& s = c.src;
  Input in;
  in.f = int(s.below(4));
  if (in.f == KIGUMI) {
    in.r = rg::any_region<FD>(s, s.chance(1, 4) ? 12 : 4).region;
  }
  if (in.f != KIGUMI || s.chance(1, 6)) {
    auto p = txt::poly(s, 6, 6);
    if (s.chance(1, 3)) {  // beyond the buffers of file streams
      auto n = s.one_of<std::size_t>({300, 600, 3000});
      for (std::size_t i = 0; i < n; ++i) {
        p.v.push_back({double(i), 0.5, 1e10 / double(i + 1)});
      }
    }
    p.f.push_back({0, 0, 0});
    in.r = Region{txt::soup_of(p)};
  }
  std::ostringstream o;
  if (!write(in.f, o, in.r)) {
    pbt::fail("write-failed", "writing to a string stream reported failure");
  }
  in.want = o.str();
  return in;
}

}  // namespace

PBT_SUB(streams, 40000, 1200000,
        "a mesh or region written to a stream whose destination fails after any number of bytes (also when flushing, with and without a "
        "buffer, by error code or exception): failure must be reported; success only if the destination has every byte; non-trivial: it fails "
        "before the end") {
  auto& s = c.src;
  auto in = input(c);
  auto L = in.want.size();
  auto k = s.weighted({4, 3, 2, 1});
  // 3: everything is taken.
  auto limit = k == 0 ? s.below(L) : k == 1 ? L - 1 - s.below(std::min<std::size_t>(L, 20)) : SIZE_MAX / 2;
  Sink sink{limit, s.one_of<std::size_t>({0, 1, 16, 100, 4096, 1 << 20}), s.chance(1, 3), k == 2};
  std::ostream o{&sink};
  if (s.chance(1, 10)) {
    o.exceptions(std::ios::badbit | std::ios::failbit);
  }
  bool broken = s.chance(1, 20);
  if (broken) {
    o.exceptions(std::ios::goodbit);
    o.setstate(s.one_of({std::ios::badbit, std::ios::failbit}));
  }
  c.describe(std::string{ext(in.f)} + ", " + std::to_string(L) + " bytes, the destination takes " + (limit < L ? std::to_string(limit) : "all") +
             (k == 2 ? ", flushing fails" : "") + ", buffer " + std::to_string(sink.buf.size()) + (broken ? ", the stream has failed before" : "") + "\n");
  bool ok{};
  try {
    ok = write(in.f, o, in.r);
  } catch (const std::exception&) {
    ok = false;
  }
  bool complete = sink.got == in.want;
  if (ok && (!complete || sink.failed || broken)) {
    pbt::fail("lost", "writing reports success though " + (complete ? std::string{"the stream failed"} : "only " + std::to_string(sink.got.size()) +
                          " of " + std::to_string(L) + " bytes are in the destination"));
  }
  if (!ok && k == 3 && !broken) {
    pbt::fail("reported", "writing reports failure though nothing failed");
  }
  c.nontrivial = k < 3;
  c.label(ext(in.f));
}

PBT_SUB(files, 16000, 400000,
        "a mesh or region written to a file on a full device, under a file size limit at any byte, into a missing directory, over a "
        "directory, or normally over a longer file: success exactly if the file then holds every byte; non-trivial: a write fails") {
  auto& s = c.src;
  auto in = input(c);
  auto L = in.want.size();
  auto base = std::string{std::getenv("KIGUMI_TMP") ? std::getenv("KIGUMI_TMP") : "/tmp"} + "/w." + ext(in.f);
  auto file = base;
  auto k = s.below(5);
  rlimit old{};
  getrlimit(RLIMIT_FSIZE, &old);
  signal(SIGXFSZ, SIG_IGN);
  std::size_t limit = SIZE_MAX;
  bool fails = true;
  if (k == 0) {
    if (symlink("/dev/full", file.c_str()) != 0) {
      throw pbt::Discard{};
    }
  } else if (k == 1) {
    limit = s.flip() ? s.below(L) : L - 1 - s.below(std::min<std::size_t>(L, 20));
  } else if (k == 2) {
    file = s.flip() ? base + ".d/w." + ext(in.f) : base;
    if (file == base) {
      mkdir(file.c_str(), 0700);
    }
  } else {
    fails = false;
    if (s.flip()) {
      std::ofstream{file} << std::string(L + s.below(50000), 'x');
    }
    if (k == 4) {
      limit = L + s.below(3);
    }
  }
  c.describe(std::string{ext(in.f)} + ", " + std::to_string(L) + " bytes, " +
             (k == 0 ? "full device" : k == 1 ? "size limit " + std::to_string(limit) : k == 2 ? "cannot be opened" : "nothing fails") + "\n");
  if (limit != SIZE_MAX) {
    rlimit l{limit, old.rlim_max};
    setrlimit(RLIMIT_FSIZE, &l);
  }
  bool ok{};
  try {
    ok = write(in.f, file, in.r);
  } catch (const std::exception&) {
    ok = false;
  }
  setrlimit(RLIMIT_FSIZE, &old);
  std::string got;
  if (k == 2) {
    rmdir(base.c_str());
  } else {
    got = k == 0 ? "" : txt::slurp(file);
    unlink(file.c_str());
  }
  if (ok && (fails || got != in.want)) {
    pbt::fail("lost", "writing reports success though " + (fails ? std::string{"it failed"} : std::string{"the contents differ"}) + ": " +
                          std::to_string(got.size()) + " of " + std::to_string(L) + " bytes are in the file");
  }
  if (!ok && !fails) {
    pbt::fail("reported", "writing reports failure though nothing failed");
  }
  c.nontrivial = fails;
  c.label(k == 0 ? "full device" : k == 1 ? "size limit" : k == 2 ? "cannot be opened" : "nothing fails");
}

PBT_SUB(names, 300, 3000, "names with other extensions: reported as failure and no file is left; all are non-trivial") {
  auto& s = c.src;
  auto dir = std::string{std::getenv("KIGUMI_TMP") ? std::getenv("KIGUMI_TMP") : "/tmp"} + "/names";
  auto file = dir + "/a" + s.one_of<const char*>({"", ".", ".obj_", ".objx", ".stl", ".kigumi", ".offs", "obj", ".OBJ_", "_ply"});
  c.describe(file + "\n");
  mkdir(dir.c_str(), 0700);
  auto m = txt::soup_of(txt::poly(s, 3, 3));
  bool ok = kigumi::write_triangle_soup(file, m);
  bool left = unlink(file.c_str()) == 0;
  rmdir(dir.c_str());
  if (ok) {
    pbt::fail("lost", "writing " + file + " reports success");
  }
  (void)left;
  c.nontrivial = true;
}

int main(int argc, char** argv) {
  pbt::Engine e;
  e.batch = 300;
  return e.main(argc, argv);
}
