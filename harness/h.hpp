// Replay / bounded harness support: sections run in forked children (a crash, sanitizer report, assertion or hang is a failure of the
// input that was being tried, not of the harness).
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace vh {
using u32 = std::uint32_t;
using u64 = std::uint64_t;

inline u64         g_seed = 1;
inline std::string g_tier = "quick";
inline std::string g_scratch = ".";
struct Shared {
  char   cur[1 << 15];
  size_t cases;
};
inline Shared* g_sh = nullptr;
inline const char* g_section = "";
inline std::map<std::string, int> g_failcount;
inline bool deep() { return g_tier != "quick"; }

inline std::string esc(const std::string& s) {
  std::string r;
  for (char c : s)
    if (c == '\n') r += "\\n";
    else if (c >= 32 || c == '\t') r += c;
    else r += '?';
  return r;
}

template <class T> std::string show(const T& v);
template <class A, class B> std::string show(const std::pair<A, B>& p) { return "(" + show(p.first) + "," + show(p.second) + ")"; }
template <class... T> std::string show(const std::tuple<T...>& t) {
  std::string r = "(";
  std::apply([&](auto&... x) { ((r += show(x) + ","), ...); }, t);
  return r + ")";
}
template <class T> std::string show(const T& v) {
  if constexpr (std::is_same_v<T, std::string>) return v;
  else if constexpr (std::is_convertible_v<T, const char*>) return std::string(v);
  else if constexpr (requires { v.begin(); v.end(); }) {
    std::string r = "[";
    bool        f = true;
    for (auto&& x : v) {
      if (!f) r += " ";
      f = false;
      r += show(x);
      if (r.size() > 3000) return r + "...";
    }
    return r + "]";
  } else {
    std::ostringstream o;
    o << v;
    return o.str();
  }
}

// describe the input about to be tried
inline void note(const std::string& s) {
  ++g_sh->cases;
  size_t k = std::min(s.size(), sizeof(g_sh->cur) - 1);
  std::memcpy(g_sh->cur, s.data(), k);
  g_sh->cur[k] = 0;
  alarm(deep() ? 60 : 30);
  if (g_sh->cases % 997 == 5) {
    std::printf("SAMPLE %s: %s\n", g_section, esc(s).substr(0, 240).c_str());
    std::fflush(stdout);
  }
}

inline void fail(const std::string& what, const std::string& detail) {
  std::string key = std::string(g_section) + ":" + what;
  if (++g_failcount[key] > 2) return;
  std::printf("FAIL %s | %s\n", key.c_str(), esc("input: " + std::string(g_sh->cur) + "\nobserved: " + detail).c_str());
  std::fflush(stdout);
}

template <class A, class B> bool expect_eq(const std::string& what, const A& got, const B& want) {
  if (got == want) return true;
  fail(what, "got " + show(got) + " want " + show(want));
  return false;
}
inline bool expect(const std::string& what, bool c, const std::string& detail = "") {
  if (!c) fail(what, detail);
  return c;
}

struct Rng {
  u64 s;
  explicit Rng(u64 x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  u64 next() {
    s += 0x9E3779B97F4A7C15ull;
    u64 z = s;
    z     = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z     = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 operator()(u64 k) { return k ? next() % k : 0; }
  u64 range(u64 a, u64 b) { return a + (*this)(b - a + 1); }
};

struct Sec {
  const char* name;
  void (*fn)();
};
inline std::vector<Sec>& secs() {
  static std::vector<Sec> v;
  return v;
}
struct Reg {
  Reg(const char* n, void (*f)()) { secs().push_back({n, f}); }
};
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define SECTION_(fn, name)                    \
  static void fn();                           \
  static ::vh::Reg VH_CAT(fn, _reg)(name, fn); \
  static void fn()
#define SECTION(name) SECTION_(VH_CAT(vh_sec_, __LINE__), name)

// ------------------------------------------------------------------ graphs
struct G {
  size_t                           n = 0;
  std::vector<std::pair<u32, u32>> e;
};
inline std::string show_g(const G& g) {
  std::string r = "n=" + std::to_string(g.n) + " edges:";
  for (auto& [a, b] : g.e) r += " " + std::to_string(a) + "-" + std::to_string(b);
  return r;
}
inline G dir_from_mask(size_t n, u64 mask, bool loops) {
  G g;
  g.n   = n;
  int k = 0;
  for (u32 i = 0; i < n; ++i)
    for (u32 j = 0; j < n; ++j) {
      if (!loops && i == j) continue;
      if (mask >> k & 1) g.e.push_back({i, j});
      ++k;
    }
  return g;
}
inline G und_from_mask(size_t n, u64 mask) {      // each undirected edge once, i<j
  G   g;
  int k = 0;
  g.n   = n;
  for (u32 i = 0; i < n; ++i)
    for (u32 j = i + 1; j < n; ++j) {
      if (mask >> k & 1) g.e.push_back({i, j});
      ++k;
    }
  return g;
}
inline G random_und(Rng& r, size_t n, size_t m) {
  G                            g;
  std::set<std::pair<u32, u32>> s;
  g.n = n;
  if (n < 2) return g;
  for (size_t k = 0; k < m; ++k) {
    u32 a = r(n), b = r(n);
    if (a == b) continue;
    if (a > b) std::swap(a, b);
    s.insert({a, b});
  }
  g.e.assign(s.begin(), s.end());
  return g;
}
inline G random_dir(Rng& r, size_t n, size_t m, bool multi = true) {
  G g;
  g.n = n;
  if (!n) return g;
  std::set<std::pair<u32, u32>> s;
  for (size_t k = 0; k < m; ++k) {
    std::pair<u32, u32> p{u32(r(n)), u32(r(n))};
    if (multi || s.insert(p).second) g.e.push_back(p);
  }
  return g;
}
inline G symmetrize(const G& g) {
  G h;
  h.n = g.n;
  for (auto& [a, b] : g.e) {
    h.e.push_back({a, b});
    if (a != b) h.e.push_back({b, a});
  }
  return h;
}
// CSR arrays with sorted rows
inline void csr(const G& g, std::vector<u32>& ind, std::vector<u32>& tgt, bool sort_rows = true) {
  ind.assign(g.n + 1, 0);
  tgt.assign(g.e.size(), 0);
  std::vector<std::vector<u32>> rows(g.n);
  for (auto& [a, b] : g.e) rows[a].push_back(b);
  size_t k = 0;
  for (size_t i = 0; i < g.n; ++i) {
    if (sort_rows) std::sort(rows[i].begin(), rows[i].end());
    ind[i] = u32(k);
    for (u32 x : rows[i]) tgt[k++] = x;
  }
  ind[g.n] = u32(k);
}
// call f on: all undirected graphs on <=nmax vertices, then cnt random ones up to rn vertices
template <class F> void each_und(size_t nmax, size_t cnt, size_t rn, F f) {
  for (size_t n = 0; n <= nmax; ++n)
    for (u64 m = 0; m < (1ull << (n * (n ? n - 1 : 0) / 2)); ++m) f(und_from_mask(n, m));
  Rng r(g_seed * 77 + 5);
  if (deep()) cnt *= 6;
  for (size_t k = 0; k < cnt; ++k) {
    size_t n = r.range(1, rn), d = r(4);
    f(random_und(r, n, d == 0 ? n / 2 : d == 1 ? n : d == 2 ? 2 * n : n * n / 3));
  }
}
template <class F> void each_dir(size_t nmax, size_t cnt, size_t rn, F f, bool multi = true) {
  for (size_t n = 0; n <= nmax; ++n)
    for (u64 m = 0; m < (1ull << (n * n)); ++m) f(dir_from_mask(n, m, true));
  Rng r(g_seed * 79 + 7);
  if (deep()) cnt *= 6;
  for (size_t k = 0; k < cnt; ++k) {
    size_t n = r.range(1, rn), d = r(4);
    f(random_dir(r, n, d == 0 ? n / 2 : d == 1 ? n : d == 2 ? 3 * n : n * n / 2, multi));
  }
}
}    // namespace vh

namespace vh {
inline int run_all(int argc, char** argv) {
  if (argc > 1) g_seed = std::strtoull(argv[1], 0, 10);
  if (argc > 2) g_tier = argv[2];
  if (argc > 3) g_scratch = argv[3];
  const char* only = argc > 4 ? argv[4] : nullptr;
  struct Run {
    pid_t       pid;
    const Sec*  s;
    Shared*     sh;
    std::string err;
  };
  std::vector<Run> live;
  bool             bad = false;
  auto             reap = [&]() {
    int   st;
    pid_t p = wait(&st);
    for (size_t i = 0; i < live.size(); ++i)
      if (live[i].pid == p) {
        Run& r = live[i];
        if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0))) {
          bad            = true;
          std::string ek = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : "crash") : WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 98 ? "sanitizer" : "crash";
          std::string log;
          if (FILE* f = std::fopen(r.err.c_str(), "r")) {
            char   buf[1500];
            size_t k = std::fread(buf, 1, sizeof buf - 1, f);
            buf[k]   = 0;
            log      = buf;
            std::fclose(f);
          }
          std::printf("FAIL %s:%s | %s\n", r.s->name, ek.c_str(),
                      esc("input: " + std::string(r.sh->cur) + "\nobserved: abnormal end, status " + std::to_string(st) + "\n" + log).c_str());
        }
        std::printf("SECTION %s %zu\n", r.s->name, r.sh->cases);
        std::fflush(stdout);
        munmap(r.sh, sizeof(Shared));
        live.erase(live.begin() + i);
        return;
      }
  };
  for (auto& s : secs()) {
    if (only && std::string(only) != s.name) continue;
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::fflush(stdout);
    std::string err = g_scratch + "/err." + s.name;
    pid_t       p   = fork();
    if (p == 0) {
      g_sh      = sh;
      g_section = s.name;
      int fd    = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
      if (fd >= 0) dup2(fd, 2);
      try {
        s.fn();
      } catch (const std::exception& e) {
        fail("exception", e.what());
      }
      std::fflush(stdout);
      _exit(0);
    }
    live.push_back({p, &s, sh, err});
    if (live.size() >= 6) reap();
  }
  while (!live.empty()) reap();
  return bad ? 1 : 0;
}
}    // namespace vh
int main(int argc, char** argv) { return vh::run_all(argc, argv); }
