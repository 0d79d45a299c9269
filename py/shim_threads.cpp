// Interpreter of generated thread programs for the shim (compiled together with it, under ThreadSanitizer).
// Input: nKeys, nKeys x 6 ints; nThreads, rounds; per thread: nOps, ops: "r T k" register, "t T k nd npts" register and tabulate,
// "s T n" scratch, "z T" size, "x T" invalid register, "o T k h" tabulate with the handle another thread may have (kept per thread).
// Every value is checked against a sequential reference obtained from the element library before the threads start.
#include <atomic>
#include <barrier>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <string>
#include <thread>
struct Op { char c; int t, a, b, d; };
using Key = std::array<int, 6>;
static int dim_of(int cell) { static const int d[] = {0, 1, 2, 3, 2, 3, 3, 3}; return d[cell]; }
static double coord(int k, int i, int d) { return 0.05 + 0.2 * (((k * 7 + i * 3 + d * 5) % 11) / 11.0); }
template<typename T> struct Ref { std::map<std::array<int, 3>, std::pair<std::vector<T>, std::vector<T>>> tab; std::vector<int> valid; };
template<typename T> static void make_points(int k, int npts, int dim, std::vector<T> &x) { x.resize(npts * dim); for (int i = 0; i < npts; ++i) for (int d = 0; d < dim; ++d) x[i * dim + d] = (T)coord(k, i, d); }
static std::atomic<int> bad{0};
static void fail(const char *what, int a, int b) { if (bad.exchange(1) == 0) { printf("MISMATCH %s %d %d\n", what, a, b); fflush(stdout); } }
template<typename T> struct Api;
template<> struct Api<double> { static constexpr auto reg = qugar_register_element_f64; static constexpr auto tab = qugar_tabulate_f64; static constexpr auto shape = qugar_tabulate_shape_f64; static constexpr auto scratch = qugar_get_scratch_f64; static constexpr auto size = qugar_registry_size_f64; };
template<> struct Api<float> { static constexpr auto reg = qugar_register_element_f32; static constexpr auto tab = qugar_tabulate_f32; static constexpr auto shape = qugar_tabulate_shape_f32; static constexpr auto scratch = qugar_get_scratch_f32; static constexpr auto size = qugar_registry_size_f32; };
static std::vector<Key> keys;
template<typename T> static void prepare(Ref<T> &ref, const std::vector<std::vector<Op>> &progs, int t)
{
  ref.valid.assign(keys.size(), -1);
  for (auto &p : progs) for (auto &o : p) if (o.t == t && (o.c == 'r' || o.c == 't')) {
    auto &k = keys[o.a];
    if (ref.valid[o.a] == 0) continue;
    try {
      auto el = create_element<T>((element::family)k[0], (cell::type)k[1], k[2], (element::lagrange_variant)k[3], (element::dpc_variant)k[4], k[5] != 0);
      ref.valid[o.a] = 1;
      if (o.c != 't' || ref.tab.count({o.a, o.b, o.d})) continue;
      auto &[x, want] = ref.tab[{o.a, o.b, o.d}];
      int dim = dim_of(k[1]);
      make_points<T>(o.a, o.d, dim, x);
      auto s = el.tabulate_shape(o.b, o.d);
      want.resize(s[0] * s[1] * s[2] * s[3]);
      el.tabulate(o.b, std::span<const T>(x), {(std::size_t)o.d, (std::size_t)dim}, std::span<T>(want));
    } catch (const std::exception &) { ref.valid[o.a] = 0; }
  }
}
template<typename T> static void run_op(const Op &o, const Ref<T> &ref, std::vector<int> &mine, int id)
{
  using A = Api<T>;
  if (o.c == 'r' || o.c == 't') {
    auto &k = keys[o.a];
    int h = A::reg(k[0], k[1], k[2], k[3], k[4], k[5]);
    if ((h >= 0) != (ref.valid[o.a] == 1)) fail("validity", o.a, h);
    if (h < 0) return;
    if (mine[o.a] >= 0 && mine[o.a] != h) fail("handle changes", o.a, h);
    mine[o.a] = h;
    if (o.c == 't') {
      auto &[x, want] = ref.tab.at({o.a, o.b, o.d});
      long s[4] = {-1, -1, -1, -1};
      if (A::shape(h, o.b, o.d, s) != 0 || s[0] * s[1] * s[2] * s[3] != (long)want.size()) { fail("shape", o.a, h); return; }
      T *buf = A::scratch((long)want.size() + 1);
      if (!buf) { fail("no scratch", o.a, id); return; }
      buf[want.size()] = (T)(id + 1);
      int rc = A::tab(h, o.b, x.data(), o.d, dim_of(k[1]), buf, (long)want.size());
      if (rc != 0) { fail("tabulation code", o.a, rc); return; }
      for (std::size_t i = 0; i < want.size(); ++i)
        if (!(std::fabs(buf[i] - want[i]) <= (sizeof(T) == 8 ? 1e-11 : 1e-4) * (1 + std::fabs(want[i])))) { fail("value", o.a, (int)i); return; }
      if (buf[want.size()] != (T)(id + 1)) fail("scratch shared", o.a, id);
    }
  } else if (o.c == 's') {
    T *b = A::scratch(o.a);
    if (!b && o.a > 0) { fail("no scratch", o.a, id); return; }
    for (int i = 0; i < o.a; ++i) b[i] = (T)(id * 1000 + i % 900);
    std::this_thread::yield();
    for (int i = 0; i < o.a; ++i) if (b[i] != (T)(id * 1000 + i % 900)) { fail("scratch shared", o.a, id); return; }
  } else if (o.c == 'z') {
    int n = A::size();
    int own = 0;
    for (int h : mine) own = std::max(own, h + 1);
    if (n < own) fail("size smaller than a handle", n, own);
  } else if (o.c == 'x') {
    if (A::reg(97, 2, 1, 0, 0, 0) >= 0) fail("invalid element accepted", 0, 0);
    T v = 0;
    if (A::tab(1 << 20, 0, &v, 1, 2, &v, 1) >= 0) fail("invalid handle accepted", 0, 0);
  }
}
int main()
{
  int nk, nt, rounds;
  std::cin >> nk;
  keys.resize(nk);
  for (auto &k : keys) for (int &v : k) std::cin >> v;
  std::cin >> nt >> rounds;
  std::vector<std::vector<Op>> progs(nt);
  for (auto &p : progs) {
    int n; std::cin >> n; p.resize(n);
    for (auto &o : p) { std::string c; std::cin >> c >> o.t >> o.a >> o.b >> o.d; o.c = c[0]; }
  }
  if (!std::cin) return 4;
  Ref<double> rd; Ref<float> rf;
  prepare(rd, progs, 0); prepare(rf, progs, 1);
  for (int round = 0; round < rounds; ++round) {
    qugar_shim_reset();
    std::vector<std::vector<int>> hd(nt, std::vector<int>(nk, -1)), hf = hd;
    std::barrier start(nt);
    std::vector<std::thread> ts;
    for (int id = 0; id < nt; ++id)
      ts.emplace_back([&, id] {
        start.arrive_and_wait();
        for (auto &o : progs[id]) { if (o.t == 0) run_op<double>(o, rd, hd[id], id); else run_op<float>(o, rf, hf[id], id); }
      });
    for (auto &t : ts) t.join();
    // All the threads agree, and every element was registered once.
    auto agree = [&](auto &h, int size) {
      std::map<int, int> of;
      for (int k = 0; k < nk; ++k) {
        int seen = -1;
        for (auto &v : h) if (v[k] >= 0) { if (seen >= 0 && seen != v[k]) fail("threads disagree on a handle", k, v[k]); seen = v[k]; }
        if (seen >= 0) { if (of.count(seen)) fail("handle shared by different elements", k, of[seen]); of[seen] = k; if (seen >= size) fail("handle beyond the registry", seen, size); }
      }
      if ((int)of.size() != size) fail("registry size differs from the elements registered", size, (int)of.size());
    };
    agree(hd, qugar_registry_size_f64());
    agree(hf, qugar_registry_size_f32());
  }
  return bad ? 3 : 0;
}
