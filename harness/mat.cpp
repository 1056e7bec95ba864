// Replays operation sequences on the real matrices and records what can be
// read after each.
#include "common.hpp"
#include <Eigen/Dense>
#include <HeuristicFlow/SimpleMatrix>
using namespace vp;

static long LIVE, BAD;
struct Tracked {  // knows whether it has been constructed
  static constexpr uint32_t OK = 0x600DCAFE;
  uint32_t magic = OK;
  int v = 0;
  char pad[48] = {0};
  Tracked() { LIVE++; }
  Tracked(const Tracked& o) : v(o.get()) { LIVE++; }
  Tracked(Tracked&& o) : v(o.get()) { LIVE++; }
  Tracked& operator=(const Tracked& o) {
    get();
    v = o.get();
    return *this;
  }
  ~Tracked() {
    get();
    magic = 0xDEAD;
    LIVE--;
  }
  int get() const {
    if (magic != OK) BAD++;
    return v;
  }
};
template <class T> static T mk(int v) { return T(v); }
template <> std::string mk(int v) { return std::string(40, char('0' + v)); }
template <> Tracked mk(int v) {
  Tracked t;
  t.v = v;
  return t;
}
template <class T> static int un(const T& x) {
  for (int v = 1; v <= 9; v++)
    if (x == T(v)) return v;
  return 0;
}
template <> int un(const std::string& x) { return x.size() == 40 ? x[0] - '0' : 0; }
template <> int un(const Tracked& x) { return x.get(); }

template <class T>
struct Run {
  using D = heu::MatrixDynamicSize<T>;
  using F = heu::MatrixFixedSize<T, 2, 3>;
  using M = heu::MatrixMap<T>;

  template <class X>
  std::string seen(X& m, size_t cap) {
    const X& c = m;
    std::set<std::vector<int>> views;
    std::vector<int> v;
    const int R = int(c.rows()), C = int(c.cols()), N = int(c.size());
    for (int i = 0; i < N; i++) v.push_back(un<T>(m[i]));
    views.insert(v), v.clear();
    for (int i = 0; i < N; i++) v.push_back(un<T>(c[i]));
    views.insert(v), v.clear();
    for (int i = 0; i < N; i++) v.push_back(un<T>(m(i)));
    views.insert(v), v.clear();
    for (int i = 0; i < N; i++) v.push_back(un<T>(c(i)));
    views.insert(v), v.clear();
    for (int j = 0; j < C; j++)
      for (int i = 0; i < R; i++) v.push_back(un<T>(m(i, j)));
    views.insert(v), v.clear();
    for (int j = 0; j < C; j++)
      for (int i = 0; i < R; i++) v.push_back(un<T>(c(i, j)));
    views.insert(v), v.clear();
    for (auto& x : m) v.push_back(un<T>(x));
    views.insert(v), v.clear();
    if constexpr (!std::is_same_v<X, M>) {
      for (const auto& x : c) v.push_back(un<T>(x));
    } else {
      for (auto it = c.cbegin(); it != c.cend(); ++it) v.push_back(un<T>(*it));
    }
    views.insert(v), v.clear();
    for (int i = 0; i < N; i++) v.push_back(un<T>(c.data()[i]));
    views.insert(v), v.clear();
    std::string s = "{\"r\":" + std::to_string(R) + ",\"c\":" + std::to_string(C) + ",\"n\":" +
                    std::to_string(N) + ",\"cap\":" + std::to_string(cap) + ",\"v\":[";
    bool first = true;
    for (auto& w : views) {
      s += (first ? "" : ",") + arr(w);
      first = false;
    }
    return s + "]}";
  }

  void go(const Scenario& sc) {
    LIVE = BAD = 0;
    LOG.begin(sc.s("name"));
    {
      std::unique_ptr<D> d[2] = {std::make_unique<D>(), std::make_unique<D>()};
      std::unique_ptr<F> f[2] = {std::make_unique<F>(), std::make_unique<F>()};
      std::vector<T> b0(12), b1(12);
      M m[2] = {M(b0.data(), 3, 4), M(b1.data(), 3, 4)};
      for (auto& op : split(sc.s("ops"), ';')) {
        auto g = split(op, ',');
        const std::string& k = g[0];
        const int o = g[1][1] - '1';
        auto N = [&](int i) { return int(atol(g[i].c_str())); };
        auto any = [&](const std::string& n, auto fn) {
          const int j = n[1] - '1';
          if (n[0] == 'd') fn(*d[j]);
          else if (n[0] == 'f') fn(*f[j]);
          else fn(m[j]);
        };
        if (k == "new") d[o] = std::make_unique<D>(N(2), N(3));
        else if (k == "shape") any(g[1], [&](auto& x) { x.resize(N(2), N(3)); });
        else if (k == "reserve") d[o]->reserve(N(2));
        else if (k == "fill") any(g[1], [&](auto& x) { x.fill(mk<T>(N(2))); });
        else if (k == "lin") any(g[1], [&](auto& x) { x[N(2) - 1] = mk<T>(N(3)); });
        else if (k == "par") any(g[1], [&](auto& x) { x(N(2) - 1) = mk<T>(N(3)); });
        else if (k == "rc") any(g[1], [&](auto& x) { x(N(2) - 1, N(3) - 1) = mk<T>(N(4)); });
        else if (k == "assign") any(g[1], [&](auto& x) { any(g[2], [&](auto& y) { x = y; }); });
        else if (k == "copy") {
          const int p = g[2][1] - '1';
          if (g[1][0] == 'd') d[o].reset(new D(*d[p]));
          else f[o].reset(new F(*f[p]));
        } else if (k == "movec") d[o].reset(new D(std::move(*d[g[2][1] - '1'])));
        else if (k == "movea") *d[o] = std::move(*d[g[2][1] - '1']);
        else die_note("VP-BADOP ", 43);
        std::string enc = "[" + q(k) + "," + q(g[1]);
        for (size_t i = 2; i < g.size(); i++)
          enc += "," + (isdigit(g[i][0]) ? g[i] : q(g[i]));
        LOG.add("{\"o\":" + enc + "],\"x\":{\"d1\":" + seen(*d[0], d[0]->capacity()) + ",\"d2\":" +
                seen(*d[1], d[1]->capacity()) + ",\"f1\":" + seen(*f[0], 6) + ",\"f2\":" +
                seen(*f[1], 6) + ",\"m1\":" + seen(m[0], 12) + ",\"m2\":" + seen(m[1], 12) + "}}");
      }
    }
    LOG.add("{\"o\":[\"end\"],\"live\":" + std::to_string(LIVE) + ",\"bad\":" + std::to_string(BAD) + "}");
    LOG.end();
  }
};

int main() {
  guard();
  Scenario sc;
  while (vp::next(sc)) {
    const std::string t = sc.s("type");
    if (t == "double") Run<double>().go(sc);
    else if (t == "int") Run<int>().go(sc);
    else if (t == "byte") Run<uint8_t>().go(sc);
    else if (t == "string") Run<std::string>().go(sc);
    else Run<Tracked>().go(sc);
  }
  return 0;
}
