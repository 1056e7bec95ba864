// Repeats the random steps of the particle swarm and of the atomic orbital
// search many times on the real solvers and counts outcomes.
#include "common.hpp"
#include <Eigen/Dense>
#include <HeuristicFlow/AOS>
#include <HeuristicFlow/PSO>
using namespace vp;

static constexpr int D = 3;
using Cells = std::vector<long>;
using Grid = std::vector<Cells>;
static double& ref(std::vector<double>& v, int i) { return v[i]; }
static double& ref(std::array<double, D>& v, int i) { return v[i]; }
template <class E>
static double& ref(Eigen::ArrayBase<E>& v, int i) { return v.derived().data()[i]; }
template <class V>
static double get(const V& v, int i) { return ref(const_cast<V&>(v), i); }
template <class V>
static void size(V& v) {
  if constexpr (std::is_same_v<V, Eigen::ArrayXXd>) v.setZero(1, D);
  else if constexpr (!heu::array_traits<V>::isFixedSize) v.resize(D);
}
template <class V>
static V mk(const double* p) {
  V a;
  size(a);
  for (int i = 0; i < D; i++) ref(a, i) = p[i];
  return a;
}
static int cell(double x, int n) { return x < 0 || x >= 1 ? -1 : int(x * n); }
static int prod(double x) {  // product of two uniform numbers
  const double t[] = {0.05, 0.15, 0.3, 0.5, 1};
  if (x < 0 || x > 1) return -1;
  for (int i = 0; i < 5; i++)
    if (x <= t[i]) return i;
  return -1;
}
static int norm(double x) { return x < -1 ? 0 : x < 0 ? 1 : x < 1 ? 2 : 3; }
static long bad;
static void add(Cells& c, int i) { i < 0 || i >= int(c.size()) ? void(bad++) : void(c[i]++); }
static void add(Grid& g, int i, int j) {
  if (i >= 0 && i < int(g.size())) add(g[i], j);
  else bad++;
}
static Grid grid(int a, int b) { return Grid(a, Cells(b)); }
static void out(const char* what, const std::string& law, long par, const Cells& c) {
  LOG.add(std::string("{\"k\":\"cells\",\"what\":\"") + what + "\",\"law\":" + q(law) + ",\"par\":" +
          std::to_string(par) + ",\"c\":" + arr(c) + "}");
}
static void out(const char* what, const std::string& law, long par, const Grid& g) {
  std::string s;
  for (auto& c : g) s += (s.empty() ? "" : ",") + arr(c);
  LOG.add(std::string("{\"k\":\"grid\",\"what\":\"") + what + "\",\"law\":" + q(law) + ",\"par\":" +
          std::to_string(par) + ",\"c\":[" + s + "]}");
}

static double LO[D], HI[D];
static void boxes(bool square) {
  const double lo[D] = {-2, 1, 10}, hi[D] = {3, 1.5, 50};
  for (int i = 0; i < D; i++) LO[i] = lo[square ? 0 : i], HI[i] = hi[square ? 0 : i];
}

// initial positions
struct InitStat {
  std::string law;
  Cells one[D];
  Grid dims = grid(4, 4), next = grid(4, 4);
  InitStat(const std::string& l) : law(l) {
    for (auto& c : one) c.assign(law == "normal" ? 4 : 8, 0);
  }
  template <class V>
  int at(const V& v, int d, int n) {
    return law == "normal" ? norm((get(v, d) - 3) / 5) : cell((get(v, d) - LO[d]) / (HI[d] - LO[d]), n);
  }
  template <class It, class F>
  void take(It b, It e, F f) {
    int last = -1;
    for (; b != e; ++b) {
      for (int d = 0; d < D; d++) add(one[d], at(f(*b), d, 8));
      const int a = at(f(*b), 0, 4);
      add(dims, a, at(f(*b), 1, 4));
      if (last >= 0) add(next, last, a), last = -1;
      else last = a;
    }
  }
  void print() {
    for (auto& c : one) out("initial position", law, 0, c);
    out("two coordinates of an initial position", law, 0, dims);
    out("two successive initial positions", law, 0, next);
  }
};

// initial positions of many dimensions: every coordinate, and pairs of coordinates at every distance
constexpr int W = 21;
struct WideStat {
  double lo[W], hi[W];
  Cells one[W];
  Grid pair[W];
  WideStat(bool square) {
    for (int d = 0; d < W; d++) {
      lo[d] = square ? -2 : d * 3 - 20, hi[d] = square ? 3 : lo[d] + 0.5 + d % 4;
      one[d].assign(8, 0), pair[d] = grid(4, 4);
    }
  }
  template <class It, class F>
  void take(It b, It e, F f) {
    for (; b != e; ++b) {
      int c[W];
      for (int d = 0; d < W; d++) add(one[d], c[d] = cell((get(f(*b), d) - lo[d]) / (hi[d] - lo[d]), 8));
      for (int d = 1; d < W; d++) add(pair[d], c[0] / 2, c[d] / 2);
    }
  }
  void print() {
    for (auto& c : one) out("initial position of many", "flat", 0, c);
    for (int d = 1; d < W; d++) out("two coordinates of an initial position of many", "flat", 0, pair[d]);
  }
};
template <class V>
static V wide(const double* x) {
  V v;
  v.resize(W);
  for (int d = 0; d < W; d++) v[d] = x[d];
  return v;
}
template <class V>
constexpr bool canWide = !heu::array_traits<V>::isFixedSize && !std::is_same_v<V, Eigen::ArrayXXd>;

///////////////////////////////////////////////////////////////////////// swarm
static int K, best, counter;
static bool LESS;
static std::map<double, int> start;
template <class V>
static void pI(V* p, V* v) {
  size(*p), size(*v);
  for (int d = 0; d < D; d++) ref(*p, d) = ref(*v, d) = 0;
  if (counter != best) ref(*p, 0) = counter + 1;
  ref(*v, 1) = 1;
  counter++;
}
template <class V>
static void pF(const V* p, double* f) {
  const double x = get(*p, 0), y = get(*p, 1);
  const double r = y != 0 ? 1e6 : x == 0 ? 0 : x;
  *f = LESS ? r : -r;
}
template <class V, heu::BoxShape BS, heu::FitnessOption FO>
static void pso(const Scenario& sc) {
  using namespace heu;
  using PP = heu::internal::PSOParameterPack<V, double, void>;
  LESS = FO == FITNESS_LESS_BETTER;
  const long N = sc.i("N");
  K = int(sc.i("K"));
  auto range = [&](auto& s, double vm) {
    if constexpr (std::is_same_v<V, Eigen::ArrayXXd>) s.setDimensions(1, D);
    else if constexpr (!array_traits<V>::isFixedSize) s.setDimensions(D);
    const double v[D] = {vm, vm, vm};
    if constexpr (BS == SQUARE_BOX) s.setPVRange(LO[0], HI[0], vm);
    else s.setPVRange(mk<V>(LO), mk<V>(HI), mk<V>(v));
  };
  PSOOption o;
  o.populationSize = K;
  o.maxFailTimes = 0;
  o.maxGeneration = 1;
  {
    PSO<V, BS, FO> s;
    s.setfFun(pF<V>);
    boxes(BS == SQUARE_BOX);
    range(s, 1);
    s.setOption(o);
    InitStat st("flat");
    for (long n = 0; n < N; n += K) {
      s.initializePop();
      st.take(s.population().begin(), s.population().end(), [](auto& p) -> const V& { return p.position; });
    }
    st.print();
  }
  if constexpr (canWide<V>) {
    PSO<V, BS, FO> s;
    s.setfFun(pF<V>);
    WideStat st(BS == SQUARE_BOX);
    const std::vector<double> v(W, 1.0);
    s.setDimensions(W);
    if constexpr (BS == SQUARE_BOX) s.setPVRange(st.lo[0], st.hi[0], 1);
    else s.setPVRange(wide<V>(st.lo), wide<V>(st.hi), wide<V>(v.data()));
    s.setOption(o);
    for (long n = 0; n < N / 4; n += K) {
      s.initializePop();
      st.take(s.population().begin(), s.population().end(), [](auto& p) -> const V& { return p.position; });
    }
    st.print();
  }
  PSO<V, BS, FO, DONT_RECORD_FITNESS, void, nullptr, (typename PP::iFun_t)(nullptr)> s;
  s.setfFun(pF<V>);
  s.setiFun(pI<V>);
  for (int d = 0; d < D; d++) LO[d] = -1e7, HI[d] = 1e7;
  range(s, 1e7);
  o.inertiaFactor = 0.5;
  o.learnFactorP = sc.i("cP") / 4.0;
  o.learnFactorG = sc.i("cG") / 4.0;
  s.setOption(o);
  Cells g1(8), p2(8), g2(8);
  Grid pg = grid(4, 4), gg = grid(4, 4), g11 = grid(4, 4), p22 = grid(4, 4), g22 = grid(4, 4), pgn = grid(4, 4);
  for (long n = 0; n < N; n += K) {
    counter = 0;
    best = int(n / K % K);
    s.initializePop();
    s.run();
    std::vector<double> x1(K), y1(K), vx(K), vy(K), r1(K, -1), rp(K, -1), rg(K, -1);
    for (int i = 0; i < K; i++) {
      auto& p = s.population()[i];
      x1[i] = get(p.position, 0), y1[i] = get(p.position, 1);
      vx[i] = get(p.velocity, 0), vy[i] = get(p.velocity, 1);
      if (i != best) r1[i] = -vx[i] / (i + 1) / o.learnFactorG;
    }
    s.run();
    for (int i = 0; i < K; i++) {
      if (i == best) continue;
      auto& p = s.population()[i];
      // v2 - w v1 = cP rP (x0 - x1) + cG rG (0 - x1)
      const double a = i + 1 - x1[i], b = -x1[i], c = -y1[i], d = -y1[i];
      const double u = get(p.velocity, 0) - 0.5 * vx[i], w = get(p.velocity, 1) - 0.5 * vy[i];
      const double det = a * d - b * c;
      rp[i] = (u * d - b * w) / det / o.learnFactorP;
      rg[i] = (a * w - u * c) / det / o.learnFactorG;
      add(g1, cell(r1[i], 8)), add(p2, cell(rp[i], 8)), add(g2, cell(rg[i], 8));
      add(pg, cell(rp[i], 4), cell(rg[i], 4)), add(gg, cell(r1[i], 4), cell(rg[i], 4));
      if (i % 2 && i - 1 != best) {
        add(g11, cell(r1[i - 1], 4), cell(r1[i], 4)), add(p22, cell(rp[i - 1], 4), cell(rp[i], 4));
        add(g22, cell(rg[i - 1], 4), cell(rg[i], 4)), add(pgn, cell(rp[i - 1], 4), cell(rg[i], 4));
      }
    }
  }
  out("factor of the global best", "flat", 0, g1), out("factor of the personal best", "flat", 0, p2);
  out("factor of the global best", "flat", 0, g2), out("both factors", "flat", 0, pg);
  out("factors of two generations", "flat", 0, gg), out("factors of two particles", "flat", 0, g11);
  out("factors of two particles", "flat", 0, p22), out("factors of two particles", "flat", 0, g22);
  out("factors of two particles", "flat", 0, pgn);
  LOG.add("{\"k\":\"bad\",\"n\":" + std::to_string(bad) + "}");
}

///////////////////////////////////////////////////////////////////////// atom
static std::function<void()> onChild;
template <class V>
static void aI(V* p) {
  size(*p);
  const bool b = counter++ == best;
  const double w = 1.0 / (K - 1);
  ref(*p, 0) = b ? 1 : -w;
  ref(*p, 1) = b ? 0 : K * w;
  ref(*p, 2) = b ? 1 : -w;
}
static int evals;
template <class V>
static void aF(const V*, double* f) {
  const int i = evals++;
  const double r = i < K ? double((i - best + K) % K) : -1.0;
  if (i == K && onChild) onChild();
  *f = LESS ? r : -r;
}
template <class V, int shape, heu::FitnessOption FO>
static void aos(const Scenario& sc) {
  using namespace heu;
  using PP = heu::internal::AOSParameterPack<V, double, void>;
  using Box = std::conditional_t<shape == 0, ContinousBox<V, SQUARE_BOX>,
                                 std::conditional_t<shape == 1, ContinousBox<V, RECTANGLE_BOX>,
                                                    GaussianBox<V>>>;
  LESS = FO == FITNESS_LESS_BETTER;
  const long N = sc.i("N");
  K = int(sc.i("K"));
  const int rate = int(sc.i("rate"));
  const double delta = 1e-6;
  auto range = [&](auto& s) {
    if constexpr (std::is_same_v<V, Eigen::ArrayXXd>) s.setDimensions(1, D);
    else if constexpr (!array_traits<V>::isFixedSize) s.setDimensions(D);
    if constexpr (shape == 0) s.setRange(LO[0], HI[0]), s.setDelta(delta);
    else if constexpr (shape == 1) {
      const double d[D] = {delta, 2 * delta, delta};
      s.setRange(mk<V>(LO), mk<V>(HI));
      if constexpr (std::is_same_v<V, Eigen::ArrayXXd>) s.delta() = mk<V>(d);
      else s.setDelta(mk<V>(d));
    } else s.setMu(3), s.setSigma(5), s.setDelta(delta);
  };
  const double dl[D] = {delta, shape == 1 ? 2 * delta : delta, delta};
  AOSOption o;
  o.electronNum = K;
  o.maxEarlyStop = 1000000;
  o.photonRate = rate / 100.0;
  const int M = int(sc.i("layers"));
  {
    AOS<Box, FO> s;
    s.setfFun(aF<V>);
    boxes(shape == 0);
    range(s);
    o.maxGeneration = 0;
    o.maxLayerNum = M;
    s.setOption(o);
    InitStat st(shape == 2 ? "normal" : "flat");
    for (long n = 0; n < N; n += K) {
      s.initializePop();
      st.take(s.electrons().begin(), s.electrons().end(), [](auto& p) -> const V& { return p.state; });
    }
    st.print();
    // number of layers
    AOSOption big = o;
    big.electronNum = 300;
    s.setOption(big);
    evals = 0;
    best = 0;
    K = 300;
    s.initializePop();
    std::map<int, long> first;
    for (long n = 0; n < N / 10; n++) {
      big.maxEarlyStop = 1000000000;
      s.run();
      first[int(s.layers().front().size())]++;
    }
    std::string w = "[";
    for (auto& p : first)
      w += std::string(w.size() > 1 ? "," : "") + "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]";
    LOG.add("{\"k\":\"layers\",\"n\":300,\"M\":" + std::to_string(M) + ",\"N\":" + std::to_string(N / 10) +
            ",\"seen\":" + w + "]}");
    K = int(sc.i("K"));
  }
  if constexpr (canWide<V> && shape < 2) {
    AOS<Box, FO> s;
    s.setfFun(aF<V>);
    WideStat st(shape == 0);
    s.setDimensions(W);
    const std::vector<double> v(W, 1.0);
    if constexpr (shape == 0) s.setRange(st.lo[0], st.hi[0]), s.setDelta(delta);
    else s.setRange(wide<V>(st.lo), wide<V>(st.hi)), s.setDelta(wide<V>(v.data()));
    o.maxGeneration = 0;
    s.setOption(o);
    for (long n = 0; n < N / 4; n += K) {
      s.initializePop();
      st.take(s.electrons().begin(), s.electrons().end(), [](auto& p) -> const V& { return p.state; });
    }
    st.print();
  }
  AOS<Box, FO, DONT_RECORD_FITNESS, void, nullptr, (typename PP::iFun_t)(nullptr)> s;
  s.setfFun(aF<V>);
  s.setiFun(aI<V>);
  for (int d = 0; d < D; d++) LO[d] = -1e3, HI[d] = 1e3;
  range(s);
  o.maxGeneration = 1;
  Cells branch(2), branch1(2), d0(5), d1(5), d2(5), far(5), q0(8), q1(8);
  Grid bb = grid(2, 2), p01 = grid(5, 5), p02 = grid(5, 5), pn = grid(5, 5), q01 = grid(4, 4), qn = grid(4, 4);
  for (long n = 0; n < N; n += K) {
    const bool single = n / K % 2 == 0;
    o.maxLayerNum = single ? 1 : std::min(K, 3 * M);
    s.setOption(o);
    counter = evals = 0;
    best = int(n / K % K);
    s.initializePop();
    std::vector<int> sizes;
    onChild = [&]() {
      for (auto& l : s.layers()) sizes.push_back(int(l.size()));
    };
    s.run();
    onChild = nullptr;
    if (int(s.electrons().size()) != K) {
      bad++;
      continue;
    }
    int rank = 0, layer = 0, inlayer = 0, ph = -1, lp = -1, lq = -1;
    const double w = 1.0 / (K - 1);
    for (auto& e : s.electrons()) {
      const double x0 = get(e.state, 0) - (rank ? -w : 1), x1 = get(e.state, 1) - (rank ? K * w : 0),
                   x2 = get(e.state, 2) - (rank ? -w : 1);
      const bool quiet = std::abs(x0) <= 3 * delta && std::abs(x1) <= 3 * delta && std::abs(x2) <= 3 * delta;
      add(branch, quiet ? 1 : 0);
      if (single) {
        if (rank % 2 == 1) add(bb, ph, quiet);
        ph = quiet;
        if (!quiet) {
          const int a = prod(x0), b = prod(-x1), c = prod(x2);
          add(d0, a), add(d1, b), add(d2, c), add(p01, a, b), add(p02, a, c);
          if (lp >= 0) add(pn, lp, a), lp = -1;
          else lp = a;
        }
      } else {
        if (layer > 0) add(branch1, quiet ? 1 : 0);
        // the upper half of an inner layer is weaker than its average and drawn to the atom
        if (layer > 0 && !quiet && inlayer * 2 >= sizes[layer] - 1) add(far, prod(x0 * (layer + 1)));
      }
      if (quiet) {
        // the states are rounded to about 1e-10 of a step
        auto step = [](double x) { return std::min(std::max((x + 1) / 2, x < -1.000001 ? -1 : 0.0), x > 1.000001 ? 2 : 0.999999); };
        const int a = cell(step(x0 / dl[0]), 8), b = cell(step(x1 / dl[1]), 8);
        add(q0, a), add(q1, b), add(q01, a / 2, b / 2);
        if (lq >= 0) add(qn, lq, a / 2), lq = -1;
        else lq = a / 2;
      }
      rank++;
      if (layer < int(sizes.size()) && ++inlayer >= sizes[layer]) layer++, inlayer = 0;
    }
  }
  out("kind of move", "rate", rate, branch), out("kind of move in outer layers", "rate", rate, branch1);
  out("kinds of two moves", "rate", rate, bb);
  out("pull", "prod", 0, d0), out("pull", "prod", 0, d1), out("pull", "prod", 0, d2);
  out("pull towards the atom from outer layers", "prod", 0, far);
  out("pull in two coordinates", "prod", 0, p01), out("pull in two coordinates", "prod", 0, p02);
  out("pull of two electrons", "prod", 0, pn);
  out("small step", "flat", 0, q0), out("small step", "flat", 0, q1), out("small step in two coordinates", "flat", 0, q01);
  out("small steps of two electrons", "flat", 0, qn);
  LOG.add("{\"k\":\"bad\",\"n\":" + std::to_string(bad) + "}");
}

template <class V>
static void go(const Scenario& sc) {
  using namespace heu;
  const bool less = sc.s("dir") == "less";
  const std::string b = sc.s("box");
  if (sc.s("kind") == "pso") {
    if (b == "square") return less ? pso<V, SQUARE_BOX, FITNESS_LESS_BETTER>(sc) : pso<V, SQUARE_BOX, FITNESS_GREATER_BETTER>(sc);
    return less ? pso<V, RECTANGLE_BOX, FITNESS_LESS_BETTER>(sc) : pso<V, RECTANGLE_BOX, FITNESS_GREATER_BETTER>(sc);
  }
  if (b == "square") return less ? aos<V, 0, FITNESS_LESS_BETTER>(sc) : aos<V, 0, FITNESS_GREATER_BETTER>(sc);
  if (b == "rect") return less ? aos<V, 1, FITNESS_LESS_BETTER>(sc) : aos<V, 1, FITNESS_GREATER_BETTER>(sc);
  return less ? aos<V, 2, FITNESS_LESS_BETTER>(sc) : aos<V, 2, FITNESS_GREATER_BETTER>(sc);
}

int main() {
  heu::setThreadNum(1);
  guard();
  Scenario sc;
  while (vp::next(sc, unsigned(sc.i("secs", 120)))) {
    heu::internal::global_mt19937().seed(unsigned(sc.i("seed", 1)));
    srand(unsigned(sc.i("seed", 1)));
    bad = 0;
    LOG.begin(sc.s("name"));
    const std::string t = sc.s("type");
#if PART == 0
    if (t == "efix") go<Eigen::Array<double, D, 1>>(sc);
    if (t == "edyn") go<Eigen::ArrayXd>(sc);
    if (t == "emat") go<Eigen::ArrayXXd>(sc);
#else
    if (t == "sfix") go<std::array<double, D>>(sc);
    if (t == "sdyn") go<std::vector<double>>(sc);
#endif
    LOG.end();
  }
  return 0;
}
