// Replays operation sequences on the real boxes and records what can be read.
// -DPART=0..3 compiles a quarter of the box types.
#include "common.hpp"
#include <Eigen/Dense>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/PSO>
using namespace vp;
using namespace heu;

// h*2^16 + m + l/2^24, e: something behind that
template <class T>
static std::string num(T x) {
  long h, m, l = 0, e = 0;
  if constexpr (std::is_integral_v<T>) {
    const long long w = (long long)x;
    h = long(w >> 16), m = long(w & 65535);
  } else {
    if (std::isnan(x)) return "[-1500000000,0,0,0]";
    if (std::isinf(x)) return x > 0 ? "[1000000000,0,0,0]" : "[-1000000000,0,0,0]";
    const double d = double(x), fl = std::floor(d), fr = (d - fl) * 16777216.0;
    if (std::fabs(fl) > 7e13) return x > 0 ? "[1100000000,0,0,0]" : "[-1100000000,0,0,0]";
    const long long w = (long long)fl;
    h = long(w >> 16), m = long(w & 65535), l = long(std::floor(fr)), e = fr != std::floor(fr);
  }
  return "[" + std::to_string(h) + "," + std::to_string(m) + "," + std::to_string(l) + "," + std::to_string(e) + "]";
}
template <class T>
static T parse(const std::string& s) {
  if constexpr (std::is_same_v<T, uint64_t>) return strtoull(s.c_str(), nullptr, 10);
  else if constexpr (std::is_integral_v<T>) return T(strtoll(s.c_str(), nullptr, 10));
  else return T(strtod(s.c_str(), nullptr));
}
static std::string list(const std::vector<std::string>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i];
  return s + "]";
}

enum Kind { disc, boolean, cont, gauss, pso };

template <class Var, class Box, Kind K, bool Square, bool FixedRange = false>
struct Boxed {
  using T = typename array_traits<Var>::Scalar_t;
  static constexpr bool Eig = array_traits<Var>::isEigenClass;
  static constexpr bool Dyn = !array_traits<Var>::isFixedSize;
  static constexpr bool Mat = !array_traits<Var>::isVector;
  Box b;
  Var v;
  bool touched = false, ranged = FixedRange || K == boolean, stepped = FixedRange && K == cont;
  int n = 0, rows = 0, cols = 0;

  void size(Var& w) const {
    if constexpr (Dyn) {
      if constexpr (Mat) w.resize(rows, cols);
      else w.resize(n);
    }
  }
  Var seq(const std::string& s) const {
    Var w;
    size(w);
    auto f = split(s, '|');
    for (int i = 0; i < n; i++) at(w, i) = parse<T>(f[i]);
    return w;
  }
  std::string seen(const Var& w) const {
    std::vector<std::string> r;
    for (int i = 0; i < int(w.size()); i++) r.push_back(num<T>(at(w, i)));
    return list(r);
  }
  std::string args(const std::string& s) const {
    std::vector<std::string> r;
    auto f = split(s, '|');
    for (int i = 0; i < n; i++) r.push_back(num<T>(parse<T>(f[i])));
    return list(r);
  }
  // everything the box tells about itself
  T lo(int i) const {
    if constexpr (K == pso) return b.posMin(i);
    else return b.min(i);
  }
  T hi(int i) const {
    if constexpr (K == pso) return b.posMax(i);
    else return b.max(i);
  }
  T st(int i) const {
    if constexpr (K == pso) return b.maxVelocity(i);
    else if constexpr (K == cont || K == gauss) return b.delta(i);
    else return T(1);
  }
  T st2(int i) const {
    if constexpr (K == cont && Mat && !FixedRange) return b.delta(i % rows, i / rows);
    else return st(i);
  }
  std::string ask() {
    std::vector<std::string> a, c, d;
    const int dim = (n || !Dyn) ? int(b.dimensions()) : 0;
    for (int i = 0; i < dim && i < 64; i++) {
      if constexpr (K != gauss)
        if (ranged) a.push_back(num<T>(lo(i))), c.push_back(num<T>(hi(i)));
      if constexpr (K == gauss)
        if (b.min(i) > -std::numeric_limits<T>::infinity() || b.max(i) < std::numeric_limits<T>::infinity() ||
            b.min() > -std::numeric_limits<T>::infinity() || b.max() < std::numeric_limits<T>::infinity())
          a.push_back("[0,0,0,0]");
      if (K == cont || K == gauss || K == pso)
        if (stepped) d.push_back(num<T>(st(i)));
    }
    if (stepped && (K == cont || K == gauss || K == pso))
      for (int i = 0; i < dim; i++)
        if (st(i) != st2(i)) d.push_back("\"delta(r,c) differs\"");
    if constexpr (Square && K != gauss) {
      auto one = [&](const Box& k) {
        if constexpr (K == pso) return std::make_pair(k.posMin(), k.posMax());
        else return std::make_pair(k.min(), k.max());
      };
      if (ranged && dim) {
        auto p = one(b);
        if (p.first != lo(0) || p.second != hi(0)) a.push_back("[0,0,0,0]");
      }
    }
    int r = rows, cc = cols;
    if constexpr (Mat && !(K == pso && !Dyn)) if (n || !Dyn) r = b.boxRows(), cc = b.boxCols();
    return "{\"n\":" + std::to_string(dim) + ",\"rows\":" + std::to_string(r) + ",\"cols\":" + std::to_string(cc) +
           ",\"min\":" + list(a) + ",\"max\":" + list(c) + ",\"delta\":" + list(d) + "}";
  }

  void law(const Scenario& sc, const std::string& what, long N) {
    const Var start = v;
    if (what == "init") {
      std::vector<std::vector<long>> count(n);
      std::vector<long> odd(n), low(n), near(n > 1 ? n - 1 : 0);
      bool wide = true;
      auto width = [&](int i) -> double { return double(hi(i)) - double(lo(i)) + (std::is_integral_v<T> ? 1 : 0); };
      for (int i = 0; i < n; i++) {
        int k = 8;
        if (K == gauss) k = 6;
        else if (std::is_integral_v<T>) {
          k = width(i) <= 16 ? int(width(i)) : 16;
          wide = wide && width(i) > 16 && std::fmod(width(i), 2) == 0;
        } else wide = false;
        count[i].resize(k);
      }
      if (K == gauss) wide = false;
      for (long r = 0; r < N; r++) {
        Var w;
        b.initialize(&w);
        for (int i = 0; i < n; i++) {
          const T x = at(w, i);
          int k = 0;
          if constexpr (K == gauss) {
            const double z = (double(x) - double(b.mu())) / double(b.sigma());
            k = z < -2 ? 0 : z < -1 ? 1 : z < 0 ? 2 : z < 1 ? 3 : z < 2 ? 4 : 5;
          } else {
            k = int((double(x) - double(lo(i))) * count[i].size() / width(i));
            if constexpr (std::is_integral_v<T>) odd[i] += (x & 1);
          }
          if (k >= 0 && k < int(count[i].size())) count[i][k]++;
          low[i] = k < int(count[i].size()) / 2;
          if (i) near[i - 1] += low[i] && low[i - 1];
        }
      }
      std::vector<std::string> cs;
      for (auto& q : count) cs.push_back(arr(q));
      LOG.add("{\"k\":\"initlaw\",\"kind\":" + q(sc.s("kind")) + ",\"N\":" + std::to_string(N) + ",\"count\":" +
              list(cs) + ",\"odd\":" + (wide ? arr(odd) : "[]") + ",\"near\":" + arr(near) + "}");
      return;
    }
    const int k = (K == cont || K == gauss) ? 4 : 1;
    std::vector<std::vector<long>> count(n, std::vector<long>(2 * k));
    std::vector<std::string> up, down;
    long same = 0;
    for (int i = 0; i < n; i++) {
      up.push_back(K == gauss || at(start, i) < hi(i) ? "true" : "false");
      down.push_back(K == gauss || at(start, i) > lo(i) ? "true" : "false");
    }
    for (long r = 0; r < N; r++) {
      Var w = start;
      b.applyDelta(&w);
      bool any = false;
      for (int i = 0; i < n; i++) {
        const double d = double(at(w, i)) - double(at(start, i));
        if (d == 0) continue;
        any = true;
        int j = std::min(k - 1, int(std::fabs(d) / double(st(i)) * k));
        count[i][(d > 0 ? k : 0) + j]++;
      }
      same += !any;
    }
    std::vector<std::string> cs;
    for (auto& q : count) cs.push_back(arr(q));
    LOG.add("{\"k\":\"mutlaw\",\"kind\":" + q(sc.s("kind")) + ",\"N\":" + std::to_string(N) + ",\"count\":" + list(cs) +
            ",\"up\":" + list(up) + ",\"down\":" + list(down) + ",\"same\":" + std::to_string(same) + "}");
  }

  void go(const Scenario& sc) {
    static const char* names[] = {"disc", "bool", "cont", "gauss", "pso"};
    if constexpr (!Dyn) n = int(v.size());
    if constexpr (!Dyn && Mat) rows = int(v.rows()), cols = int(v.cols());
    else if (!Dyn) rows = n, cols = 1;
    std::string a = "[]", c = "[]", d = "[]";
    if constexpr (FixedRange || K == boolean) {
      std::vector<std::string> x, y, z;
      for (int i = 0; i < n; i++) {
        if constexpr (K == boolean) x.push_back(num(0)), y.push_back(num(1));
        else {
          x.push_back(num<T>(parse<T>(sc.s("lo")))), y.push_back(num<T>(parse<T>(sc.s("hi"))));
          if (K == cont) z.push_back(num<T>(parse<T>(sc.s("de"))));
        }
      }
      a = list(x), c = list(y), d = list(z);
      if (Dyn) die_note("VP-FIXEDDYN ", 44);
    }
    LOG.begin(sc.s("name"), ",\"box\":{\"kind\":" + q(names[K]) + ",\"dyn\":" + (Dyn ? "true" : "false") +
                                ",\"square\":" + (Square ? "true" : "false") + ",\"mat\":" + (Mat ? "true" : "false") +
                                ",\"fixed\":" + (FixedRange ? "true" : "false") + "},\"n\":" + std::to_string(n) +
                                ",\"rows\":" + std::to_string(rows) + ",\"cols\":" + std::to_string(cols) +
                                ",\"min\":" + a + ",\"max\":" + c + ",\"delta\":" + d);
    int turn = 0;
    for (auto& op : split(sc.s("ops"), ';')) {
      auto f = split(op, ',');
      const std::string& k = f[0];
      std::string enc = "[" + q(k);
      turn++;
      if (k == "law") {
        if constexpr (K != pso) law(sc, f[1], atol(f[2].c_str()));
        continue;
      }
      if (k == "dims") {
        if constexpr (Dyn) {
          const int old = n;
          rows = atoi(f[1].c_str()), cols = atoi(f[2].c_str()), n = rows * cols;
          if constexpr (Mat) b.setDimensions(rows, cols);
          else b.setDimensions(n);
          if (!Square && n != old) ranged = stepped = false;
        }
        enc += "," + f[1] + "," + f[2];
      } else if (k == "range") {
        if constexpr (!FixedRange && K != boolean && K != gauss) {
          if constexpr (Square) {
            const T x = parse<T>(split(f[1], '|')[0]), y = parse<T>(split(f[2], '|')[0]);
            if constexpr (K == pso) {
              if (turn % 3 == 0) b.posMin() = x, b.posMax() = y;
              else if (turn % 3 == 1 && stepped) b.setPVRange(x, y, T(b.maxVelocity()));
              else b.setRange(x, y);
            } else {
              if (turn % 2) b.setRange(x, y);
              else b.min() = x, b.max() = y;
            }
          } else {
            if constexpr (K == pso) {
              if (turn % 3 == 0) b.posMin() = seq(f[1]), b.posMax() = seq(f[2]);
              else if (turn % 3 == 1 && stepped) b.setPVRange(seq(f[1]), seq(f[2]), Var(b.maxVelocity()));
              else b.setRange(seq(f[1]), seq(f[2]));
            } else {
              if (turn % 2) b.setRange(seq(f[1]), seq(f[2]));
              else b.min() = seq(f[1]), b.max() = seq(f[2]);
            }
          }
        }
        ranged = true;
        enc += "," + args(f[1]) + "," + args(f[2]);
      } else if (k == "delta") {
        if constexpr (!FixedRange && (K == cont || K == gauss || K == pso)) {
          if constexpr (Square || K == gauss) {
            const T x = parse<T>(split(f[1], '|')[0]);
            if constexpr (K == pso) {
              if (turn % 2) b.setMaxVelocity(x);
              else b.maxVelocity() = x;
            } else {
              if (turn % 2) b.setDelta(x);
              else b.delta() = x;
            }
          } else if constexpr (K == pso) {
            if (turn % 2) b.setMaxVelocity(seq(f[1]));
            else b.maxVelocity() = seq(f[1]);
          } else {
            if (turn % 2) b.setDelta(seq(f[1]));
            else b.delta() = seq(f[1]);
          }
        }
        stepped = true;
        enc += "," + args(f[1]);
      } else if (k == "put") {
        v = seq(f[1]);
        touched = true;
        enc += "," + args(f[1]);
      } else if (k == "clamp1") {
        if constexpr (K != pso) b.applyConstraint(&v, atoi(f[1].c_str()) - 1);
        enc += "," + f[1];
      } else if (k == "clamp") {
        if constexpr (K == pso) b.applyConstraint4Position(&v);
        else b.applyConstraint(&v);
      } else if (k == "clampv") {
        if constexpr (K == pso) b.applyConstraint4Velocity(&v);
      } else if (k == "init") {
        if constexpr (K == gauss) b.setMu(T(sc.f("mu"))), b.setSigma(T(sc.f("sigma")));
        if constexpr (K != pso) b.initialize(&v);
        touched = true;
      } else if (k == "mutate") {
        if constexpr (K != pso) b.applyDelta(&v);
      } else
        die_note("VP-BADOP ", 43);
      LOG.add("{\"k\":\"op\",\"o\":" + enc + "],\"v\":" + (touched ? seen(v) : "[]") + ",\"x\":" + ask() + "}");
    }
    LOG.end();
  }
};

template <class Var, Kind K, BoxShape S>
static void run(const Scenario& sc) {
  constexpr bool sq = S == SQUARE_BOX;
  if constexpr (K == disc || K == boolean) Boxed<Var, DiscretBox<Var, S>, K, sq>().go(sc);
  else if constexpr (K == cont) Boxed<Var, ContinousBox<Var, S>, K, sq>().go(sc);
  else if constexpr (K == gauss) Boxed<Var, GaussianBox<Var>, K, true>().go(sc);
  else Boxed<Var, Box4PSO<Var, S>, K, sq>().go(sc);
}

using namespace Eigen;
template <class T, int R, int C = 1>
using A = Array<T, R, C>;
template <class T>
using Vec = std::vector<T>;
#define TYPE(name, ...) if (t == name) { __VA_ARGS__(sc); return true; }

static bool pick(const std::string& t, const Scenario& sc) {
#if PART == 0
  TYPE("cont/sq/double/efix", run<A<double, 4>, cont, SQUARE_BOX>)
  TYPE("cont/rect/double/edyn", run<ArrayXd, cont, RECTANGLE_BOX>)
  TYPE("cont/rect/float/sfix", run<std::array<float, 4>, cont, RECTANGLE_BOX>)
  TYPE("cont/sq/double/sdyn", run<Vec<double>, cont, SQUARE_BOX>)
  TYPE("cont/rect/double/emat", run<ArrayXXd, cont, RECTANGLE_BOX>)
  TYPE("cont/sq/float/ematfix", run<A<float, 2, 2>, cont, SQUARE_BOX>)
  TYPE("cont/sq/double/emat", run<ArrayXXd, cont, SQUARE_BOX>)
  TYPE("cont/rect/float/sdyn", run<Vec<float>, cont, RECTANGLE_BOX>)
  TYPE("cont/rect/double/sfix:20", run<std::array<double, 20>, cont, RECTANGLE_BOX>)
  TYPE("cont/sq/float/efix:20", run<A<float, 20>, cont, SQUARE_BOX>)
  TYPE("cont/rect/float/ematfix:20", run<A<float, 4, 5>, cont, RECTANGLE_BOX>)
#elif PART == 1
  TYPE("disc/sq/int32/sfix", run<std::array<int, 4>, disc, SQUARE_BOX>)
  TYPE("disc/rect/int32/sdyn", run<Vec<int>, disc, RECTANGLE_BOX>)
  TYPE("disc/sq/int32/edyn", run<ArrayXi, disc, SQUARE_BOX>)
  TYPE("disc/rect/int32/ematfix", run<A<int, 2, 2>, disc, RECTANGLE_BOX>)
  TYPE("disc/sq/uint8/sdyn", run<Vec<uint8_t>, disc, SQUARE_BOX>)
  TYPE("disc/rect/int8/sfix", run<std::array<int8_t, 4>, disc, RECTANGLE_BOX>)
  TYPE("disc/rect/uint16/emat", run<Array<uint16_t, Dynamic, Dynamic>, disc, RECTANGLE_BOX>)
  TYPE("disc/sq/int64/efix", run<A<int64_t, 4>, disc, SQUARE_BOX>)
  TYPE("disc/rect/uint32/edyn", run<Array<uint32_t, Dynamic, 1>, disc, RECTANGLE_BOX>)
  TYPE("disc/sq/double/sdyn", run<Vec<double>, disc, SQUARE_BOX>)
  TYPE("disc/rect/int32/efix:20", run<A<int, 20>, disc, RECTANGLE_BOX>)
  TYPE("disc/sq/int16/sfix:20", run<std::array<int16_t, 20>, disc, SQUARE_BOX>)
#elif PART == 2
  TYPE("bool/sq/bool/sfix", run<std::array<bool, 4>, boolean, SQUARE_BOX>)
  TYPE("bool/sq/bool/efix", run<A<bool, 4>, boolean, SQUARE_BOX>)
  TYPE("bool/sq/bool/ematfix", run<A<bool, 2, 2>, boolean, SQUARE_BOX>)
  TYPE("bool/sq/bool/sfix:20", run<std::array<bool, 20>, boolean, SQUARE_BOX>)
  TYPE("bool/sq/bool/ematfix:20", run<A<bool, 5, 4>, boolean, SQUARE_BOX>)
  TYPE("gauss/sq/float/efix:20", run<A<float, 20>, gauss, SQUARE_BOX>)
  TYPE("gauss/sq/double/edyn", run<ArrayXd, gauss, SQUARE_BOX>)
  TYPE("gauss/sq/float/sdyn", run<Vec<float>, gauss, SQUARE_BOX>)
  TYPE("gauss/sq/double/sfix", run<std::array<double, 4>, gauss, SQUARE_BOX>)
  TYPE("gauss/sq/double/emat", run<ArrayXXd, gauss, SQUARE_BOX>)
  TYPE("fdisc/sq/int32/sfix", Boxed<std::array<int, 4>, FixedDiscreteBox<std::array<int, 4>, -3, 12>, disc, true, true>().go)
  TYPE("fdisc/sq/uint8/efix", Boxed<A<uint8_t, 4>, FixedDiscreteBox<A<uint8_t, 4>, 0, 255>, disc, true, true>().go)
  TYPE("fdisc/sq/int8/ematfix", Boxed<A<int8_t, 2, 2>, FixedDiscreteBox<A<int8_t, 2, 2>, -128, 127>, disc, true, true>().go)
  TYPE("fdisc/sq/double/sfix", Boxed<std::array<double, 4>, FixedDiscreteBox17<std::array<double, 4>, encode(-1.5), encode(6.5)>, disc, true, true>().go)
  TYPE("fcont/sq/double/sfix", Boxed<std::array<double, 4>, FixedContinousBox17<std::array<double, 4>, encode(-1.5), encode(6.5), encode(0.25)>, cont, true, true>().go)
  TYPE("fcont/sq/float/ematfix", Boxed<A<float, 2, 2>, FixedContinousBox17<A<float, 2, 2>, encode(-2.0f), encode(0.5f), encode(0.5f)>, cont, true, true>().go)
#elif PART == 4
  TYPE("fcont/sq/double/sfix20", Boxed<std::array<double, 4>, FixedContinousBox20<std::array<double, 4>, -1.5, 6.5, 0.25>, cont, true, true>().go)
  TYPE("fdisc/sq/double/ematfix20", Boxed<A<double, 2, 2>, FixedDiscreteBox<A<double, 2, 2>, -1.5, 6.5>, disc, true, true>().go)
#else
  TYPE("pso/sq/double/efix", run<A<double, 4>, pso, SQUARE_BOX>)
  TYPE("pso/rect/double/edyn", run<ArrayXd, pso, RECTANGLE_BOX>)
  TYPE("pso/sq/double/sdyn", run<Vec<double>, pso, SQUARE_BOX>)
  TYPE("pso/rect/float/sfix", run<std::array<float, 4>, pso, RECTANGLE_BOX>)
  TYPE("pso/rect/double/emat", run<ArrayXXd, pso, RECTANGLE_BOX>)
  TYPE("pso/sq/double/emat", run<ArrayXXd, pso, SQUARE_BOX>)
  TYPE("pso/rect/double/sdyn", run<Vec<double>, pso, RECTANGLE_BOX>)
  TYPE("pso/sq/float/ematfix", run<A<float, 2, 2>, pso, SQUARE_BOX>)
  TYPE("pso/rect/double/erow", run<Array<double, 1, Dynamic>, pso, RECTANGLE_BOX>)
  TYPE("cont/rect/double/erow", run<Array<double, 1, Dynamic>, cont, RECTANGLE_BOX>)
  TYPE("pso/rect/double/sfix:20", run<std::array<double, 20>, pso, RECTANGLE_BOX>)
  TYPE("pso/sq/float/efix:20", run<A<float, 20>, pso, SQUARE_BOX>)
#endif
  return false;
}

int main() {
  guard();
  Scenario sc;
  while (vp::next(sc)) {
    heu::internal::global_mt19937().seed(unsigned(sc.i("seed", 1)));
    if (!pick(sc.s("type"), sc)) die_note("VP-BADTYPE ", 43);
  }
  return 0;
}
