// Calls the operators that come with the genetic solvers and records parents
// and children.
#include "common.hpp"
#include <Eigen/Dense>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
using namespace vp;
using namespace heu;

template <class T>
static long fix(T x) {
  return std::lround(double(x) * 65536.0);
}
template <class V>
static std::string fixed(const V& v) {
  std::vector<long> r;
  for (int i = 0; i < int(v.size()); i++) r.push_back(fix(at(v, i)));
  return arr(r);
}
template <class T>
static T parse(const std::string& s) { return T(atof(s.c_str()) / 65536.0); }

template <DivCode code>
struct Ratio {};

template <class V>
struct Run {
  using T = typename array_traits<V>::Scalar_t;
  static constexpr bool Dyn = !array_traits<V>::isFixedSize;
  static constexpr bool Real = std::is_floating_point_v<T>;
  static constexpr bool Mat = !array_traits<V>::isVector;
  const Scenario& sc;
  V a, b, c, d;
  int n;

  static void size(V& v, int k) {
    if constexpr (Dyn) {
      if constexpr (Mat) v.resize(2, k / 2);
      else v.resize(k);
    }
  }
  void fill(V& v, const std::string& s) {
    auto f = split(s, '|');
    size(v, n);
    for (int i = 0; i < n; i++) at(v, i) = parse<T>(f[i]);
  }
  explicit Run(const Scenario& s) : sc(s) {
    n = int(split(s.s("a"), '|').size());
    if constexpr (!Dyn) n = int(a.size());
    fill(a, s.s("a"));
    fill(b, s.s("b"));
    children();
  }
  // children that come with a wrong size where the operator has to resize
  void children() {
    const bool x = sc.s("form") == "X";
    size(c, x ? int(sc.i("cs", 1)) : n);
    size(d, x ? int(sc.i("ds", 1)) : n);
    for (int i = 0; i < int(c.size()); i++) at(c, i) = T(1);
    for (int i = 0; i < int(d.size()); i++) at(d, i) = T(1);
  }
  void log(const std::string& op, const V& a0, const V& b0, const std::string& more) {
    LOG.add("{\"law\":false,\"op\":" + q(op) + ",\"a\":" + fixed(a0) + ",\"b\":" + fixed(b0) + ",\"a2\":" + fixed(a) +
            ",\"b2\":" + fixed(b) + ",\"c\":" + fixed(c) + ",\"d\":" + fixed(d) + more + "}");
  }
  std::string pq(int p, int qq) { return ",\"p\":" + std::to_string(p) + ",\"q\":" + std::to_string(qq); }

  // with parameters (Args) or without, for fixed (N) or dynamic (X) sizes
  template <class Box, DivCode code>
  void cross(const std::string& op) {
    using G0 = GADefaults<V, void>;
    using G1 = GADefaults<V, Box>;
    Box* box = nullptr;
    const bool with = sc.s("args") == "1", x = sc.s("form") == "X";
    const bool plain = sc.s("plain") == "1";  // without template argument
    if (op == "blend") {
      if constexpr (Real) {
        if (x) {
          if constexpr (Dyn && !Mat) {
            if (plain) with ? G1::template cFunXd<>(&a, &b, &c, &d, box) : G0::template cFunXd<>(&a, &b, &c, &d);
            else with ? G1::template cFunXd<code>(&a, &b, &c, &d, box) : G0::template cFunXd<code>(&a, &b, &c, &d);
          }
        } else {
          if (plain) with ? G1::template cFunNd<>(&a, &b, &c, &d, box) : G0::template cFunNd<>(&a, &b, &c, &d);
          else with ? G1::template cFunNd<code>(&a, &b, &c, &d, box) : G0::template cFunNd<code>(&a, &b, &c, &d);
        }
      }
    } else if (op == "swap") {
      if (x) {
        if constexpr (Dyn && !Mat) with ? G1::cFunSwapXs(&a, &b, &c, &d, box) : G0::cFunSwapXs(&a, &b, &c, &d);
      } else with ? G1::cFunSwapNs(&a, &b, &c, &d, box) : G0::cFunSwapNs(&a, &b, &c, &d);
    } else if constexpr (!Mat) {
      if (x) {
        if constexpr (Dyn) {
          if (plain) with ? G1::template cFunRandXs<>(&a, &b, &c, &d, box) : G0::template cFunRandXs<>(&a, &b, &c, &d);
          else with ? G1::template cFunRandXs<code>(&a, &b, &c, &d, box) : G0::template cFunRandXs<code>(&a, &b, &c, &d);
        }
      } else {
        if (plain) with ? G1::template cFunRandNs<>(&a, &b, &c, &d, box) : G0::template cFunRandNs<>(&a, &b, &c, &d);
        else with ? G1::template cFunRandNs<code>(&a, &b, &c, &d, box) : G0::template cFunRandNs<code>(&a, &b, &c, &d);
      }
    }
  }
  template <class Box>
  void crossing(const std::string& op, int p, int qq) {
    if (p == 1 && qq == 2) cross<Box, DivEncode<1, 2>::code>(op);
    else if (p == 1 && qq == 4) cross<Box, DivEncode<1, 4>::code>(op);
    else if (p == 3 && qq == 4) cross<Box, DivEncode<3, 4>::code>(op);
    else if (p == 9 && qq == 10) cross<Box, DivEncode<9, 10>::code>(op);
    else cross<Box, DivEncode<1, 5>::code>(op);
  }

  template <class Box>
  void go() {
    const std::string op = sc.s("op");
    int p = int(sc.i("p", 1)), qq = int(sc.i("q", 5));
    if (sc.s("plain") == "1") p = 1, qq = op == "blend" ? 5 : 2;
    const long N = sc.i("N"), reps = sc.i("reps", 5);
    if (op == "blend" || op == "swap" || op == "mix") {
      for (long r = 0; r < reps; r++) {
        const V a0 = a, b0 = b;
        children();
        crossing<Box>(op, p, qq);
        log(op, a0, b0, pq(p, qq));
      }
      if (op == "swap" && N) {
        std::vector<long> count(n);
        for (int i = 0; i < n; i++) at(a, i) = T(1), at(b, i) = T(0);
        for (long r = 0; r < N; r++) {
          children();
          crossing<Box>(op, p, qq);
          int k = 0;
          while (k < n && at(c, k) == T(1)) k++;
          if (k < n) count[k]++;
        }
        LOG.add("{\"law\":true,\"op\":\"swap\",\"N\":" + std::to_string(N) + ",\"count\":" + arr(count) + "}");
      }
      if (op == "mix" && N) {
        std::vector<long> first(n), second(n), both(n), nxt(n > 1 ? n - 1 : 0);
        for (int i = 0; i < n; i++) at(a, i) = T(1), at(b, i) = T(0);
        for (long r = 0; r < N; r++) {
          children();
          crossing<Box>(op, p, qq);
          for (int i = 0; i < n; i++) {
            const bool x = at(c, i) == T(1), y = at(d, i) == T(0);
            first[i] += x;
            second[i] += y;
            both[i] += x && y;
            if (i + 1 < n) nxt[i] += x && at(c, i + 1) == T(1);
          }
        }
        LOG.add("{\"law\":true,\"op\":\"mix\",\"N\":" + std::to_string(N) + pq(p, qq) + ",\"first\":" + arr(first) +
                ",\"second\":" + arr(second) + ",\"both\":" + arr(both) + ",\"next\":" + arr(nxt) + "}");
      }
    } else if (op == "range") {
      if constexpr (Real && !Mat) {
        using G = GADefaults<V, void>;
        auto call = [&]() {
          if (p == 0) G::template iFunNd<>(&c);
          else if (p == 1) G::template iFunNf<>(&c);
          else if (p == 2) G::template iFunNd<DivEncode<1, 4>::code, DivEncode<7, 2>::code>(&c);
          else if (p == 3) G::template iFunNf<DivEncode<3, 1>::code, DivEncode<13, 4>::code>(&c);
          else G::template iFunNd<DivEncode<0, 1>::code, DivEncode<40, 1>::code>(&c);
        };
        const double lo = p == 2 ? 0.25 : p == 3 ? 3 : 0, hi = p < 2 ? 1 : p == 2 ? 3.5 : p == 3 ? 3.25 : 40;
        std::vector<std::vector<long>> count(n, std::vector<long>(8));
        std::vector<long> low(n), near(n > 1 ? n - 1 : 0);
        for (long r = 0; r < std::max(N, reps); r++) {
          const V a0 = a, b0 = b;
          children();
          call();
          if (r < reps)
            log(op, a0, b0, ",\"lo\":[" + std::to_string(fix(lo)) + "],\"hi\":[" + std::to_string(fix(hi)) + "]");
          for (int i = 0; i < n; i++) {
            const int k = int((double(at(c, i)) - lo) / (hi - lo) * 8);
            if (k >= 0 && k < 8) count[i][k]++;
            low[i] = k < 4;
            if (i) near[i - 1] += low[i] && low[i - 1];
          }
        }
        std::string cs = "[";
        for (int i = 0; i < n; i++) cs += (i ? "," : "") + arr(count[i]);
        LOG.add("{\"law\":true,\"op\":\"range\",\"N\":" + std::to_string(std::max(N, reps)) + ",\"near\":" + arr(near) +
                ",\"count\":" + cs + "]}");
      }
    } else {  // with a box
      Box box;
      V lo, hi, de;
      fill(lo, sc.s("lo"));
      fill(hi, sc.s("hi"));
      if constexpr (Dyn) {
        if constexpr (Mat) box.setDimensions(2, n / 2);
        else box.setDimensions(n);
      }
      if constexpr (!std::is_same_v<T, bool>) {
        if constexpr (Box::Shape == RECTANGLE_BOX) box.setRange(lo, hi);
        else box.setRange(at(lo, 0), at(hi, 0));
      }
      std::string more = ",\"lo\":" + fixed(lo) + ",\"hi\":" + fixed(hi);
      if constexpr (Real) {
        fill(de, sc.s("de"));
        if constexpr (Box::Shape == RECTANGLE_BOX) box.setDelta(de);
        else box.setDelta(at(de, 0));
        more += ",\"de\":" + fixed(de);
      } else {
        de = a;
        more += ",\"de\":" + arr(std::vector<long>(n, 65536));
      }
      using G = GADefaults<V, Box>;
      for (long r = 0; r < reps; r++) {
        const V a0 = a, b0 = b;
        children();
        if (op == "init") G::template iFun<>(&c, &box);
        else if (op == "step") G::template mFun<>(&a, &c, &box);
        else if constexpr (std::is_integral_v<T>) G::template mFun_s<>(&a, &c, &box);
        log(op, a0, b0, more);
      }
      if constexpr (std::is_integral_v<T>) if (op == "symbol" && N) {
        std::vector<std::vector<long>> count(n);
        std::vector<long> where(n);
        for (int i = 0; i < n; i++) {
          count[i].resize(size_t(long(at(hi, i)) - long(at(lo, i)) + 1));
          where[i] = long(at(a, i)) - long(at(lo, i)) + 1;
        }
        for (long r = 0; r < N; r++) {
          G::template mFun_s<>(&a, &c, &box);
          for (int i = 0; i < n; i++)
            if (at(c, i) != at(a, i)) {
              const long k = long(at(c, i)) - long(at(lo, i));
              if (k >= 0 && k < long(count[i].size())) count[i][k]++;
            }
        }
        std::string cs = "[";
        for (int i = 0; i < n; i++) cs += (i ? "," : "") + arr(count[i]);
        LOG.add("{\"law\":true,\"op\":\"symbol\",\"N\":" + std::to_string(N) + ",\"at\":" + arr(where) + ",\"count\":" +
                cs + "]}");
      }
    }
  }
};

using namespace Eigen;
#define TYPE(name, V, B) if (t == name) { Run<V>(sc).template go<B>(); return true; }
template <class V> using CR = ContinousBox<V, RECTANGLE_BOX>;
template <class V> using CS = ContinousBox<V, SQUARE_BOX>;
template <class V> using DR = DiscretBox<V, RECTANGLE_BOX>;
template <class V> using DS = DiscretBox<V, SQUARE_BOX>;
typedef std::array<double, 4> sd4;
typedef std::array<int, 4> si4;
typedef std::array<bool, 4> sb4;
typedef Array<double, 4, 1> ed4;
typedef Array<float, 4, 1> ef4;
typedef Array<double, 2, 2> em4;
typedef Array<int, 2, 2> ei4;
typedef std::vector<uint8_t> vu;

static bool pick(const std::string& t, const Scenario& sc) {
  TYPE("sdfix", sd4, CR<sd4>)
  TYPE("sddyn", std::vector<double>, CS<std::vector<double>>)
  TYPE("sfdyn", std::vector<float>, CR<std::vector<float>>)
  TYPE("edfix", ed4, CS<ed4>)
  TYPE("effix", ef4, CR<ef4>)
  TYPE("eddyn", ArrayXd, CR<ArrayXd>)
  TYPE("emfix", em4, CR<em4>)
  TYPE("emdyn", ArrayXXd, CS<ArrayXXd>)
  TYPE("sifix", si4, DS<si4>)
  TYPE("sidyn", std::vector<int>, DR<std::vector<int>>)
  TYPE("eidyn", ArrayXi, DS<ArrayXi>)
  TYPE("eifix", ei4, DR<ei4>)
  TYPE("sudyn", vu, DR<vu>)
  TYPE("sbfix", sb4, DS<sb4>)
  return false;
}

int main() {
  guard();
  Scenario sc;
  while (vp::next(sc)) {
    heu::internal::global_mt19937().seed(unsigned(sc.i("seed", 1)));
    LOG.begin(sc.s("name"));
    if (!pick(sc.s("type"), sc)) die_note("VP-BADTYPE ", 43);
    LOG.end();
  }
  return 0;
}
