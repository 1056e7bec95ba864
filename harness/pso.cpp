// Records complete histories of PSO runs through the public interface.
#include "common.hpp"
#include <Eigen/Dense>
#include <HeuristicFlow/PSO>
#ifdef _OPENMP
#include <omp.h>
#endif
using namespace vp;

static const int FIX = 5, TOP = 256;
static int DIM = FIX, ROWS = 1;
static const double Q = 256;
static bool TWIN = false;  // names of positions do not depend on the order of their appearance
static int hash30(const std::vector<double>& k) {
  uint64_t h = 1469598103934665603ull;
  for (double d : k) {
    uint64_t u;
    memcpy(&u, &d, 8);
    for (int i = 0; i < 8; i++, u >>= 8) h = (h ^ (u & 255)) * 1099511628211ull;
  }
  return int((h ^ (h >> 32)) & 0x3FFFFFFF);
}

struct Ctx {
  std::mt19937 rng;
  std::map<std::vector<double>, int> ids;
  std::string fmode = "coarse", map = "int";
  int work = 0;
  bool num = false, init = false;
  size_t lastGen = 0;
  std::mutex m;
  std::function<std::pair<long, size_t>(const void*)> where;  // particle index, generation
  std::function<void()> snap;
  double lo[TOP], hi[TOP], vm[TOP];
};
static Ctx* X;

template <class V>
static auto& ref(V& v, int i) {
  if constexpr (std::is_same_v<std::decay_t<V>, Eigen::ArrayXXd>) return v(i);
  else return v[i];
}
template <class V>
static std::vector<double> vec(const V& v) {
  std::vector<double> r;
  for (int i = 0; i < DIM; i++) r.push_back(ref(v, i) == 0 ? 0.0 : ref(v, i));
  return r;
}
template <class V>
static int pid(const V& v) {
  auto k = vec(v);
  if (TWIN) return hash30(k);
  auto it = X->ids.find(k);
  if (it != X->ids.end()) return it->second;
  const int n = int(X->ids.size()) + 1;
  X->ids[k] = n;
  return n;
}
template <class V>
static std::string fx(const V& v, bool pos = false) {  // fixed point; rounded outwards at the box
  std::string s = "[";
  for (int i = 0; i < DIM; i++) {
    double x = ref(v, i) * Q;
    if (!(std::abs(x) < 1e6)) x = x > 0 ? 1e6 : -1e6;
    long n = std::lround(x);
    if (pos && ref(v, i) > X->hi[i]) n = long(std::ceil(x));
    if (pos && ref(v, i) < X->lo[i]) n = long(std::floor(x));
    s += (i ? "," : "") + std::to_string(n);
  }
  return s + "]";
}
template <class V>
static long rank(const V& v) {
  double s = 0;
  for (int i = 0; i < DIM; i++) s += std::abs(ref(v, i) - i);
  if (X->fmode == "const") return 5;
  if (X->fmode == "two") return ref(v, 0) > 0 ? 1 : 2;
  if (X->fmode == "fine") return std::min(999999L, long(s * 1000));
  return long(s / 4);
}
static double mapFit(long r) {
  const std::string& m = X->map;
  if (m == "tiny") return 1.0 + double(r) * 2.220446049250313e-16;
  if (m == "huge") return (double(r) - 100) * 1e300;
  if (m == "neg") return double(r) - 1e6;
  if (m == "inf") return r < 6 ? -INFINITY : r > 60 ? INFINITY : double(r);
  return double(r);
}
static long unmap(double f) {
  const std::string& m = X->map;
  if (m == "tiny") return std::lround((f - 1.0) / 2.220446049250313e-16);
  if (m == "huge") return std::lround(f / 1e300) + 100;
  if (m == "neg") return std::lround(f + 1e6);
  if (m == "inf") return f == -INFINITY ? -1000000 : f == INFINITY ? 1000000 : std::lround(f);
  return std::lround(f);
}
struct Args {
  long magic = 0;
};
template <class V>
static void doF(const V* v, double* f) {
  volatile double z = 0;
  for (int i = 0; i < X->work; i++) z = z + i;
  const double y = mapFit(rank(*v));
  {
    std::lock_guard<std::mutex> g(X->m);
    auto w = X->where(v);
    if (!X->init && w.second != X->lastGen) {
      X->lastGen = w.second;
      X->snap();
    }
    LOG.add("{\"k\":\"E\",\"i\":" + std::to_string(w.first) + ",\"x\":" + std::to_string(pid(*v)) +
            ",\"f\":" + std::to_string(unmap(y)) + "}");
  }
  *f = y;
}
template <class V>
static void doI(V* p, V* v) {
  if constexpr (std::is_same_v<V, std::vector<double>>) {
    p->resize(DIM);
    v->resize(DIM);
  } else if constexpr (std::is_same_v<V, Eigen::ArrayXd>) {
    p->setZero(DIM);
    v->setZero(DIM);
  } else if constexpr (std::is_same_v<V, Eigen::ArrayXXd>) {
    p->setZero(ROWS, DIM / ROWS);
    v->setZero(ROWS, DIM / ROWS);
  }
  for (int i = 0; i < DIM; i++) {
    const int n = int(X->hi[i] - X->lo[i]);
    ref(*p, i) = X->lo[i] + double(X->rng() % (n + 1));
    ref(*v, i) = double(int(X->rng() % 5) - 2) * X->vm[i] / 2;
  }
}
template <class V, class A>
struct Fn {
  static void chk(const A* a) {
    if (a->magic != 4711) LOG.add("{\"k\":\"BADARGS\"}");
  }
  static void f(const V* v, const A* a, double* y) { chk(a), doF(v, y); }
  static void i(V* p, V* v, const A* a) { chk(a), doI(p, v); }
};
template <class V>
struct Fn<V, void> {
  static void f(const V* v, double* y) { doF(v, y); }
  static void i(V* p, V* v) { doI(p, v); }
};

template <class S, bool rec>
static void drive(S& s, const Scenario& sc) {
  using P = std::decay_t<decltype(s.population().front())>;
  X->where = [&](const void* p) {
    const char* b = (const char*)&s.population().front().position;
    const long off = (const char*)p - b;
    long i = off / long(sizeof(P));
    if (off < 0 || off % long(sizeof(P)) || i >= long(s.population().size())) i = -1;
    return std::make_pair(i + 1, X->init ? size_t(0) : size_t(s.generation()));
  };
  auto body = [&](bool fit) {
    std::string o = ",\"fl\":" + std::to_string(s.failTimes()) + ",\"b\":[" +
                    std::to_string(pid(s.globalBest().position)) + "," +
                    std::to_string(unmap(s.globalBest().fitness)) + "],\"p\":[";
    bool first = true;
    for (auto& p : s.population()) {
      if (!first) o += ",";
      first = false;
      o += "[" + std::to_string(pid(p.position)) + "," +
           (fit ? std::to_string(unmap(p.fitness)) : std::string("0")) + "," +
           std::to_string(pid(p.pBest.position)) + "," + std::to_string(unmap(p.pBest.fitness)) + "]";
    }
    o += "]";
    if (X->num) {
      o += ",\"gb\":" + fx(s.globalBest().position) + ",\"m\":[";
      first = true;
      for (auto& p : s.population()) {
        if (!first) o += ",";
        first = false;
        o += "[" + fx(p.position, true) + "," + fx(p.velocity) + "," + fx(p.pBest.position) + "]";
      }
      o += "]";
    } else
      o += ",\"gb\":[],\"m\":[]";
    return o;
  };
  X->snap = [&]() {
    LOG.add("{\"k\":\"G\",\"n\":" + std::to_string(s.generation()) + body(false) + "}");
  };
  LOG.begin(sc.s("name"));
  for (const std::string& op : split(sc.s("ops"), ';')) {
    if (op[0] == 'C') {  // C:K,maxGen,maxFail,w8,cP8,cG8
      auto v = split(op.substr(2), ',');
      long n[6];
      for (int i = 0; i < 6; i++) n[i] = atol(v[i].c_str());
      heu::PSOOption o;
      o.populationSize = n[0];
      o.maxGeneration = n[1];
      o.maxFailTimes = n[2];
      o.inertiaFactor = n[3] / 8.0;
      o.learnFactorP = n[4] / 8.0;
      o.learnFactorG = n[5] / 8.0;
      s.setOption(o);
      std::string l, h, m;
      auto F = [](double* p) { return fx(p); };
      LOG.add("{\"k\":\"C\",\"c\":{\"K\":" + std::to_string(n[0]) + ",\"maxGen\":" +
              std::to_string(n[1]) + ",\"maxFail\":" + std::to_string(n[2]) + ",\"w8\":" +
              std::to_string(n[3]) + ",\"cP8\":" + std::to_string(n[4]) + ",\"cG8\":" +
              std::to_string(n[5]) + ",\"dir\":" + q(sc.s("dir")) + ",\"lo\":" + F(X->lo) +
              ",\"hi\":" + F(X->hi) + ",\"vm\":" + F(X->vm) + ",\"record\":" +
              (rec ? "true" : "false") + ",\"zero\":" + (sc.s("init") == "own" ? "false" : "true") +
              ",\"num\":" + (X->num ? "true" : "false") + "}}");
    } else if (op == "I") {
      X->init = true;
      LOG.add("{\"k\":\"P\"}");
      s.initializePop();
      X->init = false;
      LOG.add("{\"k\":\"I\",\"g\":" + std::to_string(s.generation()) + body(true) + "}");
    } else if (op == "R") {
      X->lastGen = 0;
      LOG.add("{\"k\":\"R\"}");
      s.run();
      std::string o = "{\"k\":\"Z\",\"g\":" + std::to_string(s.generation()) + body(true) + ",\"r\":[";
      if constexpr (rec) {
        bool first = true;
        for (double f : s.record()) {
          o += (first ? "" : ",") + std::to_string(unmap(f));
          first = false;
        }
      }
      LOG.add(o + "]}");
    }
  }
  LOG.end();
}

template <class V, heu::BoxShape BS, heu::FitnessOption FO, heu::RecordOption RO, class A, bool own>
static void go(const Scenario& sc) {
  using namespace heu;
  using PP = heu::internal::PSOParameterPack<V, double, A>;
  constexpr typename PP::iFun_t I =
      own ? (typename PP::iFun_t)(nullptr) : PP::defaultInitializeFunctionThatShouldNotBeCalled;
  PSO<V, BS, FO, RO, A, nullptr, I> s;
  s.setfFun(Fn<V, A>::f);
  if constexpr (own) s.setiFun(Fn<V, A>::i);
  if constexpr (!std::is_void_v<A>) {
    A a;
    a.magic = 4711;
    s.setArgs(a);
  }
  if constexpr (std::is_same_v<V, Eigen::ArrayXXd>) s.setDimensions(ROWS, DIM / ROWS);
  else if constexpr (!array_traits<V>::isFixedSize) s.setDimensions(DIM);
  if constexpr (BS == SQUARE_BOX)
    s.setPVRange(X->lo[0], X->hi[0], X->vm[0]);
  else {
    V a, b, c;
    if constexpr (std::is_same_v<V, Eigen::ArrayXXd>) {
      a.resize(ROWS, DIM / ROWS);
      b.resize(ROWS, DIM / ROWS);
      c.resize(ROWS, DIM / ROWS);
    } else if constexpr (!array_traits<V>::isFixedSize) {
      a.resize(DIM);
      b.resize(DIM);
      c.resize(DIM);
    }
    for (int i = 0; i < DIM; i++) {
      ref(a, i) = X->lo[i];
      ref(b, i) = X->hi[i];
      ref(c, i) = X->vm[i];
    }
    s.setPVRange(a, b, c);
  }
  drive<decltype(s), RO == RECORD_FITNESS>(s, sc);
}

template <class V, heu::BoxShape BS>
static void dispatch(const Scenario& sc) {
  using namespace heu;
  const bool less = sc.s("dir") == "less";
  if (sc.s("init") == "own") {
    if (less) return go<V, BS, FITNESS_LESS_BETTER, RECORD_FITNESS, void, true>(sc);
    return go<V, BS, FITNESS_GREATER_BETTER, RECORD_FITNESS, Args, true>(sc);
  }
  if (less) return go<V, BS, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, Args, false>(sc);
  return go<V, BS, FITNESS_GREATER_BETTER, RECORD_FITNESS, void, false>(sc);
}

template <class V>
static void shape(const Scenario& sc) {
  if (sc.s("box") == "square") return dispatch<V, heu::SQUARE_BOX>(sc);
  return dispatch<V, heu::RECTANGLE_BOX>(sc);
}

#ifndef VP_NO_MAIN
int main() {
  guard();
  Scenario sc;
  while (vp::next(sc)) {
    Ctx ctx;
    X = &ctx;
    X->fmode = sc.s("fmode", "coarse");
    X->map = sc.s("map", "int");
    X->work = int(sc.i("work", 0));
    X->num = sc.i("num", 0);
    TWIN = sc.i("twin", 0);
    X->rng.seed(unsigned(sc.i("seed", 1)));
    heu::internal::global_mt19937().seed(unsigned(sc.i("seed", 1)));
    const int th = int(sc.i("th", 1));
#ifdef _OPENMP
    omp_set_num_threads(th);
#endif
    heu::setThreadNum(th);
    DIM = sc.s("type").find("fix") == std::string::npos ? int(sc.i("dim", FIX)) : FIX;
    ROWS = int(sc.i("rows", 1));
    for (int i = 0; i < DIM; i++) {
      const bool sq = sc.s("box") == "square";
      const int k = sq ? 0 : i;
      X->lo[i] = double(-(long(sc.i("lo", 20)) - k % 5 * 3));
      X->hi[i] = double(long(sc.i("hi", 20)) - k % 5 * 2);
      X->vm[i] = sc.i("vm4", 8) / 4.0 + k % 5 * 0.5;
    }
    const std::string t = sc.s("type");
    if (t == "efix") shape<Eigen::Array<double, FIX, 1>>(sc);
    else if (t == "edyn") shape<Eigen::ArrayXd>(sc);
    else if (t == "emat") shape<Eigen::ArrayXXd>(sc);
    else if (t == "sfix") shape<std::array<double, FIX>>(sc);
    else shape<std::vector<double>>(sc);
  }
  return 0;
}
#endif
