// Records complete histories of AOS runs through the public interface.
#include "common.hpp"
#include <Eigen/Dense>
#include <HeuristicFlow/AOS>
#ifdef _OPENMP
#include <omp.h>
#endif
using namespace vp;

static const int FIX = 4, TOP = 128;
static int DIM = FIX, ROWS = 1;
static const double Q = 256;
static bool TWIN = false;  // names of states do not depend on the order of their appearance
static int hash30(const std::vector<double>& k) {
  uint64_t h = 1469598103934665603ull;
  for (double d : k) {
    uint64_t u;
    memcpy(&u, &d, 8);
    for (int i = 0; i < 8; i++, u >>= 8) h = (h ^ (u & 255)) * 1099511628211ull;
  }
  return int((h ^ (h >> 32)) & 0x3FFFFFFF);
}

struct Ctx {
  std::mt19937 rng;
  std::map<std::vector<double>, int> ids;
  std::string fmode = "coarse";
  long off = 0;  // energy is (rank + off) * 2^ex
  int ex = 0;
  int work = 0;
  bool boxed = true, rect = true;
  bool fresh = true;  // next evaluation is the first of a generation
  size_t lastGen = 0;
  std::mutex m;
  std::function<long(const void*)> where;
  std::function<size_t()> generation;
  std::function<void()> snap;
  double lo[TOP], hi[TOP], dl[TOP];
};
static Ctx* X;

template <class V>
static auto& ref(V& v, int i) {
  if constexpr (std::is_same_v<std::decay_t<V>, Eigen::ArrayXXd>) return v(i);
  else return v[i];
}
template <class V>
static int pid(const V& v) {
  std::vector<double> k;
  for (int i = 0; i < DIM; i++) k.push_back(ref(v, i) == 0 ? 0.0 : ref(v, i));
  if (TWIN) return hash30(k);
  auto it = X->ids.find(k);
  if (it != X->ids.end()) return it->second;
  const int n = int(X->ids.size()) + 1;
  X->ids[k] = n;
  return n;
}
static long fix(double x) {
  x *= Q;
  if (!(std::abs(x) < 1e6)) x = x > 0 ? 1e6 : -1e6;
  return std::lround(x);
}
template <class V>
static std::string fx(const V& v, bool pos = false) {
  std::string s = "[";
  for (int i = 0; i < DIM; i++) {
    const double x = ref(v, i);
    long n = fix(x);
    if (pos && X->boxed && x > X->hi[i]) n = long(std::ceil(x * Q));
    if (pos && X->boxed && x < X->lo[i]) n = long(std::floor(x * Q));
    s += (i ? "," : "") + std::to_string(n);
  }
  return s + "]";
}
template <class V>
static long rank(const V& v) {
  double s = 0;
  for (int i = 0; i < DIM; i++) s += std::abs(ref(v, i) - i);
  if (X->fmode == "const") return 5;
  if (X->fmode == "two") return ref(v, 0) > 0 ? 1 : 2;
  if (X->fmode == "neg") return long(s) - 40;
  if (X->fmode == "fine") return std::min(2000L, long(s * 8));
  return std::min(2000L, long(s / 4));
}
static double unmap(double e) { return std::ldexp(e, -X->ex) - double(X->off); }
struct Args {
  long magic = 0;
};
template <class V>
static void doF(const V* v, double* f) {
  volatile double z = 0;
  for (int i = 0; i < X->work; i++) z = z + i;
  const long y = rank(*v);
  {
    std::lock_guard<std::mutex> g(X->m);
    if (X->fresh || X->generation() != X->lastGen) {
      X->fresh = false;
      X->lastGen = X->generation();
      X->snap();
    }
    LOG.add("{\"k\":\"E\",\"i\":" + std::to_string(X->where(v)) + ",\"x\":" +
            std::to_string(pid(*v)) + ",\"f\":" + std::to_string(y) + "}");
  }
  *f = std::ldexp(double(y + X->off), X->ex);
}
template <class V>
static void doI(V* p) {
  if constexpr (std::is_same_v<V, std::vector<double>>) p->resize(DIM);
  else if constexpr (std::is_same_v<V, Eigen::ArrayXd>) p->setZero(DIM);
  else if constexpr (std::is_same_v<V, Eigen::ArrayXXd>) p->setZero(ROWS, DIM / ROWS);
  for (int i = 0; i < DIM; i++) {
    const int n = int(X->hi[i] - X->lo[i]);
    ref(*p, i) = X->lo[i] + double(X->rng() % (n + 1));
  }
}
template <class V, class A>
struct Fn {
  static void chk(const A* a) {
    if (a->magic != 4711) LOG.add("{\"k\":\"BADARGS\"}");
  }
  static void f(const V* v, const A* a, double* y) { chk(a), doF(v, y); }
  static void i(V* p, const A* a) { chk(a), doI(p); }
};
template <class V>
struct Fn<V, void> {
  static void f(const V* v, double* y) { doF(v, y); }
  static void i(V* p) { doI(p); }
};

template <class S, bool rec>
static void drive(S& s, const Scenario& sc) {
  X->where = [&](const void* p) {
    long i = 1;
    for (auto& e : s.electrons()) {
      if ((const void*)&e.state == p) return i;
      i++;
    }
    return 0L;
  };
  X->generation = [&]() { return s.generation(); };
  auto body = [&]() {
    std::string o = "\"g\":" + std::to_string(s.generation()) + ",\"es\":" +
                    std::to_string(s.earlyStopCounter()) + ",\"el\":[";
    bool first = true;
    std::map<const void*, int> idx;
    int n = 0;
    bool any = false;
    for (auto& e : s.electrons()) {
      idx[&e] = ++n;
      if (!first) o += ",";
      first = false;
      any = any || e.isComputed;
      o += "[" + std::to_string(pid(e.state)) + "," +
           (e.isComputed ? std::to_string(std::lround(unmap(e.energy))) : std::string("0")) + "," +
           (e.isComputed ? "0" : "1") + "]";
    }
    o += "],\"m\":[";
    first = true;
    for (auto& e : s.electrons()) {
      if (!first) o += ",";
      first = false;
      o += fx(e.state, true);
    }
    o += "],\"L\":[";
    first = true;
    for (auto& l : s.layers()) {
      if (!first) o += ",";
      first = false;
      o += "[";
      bool f2 = true;
      for (auto* e : l) {
        o += (f2 ? "" : ",") + std::to_string(idx.count(e) ? idx[e] : 0);
        f2 = false;
      }
      o += "]";
    }
    o += "]";
    if (any) {
      auto& b = s.bestElectron();
      bool found = idx.count(&b);
      o += ",\"b\":[" + std::to_string(found ? idx[&b] : 0) + "," +
           (found ? std::to_string(pid(b.state)) : "0") + "," +
           (found ? std::to_string(std::lround(unmap(b.energy))) : "0") + "]";
      o += ",\"be\":" + std::to_string(fix(unmap(s.bindingEnergy()))) + ",\"bs\":" + fx(s.bindingState());
    } else
      o += ",\"b\":[0,0,0],\"be\":0,\"bs\":[]";
    return o;
  };
  auto layers = [&]() {  // averages of the layers, meaningful once the children exist
    std::string o = ",\"lb\":[";
    bool first = true;
    for (auto& l : s.layers()) {
      if (!first) o += ",";
      first = false;
      o += "[" + std::to_string(fix(unmap(l.bindingEnergy))) + "," +
           std::to_string(l.layerBestIdx >= 0 && l.layerBestIdx < int(l.size()) ? l.layerBestIdx + 1
                                                                                 : 0) +
           "," + fx(l.bindingState) + "]";
    }
    return o + "]";
  };
  X->snap = [&]() { LOG.add("{\"k\":\"G\"," + body() + layers() + "}"); };
  LOG.begin(sc.s("name"));
  for (const std::string& op : split(sc.s("ops"), ';')) {
    if (op[0] == 'C') {  // C:N,maxGen,maxEs,maxLayer,ph4
      auto v = split(op.substr(2), ',');
      long n[5];
      for (int i = 0; i < 5; i++) n[i] = atol(v[i].c_str());
      heu::AOSOption o;
      o.electronNum = n[0];
      o.maxGeneration = n[1];
      o.maxEarlyStop = n[2];
      o.maxLayerNum = n[3];
      o.photonRate = n[4] / 4.0;
      s.setOption(o);
      LOG.add("{\"k\":\"C\",\"c\":{\"N\":" + std::to_string(n[0]) + ",\"maxGen\":" +
              std::to_string(n[1]) + ",\"maxEs\":" + std::to_string(n[2]) + ",\"maxLayer\":" +
              std::to_string(n[3]) + ",\"ph4\":" + std::to_string(n[4]) + ",\"dir\":" +
              q(sc.s("dir")) + ",\"lo\":" + fx(X->lo) + ",\"hi\":" + fx(X->hi) + ",\"dl\":" +
              fx(X->dl) + ",\"boxed\":" + (X->boxed ? "true" : "false") + ",\"record\":" +
              (rec ? "true" : "false") + "}}");
    } else if (op == "I") {
      s.initializePop();
      LOG.add("{\"k\":\"I\"," + body() + "}");
    } else if (op == "R") {
      X->fresh = true;
      LOG.add("{\"k\":\"R\"}");
      s.run();
      std::string o = "{\"k\":\"Z\"," + body() + ",\"r\":[";
      if constexpr (rec) {
        bool first = true;
        for (double f : s.record()) {
          o += (first ? "" : ",") + std::to_string(std::lround(unmap(f)));
          first = false;
        }
      }
      LOG.add(o + "]}");
    }
  }
  LOG.end();
}

template <class V>
static V mk(const double* p) {
  V a;
  if constexpr (std::is_same_v<V, Eigen::ArrayXXd>) a.resize(ROWS, DIM / ROWS);
  else if constexpr (!heu::array_traits<V>::isFixedSize) a.resize(DIM);
  for (int i = 0; i < DIM; i++) ref(a, i) = p[i];
  return a;
}
template <class V, int shape, heu::FitnessOption FO, heu::RecordOption RO, class A, bool own>
static void go(const Scenario& sc) {
  using namespace heu;
  using PP = heu::internal::AOSParameterPack<V, double, A>;
  constexpr typename PP::iFun_t I =
      own ? (typename PP::iFun_t)(nullptr) : PP::defaultInitializeFunctionThatShouldNotBeCalled;
  using Box = std::conditional_t<shape == 0, ContinousBox<V, SQUARE_BOX>,
                                 std::conditional_t<shape == 1, ContinousBox<V, RECTANGLE_BOX>,
                                                    GaussianBox<V>>>;
  AOS<Box, FO, RO, A, nullptr, I> s;
  s.setfFun(Fn<V, A>::f);
  if constexpr (own) s.setiFun(Fn<V, A>::i);
  if constexpr (!std::is_void_v<A>) {
    A a;
    a.magic = 4711;
    s.setArg(a);
  }
  if constexpr (!array_traits<V>::isFixedSize && !std::is_same_v<V, Eigen::ArrayXXd>)
    s.setDimensions(DIM);
  if constexpr (std::is_same_v<V, Eigen::ArrayXXd>) s.setDimensions(ROWS, DIM / ROWS);
  if constexpr (shape == 0) {
    s.setRange(X->lo[0], X->hi[0]);
    s.setDelta(X->dl[0]);
  } else if constexpr (shape == 1) {
    s.setRange(mk<V>(X->lo), mk<V>(X->hi));
    if constexpr (std::is_same_v<V, Eigen::ArrayXXd>) s.delta() = mk<V>(X->dl);
    else s.setDelta(mk<V>(X->dl));
  } else {
    s.setMu(3);
    s.setSigma(5);
    s.setDelta(X->dl[0]);
  }
  drive<decltype(s), RO == RECORD_FITNESS>(s, sc);
}

template <class V, int shape>
static void dispatch(const Scenario& sc) {
  using namespace heu;
  const bool less = sc.s("dir") == "less";
  if (sc.s("init") == "own") {
    if (less) return go<V, shape, FITNESS_LESS_BETTER, RECORD_FITNESS, void, true>(sc);
    return go<V, shape, FITNESS_GREATER_BETTER, RECORD_FITNESS, Args, true>(sc);
  }
  if (less) return go<V, shape, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, Args, false>(sc);
  return go<V, shape, FITNESS_GREATER_BETTER, RECORD_FITNESS, void, false>(sc);
}
template <class V>
static void shapes(const Scenario& sc) {
  const std::string b = sc.s("box");
  if (b == "square") return dispatch<V, 0>(sc);
  if (b == "rect") return dispatch<V, 1>(sc);
  return dispatch<V, 2>(sc);
}

int main() {
  guard();
  Scenario sc;
  while (vp::next(sc)) {
    Ctx ctx;
    X = &ctx;
    X->fmode = sc.s("fmode", "coarse");
    X->off = sc.i("off", 0), X->ex = int(sc.i("ex", 0));
    TWIN = sc.i("twin", 0);
    X->work = int(sc.i("work", 0));
    X->rng.seed(unsigned(sc.i("seed", 1)));
    heu::internal::global_mt19937().seed(unsigned(sc.i("seed", 1)));
    srand(unsigned(sc.i("seed", 1)));
    const int th = int(sc.i("th", 1));
#ifdef _OPENMP
    omp_set_num_threads(th);
#endif
    heu::setThreadNum(th);
    X->boxed = sc.s("box") != "inf";
    DIM = sc.s("type").find("fix") == std::string::npos ? int(sc.i("dim", FIX)) : FIX;
    ROWS = int(sc.i("rows", 1));
    for (int i = 0; i < DIM; i++) {
      const int k = sc.s("box") == "rect" ? i : 0;
      X->lo[i] = double(-(long(sc.i("lo", 20)) - k % 5 * 3));
      X->hi[i] = double(long(sc.i("hi", 20)) - k % 5 * 2);
      X->dl[i] = sc.i("dl4", 8) / 4.0 + k % 5 * 0.5;
    }
    const std::string t = sc.s("type");
#if PART == 0
    if (t == "efix") shapes<Eigen::Array<double, FIX, 1>>(sc);
#elif PART == 1
    if (t == "edyn") shapes<Eigen::ArrayXd>(sc);
#elif PART == 2
    if (t == "emat") shapes<Eigen::ArrayXXd>(sc);
#elif PART == 3
    if (t == "sfix") shapes<std::array<double, FIX>>(sc);
#else
    if (t == "sdyn") shapes<std::vector<double>>(sc);
#endif
  }
  return 0;
}
