// Replays configuration histories into two real solvers and records, after
// every operation, all their getters and the calls of user functions.
#include "common.hpp"
#include <Eigen/Dense>
#if PART < 3
#include <HeuristicFlow/Genetic>
#elif PART == 3
#include <HeuristicFlow/PSO>
#else
#include <HeuristicFlow/AOS>
#endif
using namespace vp;

struct Arg {
  int a = 0;
  std::string s = "0";
  std::vector<int> v;
  void set(int x) {
    a = x;
    s = std::to_string(x);
    v.assign(size_t(x), x);
  }
  int see() const {
    if (s != std::to_string(a) || v.size() != size_t(a)) return -1;
    for (int x : v)
      if (x != a) return -1;
    return a;
  }
};

static std::map<std::array<int, 3>, long> CALLS;
static std::mutex MUT;
static std::mt19937 RNG;
static void hit(int slot, int id, int arg) {
  std::lock_guard<std::mutex> g(MUT);
  CALLS[{slot, id, arg}]++;
}
static double rnd() {
  std::lock_guard<std::mutex> g(MUT);
  return double(RNG() % 1001) / 100 - 5;
}
using Var = Eigen::Array<double, 3, 1>;
static void fillV(Var* v) {
  for (int i = 0; i < 3; i++) (*v)[i] = rnd();
}
static void fit(const Var* v, double* f) { *f = std::floor(v->abs().sum()); }
template <class F>
static void fit(const Var* v, F* f) {
  for (int i = 0; i < int(f->size()); i++) (*f)[i] = std::floor(std::abs((*v)[i % 3] - i));
}
static void cross(const Var* a, const Var* b, Var* c, Var* d) {
  *c = *a;
  *d = *b;
  std::swap((*c)[0], (*d)[0]);
}

// user functions, each known by slot and number
template <class F, class A>
struct G {
  template <int n> static void i(Var* v, const A* a) { hit(1, n, a->see()), fillV(v); }
  template <int n> static void f(const Var* v, const A* a, F* y) { hit(2, n, a->see()), fit(v, y); }
  template <int n> static void c(const Var* p, const Var* q, Var* r, Var* s, const A* a) {
    hit(3, n, a->see()), cross(p, q, r, s);
  }
  template <int n> static void m(const Var* p, Var* r, const A* a) { hit(4, n, a->see()), *r = *p, fillV(r); }
};
template <class F>
struct G<F, void> {
  template <int n> static void i(Var* v) { hit(1, n, 0), fillV(v); }
  template <int n> static void f(const Var* v, F* y) { hit(2, n, 0), fit(v, y); }
  template <int n> static void c(const Var* p, const Var* q, Var* r, Var* s) { hit(3, n, 0), cross(p, q, r, s); }
  template <int n> static void m(const Var* p, Var* r) { hit(4, n, 0), *r = *p, fillV(r); }
};
template <class A>
struct P {
  template <int n> static void i(Var* v, Var* w, const A* a) { hit(1, n, a->see()), fillV(v), w->setZero(); }
  template <int n> static void f(const Var* v, const A* a, double* y) { hit(2, n, a->see()), fit(v, y); }
};
template <>
struct P<void> {
  template <int n> static void i(Var* v, Var* w) { hit(1, n, 0), fillV(v), w->setZero(); }
  template <int n> static void f(const Var* v, double* y) { hit(2, n, 0), fit(v, y); }
};
template <class A>
struct E : G<double, A> {};

static std::string mil(double x) {
  const double k = std::round(x * 1000);
  return std::to_string(std::abs(k) < 1e8 && x == k / 1000.0 ? long(k) : -77777777L);
}
static std::string num(size_t x) { return std::to_string(x < 100000000 ? long(x) : -77777777L); }

#define TABLE(slot)                                                                              \
  template <class S, class U>                                                                    \
  static int id_##slot(decltype(std::declval<const S&>().slot##Fun()) p) {                       \
    if (p == nullptr) return 0;                                                                  \
    if (p == &U::template slot<1>) return 1;                                                     \
    if (p == &U::template slot<2>) return 2;                                                     \
    if (p == &U::template slot<3>) return 3;                                                     \
    if (p == &U::template slot<9>) return 9;                                                     \
    return 7;                                                                                    \
  }                                                                                              \
  template <class S, class U>                                                                    \
  static void set_##slot(S& s, int n) {                                                          \
    if (n == 1) s.set##slot##Fun(&U::template slot<1>);                                          \
    else if (n == 2) s.set##slot##Fun(&U::template slot<2>);                                     \
    else s.set##slot##Fun(U::template slot<3>);                                                  \
  }
TABLE(i)
TABLE(f)
TABLE(c)
TABLE(m)

enum Fam { SOGA_, NSGA2_, NSGA3_, NSGA3D_, PSO_, AOS_ };
struct Decl {
  Fam fam;
  int part, sm, less, obj, arg, i, f, c, m;
};
#include "config_kinds.hpp"

template <int k>
struct Kind {
  static constexpr Decl D = KINDS[k - 1];
  using A = std::conditional_t<D.arg, Arg, void>;
  static constexpr int O = D.obj == 0 ? Eigen::Dynamic : D.obj;
#if PART < 3
  using F = std::conditional_t<D.fam == SOGA_, double, Eigen::Array<double, O, 1>>;
  using U = G<F, A>;
  using B = heu::internal::GAAbstract<Var, F, A>;
  static constexpr typename B::initializeFun I = D.i == 9 ? &U::template i<9> : nullptr;
  static constexpr typename B::fitnessFun FF = D.f == 9 ? &U::template f<9> : nullptr;
  static constexpr typename B::crossoverFun C = D.c == 9 ? &U::template c<9> : nullptr;
  static constexpr typename B::mutateFun M = D.m == 9 ? &U::template m<9> : nullptr;
#if PART < 2
  using S = heu::SOGA<Var, D.less ? heu::FITNESS_LESS_BETTER : heu::FITNESS_GREATER_BETTER,
                      D.arg ? heu::RECORD_FITNESS : heu::DONT_RECORD_FITNESS,
                      heu::SelectMethod(D.sm), A, I, FF, C, M>;
#else
  template <int z, class = void>
  struct pick {
    using type = heu::NSGA2<Var, O, heu::FITNESS_LESS_BETTER,
                            D.arg ? heu::RECORD_FITNESS : heu::DONT_RECORD_FITNESS, A, I, FF, C, M>;
  };
  template <class z>
  struct pick<1, z> {
    using type = heu::NSGA3<Var, O, D.arg ? heu::RECORD_FITNESS : heu::DONT_RECORD_FITNESS,
                            D.fam == NSGA3_ ? heu::SINGLE_LAYER : heu::DOUBLE_LAYER, A, I, FF, C, M>;
  };
  using S = typename pick<D.fam != NSGA2_>::type;
#endif
#elif PART == 3
  using U = P<A>;
  using B = heu::internal::PSOParameterPack<Var, double, A>;
  static constexpr typename B::iFun_t Def = B::defaultInitializeFunctionThatShouldNotBeCalled;
  static constexpr typename B::iFun_t I = D.i == 8 ? Def : D.i == 9 ? &U::template i<9> : nullptr;
  static constexpr typename B::fFun_t FF = D.f == 9 ? &U::template f<9> : nullptr;
  using S = heu::PSO<Var, heu::RECTANGLE_BOX, heu::FITNESS_LESS_BETTER, heu::RECORD_FITNESS, A, FF, I>;
#else
  using U = E<A>;
  using B = heu::internal::AOSParameterPack<Var, double, A>;
  static constexpr typename B::iFun_t Def = B::defaultInitializeFunctionThatShouldNotBeCalled;
  static constexpr typename B::iFun_t I = D.i == 8 ? Def : D.i == 9 ? &U::template i<9> : nullptr;
  static constexpr typename B::fFun_t FF = D.f == 9 ? &U::template f<9> : nullptr;
  using S = heu::AOS<heu::ContinousBox<Var, heu::RECTANGLE_BOX>, heu::FITNESS_LESS_BETTER,
                     heu::RECORD_FITNESS, A, FF, I>;
#endif
  static constexpr bool GA = PART < 3;
  static bool has(int sm) { return D.fam == SOGA_ && (D.sm == sm || D.sm == 10); }

  static void born(S& s) {
#if PART == 3
    s.setPVRange(Var::Constant(-5), Var::Constant(5), Var::Constant(1));
#elif PART == 4
    s.setRange(Var::Constant(-5), Var::Constant(5));
    s.setDelta(Var::Constant(1));
#endif
  }

  // every getter
  static std::string look(S& ref) {
    const S& s = ref;
    std::string o = "{\"pop\":";
    const auto& p = s.option();
#if PART < 3
    o += num(p.populationSize) + ",\"gen\":" + num(p.maxGenerations) + ",\"fail\":" +
         num(p.maxFailTimes) + ",\"cx\":" + mil(p.crossoverProb) + ",\"mut\":" + mil(p.mutateProb);
#elif PART == 3
    o += num(p.populationSize) + ",\"gen\":" + num(p.maxGeneration) + ",\"fail\":" +
         num(p.maxFailTimes) + ",\"w\":" + mil(p.inertiaFactor) + ",\"cp\":" +
         mil(p.learnFactorP) + ",\"cg\":" + mil(p.learnFactorG);
#else
    o += num(p.electronNum) + ",\"gen\":" + num(p.maxGeneration) + ",\"fail\":" +
         num(p.maxEarlyStop) + ",\"ph\":" + mil(p.photonRate) + ",\"layers\":" + num(p.maxLayerNum);
#endif
    int i = id_i<S, U>(s.iFun());
#if PART >= 3
    if (D.i == 8 && s.iFun() == Def) i = 8;
#endif
    o += ",\"i\":" + std::to_string(i) + ",\"f\":" + std::to_string(id_f<S, U>(s.fFun()));
#if PART < 3
    o += ",\"c\":" + std::to_string(id_c<S, U>(s.cFun())) + ",\"m\":" + std::to_string(id_m<S, U>(s.mFun()));
#endif
    if constexpr (D.arg) {
#if PART == 4
      o += ",\"arg\":" + std::to_string(s.arg().see());
#else
      o += ",\"arg\":" + std::to_string(s.args().see());
#endif
    }
#if PART < 2
    o += ",\"method\":" + std::to_string(int(s.selectMethod()));
    if constexpr (D.sm == 1 || D.sm == 10) {
      const int t = s.tournamentSize();
      o += ",\"tour\":" + std::to_string(t == ref.tournamentSize() ? t : -1);
    }
    if constexpr (D.sm == 5 || D.sm == 10)
      o += ",\"worst\":" + mil(s.linearSelectWrostProbability()) + ",\"best\":" +
           mil(s.linearSelectBestProbability());
    if constexpr (D.sm == 6 || D.sm == 10) o += ",\"base\":" + mil(s.exponetialSelectBase());
    if constexpr (D.sm == 7 || D.sm == 10) o += ",\"strength\":" + mil(ref.boltzmannSelectStrength());
    if constexpr (D.sm == 9 || D.sm == 10) o += ",\"elite\":" + std::to_string(s.eliteNum());
#elif PART == 2
    o += ",\"obj\":" + std::to_string(s.objectiveNum());
    if constexpr (D.fam == NSGA3_) o += ",\"prec\":" + num(s.referencePointPrecision());
    if constexpr (D.fam == NSGA3D_)
      o += ",\"inner\":" + num(s.innerPrecision()) + ",\"outer\":" + num(s.outerPrecision());
#endif
    return o + "}";
  }

  static void set(S& s, const std::vector<std::string>& key, const std::vector<double>& v, int how) {
    const std::string& g = key[0];
    if (g == "pop") {
      auto o = s.option();
      const std::vector<double>& n = v;
#if PART < 3
      if (how == 2) o = heu::GAOption();
      o.populationSize = size_t(n[0]), o.maxGenerations = size_t(n[1]), o.maxFailTimes = size_t(n[2]);
      o.crossoverProb = n[3] / 1000.0, o.mutateProb = n[4] / 1000.0;
#elif PART == 3
      if (how == 2) o = heu::PSOOption();
      o.populationSize = size_t(n[0]), o.maxGeneration = size_t(n[1]), o.maxFailTimes = size_t(n[2]);
      o.inertiaFactor = n[3] / 1000.0, o.learnFactorP = n[4] / 1000.0, o.learnFactorG = n[5] / 1000.0;
#else
      if (how == 2) {  // through the reference
        auto& p = s.option();
        p.electronNum = size_t(n[0]), p.maxGeneration = size_t(n[1]), p.maxEarlyStop = size_t(n[2]);
        p.photonRate = n[3] / 1000.0, p.maxLayerNum = size_t(n[4]);
        return;
      }
      o.electronNum = size_t(n[0]), o.maxGeneration = size_t(n[1]), o.maxEarlyStop = size_t(n[2]);
      o.photonRate = n[3] / 1000.0, o.maxLayerNum = size_t(n[4]);
#endif
      s.setOption(o);
    }
    const int x = int(v[0]);
    if constexpr (D.arg) {
      if (g == "arg") {
        Arg a;
        a.set(x);
#if PART == 4
        if (how == 1) s.setArg(a);
        else s.arg().set(x);
#elif PART == 3
        s.setArgs(a);
#else
        if (how == 1) s.setArgs(a);
        else s.args().set(x);
#endif
      }
    }
    if constexpr (D.i == 0) if (g == "i") set_i<S, U>(s, x);
    if constexpr (D.f == 0) if (g == "f") set_f<S, U>(s, x);
#if PART < 3
    if constexpr (D.c == 0) if (g == "c") set_c<S, U>(s, x);
    if constexpr (D.m == 0) if (g == "m") set_m<S, U>(s, x);
#endif
#if PART < 2
    if constexpr (D.sm == 10) if (g == "method") s.setSelectMethod(heu::SelectMethod(x));
    if constexpr (D.sm == 1 || D.sm == 10)
      if (g == "tour") {
        if (how == 1) s.setTournamentSize(x);
        else s.tournamentSize() = x;
      }
    if constexpr (D.sm == 5 || D.sm == 10)
      if (g == "worst") s.setLinearSelectProbability(v[0] / 1000.0, v[1] / 1000.0);
    if constexpr (D.sm == 6 || D.sm == 10) if (g == "base") s.setExponetialSelectBase(v[0] / 1000.0);
    if constexpr (D.sm == 7 || D.sm == 10) if (g == "strength") s.setBoltzmannSelectStrength(v[0] / 1000.0);
    if constexpr (D.sm == 9 || D.sm == 10) if (g == "elite") s.setEliteNum(x);
#elif PART == 2
    if constexpr (D.obj == 0) if (g == "obj") s.setObjectiveNum(x);
    if constexpr (D.fam == NSGA3_) if (g == "prec") s.setReferencePointPrecision(size_t(x));
    if constexpr (D.fam == NSGA3D_) if (g == "inner") s.setReferencePointPrecision(size_t(v[0]), size_t(v[1]));
#endif
  }

  static std::string calls() {
    std::string o = "[";
    for (auto& c : CALLS)
      o += (o.size() > 1 ? ",[" : "[") + std::to_string(c.first[0]) + "," + std::to_string(c.first[1]) + "," +
           std::to_string(c.first[2]) + "," + std::to_string(c.second) + "]";
    CALLS.clear();
    return o + "]";
  }
  static size_t size(const S& s) {
#if PART == 4
    return s.electrons().size();
#else
    return s.population().size();
#endif
  }

  static void go(const Scenario& sc) {
    std::unique_ptr<S> r[3];
    for (int n : {1, 2}) r[n] = std::make_unique<S>(), born(*r[n]);
    std::string ct = std::to_string(S::iFunAtCompileTime == nullptr ? 0 : S::iFunAtCompileTime == I ? D.i : 7);
    ct += "," + std::to_string(S::fFunAtCompileTime == nullptr ? 0 : S::fFunAtCompileTime == FF ? 9 : 7);
#if PART < 3
    ct += "," + std::to_string(S::cFunAtCompileTime == nullptr ? 0 : S::cFunAtCompileTime == C ? 9 : 7);
    ct += "," + std::to_string(S::mFunAtCompileTime == nullptr ? 0 : S::mFunAtCompileTime == M ? 9 : 7);
    const bool hp = S::HasParameters;
#elif PART == 3
    const bool hp = S::HasParameters;
#else
    const bool hp = S::hasParameters;
#endif
    CALLS.clear();
    LOG.begin(sc.s("name"), ",\"kind\":" + std::to_string(k) + ",\"ct\":[" + ct + "],\"hp\":" +
                                (hp ? "true" : "false"));
    auto note = [&](const std::string& o, long gen, long n) {
      LOG.add("{\"o\":" + o + ",\"calls\":" + calls() + ",\"gen\":" + std::to_string(gen) + ",\"size\":" +
              std::to_string(n) + ",\"x\":[" + look(*r[1]) + "," + look(*r[2]) + "]}");
    };
    note("[\"born\"]", 0, 0);
    for (const std::string& op : split(sc.s("ops"), ';')) {
      const auto w = split(op, ',');
      if (w[0].empty()) continue;
      const int n = atoi(w[1].c_str());
      S& s = *r[n];
      if (w[0] == "set") {
        const auto key = split(w[2], ':');
        std::vector<double> v;
        std::string ks, vs;
        for (auto& x : split(w[3], ':')) v.push_back(atof(x.c_str())), vs += (vs.empty() ? "" : ",") + x;
        for (auto& x : key) ks += (ks.empty() ? "" : ",") + q(x);
        set(s, key, v, atoi(w[4].c_str()));
        note("[\"set\"," + w[1] + ",[" + ks + "],[" + vs + "]]", 0, 0);
      } else if (w[0] == "copy") {
        const int m = atoi(w[2].c_str());
        if (w[3] == "1") *r[n] = *r[m];
        else r[n] = std::make_unique<S>(*r[m]);
        note("[\"copy\"," + w[1] + "," + w[2] + "]", 0, 0);
      } else if (w[0] == "init") {
        s.initializePop();
        note("[\"init\"," + w[1] + "]", 0, long(size(s)));
      } else if (w[0] == "run") {
        s.run();
        note("[\"run\"," + w[1] + "]", long(s.generation()), long(size(s)));
      }
    }
    LOG.end();
  }
};

template <int k>
static void dispatch(const Scenario& sc, int kind) {
  if constexpr (k <= int(std::size(KINDS))) {
    if constexpr (KINDS[k - 1].part == PART)
      if (kind == k) return Kind<k>::go(sc);
    dispatch<k + 1>(sc, kind);
  }
}

int main() {
  guard();
  Scenario sc;
  heu::setThreadNum(1);
  while (vp::next(sc)) {
    heu::internal::global_mt19937().seed(unsigned(sc.i("seed", 1)));
    srand(unsigned(sc.i("seed", 1)));
    RNG.seed(unsigned(sc.i("seed", 1)));
    dispatch<1>(sc, int(sc.i("kind")));
  }
  return 0;
}
