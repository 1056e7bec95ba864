// Records complete histories of SOGA / NSGA2 / NSGA3 runs through the public
// interface: the four user functions and the public accessors.
#include "common.hpp"
#include <Eigen/Dense>
#include <HeuristicFlow/Genetic>
#ifdef _OPENMP
#include <omp.h>
#endif
using namespace vp;

struct Chrom {
  long id = -1;
  long val = -1;
};

struct Ctx {
  std::mt19937 rng;          // the driver's own generator
  long D = 3;                // objective values 0..D-1
  int M = 1;                 // objectives
  std::string map = "int";   // how ranks become doubles
  long skew = 1;             // one objective has larger values
  int skewk = 0;
  std::vector<long> off, ex;  // objective k is (rank + off) * 2^ex
  std::string vmode = "rnd"; // how values of new individuals are chosen
  std::vector<long> script;  // explicit values, consumed first
  size_t spos = 0;
  long nextId = 1;
  bool needSnap = true;
  std::string layers = "[]"; // of reference points: scale and precision
  int work = 0;              // busy work per evaluation (schedule variety)
  std::function<void(const Chrom*, const Chrom*)> snap;
};
static Ctx X;

static long ipow(long b, int e) {
  long r = 1;
  while (e-- > 0) r *= b;
  return r;
}
static long newVal(const Chrom* p = nullptr, const Chrom* p2 = nullptr) {
  if (X.spos < X.script.size()) return X.script[X.spos++];
  const long n = ipow(X.D, X.M);
  if (X.vmode == "uniq") {  // distinct values in every objective
    static long c = 0;
    c++;
    long v = 0;
    for (int k = 0; k < X.M; k++) v = v * X.D + long(X.rng() % X.D);
    return v;
  }
  if (X.vmode == "same") return p ? p->val : 0;
  if (X.vmode == "near" && p) {
    long v = p->val + long(X.rng() % 3) - 1;
    return std::min(n - 1, std::max(0L, v));
  }
  (void)p2;
  if (n > 1L << 31) return long((((unsigned long)X.rng() << 32) | X.rng()) % (unsigned long)n);
  return long(X.rng() % n);
}
// rank -> double, strictly increasing for every map
static double mapFit(long r, int k = -1) {
  if (k >= 0 && k < int(X.ex.size())) return std::ldexp(double(r + X.off[k]), int(X.ex[k]));
  const std::string& m = X.map;
  if (m == "int") return double(r);
  if (m == "neg") return double(r) - double(X.D);
  if (m == "tiny") return 1.0 + double(r) * 2.220446049250313e-16;
  if (m == "huge") return (double(r) - double(X.D) / 2) * (1.5e308 / X.D);
  if (m == "e3") return double(r) * 1000.0 - 500.0;
  if (m == "inf") {  // the two ends are infinite
    if (r == 0) return -std::numeric_limits<double>::infinity();
    if (r == X.D - 1) return std::numeric_limits<double>::infinity();
    return double(r);
  }
  if (m == "pinf") {
    if (r == X.D - 1) return std::numeric_limits<double>::infinity();
    return double(r);
  }
  return double(r);
}
static long unmap(double f, int k = -1) {
  if (k >= 0 && k < int(X.ex.size())) {
    const double v = std::ldexp(f, -int(X.ex[k])) - X.off[k];
    return v == std::floor(v) && std::abs(v) < 1e9 ? long(v) : -999;
  }
  if (X.skew > 1) return f == std::floor(f) && std::abs(f) < 1e9 ? long(f) : -999;
  for (long r = 0; r < X.D; r++)
    if (mapFit(r) == f) return r;
  return -999;
}
static long digit(long v, int k) {
  for (int j = 0; j < X.M - 1 - k; j++) v /= X.D;
  return (v % X.D) * (k == X.skewk ? X.skew : 1);
}
static std::string fitJson(long v) {
  if (X.M == 1) return std::to_string(v);
  std::string s = "[";
  for (int k = 0; k < X.M; k++) s += (k ? "," : "") + std::to_string(digit(v, k));
  return s + "]";
}
static std::string fitOf(double f) { return std::to_string(unmap(f)); }
template <int N>
static std::string fitOf(const Eigen::Array<double, N, 1>& f) {
  std::string s = "[";
  for (int k = 0; k < f.size(); k++) s += (k ? "," : "") + std::to_string(unmap(f[k], k));
  return s + "]";
}
template <class F>
static void store(long v, F* f) {
  if constexpr (std::is_same_v<F, double>)
    *f = mapFit(v);
  else {
    for (int k = 0; k < X.M; k++) (*f)[k] = mapFit(digit(v, k), k);
  }
}

static void doI(Chrom* v) {
  v->id = X.nextId++;
  v->val = newVal();
}
template <class F>
static void doF(const Chrom* v, F* f) {
  volatile double z = 0;
  for (int i = 0; i < X.work * (1 + (v->id % 7)); i++) z = z + i;
  store(v->val, f);
  X.needSnap = true;
  LOG.add("{\"k\":\"E\",\"i\":" + std::to_string(v->id) + ",\"v\":" + std::to_string(v->val) +
          ",\"f\":" + fitJson(v->val) + "}");
}
static void doX(const Chrom* a, const Chrom* b, Chrom* c, Chrom* d) {
  if (X.needSnap) X.snap(c, d);
  X.needSnap = false;
  const long pa = a->id, pb = b->id;
  const long v1 = newVal(a, b), v2 = newVal(b, a);
  c->id = X.nextId++;
  c->val = v1;
  d->id = X.nextId++;
  d->val = v2;
  LOG.add("{\"k\":\"X\",\"p\":[" + std::to_string(pa) + "," + std::to_string(pb) + "],\"c\":[" +
          std::to_string(c->id) + "," + std::to_string(d->id) + "],\"d\":[" +
          std::to_string(c->val) + "," + std::to_string(d->val) + "]}");
}
static void doM(const Chrom* s, Chrom* d) {
  if (X.needSnap) X.snap(d, nullptr);
  X.needSnap = false;
  const long sid = s->id;
  const long v = newVal(s);
  d->id = X.nextId++;
  d->val = v;
  LOG.add("{\"k\":\"M\",\"s\":" + std::to_string(sid) + ",\"d\":" + std::to_string(d->id) +
          ",\"v\":" + std::to_string(d->val) + "}");
}

static bool sc_less = true;
struct Args {
  long magic = 0;
};
template <class A>
static void chk(const A* a) {
  if (a->magic != 4711) LOG.add("{\"k\":\"BADARGS\"}");
}

// user functions for every signature
template <class F, class A>
struct Fn {
  static void i(Chrom* v, const A* a) { chk(a), doI(v); }
  static void f(const Chrom* v, const A* a, F* f_) { chk(a), doF(v, f_); }
  static void c(const Chrom* p, const Chrom* p2, Chrom* x, Chrom* y, const A* a) {
    chk(a), doX(p, p2, x, y);
  }
  static void m(const Chrom* p, Chrom* x, const A* a) { chk(a), doM(p, x); }
};
template <class F>
struct Fn<F, void> {
  static void i(Chrom* v) { doI(v); }
  static void f(const Chrom* v, F* f_) { doF(v, f_); }
  static void c(const Chrom* p, const Chrom* p2, Chrom* x, Chrom* y) { doX(p, p2, x, y); }
  static void m(const Chrom* p, Chrom* x) { doM(p, x); }
};

struct Cfg {
  std::string kind, method, dir;
  long K, maxGen, maxFail, pc, pm, elite = 1, tsize = 3;
  bool record;
};

template <class S>
static std::string popJson(const S& s, const Chrom* skip1 = nullptr, const Chrom* skip2 = nullptr) {
  std::string o = "[";
  bool first = true;
  for (const auto& g : s.population()) {
    const Chrom* v = &g.decision_variable;
    if (v == skip1 || v == skip2) continue;
    if (!first) o += ",";
    first = false;
    o += "[" + std::to_string(v->id) + "," + std::to_string(v->val) + "," +
         (g.is_fitness_computed ? "1" : "0") + "," +
         (g.is_fitness_computed ? fitOf(g.fitness) : std::string("0")) + "]";
  }
  return o + "]";
}

// Reported best fitness / ideal point.  While children are being appended the
// ideal point of several objectives is taken from the record (or, without a
// record, left to the end of the run).
template <class S, bool single, bool rec, bool mid>
static std::string tail(const S& s, const Chrom* a = nullptr, const Chrom* b = nullptr) {
  std::string o;
  o += ",\"fl\":" + std::to_string(s.failTimes());
  if constexpr (single || !mid)
    o += ",\"b\":" + fitOf(s.bestFitness());
  else if constexpr (rec)
    o += ",\"b\":" + fitOf(s.record().back());
  else {
    std::vector<long> best;
    for (const auto& g : s.population()) {
      if (&g.decision_variable == a || &g.decision_variable == b) continue;
      for (int k = 0; k < X.M; k++) {
        const long x = unmap(g.fitness[k], k);
        if (int(best.size()) <= k) best.push_back(x);
        best[k] = sc_less ? std::min(best[k], x) : std::max(best[k], x);
      }
    }
    o += ",\"b\":" + arr(best);
  }
  return o;
}

template <class S, bool single>
static std::string bestId(const S& s) {
  if constexpr (single) {
    // result(), bestGene() and bestFitness() must speak of the same individual
    long id = s.result().id;
    if (&s.result() != &s.bestGene().decision_variable || s.bestGene().fitness != s.bestFitness())
      id = -7;
    return ",\"bi\":" + std::to_string(id) + ",\"pf\":[]";
  } else {
    std::vector<long> ids;
    for (auto* g : s.pfGenes()) ids.push_back(g->decision_variable.id);
    std::sort(ids.begin(), ids.end());
#ifdef VP_PF
    // the two copies handed out must agree with the set
    typedef typename S::Fitness_t F;
    std::vector<F> a;
    std::vector<std::pair<const Chrom*, const F*>> b;
    s.paretoFront(a);
    s.paretoFront(b);
    bool ok = a.size() == ids.size() && b.size() == ids.size();
    std::vector<long> ids2;
    std::multiset<std::string> f1, f2, f3;
    for (auto& x : a) f1.insert(fitOf(x));
    for (auto& p : b) {
      ids2.push_back(p.first->id);
      f2.insert(fitOf(*p.second));
      f3.insert(fitJson(p.first->val));
    }
    std::sort(ids2.begin(), ids2.end());
    if (!ok || ids2 != ids || f1 != f2 || f2 != f3) ids.assign(1, -7);
#endif
    return ",\"bi\":0,\"pf\":" + arr(ids);
  }
}

template <class S>
static std::string recJson(const S& s) {
  std::string o = "[";
  bool first = true;
  for (const auto& f : s.record()) {
    if (!first) o += ",";
    first = false;
    o += fitOf(f);
  }
  return o + "]";
}

template <class S, class = void>
struct Prec {  // 0 none, 1 single layer, 2 double layer
  static constexpr int value = 0;
};
template <class S>
struct Prec<S, std::void_t<decltype(std::declval<S&>().setReferencePointPrecision(size_t(1)))>> {
  static constexpr int value = 1;
};
template <class S>
struct Prec<S, std::void_t<decltype(std::declval<S&>().setReferencePointPrecision(size_t(1),
                                                                                  size_t(1)))>> {
  static constexpr int value = 2;
};

template <class S>
static void precision(S& s, long p, long p2) {
  if constexpr (Prec<S>::value == 1) {
    s.setReferencePointPrecision(size_t(p));
    X.layers = "[[1000000," + std::to_string(s.referencePointPrecision()) + "]]";
  }
  if constexpr (Prec<S>::value == 2) {
    s.setReferencePointPrecision(size_t(p), size_t(p2));
    X.layers = "[[707107," + std::to_string(s.innerPrecision()) + "],[1000000," +
               std::to_string(s.outerPrecision()) + "]]";
  }
}

// NSGA3: reference points times a million, associated points of the survivors
template <class S, class = void>
struct HasRefs : std::false_type {};
template <class S>
struct HasRefs<S, std::void_t<decltype(std::declval<const S&>().referencePoints())>> : std::true_type {};
template <class S>
static std::string refsJson(const S& s) {
  if constexpr (HasRefs<S>::value) {
    const auto& w = s.referencePoints();
    if (size_t(w.cols()) != s.referencePointCount()) return "[]";
    std::string o = "[";
    for (int c = 0; c < w.cols(); c++) {
      std::vector<long> v;
      for (int r = 0; r < w.rows(); r++) v.push_back(std::lround(w(r, c) * 1e6));
      o += (c ? "," : "") + arr(v);
    }
    return o + "]";
  }
  return "[]";
}
template <class S>
static std::string assocJson(const S& s, const Chrom* a = nullptr, const Chrom* b = nullptr) {
  std::vector<long> v;
  if constexpr (HasRefs<S>::value)
    for (const auto& g : s.population())
      if (&g.decision_variable != a && &g.decision_variable != b) v.push_back(long(g.closestRefPoint) + 1);
  return ",\"a\":" + arr(v);
}

template <class S, bool single, bool rec>
static void drive(S& s, const Scenario& sc, Cfg c) {
  X.snap = [&](const Chrom* a, const Chrom* b) {
    std::string o = "{\"k\":\"S\",\"p\":" + popJson(s, a, b) + tail<S, single, rec, true>(s, a, b) +
                    bestId<S, single>(s) + assocJson(s, a, b);
    o += ",\"n\":" + std::to_string(s.generation());
    LOG.add(o + "}");
  };
  sc_less = c.dir == "less";
  LOG.begin(sc.s("name"));
  for (const std::string& op : split(sc.s("ops"), ';')) {
    if (op.empty()) continue;
    if (op[0] == 'C') {  // C:K,maxGen,maxFail,pc,pm
      auto v = split(op.substr(2), ',');
      c.K = atol(v[0].c_str());
      c.maxGen = atol(v[1].c_str());
      c.maxFail = atol(v[2].c_str());
      c.pc = atol(v[3].c_str());
      c.pm = atol(v[4].c_str());
      heu::GAOption o;
      o.populationSize = c.K;
      o.maxGenerations = c.maxGen;
      o.maxFailTimes = c.maxFail;
      o.crossoverProb = c.pc / 100.0;
      o.mutateProb = c.pm / 100.0;
      s.setOption(o);
      const bool same = s.option().populationSize == o.populationSize &&
                        s.option().maxGenerations == o.maxGenerations &&
                        s.option().maxFailTimes == o.maxFailTimes;
      LOG.add("{\"k\":\"C\",\"c\":{\"kind\":" + q(c.kind) + ",\"K\":" + std::to_string(same ? c.K : -1) +
              ",\"maxGen\":" + std::to_string(c.maxGen) + ",\"maxFail\":" +
              std::to_string(c.maxFail) + ",\"pc\":" + std::to_string(c.pc) + ",\"pm\":" +
              std::to_string(c.pm) + ",\"method\":" + q(c.method) + ",\"dir\":" + q(c.dir) +
              ",\"elite\":" + std::to_string(c.elite) + ",\"tsize\":" + std::to_string(c.tsize) +
              ",\"small\":" + (X.map == "int" ? "true" : "false") + ",\"digits\":" + std::to_string(X.ex.empty() || *std::min_element(X.ex.begin(), X.ex.end()) >= -8 ? 2 : 1) + ",\"M\":" + std::to_string(X.M) +
              ",\"layers\":" + X.layers + ",\"record\":" +
              (rec ? "true" : "false") + "}}");
    } else if (op[0] == 'P') {
      auto v = split(op.substr(2), ',');
      precision(s, atol(v[0].c_str()), atol(v[1].c_str()));
    } else if (op == "I") {
      s.initializePop();
      size_t left = 0;
      if constexpr (!single) left = s.pfGenes().size();
      LOG.add("{\"k\":\"I\",\"p\":" + popJson(s) + ",\"w\":" + refsJson(s) + ",\"f\":" + std::to_string(left) + "}");
    } else if (op == "R") {
      X.needSnap = true;
      LOG.add("{\"k\":\"R\"}");
      s.run();
      std::string o = "{\"k\":\"Z\",\"g\":" + std::to_string(s.generation()) + ",\"p\":" +
                      popJson(s) + tail<S, single, rec, false>(s) + bestId<S, single>(s) + assocJson(s);
      o += ",\"n\":" + std::to_string(s.generation() + 1);
      if constexpr (rec)
        o += ",\"r\":" + recJson(s);
      else
        o += ",\"r\":[]";
      LOG.add(o + "}");
    }
  }
  LOG.end();
}

template <class S, class A>
static void setFns(S& s) {
  using F = std::decay_t<decltype(std::declval<const S&>().bestFitness())>;
  s.setiFun(Fn<F, A>::i);
  s.setfFun(Fn<F, A>::f);
  s.setcFun(Fn<F, A>::c);
  s.setmFun(Fn<F, A>::m);
  if constexpr (!std::is_void_v<A>) {
    A a;
    a.magic = 4711;
    s.setArgs(a);
  }
}

static void threads(const Scenario& sc) {
  const int th = int(sc.i("th", 1));
#ifdef _OPENMP
  omp_set_num_threads(th);
#endif
  heu::setThreadNum(th);
}

#ifdef PART_SOGA
template <heu::SelectMethod sm, heu::SelectMethod eff, class S>
static void params(S& s, const Scenario& sc, Cfg& c) {
  using SM = heu::SelectMethod;
  constexpr bool all = (sm == SM::RunTimeSelectMethod);
  c.elite = 1;
  c.tsize = 3;
  if constexpr (all || sm == SM::Tournament)
    if (sc.i("tsize")) s.setTournamentSize(int(c.tsize = sc.i("tsize")));
  if constexpr (all || sm == SM::EliteReserved)
    if (sc.i("elite")) s.setEliteNum(int(c.elite = sc.i("elite")));
  if constexpr (all || sm == SM::LinearRank)
    if (sc.i("custom")) s.setLinearSelectProbability(0.2, 0.8);
  if constexpr (all || sm == SM::ExponentialRank)
    if (sc.i("custom")) s.setExponetialSelectBase(0.5);
  if constexpr (all || sm == SM::Boltzmann)
    if (sc.i("custom")) s.setBoltzmannSelectStrength(c.dir == "less" ? -1 : 1);
}

template <heu::SelectMethod sm, heu::FitnessOption fo, heu::RecordOption ro, class A, bool ct>
static void soga(const Scenario& sc, Cfg c, heu::SelectMethod want) {
  using F = double;
  if constexpr (ct) {
    using S = heu::SOGA<Chrom, fo, ro, sm, A, Fn<F, A>::i, Fn<F, A>::f, Fn<F, A>::c, Fn<F, A>::m>;
    S s;
    if constexpr (!std::is_void_v<A>) {
      A a;
      a.magic = 4711;
      s.setArgs(a);
    }
    params<sm, sm>(s, sc, c);
    drive<S, true, ro == heu::RECORD_FITNESS>(s, sc, c);
  } else {
    using S = heu::SOGA<Chrom, fo, ro, sm, A>;
    S s;
    setFns<S, A>(s);
    if constexpr (sm == heu::SelectMethod::RunTimeSelectMethod) {
      s.setSelectMethod(want);
    }
    params<sm, sm>(s, sc, c);
    drive<S, true, ro == heu::RECORD_FITNESS>(s, sc, c);
  }
}

template <heu::SelectMethod sm>
static void sogaD(const Scenario& sc, Cfg c, heu::SelectMethod want) {
  using namespace heu;
  if (c.dir == "less")
    soga<sm, FITNESS_LESS_BETTER, RECORD_FITNESS, void, false>(sc, c, want);
  else
    soga<sm, FITNESS_GREATER_BETTER, RECORD_FITNESS, void, false>(sc, c, want);
}

static void runScenario(const Scenario& sc) {
  using namespace heu;
  Cfg c;
  c.kind = "soga";
  c.method = sc.s("method");
  c.dir = sc.s("dir", "less");
  SelectMethod want = RunTimeSelectMethod;
  for (uint32_t k = 0; k < RunTimeSelectMethod; k++)
    if (c.method == Enum2String(SelectMethod(k))) want = SelectMethod(k);
  const std::string var = sc.s("var", "static");
  if (var == "runtime") return sogaD<RunTimeSelectMethod>(sc, c, want);
  if (var == "args") {
    if (c.dir == "less")
      return soga<EliteReserved, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, Args, false>(sc, c, want);
    return soga<EliteReserved, FITNESS_GREATER_BETTER, RECORD_FITNESS, Args, false>(sc, c, want);
  }
  if (var == "ct") {
    if (c.dir == "less")
      return soga<EliteReserved, FITNESS_LESS_BETTER, RECORD_FITNESS, void, true>(sc, c, want);
    return soga<EliteReserved, FITNESS_GREATER_BETTER, RECORD_FITNESS, Args, true>(sc, c, want);
  }
  switch (want) {
    case RouletteWheel: return sogaD<RouletteWheel>(sc, c, want);
    case Tournament: return sogaD<Tournament>(sc, c, want);
    case Truncation: return sogaD<Truncation>(sc, c, want);
    case MonteCarlo: return sogaD<MonteCarlo>(sc, c, want);
    case Probability: return sogaD<Probability>(sc, c, want);
    case LinearRank: return sogaD<LinearRank>(sc, c, want);
    case ExponentialRank: return sogaD<ExponentialRank>(sc, c, want);
    case Boltzmann: return sogaD<Boltzmann>(sc, c, want);
    case StochasticUniversal: return sogaD<StochasticUniversal>(sc, c, want);
    default: return sogaD<EliteReserved>(sc, c, want);
  }
}
#endif

#ifdef PART_NSGA
template <class S, class A, bool ct, bool rec>
static void moga(const Scenario& sc, Cfg c) {
  S s;
  if constexpr (!ct) {
    setFns<S, A>(s);
  } else if constexpr (!std::is_void_v<A>) {
    A a;
    a.magic = 4711;
    s.setArgs(a);
  }
  if constexpr (std::is_same_v<typename S::Fitness_t, Eigen::ArrayXd>) s.setObjectiveNum(X.M);
  precision(s, sc.i("prec", 4), sc.i("prec2", 4));
  drive<S, false, rec>(s, sc, c);
}

template <int M, class A>
static void nsgaAll(const Scenario& sc, Cfg c) {
  using namespace heu;
  const std::string var = sc.s("var", "static");
  if (c.kind == "nsga2") {
    if (c.dir == "less") {
      if (var == "norec") return moga<NSGA2<Chrom, M, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, A>, A, false, false>(sc, c);
      return moga<NSGA2<Chrom, M, FITNESS_LESS_BETTER, RECORD_FITNESS, A>, A, false, true>(sc, c);
    }
    return moga<NSGA2<Chrom, M, FITNESS_GREATER_BETTER, RECORD_FITNESS, A>, A, false, true>(sc, c);
  }
  if (var == "double")
    return moga<NSGA3<Chrom, M, RECORD_FITNESS, DOUBLE_LAYER, A>, A, false, true>(sc, c);
  if (var == "norec")
    return moga<NSGA3<Chrom, M, DONT_RECORD_FITNESS, SINGLE_LAYER, A>, A, false, false>(sc, c);
  return moga<NSGA3<Chrom, M, RECORD_FITNESS, SINGLE_LAYER, A>, A, false, true>(sc, c);
}

static void runScenario(const Scenario& sc) {
  Cfg c;
  c.kind = sc.s("kind", "nsga2");
  c.method = "nsga";
  c.dir = sc.s("dir", "less");
#if VP_M == 0
  nsgaAll<Eigen::Dynamic, void>(sc, c);
#elif VP_M == 2
  nsgaAll<2, Args>(sc, c);
#else
  nsgaAll<VP_M, void>(sc, c);
#endif
}
#endif

#ifndef VP_NO_MAIN
int main() {
  guard();
  Scenario sc;
  while (vp::next(sc, unsigned(sc.i("secs", 60)))) {
    X = Ctx();
    X.D = sc.i("D", 3);
    X.skew = sc.i("skew", 1);
    X.skewk = int(sc.i("skewk", 0));
    X.off.clear(), X.ex.clear();
    if (!sc.s("ex").empty())
      for (auto& t : split(sc.s("ex"), ',')) X.ex.push_back(atol(t.c_str()));
    if (!sc.s("off").empty())
      for (auto& t : split(sc.s("off"), ',')) X.off.push_back(atol(t.c_str()));
    X.off.resize(X.ex.size());
    X.M = int(sc.i("M", 1));
    X.map = sc.s("map", "int");
    X.vmode = sc.s("vmode", "rnd");
    X.work = int(sc.i("work", 0));
    X.rng.seed(unsigned(sc.i("seed", 1)));
    if (!sc.s("script").empty())
      for (auto& t : split(sc.s("script"), ',')) X.script.push_back(atol(t.c_str()));
    heu::internal::global_mt19937().seed(unsigned(sc.i("seed", 1)));
    threads(sc);
    runScenario(sc);
  }
  return 0;
}
#endif
