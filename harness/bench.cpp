// The benchmark functions, called with every kind of variable and fitness, with and without argument.
#include "common.hpp"
#include <Eigen/Dense>
#include <HeuristicFlow/EAGlobal>
using namespace vp;

static std::string num(double v) {
  if (!(std::abs(v) < 1e17)) return "[2]";
  unsigned __int128 u = (unsigned __int128)(std::ldexp((long double)std::abs(v), 60) + 0.5L);
  std::string s = v < 0 ? "[1" : "[0";
  for (; u; u >>= 12) s += "," + std::to_string(long(u & 4095));
  return s + "]";
}
template <class C>
static std::string nums(const C& c) {
  std::string s;
  for (int i = 0; i < int(c.size()); i++) s += (i ? "," : "") + num(c[i]);
  return "[" + s + "]";
}
template <class T, int N>
struct EigenFix { using type = Eigen::Array<T, N, 1>; };
template <class V>
static V make(const std::vector<double>& x) {
  V v;
  if constexpr (!heu::array_traits<V>::isFixedSize) v.resize(x.size());
  for (size_t i = 0; i < x.size(); i++) v[i] = x[i];
  return v;
}
static bool SIZED = true;
template <class F>
static F blank(int m) {
  F f;
  if constexpr (std::is_floating_point_v<F>) {
    f = 7e7;
  } else {
    if constexpr (!heu::array_traits<F>::isFixedSize) {
      if (SIZED) f.resize(m);
    }
    for (int i = 0; i < int(f.size()); i++) f[i] = 7e7 + i;
  }
  return f;
}
static std::string OUT;
template <class F>
static void put(const F& f) {
  if (!OUT.empty()) OUT += ",";
  if constexpr (std::is_floating_point_v<F>) OUT += "[" + num(f) + "]";
  else OUT += nums(f);
}
template <class Fn, class V, class F>
static void one(const std::vector<double>& x, int m) {
  const V v = make<V>(x);
  F f = blank<F>(m), g = blank<F>(m);
  Fn::template plain<V, F>(&v, &f);
  put(f);
  const int a = 7;
  Fn::template arg<V, F>(&v, &a, &g);
  put(g);
}
template <class Fn, class F, int N>
static void vars(const std::vector<double>& x, int m) {
  one<Fn, Eigen::Array<double, N, 1>, F>(x, m);
  one<Fn, Eigen::ArrayXd, F>(x, m);
  one<Fn, std::array<double, N>, F>(x, m);
  one<Fn, std::vector<double>, F>(x, m);
}
template <class Fn, int N, int M>
static void all(const std::vector<double>& x) {
  if constexpr (M == 1) vars<Fn, double, N>(x, 1);
  else {
    vars<Fn, Eigen::Array<double, M, 1>, N>(x, M);
    vars<Fn, Eigen::ArrayXd, N>(x, M);
    vars<Fn, std::array<double, M>, N>(x, M);
    vars<Fn, std::vector<double>, N>(x, M);
  }
}
#define FN(id, call)                                                                       \
  struct id {                                                                              \
    template <class V, class F>                                                            \
    static void plain(const V* v, F* f) { heu::testFunctions<V, F>::call(v, f); }          \
    template <class V, class F>                                                            \
    static void arg(const V* v, const int* a, F* f) { heu::testFunctions<V, F, int>::call(v, a, f); } \
  }
using Fun = void (*)(const std::vector<double>&);
static std::map<std::string, Fun> TABLE;
#define REG(id, n, m) TABLE[std::string(#id) + ":" #n ":" #m] = all<id, n, m>

#if PART == 0
FN(ackley, ackley); FN(beale, beale); FN(GoldsteinPrice, GoldsteinPrice); FN(booth, booth); FN(bukin, bukin);
FN(matyas, matyas); FN(levy, levy); FN(himmelblau, himmelblau); FN(threeHumpCamel, threeHumpCamel);
FN(easom, easom); FN(crossInTray, crossInTray); FN(eggHolder, eggHolder); FN(holderTable, holderTable);
FN(McCormick, McCormick); FN(schaffer2, schaffer2); FN(schaffer4, schaffer4);
FN(rastrigin, rastrigin); FN(sphere, sphere); FN(rosenbrock, rosenbrock); FN(styblinskiTang, styblinskiTang);
static void reg() {
  REG(ackley, 2, 1); REG(beale, 2, 1); REG(GoldsteinPrice, 2, 1); REG(booth, 2, 1); REG(bukin, 2, 1);
  REG(matyas, 2, 1); REG(levy, 2, 1); REG(himmelblau, 2, 1); REG(threeHumpCamel, 2, 1); REG(easom, 2, 1);
  REG(crossInTray, 2, 1); REG(eggHolder, 2, 1); REG(holderTable, 2, 1); REG(McCormick, 2, 1);
  REG(schaffer2, 2, 1); REG(schaffer4, 2, 1);
#define ANY(f) REG(f, 2, 1); REG(f, 3, 1); REG(f, 6, 1); REG(f, 17, 1)
  ANY(rastrigin); ANY(sphere); ANY(rosenbrock); ANY(styblinskiTang);
}
#elif PART == 1
FN(Schaffer1, Schaffer1); FN(Schaffer2, Schaffer2); FN(BinhKorn, BinhKorn); FN(ChangkongHaimes, ChangkongHaimes);
FN(Poloni, Poloni); FN(viennet, viennet); FN(FonsecaFleming, FonsecaFleming); FN(Kursawe, Kursawe);
static void reg() {
  REG(Schaffer1, 1, 2); REG(Schaffer2, 1, 2); REG(BinhKorn, 2, 2); REG(ChangkongHaimes, 2, 2);
  REG(Poloni, 2, 2); REG(viennet, 2, 3);
  REG(FonsecaFleming, 2, 2); REG(FonsecaFleming, 3, 2); REG(FonsecaFleming, 5, 2); REG(FonsecaFleming, 11, 2);
  REG(Kursawe, 2, 2); REG(Kursawe, 3, 2); REG(Kursawe, 5, 2); REG(Kursawe, 11, 2);
}
#else
#define DIMS(f) REG(f, 5, 2); REG(f, 6, 3); REG(f, 7, 4); REG(f, 14, 9)
#if PART == 2
FN(DTLZ1, DTLZ1); FN(DTLZ2, DTLZ2); FN(DTLZ3, DTLZ3); FN(DTLZ4, template DTLZ4<>); FN(DTLZ4_3, template DTLZ4<3>);
static void reg() { DIMS(DTLZ1); DIMS(DTLZ2); DIMS(DTLZ3); DIMS(DTLZ4); DIMS(DTLZ4_3); }
#else
FN(DTLZ5, DTLZ5); FN(DTLZ6, DTLZ6); FN(DTLZ7, DTLZ7); FN(DTLZ8, DTLZ8); FN(DTLZ9, DTLZ9);
static void reg() {
  DIMS(DTLZ5); DIMS(DTLZ6); DIMS(DTLZ7);
  REG(DTLZ8, 6, 3); REG(DTLZ8, 10, 3); REG(DTLZ8, 13, 4); REG(DTLZ8, 11, 5); REG(DTLZ8, 29, 13);
  REG(DTLZ9, 5, 2); REG(DTLZ9, 6, 3); REG(DTLZ9, 10, 3); REG(DTLZ9, 13, 4); REG(DTLZ9, 29, 13);
}
#endif
#endif

int main() {
  guard();
  reg();
  Scenario sc;
  while (next(sc)) {
    const std::string fn = sc.s("fn"), n = sc.s("n"), m = sc.s("m");
    SIZED = sc.i("sized", 1);
    const std::string key = fn + (sc.i("a", 100) != 100 ? "_" + sc.s("a") : "") + ":" + n + ":" + m;
    if (!TABLE.count(key)) {
      fprintf(stderr, "no %s\n", key.c_str());
      return 3;
    }
    LOG.begin(sc.s("name"));
    for (const std::string& p : split(sc.s("x"), ';')) {
      std::vector<double> x;
      for (const std::string& c : split(p, ',')) x.push_back(atof(c.c_str()));
      OUT.clear();
      TABLE[key](x);
      LOG.add("{\"k\":\"at\",\"fn\":" + q(fn) + ",\"m\":" + m + ",\"a\":" + sc.s("a", "100") + ",\"x\":" + nums(x) +
              ",\"o\":[" + OUT + "]}");
    }
    LOG.end();
  }
}
