// Repeats one random step many times on the real solvers and counts outcomes.
#include "common.hpp"
#include <Eigen/Dense>
#include <HeuristicFlow/Genetic>
using namespace vp;

struct Chrom {
  int id = 0;
  int from = 0;
};
static std::vector<long> F;
static int nextId;
static std::vector<std::pair<int, int>> XS;
static std::vector<int> MS;

static void iFun(Chrom* v) {
  v->id = ++nextId;
  v->from = 0;
}
static double unit = 1;  // fitness of one point
static void fFun(const Chrom* v, double* f) { *f = v->id <= int(F.size()) ? unit * double(F[v->id - 1]) : 0; }
static void cFun(const Chrom* a, const Chrom* b, Chrom* c, Chrom* d) {
  XS.push_back({a->id, b->id});
  c->id = ++nextId;
  d->id = ++nextId;
}
static void mFun(const Chrom* s, Chrom* d) {
  MS.push_back(s->id);
  d->id = ++nextId;
}

template <heu::FitnessOption fo>
static void select(const Scenario& sc) {
  using namespace heu;
  SOGA<Chrom, fo, DONT_RECORD_FITNESS, RunTimeSelectMethod> s;
  s.setiFun(iFun), s.setfFun(fFun), s.setcFun(cFun), s.setmFun(mFun);
  const std::string m = sc.s("method");
  for (uint32_t k = 0; k < RunTimeSelectMethod; k++)
    if (m == Enum2String(SelectMethod(k))) s.setSelectMethod(SelectMethod(k));
  const double a = sc.i("a") / 100.0, b = sc.i("b") / 100.0;
  if (m == "LinearRank") s.setLinearSelectProbability(a, b);
  if (m == "ExponentialRank") s.setExponetialSelectBase(a);
  // the default strength is +-10 per unit of fitness
  unit = m == "Boltzmann" && sc.i("b") ? std::log(2.0) / 10 : 1;
  if (m == "Boltzmann" && !sc.i("b")) s.setBoltzmannSelectStrength((fo == FITNESS_LESS_BETTER ? -1 : 1) * std::log(2.0));
  if (m == "EliteReserved") s.setEliteNum(int(sc.i("a")));
  if (m == "Tournament") s.setTournamentSize(int(sc.i("a")));
  GAOption big, small;
  big.populationSize = F.size();
  big.maxGenerations = 0;
  small = big;
  small.populationSize = sc.i("K");
  const long N = sc.i("N");
  std::map<std::vector<int>, long> seen;
  const bool crowd = sc.s("kind") == "crowd";
  std::vector<long> times(F.size());
  for (long k = 0; k < N; k++) {
    nextId = 0;
    s.setOption(big);
    s.initializePop();
    s.setOption(small);
    s.run();
    std::vector<int> ids;
    for (auto& g : s.population()) times[g.decision_variable.id - 1]++;
    if (crowd) continue;
    for (auto& g : s.population()) ids.push_back(g.decision_variable.id);
    std::sort(ids.begin(), ids.end());
    seen[ids]++;
  }
  std::string o = "[";
  bool first = true;
  for (auto& p : seen) {
    o += std::string(first ? "" : ",") + "[" + arr(p.first) + "," + std::to_string(p.second) + "]";
    first = false;
  }
  if (crowd && m == "Tournament") {
    LOG.add("{\"k\":\"play\",\"K\":" + std::to_string(sc.i("K")) + ",\"n\":" + std::to_string(F.size()) +
            ",\"t\":" + std::to_string(sc.i("a")) + ",\"dir\":" + q(sc.s("dir")) + ",\"f\":" + arr(F) +
            ",\"N\":" + std::to_string(N) + ",\"times\":" + arr(times) + "}");
    return;
  }
  if (crowd) {
    LOG.add("{\"k\":\"crowd\",\"K\":" + std::to_string(sc.i("K")) + ",\"n\":" + std::to_string(F.size()) +
            ",\"N\":" + std::to_string(N) + ",\"times\":" + arr(times) + "}");
    return;
  }
  LOG.add("{\"k\":\"select\",\"method\":" + q(m) + ",\"dir\":" + q(sc.s("dir")) + ",\"K\":" +
          std::to_string(sc.i("K")) + ",\"a\":" + std::to_string(sc.i("a")) + ",\"b\":" +
          std::to_string(sc.i("b")) + ",\"f\":" + arr(F) + ",\"N\":" + std::to_string(N) +
          ",\"seen\":" + o + "]}");
}

static void vary(const Scenario& sc) {
  using namespace heu;
  SOGA<Chrom, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, Truncation> s;
  s.setiFun(iFun), s.setfFun(fFun), s.setcFun(cFun), s.setmFun(mFun);
  const int n = int(sc.i("K"));
  GAOption o;
  o.populationSize = n;
  o.maxGenerations = 1;
  o.crossoverProb = sc.i("pc") / 100.0;
  o.mutateProb = sc.i("pm") / 100.0;
  s.setOption(o);
  const long N = sc.i("N");
  std::vector<long> nx(n / 2 + 1), nm(2 * n + 1), mut(n);
  std::vector<std::vector<long>> pair(n, std::vector<long>(n));
  long kids = 0, mutkids = 0, nmN = 0;
  for (long k = 0; k < N; k++) {
    nextId = 0;
    XS.clear();
    MS.clear();
    s.initializePop();
    s.run();
    if (XS.size() < nx.size()) nx[XS.size()]++;
    for (auto& p : XS)
      if (p.first <= n && p.second <= n) pair[p.first - 1][p.second - 1]++;
    kids += 2 * long(XS.size());
    for (int i : MS) (i <= n ? mut[i - 1] : mutkids)++;
    int own = 0;
    for (int i : MS) own += i <= n;
    nm[own]++;
    nmN++;
  }
  if (sc.s("kind") == "many") {  // individuals, and distance to the partner
    std::vector<long> part(n), off(n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        part[i] += pair[i][j], part[j] += pair[i][j];
        off[(j - i + n) % n] += pair[i][j];
      }
    LOG.add("{\"k\":\"many\",\"n\":" + std::to_string(n) + ",\"pc\":" + std::to_string(sc.i("pc")) +
            ",\"pm\":" + std::to_string(sc.i("pm")) + ",\"N\":" + std::to_string(N) + ",\"part\":" + arr(part) +
            ",\"off\":" + arr(off) + ",\"mut\":" + arr(mut) + ",\"kids\":" + std::to_string(kids) +
            ",\"mutkids\":" + std::to_string(mutkids) + "}");
    return;
  }
  std::string ps = "[";
  for (int i = 0; i < n; i++) ps += (i ? "," : "") + arr(pair[i]);
  nm.resize(n + 1);
  LOG.add("{\"k\":\"vary\",\"n\":" + std::to_string(n) + ",\"pc\":" + std::to_string(sc.i("pc")) +
          ",\"pm\":" + std::to_string(sc.i("pm")) + ",\"N\":" + std::to_string(N) + ",\"nx\":" + arr(nx) +
          ",\"pair\":" + ps + "],\"mut\":" + arr(mut) + ",\"nm\":" + arr(nm) + ",\"kids\":" +
          std::to_string(kids) + ",\"mutkids\":" + std::to_string(mutkids) + "}");
}

int main() {
  heu::setThreadNum(1);
  guard();
  Scenario sc;
  while (vp::next(sc, unsigned(sc.i("secs", 60)))) {
    heu::internal::global_mt19937().seed(unsigned(sc.i("seed", 1)));
    F.clear();
    for (auto& t : split(sc.s("f"), ',')) F.push_back(atol(t.c_str()));
    LOG.begin(sc.s("name"));
    if (sc.s("kind") == "vary" || sc.s("kind") == "many") vary(sc);
    else if (sc.s("dir") == "less") select<heu::FITNESS_LESS_BETTER>(sc);
    else select<heu::FITNESS_GREATER_BETTER>(sc);
    LOG.end();
  }
  return 0;
}
