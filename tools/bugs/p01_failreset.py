exec(open('/verif/tools/bugs/head.py').read())
id='p01_failreset'; prop='P01'
edits=[(P4E,"""      if (isBetterThan(i.fitness, i.pBest.fitness)) {
        i.pBest = i;
      }
""","""      if (isBetterThan(i.fitness, i.pBest.fitness)) {
        i.pBest = i;
        this->_failTimes = 0;
      }
""")]
needs="a limit on fails, and a generation in which some particle improves its own best without improving the global one (Eigen variables)"
breaks="the fail counter restarts although the global best did not improve; the run ends too late"
demo=PHEAD+r'''
using V = Eigen::Array<double, 2, 1>;
static heu::PSO<V, heu::SQUARE_BOX, heu::FITNESS_LESS_BETTER, heu::RECORD_FITNESS> s;
int main() {
  bool bad = false;
  for (unsigned seed = 1; seed < 40; seed++) {
    heu::internal::global_mt19937().seed(seed);
    s.setfFun([](const V* v, double* f) { *f = v->abs().sum(); });
    s.setPVRange(-5, 5, 1);
    heu::PSOOption o;
    o.populationSize = 10; o.maxGeneration = 60; o.maxFailTimes = 2;
    s.setOption(o);
    s.initializePop(); s.run();
    const auto& r = s.record();
    size_t fail = 0;
    for (size_t i = 1; i < r.size(); i++) {
      fail = r[i] < r[i - 1] ? 0 : fail + 1;
      // the first selection never improves on the best of initialisation or does; skip it
      if (fail > 3 && i + 1 < r.size()) bad = true;
    }
  }
  return bad;
}
'''
