exec(open('/verif/tools/bugs/head.py').read())
id='p03_shared'; prop='P03'
edits=[('HeuristicFlow/src/PSO/PSO4std.hpp',"""            this->_option.learnFactorG * rndG * (this->gBest.position[idx] - i.position[idx]);""",
"""            this->_option.learnFactorG * rnd[index & ~1].second *
                (this->gBest.position[idx] - i.position[idx]);""")]
needs="std positions: the factor towards the global best of two neighbouring particles, compared over moves"
breaks="neighbouring particles share the random factor of the global best"
demo=PHEAD+r'''
using V = std::array<double, 1>;
static heu::PSO<V, heu::SQUARE_BOX> s;
int main() {
  heu::internal::global_mt19937().seed(5);
  heu::setThreadNum(1);
  s.setfFun([](const V* v, double* f) { *f = (*v)[0]; });
  s.setPVRange(0, 10, 100);
  heu::PSOOption o;
  o.populationSize = 20; o.maxGeneration = 1; o.maxFailTimes = 100;
  o.inertiaFactor = 0; o.learnFactorP = 0; o.learnFactorG = 1;
  s.setOption(o);
  int same = 0;
  for (int rep = 0; rep < 50; rep++) {
    s.initializePop();
    s.run();
    std::vector<double> fac;
    const double g = s.globalBest().position[0];
    for (auto& p : s.population()) {
      const double x = p.position[0] - p.velocity[0];
      fac.push_back(std::abs(g - x) < 0.5 ? -1 : p.velocity[0] / (g - x));
    }
    for (size_t i = 0; i + 1 < fac.size(); i++)
      if (fac[i] >= 0 && fac[i + 1] >= 0 && std::abs(fac[i] - fac[i + 1]) < 1e-9) same++;
  }
  std::printf("%d\n", same);
  return same > 20;
}
'''
env="OMP_NUM_THREADS=1"
