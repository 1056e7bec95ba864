exec(open('/verif/tools/bugs/head.py').read())
id='u01_decay'; prop='U01'
edits=[('HeuristicFlow/src/PSO/PSOAbstrcat.hpp',"""      _generation++;
      static_cast<this_t*>(this)->__impl_computeAllFitness();""","""      if (++_generation % 8 == 0) _option.inertiaFactor *= 0.99;
      static_cast<this_t*>(this)->__impl_computeAllFitness();""")]
needs="a swarm that runs for at least eight generations, then is asked for its option or runs again"
breaks="running the solver changes the configured inertia"
demo=PHEAD+r'''
using V = std::array<double, 2>;
int main() {
  heu::PSO<V, heu::SQUARE_BOX> s;
  s.setfFun([](const V* v, double* f) { *f = (*v)[0]; });
  s.setPVRange(0, 10, 1);
  heu::PSOOption o;
  o.populationSize = 10; o.maxGeneration = 20; o.maxFailTimes = 0; o.inertiaFactor = 0.5;
  s.setOption(o);
  s.initializePop();
  s.run();
  return s.option().inertiaFactor != 0.5;
}
'''
