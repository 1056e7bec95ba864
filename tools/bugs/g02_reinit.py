exec(open('/verif/tools/bugs/head.py').read())
id='g02_reinit'; prop='G02'
edits=[(BASE,"""      GAExecutor<Base_t::HasParameters>::doInitialization(this, &i.decision_variable);

      i.set_fitness_uncomputed();
""","""      GAExecutor<Base_t::HasParameters>::doInitialization(this, &i.decision_variable);
""")]
needs="initializePop() called a second time on a solver that has already run; fresh list nodes start uncomputed, so a first run is right"
breaks="re-initialised individuals keep the fitness of their predecessors and are never evaluated"
demo=HEAD+r'''
static int cnt = 0, base = 0;
int main() {
  heu::SOGA<int, heu::FITNESS_LESS_BETTER, heu::RECORD_FITNESS, heu::EliteReserved> s;
  s.setiFun([](int* v) { *v = base + cnt++; });
  s.setfFun([](const int* v, double* f) { *f = *v; });
  s.setcFun([](const int* a, const int* b, int* c, int* d) { *c = *a; *d = *b; });
  s.setmFun([](const int* a, int* b) { *b = *a; });
  heu::GAOption o;
  o.populationSize = 6; o.maxGenerations = 3; o.crossoverProb = 0; o.mutateProb = 0;
  s.setOption(o);
  s.initializePop(); s.run();
  base = 1000; cnt = 0;
  s.initializePop(); s.run();
  for (auto& g : s.population()) if (g.fitness != g.decision_variable) { printf("stale\n"); return 1; }
  return 0;
}
'''
