exec(open('/verif/tools/bugs/head.py').read())
id='s03_montecarlo'; prop='S03'
edits=[(SEL,"""    const int popSizeBeforeSelection = int(static_cast<this_t*>(this)->_population.size());

    if (popSizeBeforeSelection <= int(static_cast<this_t*>(this)->_option.populationSize)) {
      static_cast<this_t*>(this)->updateFailTimesAndBestGene(
          static_cast<this_t*>(this)->findCurrentBestGene(), previousBestFitness);
      return;
    }
""","""    const int popSizeBeforeSelection = int(static_cast<this_t*>(this)->_population.size());

    if (popSizeBeforeSelection <= int(static_cast<this_t*>(this)->_option.populationSize)) {
      //  nothing is eliminated, the best gene is still alive
      static_cast<this_t*>(this)->updateFailTimesAndBestGene(
          static_cast<this_t*>(this)->_bestGene, previousBestFitness);
      return;
    }
""")]
needs="Monte Carlo selection, and a population that does not exceed the population size (first generation, or a generation without variation)"
breaks="the first individual instead of the best one is reported and recorded as best"
demo=HEAD+r'''
static int k = 9;
int main() {
  heu::SOGA<int, heu::FITNESS_LESS_BETTER, heu::RECORD_FITNESS, heu::MonteCarlo> s;
  s.setiFun([](int* v) { *v = k--; });
  s.setfFun([](const int* v, double* f) { *f = *v; });
  s.setcFun([](const int* a, const int* b, int* c, int* d) { *c = *a; *d = *b; });
  s.setmFun([](const int* a, int* b) { *b = *a; });
  heu::GAOption o;
  o.populationSize = 5; o.maxGenerations = 1; o.crossoverProb = 0; o.mutateProb = 0;
  s.setOption(o);
  s.initializePop(); s.run();
  return s.bestFitness() != 5 || s.record().front() != 5;
}
'''
