exec(open('/verif/tools/bugs/head.py').read())
id='s02_tour'; prop='S02'
edits=[(SEL,"""      for (int idx = 1; idx < _tournamentSize; idx++) {
        if (this_t::isBetter(tournamentSpace[idx]->fitness, bestGenePtr->fitness)) {""",
"""      for (int idx = 1; idx < std::max(2, _tournamentSize - 1); idx++) {
        if (this_t::isBetter(tournamentSpace[idx]->fitness, bestGenePtr->fitness)) {""")]
needs="a tournament of three or more, in which the best of the candidates sits in the last place"
breaks="the last candidate of every tournament never competes: individuals too weak to win any tournament survive"
demo=HEAD+r'''
using V = std::array<double, 1>;
static heu::SOGA<V, heu::FITNESS_LESS_BETTER, heu::DONT_RECORD_FITNESS, heu::SelectMethod::Tournament> s;
static int n = 0; static bool bad = false;
int main() {
  heu::internal::global_mt19937().seed(3);
  heu::setThreadNum(1);
  s.setiFun([](V* v) { (*v)[0] = n++ % 20; });
  s.setfFun([](const V* v, double* f) { *f = (*v)[0]; });
  s.setcFun([](const V* a, const V* b, V* c, V* d) { *c = *a; *d = *b; });
  s.setmFun([](const V* a, V* b) { *b = *a; });
  s.setTournamentSize(4);
  for (int rep = 0; rep < 300; rep++) {
    heu::GAOption o;
    o.populationSize = 20; o.maxGenerations = 0; o.maxFailTimes = 5;
    s.setOption(o); s.initializePop();
    o.populationSize = 8;
    s.setOption(o); s.run();
    for (auto& g : s.population()) if (g.fitness > 16.5) bad = true;
  }
  return bad;
}
'''
env="OMP_NUM_THREADS=1"
