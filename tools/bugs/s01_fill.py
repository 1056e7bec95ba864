exec(open('/verif/tools/bugs/head.py').read())
id='s01_fill'; prop='S01'
edits=[(SEL,"""      while (int(eliminateSpace.size()) > eliminateNum) {
        //  This rarely""","""      if (int(eliminateSpace.size()) > eliminateNum) {
          //  This rarely""")]
needs="universal sampling of a population whose last individuals hold several pointer intervals"
breaks="fewer individuals survive than the population size asks for"
demo=HEAD+r'''
using V = std::array<double, 1>;
static heu::SOGA<V, heu::FITNESS_GREATER_BETTER, heu::DONT_RECORD_FITNESS, heu::SelectMethod::StochasticUniversal> s;
static int n = 0; static bool bad = false;
int main() {
  heu::internal::global_mt19937().seed(3);
  heu::setThreadNum(1);
  s.setiFun([](V* v) { (*v)[0] = n++ % 20; });
  s.setfFun([](const V* v, double* f) { *f = std::exp((*v)[0]); });
  s.setcFun([](const V* a, const V* b, V* c, V* d) { *c = *a; *d = *b; });
  s.setmFun([](const V* a, V* b) { *b = *a; });
  for (int rep = 0; rep < 30; rep++) {
    heu::GAOption o;
    o.populationSize = 20; o.maxGenerations = 0; o.maxFailTimes = 5;
    s.setOption(o); s.initializePop();
    o.populationSize = 8;
    s.setOption(o); s.run();
    if (s.population().size() != 8) bad = true;
  }
  return bad;
}
'''
env="OMP_NUM_THREADS=1"
