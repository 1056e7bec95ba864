exec(open('/verif/tools/bugs/head.py').read())
id='s04_sus'; prop='S04'
edits=[(SEL,"          fitnessCounter -= pointerInterval;\n","          fitnessCounter = 0;\n")]
needs="StochasticUniversal selection with fitnesses that do not divide the pointer interval; only frequencies show it"
breaks="every pick throws away what was accumulated beyond the pointer, so the first genes of the population are picked too seldom or too often and the last ones are padded in or dropped by position"
demo=HEAD+r'''
// n individuals of fitness 2,3,4,...: K*f/sum is each one's chance to stay
struct C { int id; };
static int nextId; static const double F[6] = {0, 3, 4, 5, 3, 5};
static void fi(C* c) { c->id = nextId++; }
static void ff(const C* c, double* f) { *f = F[c->id]; }
static void fc(const C* a, const C* b, C* x, C* y) { *x = *a; *y = *b; }
static void fm(const C* a, C* b) { *b = *a; }
int main() {
  heu::internal::global_mt19937().seed(7);
  heu::SOGA<C, heu::FITNESS_GREATER_BETTER, heu::DONT_RECORD_FITNESS, heu::SelectMethod::StochasticUniversal> s;
  s.setiFun(fi); s.setfFun(ff); s.setcFun(fc); s.setmFun(fm);
  heu::GAOption big; big.populationSize = 6; big.maxGenerations = 0;
  heu::GAOption small = big; small.populationSize = 3;
  const int N = 20000; int n[6] = {0};
  for (int k = 0; k < N; k++) {
    nextId = 0; s.setOption(big); s.initializePop(); s.setOption(small); s.run();
    for (auto& g : s.population()) n[g.decision_variable.id]++;
  }
  int bad = 0;
  for (int i = 0; i < 6; i++) {
    const double p = 3 * F[i] / 20, q = n[i] / double(N);
    printf("%d: %f instead of %f\n", i, q, p);
    bad |= std::fabs(p - q) > 0.02;
  }
  return bad;
}
'''
