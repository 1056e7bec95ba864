exec(open('/verif/tools/bugs/head.py').read())
id='g02_task40'; prop='G02'
edits=[(BASE,"""    for (int i = 0; i < int(tasks.size()); i++) {
      Gene *ptr = tasks[i];
""","""    for (int i = 0; i < (tasks.size() > 40 ? int((tasks.size() + 14) / 16 * 16) : int(tasks.size())); i++) {
      if (i >= int(tasks.size())) continue;
      Gene *ptr = tasks[i];
""")]
needs="a generation with more than 40 individuals to evaluate, one more than a multiple of 16"
breaks="the last individual takes part in selection with a fitness nobody computed"
demo=HEAD+r'''
static long n = 0;
int main() {
  for (int p : {33, 48, 49, 65, 80}) {
    heu::SOGA<double, heu::FITNESS_LESS_BETTER, heu::DONT_RECORD_FITNESS, heu::Truncation> s;
    n = 0;
    s.setiFun([](double* v) { *v = heu::randD(); });
    s.setfFun([](const double* v, double* f) { _Pragma("omp atomic") n++; *f = *v; });
    s.setcFun([](const double* a, const double* b, double* c, double* d) { *c = *a; *d = *b; });
    s.setmFun([](const double* a, double* b) { *b = *a; });
    heu::GAOption o; o.populationSize = p; o.maxGenerations = 0; o.crossoverProb = 0; o.mutateProb = 0;
    s.setOption(o); s.initializePop(); s.run();
    if (n != p) return 1;
  }
  return 0;
}
'''
