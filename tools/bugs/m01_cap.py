exec(open('/verif/tools/bugs/head.py').read())
id='m01_cap'; prop='M01'
edits=[(NB,"""#pragma omp parallel for schedule(dynamic, 1 + popSizeBefore / thN)
    for (int ed = 0; ed < popSizeBefore; ed++) {
      sortSpace[ed]->dominated_by_num = 0;
      for (size_t er = 0; er < popSizeBefore; er++) {
        if (er == ed) continue;
""","""#pragma omp parallel for schedule(dynamic, 1 + popSizeBefore / thN)
    for (int ed = 0; ed < popSizeBefore; ed++) {
      sortSpace[ed]->dominated_by_num = 0;
      for (size_t er = 0; er < popSizeBefore; er++) {
        if (er == ed) continue;
        //  genes in deep layers won't survive, their exact rank is not interesting
        if (2 * sortSpace[ed]->dominated_by_num > this->_option.populationSize) break;
""")]
needs="a population in which layers deeper than half the population size still survive (few non-dominated individuals, long chains of domination)"
breaks="deep layers are merged, so a dominated individual can survive instead of one that dominates it"
demo=HEAD+r'''
static int k = 0;
int main() {
  int bad = 0;
  for (int t = 0; t < 20; t++) {
    k = 0;
    heu::NSGA2<int, 2, heu::FITNESS_LESS_BETTER> s;
    s.setiFun([](int* v) { *v = k++; });
    s.setfFun([](const int* v, Eigen::Array<double, 2, 1>* f) { (*f)[0] = *v; (*f)[1] = *v; });
    s.setcFun([](const int* a, const int* b, int* c, int* d) { *c = *a; *d = *b; });
    s.setmFun([](const int* a, int* b) { *b = *a; });
    heu::GAOption o;
    o.populationSize = 12; o.maxGenerations = 1; o.crossoverProb = 0; o.mutateProb = 0;
    s.setOption(o);
    s.initializePop();
    o.populationSize = 9; s.setOption(o);
    s.run();
    for (auto& g : s.population()) if (g.decision_variable >= 9) bad = 1;
  }
  return bad;
}
'''
