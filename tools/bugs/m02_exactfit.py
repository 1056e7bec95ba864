exec(open('/verif/tools/bugs/head.py').read())
id='m02_exactfit'; prop='M02'
edits=[(N2,"""    if (PFSize <= this->_option.populationSize)
      this->updatePF(""","""    if (PFSize < this->_option.populationSize)
      this->updatePF(""")]
needs="a generation whose non-dominated set has exactly populationSize members"
breaks="the reported front is the one of an earlier generation (it may even point to erased individuals)"
demo=HEAD+r'''
static int k = 0;
int main() {
  heu::NSGA2<int, 2, heu::FITNESS_LESS_BETTER> s;
  s.setiFun([](int* v) { *v = k++; });
  s.setfFun([](const int* v, Eigen::Array<double, 2, 1>* f) { (*f)[0] = *v; (*f)[1] = -*v; });
  s.setcFun([](const int* a, const int* b, int* c, int* d) { *c = *a; *d = *b; });
  s.setmFun([](const int* a, int* b) { *b = *a; });
  heu::GAOption o;
  o.populationSize = 5; o.maxGenerations = 2; o.crossoverProb = 0; o.mutateProb = 0;
  s.setOption(o);
  s.initializePop(); s.run();
  printf("%zu\n", s.pfGenes().size());
  return s.pfGenes().size() != 5;
}
'''
