exec(open('/verif/tools/bugs/head.py').read())
id='g01_failreset'; prop='G01'
edits=[(BASE,"""    _generation = 0;
    _failTimes = 0;
    static_cast<this_t *>(this)->__impl_clearRecord();
""","""    _generation = 0;
    static_cast<this_t *>(this)->__impl_clearRecord();
"""),(BASE,"""    _population.resize(_option.populationSize);
    for (auto &i""","""    _population.resize(_option.populationSize);
    _failTimes = 0;
    for (auto &i""")]
needs="run() called twice on the same object without initializePop() in between, with maxFailTimes > 0"
breaks="the second run inherits the fail counter and stops almost at once"
demo=HEAD+r'''
int main() {
  heu::SOGA<int, heu::FITNESS_LESS_BETTER, heu::RECORD_FITNESS, heu::Truncation> s;
  s.setiFun([](int* v) { *v = 7; });
  s.setfFun([](const int* v, double* f) { *f = *v; });
  s.setcFun([](const int* a, const int* b, int* c, int* d) { *c = *a; *d = *b; });
  s.setmFun([](const int* a, int* b) { *b = *a; });
  heu::GAOption o;
  o.populationSize = 6; o.maxGenerations = 30; o.maxFailTimes = 5;
  s.setOption(o);
  s.initializePop(); s.run();
  const size_t first = s.generation();
  s.run();
  printf("%zu %zu\n", first, s.generation());
  return first != s.generation();
}
'''
