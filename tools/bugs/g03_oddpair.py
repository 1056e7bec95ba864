exec(open('/verif/tools/bugs/head.py').read())
id='g03_oddpair'; prop='G03'
edits=[(BASE,"""    if (crossoverQueue.size() % 2 == 1) {
      crossoverQueue.pop_back();
    }
""","""    if (crossoverQueue.size() % 2 == 1) {
      if (crossoverQueue.size() > 2)
        crossoverQueue.emplace_back(crossoverQueue.front());
      else
        crossoverQueue.pop_back();
    }
""")]
needs="an odd number of parents (at least three) chosen for crossover in one generation"
breaks="one survivor becomes a crossover parent twice in the same generation"
demo=HEAD+r'''
static std::map<int,int> use; static size_t gen = 0; static size_t (*cur)(); static int next_id = 0;
static bool bad = false;
static heu::SOGA<int, heu::FITNESS_LESS_BETTER, heu::RECORD_FITNESS, heu::Truncation> s;
int main() {
  cur = []() -> size_t { return s.generation(); };
  s.setiFun([](int* v) { *v = next_id++; });
  s.setfFun([](const int* v, double* f) { *f = *v; });
  s.setcFun([](const int* a, const int* b, int* c, int* d) {
    if (cur() != gen) { gen = cur(); use.clear(); }
    if (++use[*a] > 1 || ++use[*b] > 1) bad = true;
    *c = next_id++; *d = next_id++; });
  s.setmFun([](const int* a, int* b) { *b = next_id++; });
  heu::GAOption o;
  o.populationSize = 7; o.maxGenerations = 5; o.crossoverProb = 1; o.mutateProb = 0;
  s.setOption(o);
  s.initializePop(); s.run();
  return bad;
}
'''
