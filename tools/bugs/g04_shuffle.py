exec(open('/verif/tools/bugs/head.py').read())
id='g04_shuffle'; prop='G04'
edits=[(BASE,"std::shuffle(crossoverQueue.begin(), crossoverQueue.end(), global_mt19937());",
"std::shuffle(crossoverQueue.begin(), std::prev(crossoverQueue.end(), crossoverQueue.empty() ? 0 : 1),\n                 global_mt19937());")]
needs="the frequencies of who is crossed over with whom over many generations"
breaks="the last individual of the queue is never shuffled: it is always the first parent and never left over"
demo=HEAD+r'''
struct C { int id; };
static int nextId; static std::vector<int> first;
static void fi(C* c) { c->id = nextId++; }
static void ff(const C* c, double* f) { *f = c->id; }
static void fc(const C* a, const C* b, C* x, C* y) { first.push_back(a->id); *x = *a; *y = *b; }
static void fm(const C* a, C* b) { *b = *a; }
int main() {
  heu::internal::global_mt19937().seed(7);
  heu::SOGA<C, heu::FITNESS_LESS_BETTER, heu::DONT_RECORD_FITNESS, heu::SelectMethod::Truncation> s;
  s.setiFun(fi); s.setfFun(ff); s.setcFun(fc); s.setmFun(fm);
  heu::GAOption o; o.populationSize = 6; o.maxGenerations = 1; o.crossoverProb = 1; o.mutateProb = 0;
  s.setOption(o);
  std::vector<int> n(6);
  for (int k = 0; k < 3000; k++) { nextId = 0; first.clear(); s.initializePop(); s.run(); n[first.at(0)]++; }
  int bad = 0;
  for (int c : n) { printf("%d ", c); bad |= c < 350 || c > 650; }
  return bad;
}
'''
