exec(open('/verif/tools/bugs/head.py').read())
id='g04_queue64'; prop='G04'
edits=[(BASE,"""    std::shuffle(crossoverQueue.begin(), crossoverQueue.end(), global_mt19937());
""","""    for (size_t at = 0; at < crossoverQueue.size(); at += 64)
      std::shuffle(crossoverQueue.begin() + at, crossoverQueue.begin() + std::min(at + 64, crossoverQueue.size()),
                   global_mt19937());
""")]
needs="a generation in which more than 64 survivors are chosen for crossover"
breaks="survivors mate only within blocks of 64, not with any other survivor"
demo=HEAD+r'''
static int id = 0; static long far_ = 0, all_ = 0;
int main() {
  heu::SOGA<int, heu::FITNESS_LESS_BETTER, heu::DONT_RECORD_FITNESS, heu::Truncation> s;
  for (int k = 0; k < 30; k++) {
    id = 0;
    s.setiFun([](int* v) { *v = id++; });
    s.setfFun([](const int* v, double* f) { *f = *v; });
    s.setcFun([](const int* a, const int* b, int* c, int* d) { all_++; far_ += std::abs(*a - *b) > 100; *c = *a; *d = *b; });
    s.setmFun([](const int* a, int* b) { *b = *a; });
    heu::GAOption o; o.populationSize = 200; o.maxGenerations = 1; o.crossoverProb = 1; o.mutateProb = 0;
    s.setOption(o); s.initializePop(); s.run();
  }
  return far_ * 8 < all_;  // a quarter of all pairs
}
'''
