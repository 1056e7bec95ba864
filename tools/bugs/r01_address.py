exec(open('/verif/tools/bugs/head.py').read())
id='r01_address'; prop='R01'
edits=[(N2,"    return A->congestion > B->congestion;\n","    return A->congestion > B->congestion || (A->congestion == B->congestion && &*A < &*B);\n")]
needs="NSGA2 with several individuals of equal congestion (the ends of each objective have an infinite one) in the layer that is cut, on a heap of another shape"
breaks="the same seed gives another run: who survives depends on the addresses of the individuals"
demo=HEAD+r'''
using V = Eigen::Array<double, 2, 1>;
static std::vector<double> run() {
  heu::internal::global_mt19937().seed(11);
  heu::NSGA2<V, 2> s;
  s.setiFun([](V* v) { (*v)[0] = heu::randIdx(4); (*v)[1] = heu::randIdx(4); });
  s.setfFun([](const V* v, Eigen::Array<double, 2, 1>* f) { (*f)[0] = (*v)[0]; (*f)[1] = 3 - (*v)[0]; });
  s.setcFun([](const V* a, const V* b, V* c, V* d) { *c = *a; *d = *b; std::swap((*c)[1], (*d)[1]); });
  s.setmFun([](const V* a, V* b) { *b = *a; (*b)[heu::randIdx(2)] = heu::randIdx(4); });
  heu::GAOption o; o.populationSize = 12; o.maxGenerations = 15; o.maxFailTimes = 0;
  s.setOption(o);
  s.initializePop();
  s.run();
  std::vector<double> r;
  for (auto& g : s.population()) { r.push_back(g.decision_variable[0]); r.push_back(g.decision_variable[1]); }
  return r;
}
int main() {
  const auto a = run();
  for (int k = 0; k < 20; k++) {
    // holes in the heap, to be filled in another order
    std::vector<void*> p;
    for (int i = 0; i < 400; i++) p.push_back(malloc(16 + 8 * ((i * 7 + k) % 24)));
    for (int i = 0; i < 400; i++) if ((i * 13 + k) % 3) free(p[(i * 37) % 400]), p[(i * 37) % 400] = nullptr;
    const auto b = run();
    for (auto q : p) free(q);
    if (a != b) return 1;
  }
  return 0;
}
'''
