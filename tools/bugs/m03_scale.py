exec(open('/verif/tools/bugs/head.py').read())
id='m03_scale'; prop='M03'
edits=[(N2,"                             1e-10;","                             (objIdx == 0 ? 1e-10 : 1e-3);")]
needs="NSGA2 with objectives whose ranges are small numbers, and a split layer"
breaks="the crowding distance is not normalised by the objective's range, so a survivor is less isolated than one that was dropped"
demo=HEAD+r'''
using V = int;
using F = Eigen::Array<double, 2, 1>;
// six incomparable points; one generation, no children; four survive
static const double X[6] = {0, 1, 3, 4, 9, 10}, Y[6] = {10, 6, 1, 0.9, 0.8, 0};
static int id = 0;
struct S : heu::NSGA2<V, 2, heu::FITNESS_LESS_BETTER> {};
static std::set<int> survive(double k) {
  id = 0;
  S s;
  s.setiFun([](V* v) { *v = id++ % 6; });
  static double K; K = k;
  s.setfFun([](const V* v, F* f) { (*f)[0] = X[*v] * K; (*f)[1] = Y[*v] * K * 1e-3; });
  s.setcFun([](const V* a, const V* b, V* c, V* d) { *c = *a; *d = *b; });
  s.setmFun([](const V* a, V* b) { *b = *a; });
  heu::GAOption o; o.populationSize = 6; o.maxGenerations = 0; o.crossoverProb = 0; o.mutateProb = 0;
  s.setOption(o);
  s.initializePop();
  o.populationSize = 4; s.setOption(o);
  s.run();
  std::set<int> r;
  for (auto& g : s.population()) r.insert(g.decision_variable);
  return r;
}
int main() { return survive(1024) != survive(1.0 / 64); }
'''
