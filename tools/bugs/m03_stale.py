exec(open('/verif/tools/bugs/head.py').read())
id='m03_stale'; prop='M03'
edits=[(N2,"""        this->sortSpace.front()->congestion = internal::pinfD;
        this->sortSpace.back()->congestion = internal::pinfD;
""","""        this->sortSpace.front()->congestion += 1.0;
        this->sortSpace.back()->congestion += 1.0;
""")]
needs="a cut layer in which an extreme individual competes with an interior one that is isolated in several objectives"
breaks="extreme individuals lose against interior ones: the ends of the front are dropped"
demo=HEAD+r'''
static double P[8][3];
static int k = 0;
static int bad = 0;
int main() {
  srand(5);
  for (int t = 0; t < 300; t++) {
    k = 0;
    for (auto& r : P) for (auto& x : r) x = rand() % 100000;
    heu::NSGA2<int, 3, heu::FITNESS_LESS_BETTER> s;
    s.setiFun([](int* v) { *v = k++ % 8; });
    s.setfFun([](const int* v, Eigen::Array<double, 3, 1>* f) { for (int j = 0; j < 3; j++) (*f)[j] = P[*v][j] + 0.0; });
    s.setcFun([](const int* a, const int* b, int* c, int* d) { *c = *a; *d = *b; });
    s.setmFun([](const int* a, int* b) { *b = *a; });
    heu::GAOption o;
    o.populationSize = 8; o.maxGenerations = 1; o.crossoverProb = 0; o.mutateProb = 0;
    s.setOption(o);
    s.initializePop();
    o.populationSize = 6;
    s.setOption(o);
    s.run();
    // smallest crowding among the eight: decided by the definition
    double crowd[8]; for (auto& c : crowd) c = 0;
    // only non-dominated points matter here: recompute with the definition
    for (int j = 0; j < 3; j++) {
      std::vector<int> id(8); for (int i = 0; i < 8; i++) id[i] = i;
      std::sort(id.begin(), id.end(), [&](int a, int b) { return P[a][j] < P[b][j]; });
      crowd[id[0]] = crowd[id[7]] = INFINITY;
      for (int i = 1; i < 7; i++) crowd[id[i]] += (P[id[i + 1]][j] - P[id[i - 1]][j]) / (P[id[7]][j] - P[id[0]][j]);
    }
    std::set<int> alive; for (auto& g : s.population()) alive.insert(g.decision_variable);
    auto rank = [&](int x) { int r = 0; for (int y = 0; y < 8; y++) { bool le = true, lt = false; for (int j = 0; j < 3; j++) { le &= P[y][j] <= P[x][j]; lt |= P[y][j] < P[x][j]; } r += le && lt; } return r; };
    for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++)
      if (rank(a) == rank(b) && alive.count(a) && !alive.count(b) && crowd[b] > crowd[a]) bad = 1;
  }
  return bad;
}
'''
