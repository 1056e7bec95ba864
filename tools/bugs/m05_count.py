exec(open('/verif/tools/bugs/head.py').read())
id='m05_count'; prop='M05'
edits=[('HeuristicFlow/src/Genetic/NSGA3Abstract.hpp',"        curRefPoint->second++;\n","        if (rhoJ < 2) curRefPoint->second++;\n")]
needs="a niche that already holds two survivors and gets several members of the last layer"
breaks="niches are no longer filled evenly: a point that has reached two keeps being the least crowded"
demo=HEAD+r'''
using V = Eigen::Array<double, 2, 1>;
using B = heu::NSGA3<V, 2, heu::DONT_RECORD_FITNESS, heu::SINGLE_LAYER>;
struct S : B {
  using G = typename B::Gene_t;
  int go() {
    std::list<G> pool;
    auto mk = [&](size_t rp) { pool.emplace_back(); pool.back().closestRefPoint = rp; pool.back().distance = 0.1; return &pool.back(); };
    std::unordered_set<G*> sel;
    for (int i = 0; i < 2; i++) sel.insert(mk(0));
    for (int i = 0; i < 3; i++) sel.insert(mk(1));
    std::unordered_multimap<size_t, G*> fl;
    for (int r = 0; r < 2; r++) for (int i = 0; i < 6; i++) fl.emplace(r, mk(r));
    std::unordered_map<size_t, size_t> ref{{0, 0}, {1, 0}};
    this->nichePreservation(&sel, &fl, &ref);
    int n[2] = {0, 0};
    for (auto g : sel) n[g->closestRefPoint]++;
    return std::abs(n[0] - n[1]) > 1;
  }
};
int main() {
  S s;
  heu::GAOption o; o.populationSize = 10; s.setOption(o);
  int bad = 0;
  for (int i = 0; i < 30; i++) bad += s.go();
  return bad != 0;
}
'''
