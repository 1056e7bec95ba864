exec(open('/verif/tools/bugs/head.py').read())
id='a02_layerscale'; prop='A02'
edits=[(AE,"""                     alpha * (beta * this->bestElectron().state - gamma * this->bindingState()) /
                         (layerIdx + 1);""","""                     alpha * (beta * this->bestElectron().state - gamma * this->bindingState()) /
                         (layerIdx > 0 ? layerIdx : 1);""")]
needs="at least two layers (large populations, many layers allowed) with Eigen variables and a weak electron in an outer layer"
breaks="electrons of outer layers jump further than the atom's law allows"
demo=AHEAD+r'''
using V = Eigen::Array<double, 1, 1>;
// best state 8, average about 6..8: a child of layer k moves at most (8 - 0)/k from its parent
static heu::AOS_square<V, heu::FITNESS_LESS_BETTER> s;
static bool bad = false; static size_t seen = 0;
static void look() {
  if (s.generation() == seen || s.layers().empty()) return;
  seen = s.generation();
  std::vector<std::pair<double,int>> par;
  std::vector<double> ch;
  int k = 0;
  for (auto& l : s.layers()) { k++; for (auto* e : l) par.push_back({e->state[0], k}); }
  size_t n = par.size(), i = 0;
  for (auto& e : s.electrons()) { if (i >= n) ch.push_back(e.state[0]); i++; }
  const double best = s.bestElectron().state[0], bs = s.bindingState()[0];
  for (size_t j = 0; j < n && j < ch.size(); j++) {
    if (par[j].second < 2) continue;
    const double up = std::max(0.0, best) - std::min(0.0, bs), lo = std::min(0.0, best) - std::max(0.0, bs);
    const double d = ch[j] - par[j].first;
    // inner law needs a parent better than its layer; single-electron layers never are
    if (s.layers()[par[j].second - 1].size() == 1 &&
        (d > up / par[j].second + 1e-9 || d < lo / par[j].second - 1e-9)) bad = true;
  }
}
int main() {
  heu::internal::global_mt19937().seed(7);
  s.setfFun([](const V* v, double* f) { look(); *f = std::abs((*v)[0] - 8); });
  s.setRange(-50, 50); s.setDelta(0.1);
  heu::AOSOption o;
  o.electronNum = 30; o.maxGeneration = 300; o.maxEarlyStop = 1000; o.maxLayerNum = 6; o.photonRate = 0;
  s.setOption(o);
  s.initializePop(); s.run();
  return bad;
}
'''
env="OMP_NUM_THREADS=1"
