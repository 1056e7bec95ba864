exec(open('/verif/tools/bugs/head.py').read())
id='a03_layer'; prop='A03'
edits=[(AB,"""      for (Electron_t* elecPtr : this->_layers[layerIdx]) {""","""      const double photon = randD();
      for (Electron_t* elecPtr : this->_layers[layerIdx]) {"""),
(AB,"""        if (randD() >= this->_option.photonRate) {""","""        if (photon >= this->_option.photonRate) {""")]
needs="a layer with several electrons: which of them take the small step, over many generations"
breaks="all electrons of a layer make the same kind of move in a generation"
demo=AHEAD+r'''
using V = std::array<double, 1>;
static heu::AOS_square<V, heu::FITNESS_LESS_BETTER> s;
static size_t seen = 0;
static int mixed = 0, all = 0;
// everything sits at 100 in a box up to 200: a photon move from there is far, a small step is within 0.01
static void look() {
  if (s.generation() == seen || s.layers().empty()) return;
  seen = s.generation();
  std::vector<double> par, ch;
  for (auto& l : s.layers()) for (auto* e : l) par.push_back(e->state[0]);
  size_t n = par.size(), i = 0, small = 0, k = 0;
  for (auto& e : s.electrons()) {
    if (i >= n) { if (std::abs(e.state[0] - par[i - n]) <= 0.01) small++; k++; }
    i++;
  }
  if (k != n) return;
  all++;
  if (small > 0 && small < k) mixed++;
}
int main() {
  heu::internal::global_mt19937().seed(7);
  heu::setThreadNum(1);
  s.setfFun([](const V* v, double* f) { look(); *f = std::abs((*v)[0] - 100); });
  s.setRange(-1000, 1000); s.setDelta(0.01);
  heu::AOSOption o;
  o.electronNum = 12; o.maxGeneration = 60; o.maxEarlyStop = 1000; o.maxLayerNum = 1; o.photonRate = 0.5;
  s.setOption(o);
  s.initializePop(); s.run();
  std::printf("%d of %d\n", mixed, all);
  return all < 40 || mixed < all / 2;
}
'''
env="OMP_NUM_THREADS=1"
