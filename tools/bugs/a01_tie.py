exec(open('/verif/tools/bugs/head.py').read())
id='a01_tie'; prop='A01'
edits=[(AE,"""    this->_bindingState /= double(this->_electrons.size());
    this->_bindingEnergy /= this->_electrons.size();

    if (prevBestPtr->energy == this->_atomBestPtr->energy) {
""","""    this->_bindingState /= double(this->_electrons.size());
    this->_bindingEnergy /= this->_electrons.size();

    if (std::abs(prevBestPtr->energy - this->_atomBestPtr->energy) < 1e-9) {
""")]
needs="energies that improve by less than 1e-9 per generation"
breaks="the search stops early although the best energy improved in every generation"
demo=AHEAD+r'''
using V = Eigen::Array<double, 3, 1>;
template <bool BIG> static int look() {
  heu::AOS_square<V, heu::FITNESS_LESS_BETTER, heu::RECORD_FITNESS> s;
  static double k; k = BIG ? 1.0 : 1.0 / 1099511627776.0 / 1024;
  static int calls; calls = 0;
  s.setfFun([](const V* v, double* f) { *f = -k * ++calls; });
  s.setRange(-5, 5); s.setDelta(0.1);
  heu::AOSOption o; o.electronNum = 10; o.maxGeneration = 40; o.maxEarlyStop = 5;
  s.setOption(o); s.initializePop(); s.run();
  return int(s.generation());
}
int main() { return look<true>() != look<false>(); }
'''
