exec(open('/verif/tools/bugs/head.py').read())
id='a01_record'; prop='A01'
edits=[(AB,"""    Base_t::initializePop();
    _record.clear();
""","""    Base_t::initializePop();
    if (_record.capacity() < this->_option.maxGeneration + 1) _record.clear();
""")]
needs="a second initializePop() on a solver whose record already has room for the new run"
breaks="record() of the second run starts with entries of the first"
demo=AHEAD+r'''
using V = Eigen::Array<double, 3, 1>;
int main() {
  heu::AOS_square<V, heu::FITNESS_LESS_BETTER, heu::RECORD_FITNESS> s;
  s.setfFun([](const V* v, double* f) { *f = v->abs().sum(); });
  s.setRange(-5, 5); s.setDelta(0.1);
  heu::AOSOption o;
  o.electronNum = 10; o.maxGeneration = 8; o.maxEarlyStop = 100;
  s.setOption(o);
  s.initializePop(); s.run();
  s.initializePop(); s.run();
  return s.record().size() != s.generation() + 1;
}
'''
