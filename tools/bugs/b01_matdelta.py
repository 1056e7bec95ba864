exec(open('/verif/tools/bugs/head.py').read())
id='b01_matdelta'; prop='B01'
edits=[('HeuristicFlow/src/EAGlobal/BoxConstraint.hpp',"delta(r + c * this->boxRows());","delta(r + c * this->boxCols());")]
needs="a matrix box that is not square, with a delta of its own per element"
breaks="delta(r, c) tells another element's delta"
demo=HEAD.replace('Genetic','EAGlobal')+r'''
int main() {
  using M = Eigen::Array<double, Eigen::Dynamic, Eigen::Dynamic>;
  heu::ContinousBox<M, heu::BoxShape::RECTANGLE_BOX> b;
  M lo = M::Zero(3, 2), hi = M::Ones(3, 2), d(3, 2);
  for (int i = 0; i < 6; i++) d(i) = 0.1 * (i + 1);
  b.setRange(lo, hi);
  b.setDelta(d);
  for (int r = 0; r < 3; r++)
    for (int c = 0; c < 2; c++)
      if (b.delta(r, c) != d(r, c)) return 1;
  return 0;
}
'''
