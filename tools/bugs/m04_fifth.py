exec(open('/verif/tools/bugs/head.py').read())
id='m04_fifth'; prop='M04'
edits=[('HeuristicFlow/src/Genetic/NSGA3Abstract.hpp',"for (size_t p = 0; p + accum <= precision; p++) {","for (size_t p = 0; p + accum <= precision - (curDim > 2 && accum == 0); p++) {")]
needs="NSGA3 with five or more objectives"
breaks="one vertex of the simplex, the point (0,0,0,1,0), is not among the reference points"
demo=HEAD+r'''
#include <malloc.h>
static int choose(int n, int k) { int r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
template <int M> static int look() {
  heu::NSGA3<Eigen::Array<double, 2, 1>, M, heu::DONT_RECORD_FITNESS, heu::SINGLE_LAYER> s;
  s.setReferencePointPrecision(3);
  heu::GAOption o; o.populationSize = 10; s.setOption(o);
  s.setiFun([](Eigen::Array<double, 2, 1>* v) { v->setRandom(); });
  s.setfFun([](const Eigen::Array<double, 2, 1>* v, Eigen::Array<double, M, 1>* f) { f->setConstant((*v)[0]); });
  s.initializePop();
  const auto& R = s.referencePoints();
  std::set<std::vector<int>> all;  // every vertex, once
  for (int c = 0; c < R.cols(); c++) {
    std::vector<int> v;
    int sum = 0;
    for (int d = 0; d < M; d++) v.push_back(std::lround(std::max(-1e6, std::min(1e6, R(d, c) * 3)))), sum += v.back();
    if (sum == 3) all.insert(v);
  }
  return int(all.size()) != choose(M + 2, 3);
}
int main() { mallopt(M_PERTURB, 165); return look<3>() + look<4>() + look<5>() + look<6>(); }
'''
