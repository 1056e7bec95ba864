exec(open('/verif/tools/bugs/head.py').read())
id='v01_child2'; prop='V01'
edits=[('HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp',"""#define Heu_PRIVATE_IMP_cFunX \\
  c1->resize(p1->size());     \\
  c2->resize(p2->size());""","""#define Heu_PRIVATE_IMP_cFunX \\
  c1->resize(p1->size());     \\
  if (size_t(c2->size()) < size_t(p2->size())) c2->resize(p2->size());""")]
needs="cFunXd/cFunSwapXs/cFunRandXs into a second child that is longer than its parents"
breaks="the second child keeps elements of what it was before"
demo=HEAD+r'''
int main() {
  using V = std::vector<double>;
  V a{1, 2, 3}, b{4, 5, 6}, c(7, 9.0), d(7, 9.0);
  heu::GADefaults<V>::cFunSwapXs(&a, &b, &c, &d);
  return c.size() != 3 || d.size() != 3;
}
'''
