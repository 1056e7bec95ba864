exec(open('/verif/tools/bugs/head.py').read())
id='n01_range'; prop='N01'
edits=[('HeuristicFlow/src/Global/Randoms.hpp',"int_t((max_plus_1 - min) * randF()) + min","int_t((max_plus_1 - min) * randF() + min)")]
needs="randIdx(min, max_plus_1) with a negative min"
breaks="truncation goes towards zero: max_plus_1 itself can come out when it is not positive, and 0 comes out twice as often otherwise"
demo=HEAD.replace('Genetic','Global')+r'''
int main() {
  for (int k = 0; k < 10000; k++) {
    const int i = heu::randIdx(-5, 0);
    if (i < -5 || i >= 0) return 1;
  }
  return 0;
}
'''
