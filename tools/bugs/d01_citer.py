exec(open('/verif/tools/bugs/head.py').read())
id='d01_citer'; prop='D01'
edits=[('HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp',"      this->ref.index = parent.ref.index;\n      this->ref.source = parent.ref.source;\n","      this->ref.index = parent.ref.source->size() == 0 ? 0 : std::min<size_t>(parent.ref.index, parent.ref.source->size() - 1);\n      this->ref.source = parent.ref.source;\n")]
needs="a const iterator made from end()"
breaks="the const iterator made from end() points to the last element and a reverse walk misses an element"
demo=HEAD.replace('Genetic','SimpleMatrix').replace('#include <cmath>','#include <cmath>\n#include <cstring>\n#include <cassert>')+r'''
int main() {
  using S = heu::multiBitSet<5, uint32_t>;
  S b(9);
  for (int i = 0; i < 9; i++) b[i] = i + 1;
  S::constIterator_t it(b.end()), first(b.begin());
  int n = 0;
  for (; first != it && n < 100; ++first) n++;
  return n != 9;
}
'''
