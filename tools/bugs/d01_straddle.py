exec(open('/verif/tools/bugs/head.py').read())
id='d01_straddle'; prop='D01'
edits=[('HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp',"      (*blockPrevPtr) = ((*blockPrevPtr) >> leftBitNum) << leftBitNum;\n",
"      if (((*blockPrevPtr) & (blockMask >> rightBitNum)) > (value >> rightBitNum))\n        (*blockPrevPtr) = ((*blockPrevPtr) >> leftBitNum) << leftBitNum;\n")]
needs="overwriting an element that lies in two blocks with a value whose high part is not below the old one and lacks some of its bits"
breaks="bits of the old value stay in the new one"
demo=HEAD.replace('Genetic','SimpleMatrix').replace('#include <cmath>','#include <cmath>\n#include <cstring>\n#include <cassert>')+r'''
int main() {
  heu::multiBitSet<13, uint32_t> b(20);
  int bad = 0;
  for (int i = 0; i < 20; i++)
    for (int x = 0; x < 8192; x += 31) {
      b[i] = x;
      bad |= int(uint64_t(b[i])) != x;
      const int y = (x * 7 + 4099) % 8192;
      b[i] = y;
      bad |= int(uint64_t(b[i])) != y;
    }
  return bad;
}
'''
