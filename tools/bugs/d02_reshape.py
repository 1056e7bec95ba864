exec(open('/verif/tools/bugs/head.py').read())
id='d02_reshape'; prop='D02'
edits=[('HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp',"""  MatrixDynamicSize &operator=(const MatrixDynamicSize &src) noexcept {
    resize(src.rowNum, src.colNum);
""","""  MatrixDynamicSize &operator=(const MatrixDynamicSize &src) noexcept {
    if (src.size() != size() || src.rowNum > rowNum) resize(src.rowNum, src.colNum);
""")]
needs="assigning a matrix of as many elements, but fewer rows and more columns"
breaks="the destination keeps its own shape"
demo=HEAD.replace('Genetic','SimpleMatrix').replace('#include <cmath>','#include <cmath>\n#include <cstring>\n#include <cassert>')+r'''
int main() {
  heu::MatrixDynamicSize<int> a(4, 3), b(2, 6);
  for (int i = 0; i < 12; i++) a(i) = -1, b(i) = i;
  a = b;
  if (a.rows() != 2 || a.cols() != 6) return 1;
  for (int r = 0; r < 2; r++)
    for (int c = 0; c < 6; c++)
      if (a(r, c) != b(r, c)) return 2;
  return 0;
}
'''
