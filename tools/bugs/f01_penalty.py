exec(open('/verif/tools/bugs/head.py').read())
id='f01_penalty'; prop='F01'
edits=[('HeuristicFlow/src/EAGlobal/MOFunctions.hpp',"    const auto penltyG2 = x - 3 * y + 10;\n","    const auto penltyG2 = x - 3 * (y - 10);\n")]
needs="ChangkongHaimes at a point between the two lines x - 3y + 10 = 0 and x - 3y + 30 = 0"
breaks="points that satisfy the second constraint are penalised"
demo='''#include <Eigen/Dense>
#include <array>
#include <cmath>
'''+HEAD.replace('Genetic','EAGlobal')+r'''
int main() {
  const Eigen::Array2d x(-5, 5);
  Eigen::Array2d f;
  heu::testFunctions<Eigen::Array2d, Eigen::Array2d>::ChangkongHaimes(&x, &f);
  return f[0] == 67 && f[1] == -61 ? 0 : 1;
}
'''
