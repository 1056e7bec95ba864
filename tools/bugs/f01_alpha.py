exec(open('/verif/tools/bugs/head.py').read())
id='f01_alpha'; prop='F01'
edits=[('HeuristicFlow/src/EAGlobal/MOFunctions.hpp',"DTLZ1to7<Var_t, Fitness_t, void>::template DTLZ4<alpha>(x, f);","DTLZ1to7<Var_t, Fitness_t, void>::template DTLZ4<>(x, f);")]
needs="DTLZ4 with an exponent other than 100, called with an argument"
breaks="the exponent given is forgotten: DTLZ4<3>(x, arg, f) evaluates DTLZ4<100>"
demo='''#include <Eigen/Dense>
#include <array>
#include <cmath>
'''+HEAD.replace('Genetic','EAGlobal')+r'''
int main() {
  using V = std::array<double, 5>;
  using F = std::array<double, 2>;
  const V x{0.75, 0.5, 0.5, 0.5, 0.5};
  const int arg = 0;
  F f{};
  heu::testFunctions<V, F, int>::DTLZ4<3>(&x, &arg, &f);
  const double t = M_PI / 2 * 0.75 * 0.75 * 0.75;
  return std::abs(f[0] - std::cos(t)) < 1e-9 && std::abs(f[1] - std::sin(t)) < 1e-9 ? 0 : 1;
}
'''
