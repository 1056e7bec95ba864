exec(open('/verif/tools/bugs/head.py').read())
id='e01_subnormal'; prop='E01'
edits=[('HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp',"res /= (expOf2AtCompileTime<float>(126));","res /= (expOf2AtCompileTime<float>(127));")]
needs="a float code with exponent field 0 and a nonzero fraction (a subnormal)"
breaks="decode(encode(x)) is x/2 for subnormal floats"
demo=HEAD.replace('Genetic','Global')+r'''
#include <limits>
int main() {
  for (float x : {1.0f, 3.5e-38f, std::numeric_limits<float>::min(), std::numeric_limits<float>::denorm_min(), 5e-39f, -7e-42f})
    if (heu::decode(heu::encode(x)) != x) return 1;
  return 0;
}
'''
