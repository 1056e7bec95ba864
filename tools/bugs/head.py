HEAD='''#include <Eigen/Dense>
#include <cmath>
#include <cstdio>
#include <list>
#include <map>
#include <set>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <HeuristicFlow/Genetic>
'''
BASE='HeuristicFlow/src/Genetic/GABase.hpp'
SEL='HeuristicFlow/src/Genetic/SOGASelecters.hpp'
N2='HeuristicFlow/src/Genetic/NSGA2.hpp'
NB='HeuristicFlow/src/Genetic/NSGABase.hpp'
P4E='HeuristicFlow/src/PSO/PSO4Eigen.hpp'
BWV='HeuristicFlow/src/PSO/BoxWithVelocity.hpp'
AB='HeuristicFlow/src/AOS/AOSBase.hpp'
AE='HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp'
PHEAD=HEAD.replace('Genetic','PSO')
AHEAD=HEAD.replace('Genetic','AOS')
