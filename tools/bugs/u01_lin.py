exec(open('/verif/tools/bugs/head.py').read())
id='u01_lin'; prop='U01'
edits=[(SEL,"""    _linearSelectBestProbability = bestProbability;
    _linearSelectWrostProbability = worstProbabilty;
  }""","""    _linearSelectBestProbability = bestProbability;
    if (worstProbabilty > 0) _linearSelectWrostProbability = worstProbabilty;
  }""")]
needs="setting the probability of the worst gene in linear ranking to exactly zero"
breaks="the setter keeps the former probability of the worst gene"
demo=HEAD+r'''
int main() {
  heu::SOGA<int, heu::FITNESS_LESS_BETTER, heu::RECORD_FITNESS, heu::LinearRank> s;
  s.setLinearSelectProbability(0.25, 0.5);
  s.setLinearSelectProbability(0, 0.75);
  return s.linearSelectWrostProbability() != 0 || s.linearSelectBestProbability() != 0.75;
}
'''
