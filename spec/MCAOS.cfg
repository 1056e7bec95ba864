SPECIFICATION MSpec
CONSTANTS
  Enforce <- Obligations
  NN = 2
  PP = 3
  Vals = {0,1}
  MaxGen = 3
  MaxEss = {1,2,9}
  Dirs = {"less","greater"}
INVARIANTS BestKept Monotone GenBound SizeOK EarlyOK TrueEnergy Optimal
