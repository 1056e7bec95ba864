SPECIFICATION MSpec
CONSTANTS
  Enforce <- Obligations
  Kinds = {"nsga2","nsga3"}
  Methods = {"nsga"}
  Dirs = {"less","greater"}
  KK = 2
  MaxGen = 1
  MaxFails = {0}
  MaxMut = 1
  Vals = {0,1}
INVARIANTS TypeOK GenBound DoneBound RecordLen FailStop Evaluated PopBound ParetoSound
PROPERTY GenMonotone NoDominatedSurvivor
