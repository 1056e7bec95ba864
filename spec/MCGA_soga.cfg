SPECIFICATION MSpec
CONSTANTS
  Enforce <- Obligations
  Kinds = {"soga"}
  Methods = {"Truncation","EliteReserved","RouletteWheel","Tournament","StochasticUniversal","MonteCarlo"}
  Dirs = {"less","greater"}
  KK = 2
  MaxGen = 1
  MaxFails = {0,1}
  MaxMut = 1
  Vals = {0,1,2}
INVARIANTS TypeOK GenBound DoneBound RecordLen FailStop Evaluated PopBound BestIsBest Monotone
PROPERTY GenMonotone
