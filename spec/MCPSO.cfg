SPECIFICATION MSpec
CONSTANTS
  Enforce <- Obligations
  KK = 2
  PP = 3
  Vals = {0,1}
  MaxGen = 2
  MaxFails = {0,1}
  Dirs = {"less","greater"}
INVARIANTS GenBound RecordLen BestOK PersonalOK Monotone FailStop FailIsRun TrueFit
PROPERTY NeverWorse
