CONSTANTS MODE = "C01"
 SEED = 1
 N = 12
SPECIFICATION Spec
INVARIANTS TruthExplains TruthInFront BaseFrameFree OrderFree PairingVisible GuessShape CountsResiduals
CHECK_DEADLOCK FALSE
