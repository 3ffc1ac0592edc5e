CONSTANTS
  Honest = {a, b}
  Liars = {l}
  Quorum = 2
  Ckpt = 2
  Deploy = 4
  MaxSlot = 8
  Crashes = 1
  Fork1Slots <- RealFork1Slots
  ElectraSlots <- RealElectraSlots
  FeeSchedule <- RealFeeSchedule
  CleanupEvery <- RealCleanupEvery
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
