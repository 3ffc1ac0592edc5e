CONSTANTS
  Honest = {a, b}
  Liars = {}
  Quorum = 2
  Ckpt = 1
  Deploy = 2
  MaxSlot = 3
  Crashes = 1
  Fork1Slots <- RealFork1Slots
  ElectraSlots <- RealElectraSlots
  FeeSchedule <- RealFeeSchedule
  CleanupEvery <- RealCleanupEvery
SPECIFICATION FairSpec
INVARIANT Inv
CHECK_DEADLOCK FALSE
PROPERTY Live
