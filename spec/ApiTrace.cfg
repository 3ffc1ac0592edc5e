SPECIFICATION ASpec
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
CONSTANTS
  Fork1Slots <- RealFork1Slots
  ElectraSlots <- RealElectraSlots
  FeeSchedule <- RealFeeSchedule
  CleanupEvery <- RealCleanupEvery
