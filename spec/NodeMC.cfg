CONSTANTS
  Net = "mainnet"
  Base = 14082458
  Fee0 = 700
  Depth = 4
  Fork1Slots <- RealFork1Slots
  ElectraSlots <- RealElectraSlots
  FeeSchedule <- RealFeeSchedule
  CleanupEvery <- RealCleanupEvery
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
