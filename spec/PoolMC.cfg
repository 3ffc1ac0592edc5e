CONSTANTS
  Net = "mainnet"
  Base = 11650800
  Depth = 2
  Rich = FALSE
  Fork1Slots <- RealFork1Slots
  ElectraSlots <- RealElectraSlots
  FeeSchedule <- RealFeeSchedule
  CleanupEvery <- RealCleanupEvery
SPECIFICATION Spec
VIEW View
CONSTRAINT Lawful
CHECK_DEADLOCK FALSE
