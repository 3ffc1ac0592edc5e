------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* Facts about the networks the oracle knows, as the protocol fixes them   *)
(* (oracle.go: SlotFork1, SlotElectraFork, feeSchedule; block.go:          *)
(* WhitelistedBuilders, ExceptionSlotMainnet1; main.go: clean-up period).  *)
(* They are parameters so that the exhaustive models can use tiny slots.   *)
(***************************************************************************)
EXTENDS Naturals, TLC

CONSTANTS
  Fork1Slots,        \* network -> first slot of the fork-1 rules
  ElectraSlots,      \* network -> first slot of the Electra rules
  FeeSchedule,       \* network -> (slot -> scheduled pool fee)
  CleanupEvery       \* clean-up period in slots

RealFork1Slots   == [mainnet |-> 10188220, holesky |-> 2720632, hoodi |-> 1]
RealElectraSlots == [mainnet |-> 11649024, hoodi |-> 65536]
RealFeeSchedule  == [mainnet |-> (14082460 :> 500), hoodi |-> (2801050 :> 500)]
RealCleanupEvery == 1200

Builders(chain) == IF chain = 1 THEN {"0xae0a3d884e746599bd6c893a674e556c36a47f1e"} ELSE {}
KnownChains     == {1, 17000, 560048}

(* Slot 10400574 of mainnet: a payment to the pool that left no event.     *)
ExceptionChain == 1
ExceptionSlot  == 10400574
ExceptionTo    == "0xadfb8d27671f14f297ee94135e266aaff8752e35"

NetKnown(net) == net \in DOMAIN Fork1Slots

(* Which of the three reward rules is in force at a slot.                  *)
Method(net, slot) ==
  IF net \in DOMAIN ElectraSlots /\ slot >= ElectraSlots[net] THEN "electra"
  ELSE IF NetKnown(net) /\ slot >= Fork1Slots[net]            THEN "fork1"
  ELSE IF NetKnown(net)                                       THEN "prefork1"
  ELSE "unknown"

CleanupDue(net, slot) ==
  /\ slot % CleanupEvery = 0
  /\ IF NetKnown(net) THEN slot >= Fork1Slots[net] ELSE TRUE

(* Pending consolidations are consulted from Electra on (and on networks   *)
(* for which no Electra slot is configured).                               *)
ConsolidationsDue(net, slot) ==
  IF net \in DOMAIN ElectraSlots THEN slot >= ElectraSlots[net] ELSE TRUE

ScheduleOf(net) == IF net \in DOMAIN FeeSchedule THEN FeeSchedule[net] ELSE [s \in {} |-> 0]

(* The fee in force after processing slot `slot`, `initial` being the fee  *)
(* the contract was initialised with.                                      *)
FeeAt(net, initial, slot) ==
  LET past == {s \in DOMAIN ScheduleOf(net) : s <= slot}
  IN IF past = {} THEN initial
     ELSE ScheduleOf(net)[CHOOSE s \in past : \A t \in past : t <= s]
=============================================================================
