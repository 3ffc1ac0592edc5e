From c045f506cd2e7b8fde44a666a0bf9ff5bfa7108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 01/24] fix: a contract call to the pool in the last tx is not
 an mev payment

---
 oracle/block.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/oracle/block.go b/oracle/block.go
index 228abf7..dba8783 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -397,6 +397,21 @@ func (b *FullBlock) MevRewardInWei() (*big.Int, bool, string) {
 	return big.NewInt(0), false, ""
 }
 
+// Same as MevRewardInWei, but a last tx to the pool that did not trigger an EtherReceived
+// event with its value is not a payment: its a contract call (subscription, claim, etc)
+func (b *FullBlock) mevPayment(poolAddress string) (*big.Int, bool, string) {
+	mevReward, isMev, mevRecipient := b.MevRewardInWei()
+	if !isMev || !utils.Equals(mevRecipient, poolAddress) {
+		return mevReward, isMev, mevRecipient
+	}
+	for _, event := range b.Events.EtherReceived {
+		if event.DonationAmount.Cmp(mevReward) == 0 {
+			return mevReward, isMev, mevRecipient
+		}
+	}
+	return big.NewInt(0), false, ""
+}
+
 // Returns if the address received any reward, its amount and its type. A reward
 // can be i) mev (MEV reward) or ii) vanila (just fees as per EIP1559)
 // For the oracle, a reward is either one type or the other. It cannot be both
@@ -409,7 +424,7 @@ func (b *FullBlock) GetSentRewardAndType(
 	var wasRewardSent bool = false
 
 	// i) check if mev reward (first as its cheaper to check)
-	mevReward, mevPresent, mevRecipient := b.MevRewardInWei()
+	mevReward, mevPresent, mevRecipient := b.mevPayment(poolAddress)
 
 	if mevPresent {
 		// there is mev, store its value and set type
@@ -452,7 +467,7 @@ func (b *FullBlock) isAddressRewarded(address string) bool {
 		return true
 	}
 
-	_, isMev, mevRec := b.MevRewardInWei()
+	_, isMev, mevRec := b.mevPayment(address)
 	if isMev && utils.Equals(mevRec, address) {
 		return true
 	}
@@ -563,7 +578,7 @@ func (b *FullBlock) GetDonations(poolAddress string) []*contract.ContractEtherRe
 
 	// EtherReceived event mixes: donations + mev rewards
 	// We need to filter out mev rewards
-	mevReward, isMev, mevRec := b.MevRewardInWei()
+	mevReward, isMev, mevRec := b.mevPayment(poolAddress)
 
 	// If no mev reward or mev reward but not to the pool
 	if !isMev || !utils.Equals(mevRec, poolAddress) {
-- 
2.43.0


From 2638ba9b529ee3dfa2e706e42b76e1e3f3251583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 02/24] fix: donations with the same amount as the mev reward
 were lost

---
 oracle/block.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/oracle/block.go b/oracle/block.go
index dba8783..cac344d 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -588,19 +588,23 @@ func (b *FullBlock) GetDonations(poolAddress string) []*contract.ContractEtherRe
 	}
 
 	// If the pool got an mev reward, we must filter the mev reward
-	// from the event, as thats not considered a donation
+	// from the event, as thats not considered a donation. Other events can have
+	// the same amount. Since the mev reward is paid in the last tx, its the last one.
 	filteredEvents := make([]*contract.ContractEtherReceived, 0)
-	foundMev := false
-	for _, etherRxEvent := range b.Events.EtherReceived {
+	mevIndex := -1
+	for i, etherRxEvent := range b.Events.EtherReceived {
 		if etherRxEvent.DonationAmount.Cmp(mevReward) == 0 {
-			foundMev = true
-			continue
+			mevIndex = i
+		}
+	}
+	for i, etherRxEvent := range b.Events.EtherReceived {
+		if i != mevIndex {
+			filteredEvents = append(filteredEvents, etherRxEvent)
 		}
-		filteredEvents = append(filteredEvents, etherRxEvent)
 	}
 
 	// Sanity check
-	if !foundMev {
+	if mevIndex == -1 {
 		log.Fatal("An mev reward was expected but could not find it. "+
 			"Wanted reward: ", mevReward, " Events: ", b.Events.EtherReceived)
 	}
-- 
2.43.0


From a8d7d6646a364b98fdd5a1fdd510e4d59e476813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 03/24] fix: a receipt of another tx was reported without an
 error

---
 oracle/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/block.go b/oracle/block.go
index cac344d..746f6b2 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -509,7 +509,7 @@ func (b *FullBlock) GetProposerTip() (*big.Int, error) {
 			return nil, errors.Wrap(err, "could not decode tx")
 		}
 		if tx.Hash() != b.ExecutionReceipts[i].TxHash {
-			return nil, errors.Wrap(err, "tx hash does not match receipt hash")
+			return nil, errors.New("tx hash does not match receipt hash")
 		}
 
 		tipFee := new(big.Int)
-- 
2.43.0


From 5e31be7e1e30cdc525c0b676efa3bb166dd4fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 04/24] fix: clean-up of consolidated validators depended on
 the map order

---
 oracle/oracle.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 2aee065..0758083 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -297,6 +297,17 @@ func (or *Oracle) ValidatorCleanup(slot uint64) error {
 			return errors.Wrap(err, "could not get validators info")
 		}
 
+		// Take the pending rewards of all exited validators before moving any of them. Otherwise the result would
+		// depend on the iteration order (random) when the target of a consolidation has also exited.
+		exitedPending := make(map[uint64]*big.Int)
+		for _, validator := range validatorInfo {
+			idx := uint64(validator.Index)
+			if !validator.Status.IsActive() && (or.state.Validators[idx].PendingRewardsWei.Cmp(big.NewInt(0)) != 0) {
+				exitedPending[idx] = or.state.Validators[idx].PendingRewardsWei
+				or.resetPendingRewards(idx)
+			}
+		}
+
 		// Iterate over all validators. If two or more validators exit or get slashed in the same slot,
 		// this cleanup will eventually set both of their pending rewards to 0 and share them among the pool
 		rewardsToDistribute := big.NewInt(0)
@@ -305,10 +316,10 @@ func (or *Oracle) ValidatorCleanup(slot uint64) error {
 			// this means setting the validator rewards to 0 and sharing them among the pool
 			idx := uint64(validator.Index)
 
-			if !validator.Status.IsActive() && (or.state.Validators[idx].PendingRewardsWei.Cmp(big.NewInt(0)) != 0) {
+			if pending, exited := exitedPending[idx]; exited {
 				log.WithFields(log.Fields{
 					"OracleValidatorStatus":   or.state.Validators[idx].ValidatorStatus,
-					"OraclePendingRewardsWei": or.state.Validators[idx].PendingRewardsWei,
+					"OraclePendingRewardsWei": pending,
 					"BeaconValidatorIndex":    validator.Index,
 					"BeaconValidatorState":    validator.Status,
 					"CurrentOracleSlot":       slot,
@@ -332,14 +343,14 @@ func (or *Oracle) ValidatorCleanup(slot uint64) error {
 							"TargetIndex":        targetIdx,
 							"SourceState":        or.state.Validators[idx].ValidatorStatus,
 							"TargetState":        or.state.Validators[targetIdx].ValidatorStatus,
-							"PendingTransferred": or.state.Validators[idx].PendingRewardsWei,
+							"PendingTransferred": pending,
 						}).Info("[CONSOLIDATION] Transferring pending rewards of consolidated source to target")
-						or.increaseValidatorPendingRewards(targetIdx, or.state.Validators[idx].PendingRewardsWei)
+						or.increaseValidatorPendingRewards(targetIdx, pending)
 					} else if !or.isTracked(targetIdx) {
 						log.WithFields(log.Fields{
 							"SourceIndex":        idx,
 							"TargetIndex":        targetIdx,
-							"PendingToAddTarget": or.state.Validators[idx].PendingRewardsWei,
+							"PendingToAddTarget": pending,
 						}).Info("[CONSOLIDATION] Target is not subscribed, transfer rewards and not subscribe")
 						targetValidator, err := or.getSetOfValidators([]phase0.ValidatorIndex{
 							phase0.ValidatorIndex(targetIdx)},
@@ -366,7 +377,7 @@ func (or *Oracle) ValidatorCleanup(slot uint64) error {
 						or.state.Validators[targetIdx] = &ValidatorInfo{
 							ValidatorStatus:       NotSubscribed,
 							AccumulatedRewardsWei: big.NewInt(0),
-							PendingRewardsWei:     or.state.Validators[idx].PendingRewardsWei,
+							PendingRewardsWei:     pending,
 							CollateralWei:         big.NewInt(0),
 							WithdrawalAddress:     validatorWithdrawal,
 							ValidatorIndex:        targetIdx,
@@ -379,17 +390,15 @@ func (or *Oracle) ValidatorCleanup(slot uint64) error {
 						log.WithFields(log.Fields{
 							"SourceIndex":     idx,
 							"TargetIndex":     targetIdx,
-							"PendingGoToPool": or.state.Validators[idx].PendingRewardsWei,
+							"PendingGoToPool": pending,
 						}).Info("[CONSOLIDATION] Target is banned, rewards go to pool")
-						rewardsToDistribute.Add(rewardsToDistribute, or.state.Validators[idx].PendingRewardsWei)
+						rewardsToDistribute.Add(rewardsToDistribute, pending)
 					} else {
 						log.Fatal("[CONSOLIDATION] Fail. Unknown case")
 					}
 				} else {
-					rewardsToDistribute.Add(rewardsToDistribute, or.state.Validators[idx].PendingRewardsWei)
+					rewardsToDistribute.Add(rewardsToDistribute, pending)
 				}
-
-				or.resetPendingRewards(idx)
 			}
 		}
 
-- 
2.43.0


From 9f86f6949bd75020e0ac430f448bcdd6dcc6f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 05/24] fix: a refused governance change took effect

---
 oracle/oracle.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 0758083..9e2976b 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -474,9 +474,6 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 			return errors.New(fmt.Sprintf("unexpected pool fee change at slot %d. event fee: %d, expected: %d (scheduled: %v)",
 				slot, newFee, expectedFee, expected))
 		}
-		log.Info("Applying expected fee change from UpdatePoolFee event at slot ", slot, ": ", config.PoolFeesPercentOver10000, " -> ", newFee)
-		config.PoolFeesPercentOver10000 = newFee
-		or.state.PoolFeesPercentOver10000 = newFee
 	}
 
 	if len(fullBlock.Events.PoolFeeRecipient) != 0 && !utils.Equals(config.PoolFeesAddress, fullBlock.Events.PoolFeeRecipient[0].NewPoolFeeRecipient.String()) {
@@ -494,6 +491,14 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 			config.CollateralInWei, fullBlock.Events.UpdateSubscriptionCollateral[0].NewSubscriptionCollateral))
 	}
 
+	// Everything is valid. Only now the fee change can be applied, a refused block must not change it
+	if len(fullBlock.Events.UpdatePoolFee) != 0 {
+		newFee := int(fullBlock.Events.UpdatePoolFee[0].NewPoolFee.Int64())
+		log.Info("Applying expected fee change from UpdatePoolFee event at slot ", fullBlock.ConsensusDuty.Slot, ": ", config.PoolFeesPercentOver10000, " -> ", newFee)
+		config.PoolFeesPercentOver10000 = newFee
+		or.state.PoolFeesPercentOver10000 = newFee
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 5bf1b944c02209c72158375bab481a230f553c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 06/24] fix: a reward halted the oracle if all eligible
 validators had no effective balance

---
 oracle/oracle.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 9e2976b..9687d93 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -1615,7 +1615,8 @@ func (or *Oracle) handleElectraRewardDistribution(
 		totalBalance.Add(totalBalance, big.NewInt(int64(v.Validator.EffectiveBalance)))
 	}
 	if totalBalance.Sign() == 0 {
-		return nil, nil, fmt.Errorf("total balance is zero")
+		// No balance to share the reward in proportion to, pool fees address will receive all
+		return map[uint64]*big.Int{}, new(big.Int).Set(reward), nil
 	}
 
 	// perValidatorRewards is a map of validator index to the amount of rewards they will receive
-- 
2.43.0


From 4666fed65adda9e41a825adb3481060e304ce0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 07/24] fix: a failed clean-up left a half applied block

---
 oracle/oracle.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 9687d93..52aef46 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -177,6 +177,15 @@ func (or *Oracle) AdvanceStateToNextSlot(fullBlock *FullBlock) (uint64, error) {
 			or.state.NextSlotToProcess, " ", fullBlock.ConsensusDuty.Slot))
 	}
 
+	// The cleanup can fail after the block was applied, keep what is needed to undo it
+	previousState := *or.state
+	previousFee := or.cfg.PoolFeesPercentOver10000
+	if or.state.NextSlotToProcess%uint64(1200) == 0 {
+		previousState.PoolAccumulatedFees = new(big.Int).Set(or.state.PoolAccumulatedFees)
+		previousState.Validators = make(map[uint64]*ValidatorInfo)
+		utils.DeepCopy(or.state.Validators, &previousState.Validators)
+	}
+
 	// Some misc validations
 	err := or.validateFullBlockConfig(fullBlock, or.cfg)
 	if err != nil {
@@ -244,6 +253,9 @@ func (or *Oracle) AdvanceStateToNextSlot(fullBlock *FullBlock) (uint64, error) {
 	if or.state.NextSlotToProcess%uint64(1200) == 0 {
 		err = or.ValidatorCleanup(or.state.NextSlotToProcess)
 		if err != nil {
+			// Undo the block, or a half processed one could be saved
+			*or.state = previousState
+			or.cfg.PoolFeesPercentOver10000 = previousFee
 			return 0, errors.Wrap(err, "could not cleanup validators")
 		}
 	}
-- 
2.43.0


From d5d675d6238d9be7c7f29ed64d25e5cebde8892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 08/24] fix: the pool fee expected when loading a state
 depended on what was loaded or processed before

---
 oracle/oracle.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 52aef46..e7896fe 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -37,6 +37,7 @@ type Oracle struct {
 	mutex                    sync.RWMutex
 	getSetOfValidators       GetSetOfValidatorsFunc
 	getPendingConsolidations GetPendingConsolidationsFunc
+	initialPoolFee           int
 }
 
 // Rewards calculation methods. Different methods on how
@@ -97,6 +98,7 @@ func NewOracle(cfg *Config) *Oracle {
 		state:                    state,
 		getSetOfValidators:       nil,
 		getPendingConsolidations: nil,
+		initialPoolFee:           cfg.PoolFeesPercentOver10000,
 	}
 
 	return oracle
@@ -661,13 +663,15 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 			state.PoolFeesAddress, or.cfg.PoolFeesAddress))
 	}
 
-	if state.PoolFeesPercentOver10000 != or.cfg.PoolFeesPercentOver10000 {
-		// The config starts at initialPoolFee. If the state was saved after a
-		// scheduled fee change, apply the schedule up to the state's slot.
-		applyFeeScheduleUpTo(or.cfg, state.LatestProcessedSlot)
-		if state.PoolFeesPercentOver10000 != or.cfg.PoolFeesPercentOver10000 {
+	// The config starts at the initial pool fee. If the state was saved after a scheduled fee change, that
+	// is the expected one. Note that it doesnt depend on what was processed or loaded before.
+	if state.PoolFeesPercentOver10000 != or.initialPoolFee {
+		expected := *or.cfg
+		expected.PoolFeesPercentOver10000 = or.initialPoolFee
+		applyFeeScheduleUpTo(&expected, state.LatestProcessedSlot)
+		if state.PoolFeesPercentOver10000 != expected.PoolFeesPercentOver10000 {
 			return false, errors.New(fmt.Sprintf("pool fees percent mismatch, recovered: %d, expected: %d",
-				state.PoolFeesPercentOver10000, or.cfg.PoolFeesPercentOver10000))
+				state.PoolFeesPercentOver10000, expected.PoolFeesPercentOver10000))
 		}
 	}
 
@@ -692,6 +696,7 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 	}
 
 	or.state = &state
+	or.cfg.PoolFeesPercentOver10000 = state.PoolFeesPercentOver10000
 
 	mRoot, enoughData := or.getMerkleRootIfAny()
 	log.WithFields(log.Fields{
-- 
2.43.0


From 321bdcf25442974fa8fcb05fc651c9abefd236b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 09/24] fix: part of the balance of a pool fees address that is
 also a withdrawal address was lost

---
 oracle/merklelizer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/oracle/merklelizer.go b/oracle/merklelizer.go
index 40a2255..9a5403a 100644
--- a/oracle/merklelizer.go
+++ b/oracle/merklelizer.go
@@ -109,6 +109,15 @@ func (merklelizer *Merklelizer) AggregateValidatorsIndexes(state *OracleState) [
 		AccumulatedBalanceWei: new(big.Int).Set(state.PoolAccumulatedFees),
 	}
 
+	// The contract tracks what was claimed per address, so if the pool fees address is also a withdrawal address
+	// both leafs have to hold everything that belongs to it. Otherwise the smaller of both could not be claimed
+	for _, leaf := range orderedByWithdrawalAddress {
+		if leaf.WithdrawalAddress == poolFeesLeaf.WithdrawalAddress {
+			leaf.AccumulatedBalanceWei.Add(leaf.AccumulatedBalanceWei, poolFeesLeaf.AccumulatedBalanceWei)
+			poolFeesLeaf.AccumulatedBalanceWei.Set(leaf.AccumulatedBalanceWei)
+		}
+	}
+
 	// Pool rewards leaf (address + balance) is the first. Note that the WithdrawalAddress name is reused
 	// which could be missleading
 	orderedByWithdrawalAddress = append([]RawLeaf{poolFeesLeaf}, orderedByWithdrawalAddress...)
-- 
2.43.0


From d23f80b884fcb74dfa7cfb419239c0bd821693c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 10/24] fix: claims of a pool fees address that is also a
 withdrawal address were counted twice

---
 oracle/oracle.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index e7896fe..d6cad7f 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -992,7 +992,12 @@ func (or *Oracle) GetUniqueWithdrawalAddresses() []string {
 		}
 	}
 
-	// Include also the pool address
+	// Include also the pool address, unless its already in the list as a withdrawal address
+	for _, u := range uniqueWithAdd {
+		if utils.Equals(or.State().PoolFeesAddress, u) {
+			return uniqueWithAdd
+		}
+	}
 	uniqueWithAdd = append(uniqueWithAdd, or.State().PoolFeesAddress)
 
 	return uniqueWithAdd
-- 
2.43.0


From 77cbeb4cc593c1034d357883a743b0f4232e9072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 11/24] fix: the oracle mutex was locked twice by its holder,
 or not released on errors

IsCheckpoint, LatestCommitedSlot and LatestCommitedState took the read lock
again while holding it, which deadlocks if a writer is waiting in between.
StateWithHash and SaveToJson left it locked if the state could not be hashed.
SaveToJson also read the state after releasing it, so that the file name
could have the slot of a newer state.
---
 oracle/oracle.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index d6cad7f..f4d869a 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -125,7 +125,7 @@ func (or *Oracle) State() *OracleState {
 func (or *Oracle) IsCheckpoint() (bool, error) {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
-	latestProcSlot := or.State().LatestProcessedSlot
+	latestProcSlot := or.state.LatestProcessedSlot
 
 	if latestProcSlot == 0 {
 		return false, errors.New(
@@ -148,14 +148,14 @@ func (or *Oracle) IsCheckpoint() (bool, error) {
 // verification purposes
 func (or *Oracle) StateWithHash() (*OracleState, error) {
 	or.mutex.Lock()
+	defer or.mutex.Unlock()
 
 	// Update hash
 	err := or.hashStateLockFree()
 	if err != nil {
 		return nil, errors.Wrap(err, "error hashing the oracle state")
 	}
-	or.mutex.Unlock()
-	return or.State(), nil
+	return or.state, nil
 }
 
 // Given a previous or.state, this function applies the new block to it, updating the or.state
@@ -525,6 +525,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	// but it cant be just a read mutex
 
 	or.mutex.Lock()
+	defer or.mutex.Unlock()
 
 	log.Info("Saving oracle state to JSON file")
 
@@ -537,7 +538,6 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	if err != nil {
 		return errors.Wrap(err, "could not marshal state to JSON")
 	}
-	or.mutex.Unlock()
 
 	path := filepath.Join(StateFolder, StateJsonName)
 	err = os.MkdirAll(StateFolder, os.ModePerm)
@@ -565,7 +565,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 
 	// If saveSlot is true, save a copy of the state with the slot number in the file
 	if saveSlot {
-		filename := fmt.Sprintf("state_%d.json", or.State().LatestProcessedSlot)
+		filename := fmt.Sprintf("state_%d.json", or.state.LatestProcessedSlot)
 		path = filepath.Join(StateFolder, filename)
 
 		log.WithFields(log.Fields{
@@ -802,12 +802,16 @@ func (or *Oracle) FreezeCheckpoint() bool {
 func (or *Oracle) LatestCommitedSlot() (uint64, bool) {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
+	return or.latestCommitedSlotLockFree()
+}
 
-	if len(or.State().CommitedStates) == 0 {
+// A read lock must not be taken again by its holder: it blocks if there is a writer waiting
+func (or *Oracle) latestCommitedSlotLockFree() (uint64, bool) {
+	if len(or.state.CommitedStates) == 0 {
 		return 0, false
 	}
 	latestCommitedSlot := uint64(0)
-	for slot, _ := range or.State().CommitedStates {
+	for slot, _ := range or.state.CommitedStates {
 		if slot > latestCommitedSlot {
 			latestCommitedSlot = slot
 		}
@@ -820,14 +824,14 @@ func (or *Oracle) LatestCommitedState() *OnchainState {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
 
-	latestCommitedSlot, atLeastOne := or.LatestCommitedSlot()
+	latestCommitedSlot, atLeastOne := or.latestCommitedSlotLockFree()
 
 	// If we havent commited any state yet
 	if !atLeastOne {
 		return nil
 	}
 
-	return or.State().CommitedStates[latestCommitedSlot]
+	return or.state.CommitedStates[latestCommitedSlot]
 }
 
 // Check if the oracle is in sync with a given root and slot. Its considered in sync
-- 
2.43.0


From 9f08fb73653edfed5af824b48948051e481a0ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 12/24] fix: the api read the state while blocks were being
 processed

The handlers iterated the live maps without the lock (a concurrent map read
and write ends the process), and the state served by /state was encoded after
releasing it, so its hash could belong to another content. They now use a
copy taken under the lock.
---
 api/api.go       | 92 ++++++++++++++++++++++++++----------------------
 oracle/oracle.go | 28 ++++++++++++++-
 2 files changed, 77 insertions(+), 43 deletions(-)

diff --git a/api/api.go b/api/api.go
index 8c42474..67f5848 100644
--- a/api/api.go
+++ b/api/api.go
@@ -282,7 +282,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalAccumulatedRewards := big.NewInt(0)
 	totalPendingRewards := big.NewInt(0)
 
-	for _, validator := range m.oracle.State().Validators {
+	state := m.oracle.StateSnapshot()
+	for _, validator := range state.Validators {
 		if validator.ValidatorStatus == oracle.Active {
 			totalActive++
 		} else if validator.ValidatorStatus == oracle.YellowCard {
@@ -305,19 +306,19 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalDonationsWei := big.NewInt(0)
 
 	// Prevent underflow
-	if uint64(m.oracle.State().LatestProcessedSlot) < SlotsInOneMonth {
+	if uint64(state.LatestProcessedSlot) < SlotsInOneMonth {
 		m.respondError(w, http.StatusInternalServerError, "head slot is lower than slots in a month, this should not happen")
 		return
 	}
 
-	if uint64(m.oracle.State().LatestProcessedBlock) < SlotsInOneMonth {
+	if uint64(state.LatestProcessedBlock) < SlotsInOneMonth {
 		m.respondError(w, http.StatusInternalServerError, "head block is lower than slots in a month, this should not happen")
 		return
 	}
 
 	// Only consider blocks in the last 30 days
-	limitSlot := uint64(m.oracle.State().LatestProcessedSlot) - SlotsInOneMonth
-	limitBlock := uint64(m.oracle.State().LatestProcessedBlock) - SlotsInOneMonth
+	limitSlot := uint64(state.LatestProcessedSlot) - SlotsInOneMonth
+	limitBlock := uint64(state.LatestProcessedBlock) - SlotsInOneMonth
 
 	// Note that in a month we have SlotsInOneMonth slots, but not exactly that amount of blocks. If blocks
 	// are missed we can have less. If blocks are missed we will take into account a time window
@@ -325,7 +326,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 
 	totalOkPoolProposalBlocks := uint64(0)
 
-	for _, block := range m.oracle.State().ProposedBlocks {
+	for _, block := range state.ProposedBlocks {
 		// only consider ok pool proposals, since these are the only type of blocks that are shared
 		// across all validators
 		if block.BlockType == oracle.OkPoolProposal {
@@ -339,7 +340,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		}
 	}
 
-	for _, donation := range m.oracle.State().Donations {
+	for _, donation := range state.Donations {
 		totalDonationsWei.Add(totalDonationsWei, donation.DonationAmount)
 
 		// Note that rewards also take donations into account
@@ -357,7 +358,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		rewardsPerValidatorPer30Days.Div(totalRewardsSent30DaysWei, big.NewInt(0).SetUint64(totalValidatorsEarning))
 	}
 
-	totalProposedBlocks := uint64(len(m.oracle.State().ProposedBlocks))
+	totalProposedBlocks := uint64(len(state.ProposedBlocks))
 	avgBlockRewardWei := big.NewInt(0)
 
 	// Avoid division by zero
@@ -369,7 +370,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalEffectiveBalance := uint64(0)
 	effectiveBalances := m.Onchain.Validators()
 
-	for _, validator := range m.oracle.State().Validators {
+	for _, validator := range state.Validators {
 		if validator.ValidatorStatus == oracle.Active ||
 			validator.ValidatorStatus == oracle.YellowCard ||
 			validator.ValidatorStatus == oracle.RedCard {
@@ -395,8 +396,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		TotalRedCard:                 totalRedCard,
 		TotalBanned:                  totalBanned,
 		TotalNotSubscribed:           totalNotSubscribed,
-		LatestCheckpointSlot:         m.oracle.State().LatestProcessedSlot,
-		NextCheckpointSlot:           m.oracle.State().LatestProcessedSlot + m.cfg.CheckPointSizeInSlots,
+		LatestCheckpointSlot:         state.LatestProcessedSlot,
+		NextCheckpointSlot:           state.LatestProcessedSlot + m.cfg.CheckPointSizeInSlots,
 		TotalAccumulatedRewardsWei:   totalAccumulatedRewards.String(),
 		TotalPendingRewaradsWei:      totalPendingRewards.String(),
 		TotalRewardsSentWei:          totalRewardsSentWei.String(),
@@ -405,8 +406,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		TotalRewardsSent30DaysWei:    totalRewardsSent30DaysWei.String(),
 		RewardsPerValidatorPer30Days: rewardsPerValidatorPer30Days.String(),
 		TotalProposedBlocks:          totalProposedBlocks,
-		TotalMissedBlocks:            uint64(len(m.oracle.State().MissedBlocks)),
-		TotalWrongFeeBlocks:          uint64(len(m.oracle.State().WrongFeeBlocks)),
+		TotalMissedBlocks:            uint64(len(state.MissedBlocks)),
+		TotalWrongFeeBlocks:          uint64(len(state.WrongFeeBlocks)),
 		TotalEffectiveBalanceGwei:    fmt.Sprintf("%d", totalEffectiveBalance),
 		AvgEffectiveBalanceGwei:      fmt.Sprintf("%d", avgEffectiveBalance),
 	})
@@ -463,7 +464,8 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 	finalizedSlot := uint64(finality.Header.Message.Slot)
 
 	oracleSync := false
-	if m.oracle.State().LatestProcessedSlot-finalizedSlot == 0 {
+	state := m.oracle.StateSnapshot()
+	if state.LatestProcessedSlot-finalizedSlot == 0 {
 		oracleSync = true
 	}
 
@@ -484,11 +486,11 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 		IsConsensusInSync:           consInSync,
 		IsExecutionInSync:           execInSync,
 		IsOracleInSync:              oracleSync,
-		LatestProcessedSlot:         m.oracle.State().LatestProcessedSlot,
-		LatestProcessedBlock:        m.oracle.State().LatestProcessedBlock,
+		LatestProcessedSlot:         state.LatestProcessedSlot,
+		LatestProcessedBlock:        state.LatestProcessedBlock,
 		LatestFinalizedEpoch:        finalizedSlot / 32,
 		LatestFinalizedSlot:         finalizedSlot,
-		OracleHeadDistance:          finalizedSlot - m.oracle.State().LatestProcessedSlot,
+		OracleHeadDistance:          finalizedSlot - state.LatestProcessedSlot,
 		NextCheckpointSlot:          onchainSlot + m.cfg.CheckPointSizeInSlots,
 		NextCheckpointTime:          "", // TODO:
 		NextCheckpointRemaining:     utils.SlotsToTime(nextCheckpointInSlots, constants.SecondsInSlot),
@@ -527,7 +529,7 @@ func (m *ApiService) handleMemoryValidators(w http.ResponseWriter, req *http.Req
 		m.respondError(w, http.StatusServiceUnavailable, "Oracle node is currently syncing and not serving requests")
 		return
 	}
-	validators := maps.Values(m.oracle.State().Validators)
+	validators := maps.Values(m.oracle.StateSnapshot().Validators)
 
 	// Order by index
 	sort.Slice(validators, func(i, j int) bool { return validators[i].ValidatorIndex < validators[j].ValidatorIndex })
@@ -572,7 +574,8 @@ func (m *ApiService) handleMemoryValidatorInfo(w http.ResponseWriter, req *http.
 		return
 	}
 
-	validator, found := m.oracle.State().Validators[valIndex]
+	state := m.oracle.StateSnapshot()
+	validator, found := state.Validators[valIndex]
 	if !found {
 		m.respondError(w, http.StatusBadRequest, fmt.Sprint("could not find validator with index: ", valIndex))
 		return
@@ -619,8 +622,9 @@ func (m *ApiService) handleMemoryValidatorsByIndex(w http.ResponseWriter, req *h
 	var notFoundValidators []uint64
 
 	// Check if each validator is in the oracle state. Append to foundValidators or notFoundValidators
+	state := m.oracle.StateSnapshot()
 	for _, index := range indices {
-		if validator, found := m.oracle.State().Validators[index]; found {
+		if validator, found := state.Validators[index]; found {
 			// Convert ValidatorInfo to httpOkValidatorInfo. This is done to return strings instead of bigInts
 			beaconState, found := m.Onchain.Validators()[phase0.ValidatorIndex(validator.ValidatorIndex)]
 			if !found {
@@ -718,7 +722,8 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 	validatorsCopy := make(map[uint64]*oracle.ValidatorInfo)
 
 	// Imporant! This is a deep copy, otherwise we will modify the state
-	utils.DeepCopy(m.oracle.State().Validators, &validatorsCopy)
+	state := m.oracle.StateSnapshot()
+	utils.DeepCopy(state.Validators, &validatorsCopy)
 	for valIndex, validator := range validatorsCopy {
 		// Just overwrite the untracked validators with oracle state
 		if AreAddressEqual(validator.WithdrawalAddress, withdrawalAddress) {
@@ -745,12 +750,12 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 	// This applies a non-finalized state to the validators, creating a virtual state
 	// only used for the api.
 
-	if m.oracle.State().LatestProcessedBlock == 0 {
+	if state.LatestProcessedBlock == 0 {
 		m.respondError(w, http.StatusInternalServerError, "latest processed block is 0, try again later")
 		return
 	}
 
-	firstNotProcessedBlock := m.oracle.State().LatestProcessedBlock + 1
+	firstNotProcessedBlock := state.LatestProcessedBlock + 1
 
 	// TODO: Cache this, very inneficient to get it every time
 	allSubsTillHead, err := m.GetSubscriptionsTillHead(firstNotProcessedBlock)
@@ -800,10 +805,11 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 }
 
 func (m *ApiService) handleMemoryFeesInfo(w http.ResponseWriter, req *http.Request) {
+	state := m.oracle.StateSnapshot()
 	m.respondOK(w, httpOkMemoryFeesInfo{
-		PoolFeesPercentOver10000: m.oracle.State().PoolFeesPercentOver10000,
-		PoolFeesAddress:          m.oracle.State().PoolFeesAddress,
-		PoolAccumulatedFees:      m.oracle.State().PoolAccumulatedFees.String(),
+		PoolFeesPercentOver10000: state.PoolFeesPercentOver10000,
+		PoolFeesAddress:          state.PoolFeesAddress,
+		PoolAccumulatedFees:      state.PoolAccumulatedFees.String(),
 	})
 }
 
@@ -811,7 +817,8 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 	// Concat all the blocks, order is not guaranteed
 	allBlocks := make([]httpOkBlock, 0)
 
-	for _, block := range m.oracle.State().ProposedBlocks {
+	state := m.oracle.StateSnapshot()
+	for _, block := range state.ProposedBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -824,7 +831,7 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 		})
 	}
 
-	for _, block := range m.oracle.State().MissedBlocks {
+	for _, block := range state.MissedBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -837,7 +844,7 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 		})
 	}
 
-	for _, block := range m.oracle.State().WrongFeeBlocks {
+	for _, block := range state.WrongFeeBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -855,7 +862,7 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 
 func (m *ApiService) handleMemoryProposedBlocks(w http.ResponseWriter, req *http.Request) {
 	proposedBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().ProposedBlocks {
+	for _, block := range m.oracle.StateSnapshot().ProposedBlocks {
 		proposedBlocks = append(proposedBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -872,7 +879,7 @@ func (m *ApiService) handleMemoryProposedBlocks(w http.ResponseWriter, req *http
 
 func (m *ApiService) handleMemoryMissedBlocks(w http.ResponseWriter, req *http.Request) {
 	missedBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().MissedBlocks {
+	for _, block := range m.oracle.StateSnapshot().MissedBlocks {
 		missedBlocks = append(missedBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -889,7 +896,7 @@ func (m *ApiService) handleMemoryMissedBlocks(w http.ResponseWriter, req *http.R
 
 func (m *ApiService) handleMemoryWrongFeeBlocks(w http.ResponseWriter, req *http.Request) {
 	wrongFeeBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().WrongFeeBlocks {
+	for _, block := range m.oracle.StateSnapshot().WrongFeeBlocks {
 		wrongFeeBlocks = append(wrongFeeBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -906,7 +913,7 @@ func (m *ApiService) handleMemoryWrongFeeBlocks(w http.ResponseWriter, req *http
 
 func (m *ApiService) handleMemoryDonations(w http.ResponseWriter, req *http.Request) {
 	donations := make([]httpOkDonation, 0)
-	for _, donation := range m.oracle.State().Donations {
+	for _, donation := range m.oracle.StateSnapshot().Donations {
 		donations = append(donations, httpOkDonation{
 			AmountWei: donation.DonationAmount.String(),
 			Block:     donation.Raw.BlockNumber,
@@ -940,29 +947,30 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 		return
 	}
 
-	_, found := m.oracle.State().CommitedStates[contractSlot]
+	state := m.oracle.StateSnapshot()
+	_, found := state.CommitedStates[contractSlot]
 	if !found {
 		m.respondError(w, http.StatusInternalServerError, "could not find onchain slot in oracle state: "+strconv.FormatUint(contractSlot, 10))
 		return
 	}
 
 	// Check if the oracle root matches the one offchain
-	if contractRoot != m.oracle.State().CommitedStates[contractSlot].MerkleRoot {
+	if contractRoot != state.CommitedStates[contractSlot].MerkleRoot {
 		m.respondError(w, http.StatusInternalServerError,
 			"contract merkle root does not match oracle state: "+
-				contractRoot+" vs "+m.oracle.State().CommitedStates[contractSlot].MerkleRoot)
+				contractRoot+" vs "+state.CommitedStates[contractSlot].MerkleRoot)
 		return
 	}
 
 	// Get the proofs of this withdrawal address (to be used onchain to claim rewards)
-	proofs, proofFound := m.oracle.State().CommitedStates[contractSlot].Proofs[withdrawalAddress]
+	proofs, proofFound := state.CommitedStates[contractSlot].Proofs[withdrawalAddress]
 	if !proofFound {
 		m.respondError(w, http.StatusBadRequest, "could not find proof for WithdrawalAddress: "+withdrawalAddress)
 		return
 	}
 
 	// Get the leafs of this withdrawal address (to be used onchain to claim rewards)
-	leafs, leafsFound := m.oracle.State().CommitedStates[contractSlot].Leafs[withdrawalAddress]
+	leafs, leafsFound := state.CommitedStates[contractSlot].Leafs[withdrawalAddress]
 	if !leafsFound {
 		m.respondError(w, http.StatusBadRequest, "could not find leafs for WithdrawalAddress: "+withdrawalAddress)
 		return
@@ -970,7 +978,7 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 
 	// Get validators that are registered to this withdrawal address in the pool
 	registeredValidators := make([]uint64, 0)
-	for valIndex, validator := range m.oracle.State().CommitedStates[contractSlot].Validators {
+	for valIndex, validator := range state.CommitedStates[contractSlot].Validators {
 		if strings.ToLower(validator.WithdrawalAddress) == strings.ToLower(withdrawalAddress) {
 			registeredValidators = append(registeredValidators, valIndex)
 		}
@@ -984,7 +992,7 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 
 	totalPending := big.NewInt(0)
 
-	for _, validator := range m.oracle.State().CommitedStates[contractSlot].Validators {
+	for _, validator := range state.CommitedStates[contractSlot].Validators {
 		if strings.ToLower(validator.WithdrawalAddress) == strings.ToLower(withdrawalAddress) {
 			totalPending.Add(totalPending, validator.PendingRewardsWei)
 		}
@@ -993,8 +1001,8 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 	m.respondOK(w, httpOkProofs{
 		LeafWithdrawalAddress:      leafs.WithdrawalAddress,
 		LeafAccumulatedBalance:     leafs.AccumulatedBalanceWei.String(),
-		MerkleRoot:                 m.oracle.State().CommitedStates[contractSlot].MerkleRoot,
-		CheckpointSlot:             m.oracle.State().CommitedStates[contractSlot].Slot,
+		MerkleRoot:                 state.CommitedStates[contractSlot].MerkleRoot,
+		CheckpointSlot:             state.CommitedStates[contractSlot].Slot,
 		Proofs:                     proofs,
 		RegisteredValidators:       registeredValidators,
 		TotalAccumulatedRewardsWei: leafs.AccumulatedBalanceWei.String(),
diff --git a/oracle/oracle.go b/oracle/oracle.go
index f4d869a..5cf971c 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -155,7 +155,33 @@ func (or *Oracle) StateWithHash() (*OracleState, error) {
 	if err != nil {
 		return nil, errors.Wrap(err, "error hashing the oracle state")
 	}
-	return or.state, nil
+	return or.copyStateLockFree(), nil
+}
+
+// Returns a copy of the state. Unlike State(), its safe to use it while blocks are being processed
+func (or *Oracle) StateSnapshot() *OracleState {
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
+	return or.copyStateLockFree()
+}
+
+// Copies everything that can be modified later: commited states and stored events are never changed,
+// and the lists of blocks and events are only appended to
+func (or *Oracle) copyStateLockFree() *OracleState {
+	state := *or.state
+	state.PoolAccumulatedFees = new(big.Int).Set(or.state.PoolAccumulatedFees)
+	state.Validators = make(map[uint64]*ValidatorInfo, len(or.state.Validators))
+	for valIndex, validator := range or.state.Validators {
+		validatorCopy := *validator
+		validatorCopy.AccumulatedRewardsWei = new(big.Int).Set(validator.AccumulatedRewardsWei)
+		validatorCopy.PendingRewardsWei = new(big.Int).Set(validator.PendingRewardsWei)
+		state.Validators[valIndex] = &validatorCopy
+	}
+	state.CommitedStates = make(map[uint64]*OnchainState, len(or.state.CommitedStates))
+	for slot, commitedState := range or.state.CommitedStates {
+		state.CommitedStates[slot] = commitedState
+	}
+	return &state
 }
 
 // Given a previous or.state, this function applies the new block to it, updating the or.state
-- 
2.43.0


From 33c8b4d67f53c27083c1564eeb93fccad9719728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:54 +0000
Subject: [PATCH 13/24] fix: a crash or a full disk while saving lost the
 previous state

The state file was truncated and then written. It is now written to a
temporary file that replaces the previous one once complete.
---
 oracle/oracle.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 5cf971c..179ab99 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -573,7 +573,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 
 	log.Trace("Saving state to file:", fmt.Sprintf("%s", jsonData))
 
-	err = ioutil.WriteFile(path, jsonData, 0644)
+	err = writeFileAtomic(path, jsonData)
 	if err != nil {
 		return errors.Wrap(err, "could not write file")
 	}
@@ -599,7 +599,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 			"FileName":            filename,
 		}).Info("Storing also a copy of the state")
 
-		err = ioutil.WriteFile(path, jsonData, 0644)
+		err = writeFileAtomic(path, jsonData)
 		if err != nil {
 			return errors.Wrap(err, "could not write file")
 		}
@@ -608,6 +608,28 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	return nil
 }
 
+// Writes a new file and then replaces the existing one, so that a crash or an error
+// while writing never leaves a truncated file
+func writeFileAtomic(path string, data []byte) error {
+	tmpPath := path + ".tmp"
+	file, err := os.OpenFile(tmpPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+	if err != nil {
+		return err
+	}
+	_, err = file.Write(data)
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		os.Remove(tmpPath)
+		return err
+	}
+	return os.Rename(tmpPath, path)
+}
+
 // Loads the oracle state from a human readable json file. Multiple
 // check are performed to ensure the state is valid such as checking
 // the hash of the state and ensuring the configuation has not changed
-- 
2.43.0


From e3b7a7b4d799a6f93841fb51e14fd276f29ce6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 14/24] fix: only a 404 status means that a slot was missed

---
 oracle/onchain.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 1419d49..2e3a225 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -227,7 +227,9 @@ func (o *Onchain) GetConsensusBlockAtSlot(slot uint64, opts ...retry.Option) (*s
 			// Its not possible to detect if the block was missed or if the block doesn't exist in the chain
 			// GET failed with status 404: {"code":404,"message":"NOT_FOUND: beacon block at slot 7408169","stacktraces":[]}
 			// To keep compatibility after go-eth2-client changes, we consider that a missed block is nil
-			if strings.Contains(err.Error(), "404") {
+			// Only the status tells: a 404 can also be part of a slot, a port or the message of another error
+			var apiErr *api.Error
+			if errors.As(err, &apiErr) && apiErr.StatusCode == normalHttp.StatusNotFound {
 				signedBeaconBlock = &api.Response[*spec.VersionedSignedBeaconBlock]{
 					Data: nil,
 				}
-- 
2.43.0


From 5d470e74eb71f8fdabc23a3970846711051a4be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 15/24] fix: events that cannot be decoded are an error, not
 the end of the list

---
 oracle/onchain.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 2e3a225..4a66cc9 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -1324,6 +1324,9 @@ func (o *Onchain) GetEtherReceivedEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not decode EtherReceived events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close EtherReceived iterator")
@@ -1360,6 +1363,9 @@ func (o *Onchain) GetSubscribeValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not decode SubscribeValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close SubscribeValidator iterator")
@@ -1415,6 +1421,9 @@ func (o *Onchain) GetUnsubscribeValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not decode UnsubscribeValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close UnsubscribeValidator iterator")
@@ -1451,6 +1460,9 @@ func (o *Onchain) GetBanValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not decode BanValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close BanValidator iterator")
@@ -1487,6 +1499,9 @@ func (o *Onchain) GetUnbanValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not decode UnbanValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close UnbanValidator iterator")
@@ -1532,6 +1547,9 @@ func (o *Onchain) GetUpdatePoolFeeEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not decode ContractUpdatePoolFee events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdatePoolFee iterator")
@@ -1567,6 +1585,9 @@ func (o *Onchain) GetPoolFeeRecipientEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not decode ContractUpdatePoolFeeRecipient events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdatePoolFeeRecipient iterator")
@@ -1602,6 +1623,9 @@ func (o *Onchain) GetCheckpointSlotSizeEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not decode ContractUpdateCheckpointSlotSize events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdateCheckpointSlotSize iterator")
@@ -1637,6 +1661,9 @@ func (o *Onchain) GetUpdateSubscriptionCollateralEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not decode ContractUpdateSubscriptionCollateral events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdateSubscriptionCollateral iterator")
-- 
2.43.0


From 45bfbadbc0ea8359ccfa929c341e3bfa4aed5c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 16/24] fix: a reverted report is an error

---
 oracle/onchain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 4a66cc9..1047b0f 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -1840,7 +1840,7 @@ func (o *Onchain) UpdateContractMerkleRoot(slot uint64, newMerkleRoot string) er
 				tx.Hash().Hex()))
 	}
 	if receipt.Status != types.ReceiptStatusSuccessful {
-		return errors.Wrap(err,
+		return errors.New(
 			fmt.Sprintf("tx failed err: %d hash: %s", receipt.Status, tx.Hash().Hex()))
 	}
 
-- 
2.43.0


From 77c5926bd400ea7f9bb3851bfc8e1881a0fc02f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 17/24] fix: clients of different chains are an error

---
 oracle/onchain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 1047b0f..eaed8ba 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -110,7 +110,7 @@ func NewOnchain(cliCfg *config.CliConfig, updaterKey *ecdsa.PrivateKey) (*Onchai
 		" DepositContract: ", "0x"+hex.EncodeToString(depositContract.Data.Address[:]))
 
 	if depositContract.Data.ChainID != uint64(chainId.Int64()) {
-		return nil, errors.Wrap(err, fmt.Sprintf("Consensus and execution clients are not connected to the same chain %d vs %d",
+		return nil, errors.New(fmt.Sprintf("Consensus and execution clients are not connected to the same chain %d vs %d",
 			depositContract.Data.ChainID, chainId))
 	}
 
-- 
2.43.0


From a0f80cc155d8f3dc757d81bed63df6b92bfc1cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 18/24] fix: handle a checkpoint reached right before the
 oracle was stopped

If SIGTERM/SIGINT arrives after the slot of a checkpoint was processed but
before it was frozen (for instance while the validators are refreshed, which
happens every 1200 slots), the state is saved at the checkpoint slot without
the checkpoint. After the restart the oracle continued with the next slot and
the checkpoint was never frozen nor reported.
---
 main.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 6b6b828..29e45a6 100644
--- a/main.go
+++ b/main.go
@@ -232,6 +232,12 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 		"NextSlotToProcess":   oracleInstance.State().NextSlotToProcess,
 	}).Info("Processing, see api for progress")
 
+	// If the oracle was stopped after processing the slot of a checkpoint but before freezing it, the
+	// loaded state is at a checkpoint that was not handled yet. Handle it before processing new slots.
+	atCheckpoint, err := oracleInstance.IsCheckpoint()
+	latestCommited, _ := oracleInstance.LatestCommitedSlot()
+	pendingCheckpoint := err == nil && atCheckpoint && latestCommited != oracleInstance.State().LatestProcessedSlot
+
 	for {
 		// Ensure that the nodes we are using are in sync with the blockchain (consensus + execution)
 		inSync, err := onchain.AreNodesInSync()
@@ -253,7 +259,10 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 
 		finalizedSlot := uint64(finalizedBlockHeader.Header.Message.Slot)
 
-		if finalizedSlot >= oracleInstance.State().NextSlotToProcess {
+		if pendingCheckpoint {
+			log.Info("Handling a checkpoint that was reached before the last stop")
+			pendingCheckpoint = false
+		} else if finalizedSlot >= oracleInstance.State().NextSlotToProcess {
 
 			// Fetch block information
 			fullBlock := onchain.FetchFullBlock(oracleInstance.State().NextSlotToProcess, oracleInstance)
-- 
2.43.0


From 22c9838b57e8a58b404eac3ee0557b446c534c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 19/24] fix: statistics divided by zero when all subscribed
 validators are in red card

rewards_per_validator divides by the amount of active and yellow card
validators, but the guard only checked that there was some subscribed one.
---
 api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 67f5848..d448374 100644
--- a/api/api.go
+++ b/api/api.go
@@ -353,7 +353,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 
 	rewardsPerValidatorPer30Days := big.NewInt(0)
 	totalValidatorsEarning := totalActive + totalYellowCard
-	if totalSubscribed != 0 {
+	if totalValidatorsEarning != 0 {
 		// This metric can be biased if multiple validators exit at once within the month
 		rewardsPerValidatorPer30Days.Div(totalRewardsSent30DaysWei, big.NewInt(0).SetUint64(totalValidatorsEarning))
 	}
-- 
2.43.0


From 7d5f28868d1208db2238873fd253f3da80da8a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 20/24] fix: a subscription of a validator that is not loaded
 broke the validators endpoint

Events not finalized yet are matched with the validators loaded from the
finalized state. A tracked validator missing there (eg the list was loaded
from a node that is behind) ended in a nil dereference and no reply.
---
 api/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index d448374..6022abd 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1224,7 +1224,8 @@ func (m *ApiService) ApplyNonFinalizedState(
 				eventAddress := subInBlock.Event.Sender.String()
 				if AreAddressEqual(valWithdrawalAddress, eventAddress) {
 					if subInBlock.Event.SubscriptionCollateral.Cmp(m.cfg.CollateralInWei) >= 0 {
-						if oracle.CanValidatorSubscribeToPool(subInBlock.Validator) {
+						// The validator is nil if its not known by the beacon node yet
+						if subInBlock.Validator != nil && oracle.CanValidatorSubscribeToPool(subInBlock.Validator) {
 							if val.ValidatorStatus == oracle.Untracked || val.ValidatorStatus == oracle.NotSubscribed {
 								validators[valIndex].ValidatorStatus = oracle.Active
 								validators[valIndex].PendingRewardsWei.Add(validators[valIndex].PendingRewardsWei, subInBlock.Event.SubscriptionCollateral)
-- 
2.43.0


From 7e62af628beb7ada5ee5a92dc2c5a1daeedad183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 21/24] fix: malformed validator keys were taken as valid

---
 api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 6022abd..745da3e 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1108,7 +1108,7 @@ func IsValidAddress(v string) bool {
 }
 
 func IsValidPubkey(v string) bool {
-	re := regexp.MustCompile("^0x[0-9a-fA-f]{96}$")
+	re := regexp.MustCompile("^0x[0-9a-fA-F]{96}$")
 	return re.MatchString(v)
 }
 
-- 
2.43.0


From 80a89af62637dd2d163605945d541c9b868eec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 22/24] fix: events that cannot be decoded are an error in the
 validators endpoint

Iterating stops silently at an event that cannot be decoded, so the rest of
the events till head were not considered. Same as 5d470e7 for the oracle.
---
 api/api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api/api.go b/api/api.go
index 745da3e..8080e41 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1146,6 +1146,9 @@ func (m *ApiService) GetSubscriptionsTillHead(latestProcessedBlock uint64) ([]Su
 		}
 		blockSubscriptions = append(blockSubscriptions, sub)
 	}
+	if err := itrSubs.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not iterate validator events")
+	}
 	err = itrSubs.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close subscription iterator")
@@ -1171,6 +1174,9 @@ func (m *ApiService) GetUnsubscriptionsTillHead(latestProcessedBlock uint64) ([]
 		}
 		blockUnsubscriptions = append(blockUnsubscriptions, unsub)
 	}
+	if err := itrUnsubs.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not iterate validator events")
+	}
 	err = itrUnsubs.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close subscription iterator")
-- 
2.43.0


From 2d9055e7d4adf1303bb29782a514d003825faaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 23/24] fix: the api reads the processed slot and the fee while
 a block may be changing them

---
 api/api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/api.go b/api/api.go
index 8080e41..7a649ec 100644
--- a/api/api.go
+++ b/api/api.go
@@ -517,7 +517,7 @@ func (m *ApiService) handleConfig(w http.ResponseWriter, req *http.Request) {
 		PoolAddress:              m.cfg.PoolAddress,
 		DeployedSlot:             m.cfg.DeployedSlot,
 		CheckPointSizeInSlots:    m.cfg.CheckPointSizeInSlots,
-		PoolFeesPercentOver10000: m.cfg.PoolFeesPercentOver10000,
+		PoolFeesPercentOver10000: m.oracle.StateSnapshot().PoolFeesPercentOver10000,
 		PoolFeesAddress:          m.cfg.PoolFeesAddress,
 		DryRun:                   m.cfg.DryRun,
 		CollateralInWei:          m.cfg.CollateralInWei.String(),
@@ -1278,7 +1278,7 @@ func (m *ApiService) OracleReady(maxSlotsBehind uint64) bool {
 		return false
 	}
 
-	slotsFromFinalized := finalizedSlot - m.oracle.State().LatestProcessedSlot
+	slotsFromFinalized := finalizedSlot - m.oracle.StateSnapshot().LatestProcessedSlot
 
 	// Use this if we want full in sync to latest finalized
 	/*oracleInSync := false
-- 
2.43.0


From e2da56c662951976fc4250b0519e8742233ff588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:00 +0000
Subject: [PATCH 24/24] fix: the list of beacon validators is refreshed while
 the api reads it

---
 oracle/onchain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index eaed8ba..6ec2f5b 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -11,6 +11,7 @@ import (
 	normalHttp "net/http"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/pkg/errors"
@@ -73,6 +74,7 @@ type Onchain struct {
 	PoolAddress     string
 	ChainId         uint64
 	validators      map[phase0.ValidatorIndex]*v1.Validator
+	validatorsMutex sync.RWMutex // the api reads the validators while they are refreshed
 }
 
 func NewOnchain(cliCfg *config.CliConfig, updaterKey *ecdsa.PrivateKey) (*Onchain, error) {
@@ -1864,7 +1866,9 @@ func (o *Onchain) RefreshBeaconValidators() {
 	if err != nil {
 		log.Fatal("Could not get validators: ", err)
 	}
+	o.validatorsMutex.Lock()
 	o.validators = vals
+	o.validatorsMutex.Unlock()
 	if len(vals) != 0 {
 		log.WithFields(log.Fields{
 			"TotalValidators":       len(vals),
@@ -1877,6 +1881,8 @@ func (o *Onchain) RefreshBeaconValidators() {
 }
 
 func (o *Onchain) Validators() map[phase0.ValidatorIndex]*v1.Validator {
+	o.validatorsMutex.RLock()
+	defer o.validatorsMutex.RUnlock()
 	return o.validators
 }
 
-- 
2.43.0

