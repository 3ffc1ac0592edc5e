-------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* What the HTTP service of the oracle answers (api.go), as functions of   *)
(*   cx    the configuration (net, chain, pool, feeAddr, ckpt, coll, ...)  *)
(*   st    the state of the oracle (Pool)                                  *)
(*   hist  the blocks and donations recorded so far:                       *)
(*         [prop, missed, wrong, don]                                      *)
(*   com   the frozen checkpoints: slot -> [vals, fees, leaves, root]      *)
(*   bl    the validators the beacon node listed: index ->                 *)
(*         [status, bal, eff, cred, wa, key]                               *)
(*   q     the request and its circumstances: the finalized slot, what the *)
(*         contract says, the events after the processed block, ...        *)
(* In replies every scalar is a string.                                    *)
(***************************************************************************)
EXTENDS Pool, Merkle, TLC

Str(i) == ToString(i)
Bool(b) == IF b THEN "true" ELSE "false"
Month == 216000            \* slots of 12 seconds in 30 days
MaxBehind == 64

(* Equal as bags.                                                          *)
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A k \in DOMAIN s : Count(s, s[k]) = Count(t, s[k])

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Sorted(S \ {m})

(* The service is ready when the oracle is at most MaxBehind slots behind  *)
(* what is finalized.  An oracle ahead of its node may answer or not.      *)
Ready(st, q)    == st.slot <= q.fin /\ q.fin - st.slot <= MaxBehind
NotReady(st, q) == q.fin - st.slot > MaxBehind

-----------------------------------------------------------------------------
(* P20: the proof of an address.                                           *)
Frozen(cx, st) == LET lv == Leaves(st.vals, cx.feeAddr, st.pool)
                  IN [vals |-> st.vals, fees |-> st.pool, leaves |-> lv]
Held(com, q) == q.cslot \in DOMAIN com /\ com[q.cslot].root = q.croot
LeafAt(c, a) == {k \in DOMAIN c.leaves : c.leaves[k].a = a}
HasProof(com, q) == Held(com, q) /\ LeafAt(com[q.cslot], q.a) # {}
ClaimedOf(q) == LET ks == {k \in DOMAIN q.claims : q.claims[k].a = q.a}
                IN IF ks = {} THEN Zero ELSE q.claims[CHOOSE k \in ks : TRUE].amt
ProofOk(com, q, r) ==
  LET c    == com[q.cslot]
      leaf == c.leaves[CHOOSE k \in LeafAt(c, q.a) : TRUE]
      mine == {i \in DOMAIN c.vals : c.vals[i].wa = q.a}
  IN /\ r.leaf_withdrawal_address = q.a
     /\ r.leaf_accumulated_balance = leaf.amt
     /\ r.total_accumulated_rewards_wei = leaf.amt
     /\ r.merkleroot = q.croot
     /\ r.checkpoint_slot = Str(q.cslot)
     /\ Verifies(leaf, r.merkle_proofs, q.croot)
     /\ SameBag(r.registered_validators, [k \in DOMAIN Sorted(mine) |-> Str(Sorted(mine)[k])])
     /\ r.already_claimed_rewards_wei = ClaimedOf(q)
     /\ r.claimable_rewards_wei = Sub(leaf.amt, ClaimedOf(q))
     /\ r.pending_rewards_wei = SumOver(mine, [i \in mine |-> c.vals[i].pend])

-----------------------------------------------------------------------------
(* P21: the validators of a withdrawal address, provisionally.             *)
Listed(bl, i) == IF i \in DOMAIN bl
                 THEN [ok |-> TRUE, idx |-> i, status |-> bl[i].status, cred |-> bl[i].cred, wa |-> bl[i].wa, key |-> bl[i].key]
                 ELSE [ok |-> FALSE, idx |-> i, status |-> "", cred |-> "", wa |-> "", key |-> ""]
ShownFor(st, bl, a) ==
  {i \in DOMAIN bl : (bl[i].cred \in {"eth1", "electra"} /\ bl[i].wa = a) \/ (i \in DOMAIN st.vals /\ st.vals[i].wa = a)}

(* The events of one validator, applied to it by the rules of Pool.        *)
RECURSIVE AllSubs(_, _, _, _)
AllSubs(cx, bl, L, es) == IF es = <<>> THEN L
  ELSE AllSubs(cx, bl, SubscribeOne(cx, L, [id |-> Head(es).id, coll |-> Head(es).coll, from |-> Head(es).from, v |-> Listed(bl, Head(es).id)]), Tail(es))
RECURSIVE AllUnsubs(_, _, _, _)
AllUnsubs(cx, bl, L, es) == IF es = <<>> THEN L
  ELSE AllUnsubs(cx, bl, UnsubscribeOne(cx, L, [id |-> Head(es).id, from |-> Head(es).from, v |-> Listed(bl, Head(es).id)]), Tail(es))
Of(es, i, b) == SelectSeq(es, LAMBDA e : e.id = i /\ e.bnum = b)
RECURSIVE Blocks(_, _, _, _, _, _)
Blocks(cx, bl, L, q, i, bs) == IF bs = <<>> THEN L
  ELSE Blocks(cx, bl, AllUnsubs(cx, bl, AllSubs(cx, bl, L, Of(q.subs, i, Head(bs))), Of(q.unsubs, i, Head(bs))), q, i, Tail(bs))

Provisional(cx, st, bl, q, i) ==
  LET cx1 == [net |-> cx.net, chain |-> cx.chain, pool |-> cx.pool, coll |-> cx.coll, fee |-> st.fee, slot |-> st.next,
              env |-> [v |-> bl, cons |-> <<>>, consErr |-> FALSE, valErr |-> FALSE]]
      L0 == [vals |-> [x \in {i} \cap DOMAIN st.vals |-> st.vals[x]], pool |-> Zero, dead |-> ""]
      bs == Sorted({q.subs[k].bnum : k \in DOMAIN q.subs} \cup {q.unsubs[k].bnum : k \in DOMAIN q.unsubs})
  IN Blocks(cx1, bl, L0, q, i, bs).vals

BeaconFields(bl, i, r) ==
  /\ r.beacon_status = bl[i].status /\ r.beacon_balance_gwei = bl[i].bal /\ r.beacon_effective_balance_gwei = bl[i].eff
IdFields(wa, key, i, r) ==
  /\ r.withdrawal_address = wa /\ r.validator_key = key /\ r.validator_index = Str(i)

(* Claimable rewards and deposits that only finalization settles may be    *)
(* shown as they are or as they will be.                                   *)
ProvisionalOk(cx, st, bl, q, i, r) ==
  LET now == st.vals
      then == Provisional(cx, st, bl, q, i)
  IN /\ BeaconFields(bl, i, r)
     /\ IF i \in DOMAIN now THEN IdFields(now[i].wa, now[i].key, i, r) ELSE IdFields(bl[i].wa, bl[i].key, i, r)
     /\ IF i \in DOMAIN then THEN r.status = then[i].st /\ r.pending_rewards_wei = then[i].pend
        ELSE r.status = "untracked" /\ r.pending_rewards_wei = Zero
     /\ r.accumulated_rewards_wei \in {IF i \in DOMAIN now THEN now[i].acc ELSE Zero, IF i \in DOMAIN then THEN then[i].acc ELSE Zero}
     /\ r.collateral_wei \in {IF i \in DOMAIN now THEN now[i].coll ELSE Zero, IF i \in DOMAIN then THEN then[i].coll ELSE Zero}
     /\ i \in DOMAIN now => r.subscription_type \in {now[i].ty, then[i].ty}

WithdrawalOk(cx, st, bl, q, rs) ==
  LET ids == Sorted(ShownFor(st, bl, q.a))
  IN /\ Len(rs) = Len(ids)
     /\ \A k \in DOMAIN ids : ProvisionalOk(cx, st, bl, q, ids[k], rs[k])

-----------------------------------------------------------------------------
(* P22: the other endpoints.                                               *)
ValOk(v, i, r) ==
  /\ r.status = v.st /\ r.accumulated_rewards_wei = v.acc /\ r.pending_rewards_wei = v.pend /\ r.collateral_wei = v.coll
  /\ r.subscription_type = v.ty /\ IdFields(v.wa, v.key, i, r)

ValidatorsOk(st, bl, rs) ==
  LET ids == DOMAIN st.vals \cap DOMAIN bl
      of(i) == {k \in DOMAIN rs : rs[k].validator_index = Str(i)}
  IN /\ Len(rs) = Cardinality(ids)
     /\ \A i \in ids : /\ Cardinality(of(i)) = 1
                       /\ \A k \in of(i) : ValOk(st.vals[i], i, rs[k]) /\ BeaconFields(bl, i, rs[k])

ByIndexOk(st, bl, q, r) ==
  LET asked == q.ids
      shown(i) == i \in DOMAIN st.vals /\ i \in DOMAIN bl
      missing == SelectSeq(asked, LAMBDA i : i \notin DOMAIN st.vals)
      found == SelectSeq(asked, LAMBDA i : shown(i))
      rs == r.found_validators
  IN /\ SameBag(r.not_found_validators, [k \in DOMAIN missing |-> Str(missing[k])])
     /\ SameBag([k \in DOMAIN rs |-> rs[k].validator_index], [k \in DOMAIN found |-> Str(found[k])])
     /\ \A k \in DOMAIN rs : \E j \in DOMAIN found :
           ValOk(st.vals[found[j]], found[j], rs[k]) /\ BeaconFields(bl, found[j], rs[k])

BlockRow(s) == [slot |-> Str(s.slot), block |-> Str(s.block), validator_index |-> Str(s.vi), validator_key |-> s.key,
                block_type |-> s.kind, reward_wei |-> s.rew, reward_type |-> s.rty, withdrawal_address |-> s.wa]
BlocksOk(ss, rs) == SameBag([k \in DOMAIN ss |-> BlockRow(ss[k])], rs)

DonationRow(d, tx) == [amount_wei |-> d.val, block_number |-> Str(d.bnum), tx_hash |-> tx, sender |-> d.from]
DonationsOk(hist, q, rs) ==
  /\ Len(hist.don) = Len(q.donTx)
  /\ SameBag([k \in DOMAIN hist.don |-> DonationRow(hist.don[k], q.donTx[k])], rs)

FeesOk(cx, st, r) ==
  r.pool_fee_percent = Str(st.fee) /\ r.pool_fee_address = cx.feeAddr /\ r.pool_accumulated_fees = st.pool

ConfigOk(cx, st, q, r) ==
  /\ r.network = cx.net /\ r.pool_address = cx.pool /\ r.deployed_slot = Str(cx.deploy) /\ r.checkpoint_size = Str(cx.ckpt)
  /\ r.pool_fees_percent = Str(st.fee) /\ r.pool_fees_address = cx.feeAddr /\ r.dry_run = Bool(q.dry) /\ r.collateral_in_wei = cx.coll

(* Statistics.  A shared block is an ok proposal whose reward went to all. *)
Total(f, S) == SumOver(S, f)
InMonth(slot, now) == slot > now - Month
StatisticsOk(st, bl, hist, r) ==
  LET in(s) == {i \in DOMAIN st.vals : st.vals[i].st = s}
      subs  == {i \in DOMAIN st.vals : st.vals[i].st \in SubscribedStatus}
      sh    == {k \in DOMAIN hist.prop : hist.prop[k].kind = "okpoolproposal"}
      rew   == [k \in DOMAIN hist.prop |-> hist.prop[k].rew]
      don   == [k \in DOMAIN hist.don |-> hist.don[k].val]
      dons  == Total(don, DOMAIN don)
      sent  == Add(Total(rew, sh), dons)
      month == Add(Total(rew, {k \in sh : InMonth(hist.prop[k].slot, st.slot)}),
                   Total(don, {k \in DOMAIN don : InMonth(hist.don[k].bnum, st.block)}))
      earn  == Cardinality(in("active")) + Cardinality(in("yellowcard"))
      eff   == Total([i \in DOMAIN bl |-> bl[i].eff], subs \cap DOMAIN bl)
      by(x, n) == IF n = 0 THEN Zero ELSE Div(x, NumOf(n))
  IN /\ r.total_subscribed_validators = Str(Cardinality(subs))
     /\ r.total_active_validators = Str(Cardinality(in("active")))
     /\ r.total_yellowcard_validators = Str(Cardinality(in("yellowcard")))
     /\ r.total_redcard_validators = Str(Cardinality(in("redcard")))
     /\ r.total_banned_validators = Str(Cardinality(in("banned")))
     /\ r.total_notsubscribed_validators = Str(Cardinality(in("notsubscribed")))
     /\ r.total_accumulated_rewards_wei = Total([i \in DOMAIN st.vals |-> st.vals[i].acc], DOMAIN st.vals)
     /\ r.total_pending_rewards_wei = Total([i \in DOMAIN st.vals |-> st.vals[i].pend], DOMAIN st.vals)
     /\ r.total_rewards_sent_wei = sent
     /\ r.total_rewards_sent_30days_wei = month
     /\ r.total_donations_wei = dons
     /\ r.total_proposed_blocks = Str(Len(hist.prop))
     /\ r.total_missed_blocks = Str(Len(hist.missed))
     /\ r.total_wrongfee_blocks = Str(Len(hist.wrong))
     /\ r.avg_block_reward_wei = by(sent, Cardinality(sh))
     /\ r.rewards_per_validator_per_30days_wei = by(month, earn)
     /\ r.total_effective_balance_gwei = eff
     /\ r.avg_effective_balance_gwei = by(eff, Cardinality(subs))

StatusOk(cx, st, q, r) ==
  /\ r.is_consensus_in_sync = Bool(q.sync < 2)
  /\ r.is_execution_in_sync = Bool(~q.esync)
  /\ r.is_oracle_in_sync = Bool(st.slot = q.fin)
  /\ r.latest_processed_slot = Str(st.slot)
  /\ r.latest_processed_block = Str(st.block)
  /\ r.latest_finalized_slot = Str(q.fin)
  /\ r.latest_finalized_epoch = Str(q.fin \div 32)
  /\ q.fin >= st.slot => r.oracle_sync_distance_slots = Str(q.fin - st.slot)
  /\ r.previous_checkpoint_slot = Str(q.cslot)
  /\ r.next_checkpoint_slot = Str(q.cslot + cx.ckpt)
  /\ q.fin >= q.cslot => r.previous_checkpoint_age_unix = Str((q.fin - q.cslot) * 12)
  /\ r.next_checkpoint_remaining_unix = Str(IF q.fin < q.cslot + cx.ckpt THEN (q.cslot + cx.ckpt - q.fin) * 12 ELSE 0)
  /\ r.consensus_chainid = Str(cx.chain) /\ r.execution_chainid = Str(cx.chain)

(* Registrations of a validator at the relays the oracle knows.            *)
RelayRow(x) == [relay_address |-> x.addr, fee_recipient |-> x.fee, timestamp |-> x.time]
Unregistered(x) == [relay_address |-> x.addr, fee_recipient |-> "", timestamp |-> ""]
RelaysOk(cx, q, r) ==
  LET good == SelectSeq(q.relays, LAMBDA x : x.how = "reg" /\ x.fee = cx.pool)
      bad  == SelectSeq(q.relays, LAMBDA x : x.how = "reg" /\ x.fee # cx.pool)
      none == SelectSeq(q.relays, LAMBDA x : x.how \in {"no", "odd"})
  IN /\ \A k \in DOMAIN q.relays : q.relays[k].how # "fail"
     /\ SameBag(r.correct_fee_relayers, [k \in DOMAIN good |-> RelayRow(good[k])])
     /\ SameBag(r.wrong_fee_relayers, [k \in DOMAIN bad |-> RelayRow(bad[k])])
     /\ SameBag(r.unregistered_relayers, [k \in DOMAIN none |-> Unregistered(none[k])])
     /\ r.correct_fee_recipients = Bool(good # <<>> /\ bad = <<>>)

-----------------------------------------------------------------------------
(* One request q, with its reply: may a proper answer be given; must it be *)
(* when nothing fails on the way; is the one that was given right.         *)
Judge(cx, st, hist, com, bl, q) ==
  LET ready == Ready(st, q)
      stats == st.slot >= Month /\ st.block >= Month
      known == ~q.bad /\ q.ids # <<>> /\ q.ids[1] \in DOMAIN st.vals
      J(pid, may, must, right(_)) == [pid |-> pid, may |-> may, must |-> must, right |-> (q.code = 200 /\ q.wf /\ may) => right(q.body)]
  IN CASE q.ep = "proof" ->
            J("P20", ~q.bad /\ ~NotReady(st, q) /\ HasProof(com, q), ready /\ ~q.bad /\ HasProof(com, q), LAMBDA r : ProofOk(com, q, r))
       [] q.ep = "withdrawal" ->
            J("P21", ~q.bad, ready /\ ~q.bad /\ st.block # 0, LAMBDA r : WithdrawalOk(cx, st, bl, q, r))
       [] q.ep = "validators" -> J("P22", TRUE, ready, LAMBDA r : ValidatorsOk(st, bl, r))
       [] q.ep = "validator"  -> J("P22", known, ready /\ known, LAMBDA r : ValOk(st.vals[q.ids[1]], q.ids[1], r))
       [] q.ep = "byindex"    -> J("P22", ~q.bad, ready /\ ~q.bad, LAMBDA r : ByIndexOk(st, bl, q, r))
       [] q.ep = "fees"       -> J("P22", TRUE, ready, LAMBDA r : FeesOk(cx, st, r))
       [] q.ep = "all"        -> J("P22", TRUE, ready, LAMBDA r : BlocksOk(hist.prop \o hist.missed \o hist.wrong, r))
       [] q.ep = "proposed"   -> J("P22", TRUE, ready, LAMBDA r : BlocksOk(hist.prop, r))
       [] q.ep = "missed"     -> J("P22", TRUE, ready, LAMBDA r : BlocksOk(hist.missed, r))
       [] q.ep = "wrong"      -> J("P22", TRUE, ready, LAMBDA r : BlocksOk(hist.wrong, r))
       [] q.ep = "donations"  -> J("P22", TRUE, ready, LAMBDA r : DonationsOk(hist, q, r))
       [] q.ep = "statistics" -> J("P22", TRUE, ready /\ stats, LAMBDA r : StatisticsOk(st, bl, hist, r))
       [] q.ep = "config"     -> J("P22", TRUE, ready, LAMBDA r : ConfigOk(cx, st, q, r))
       [] q.ep = "status"     -> J("P22", TRUE, TRUE, LAMBDA r : StatusOk(cx, st, q, r))
       [] q.ep = "relays"     ->
            J("P22", ~q.bad, ~q.bad /\ \A k \in DOMAIN q.relays : q.relays[k].how \in {"reg", "no"}, LAMBDA r : RelaysOk(cx, q, r))
       [] q.ep = "state"      -> J("P22", TRUE, ready, LAMBDA r : st.fee = cx.fee0 => q.load = "ok" /\ q.eq)
       [] OTHER               -> J("P22", TRUE, TRUE, LAMBDA r : TRUE)
=============================================================================
