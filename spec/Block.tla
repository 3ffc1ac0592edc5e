------------------------------- MODULE Block -------------------------------
(***************************************************************************)
(* From the raw content of a slot (transactions, payload fields, receipts, *)
(* contract events, proposer record) to what the pool makes of it          *)
(* (block.go).                                                             *)
(*                                                                         *)
(* A raw block b is a record                                               *)
(*   slot, vi, key, cred, wa      scheduled proposer and its credentials   *)
(*   missed                       TRUE: no beacon block                    *)
(*   bnum, feeRec, pbase, pgas    payload: number, fee recipient, base fee *)
(*                                per gas, gas used                        *)
(*   txs     sequence of [from, to, val, ty, price, tip, cap, gas, hok]    *)
(*           to = "" for a contract creation, gas = gas used in receipt,   *)
(*           hok = the receipt carries the hash of the transaction         *)
(*   hdr     header and receipts are present;  hbase = base fee in header  *)
(*   nrec    number of receipts                                            *)
(*   ers     sequence of [from, val, addr]  EtherReceived events           *)
(*   subs, unsubs, bans, unbans, fees, recips, csizes, colls   see Pool    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Num, Chain

IsException(cx, b) == ~b.missed /\ cx.chain = ExceptionChain /\ b.slot = ExceptionSlot
ExceptionEvent == [from |-> "0x0000000000000000000000000000000000000000",
                   val  |-> NumOf(177043568) ,   \* completed by ExceptionAmount
                   addr |-> "0x0000000000000000000000000000000000000000"]
ExceptionAmount == Add(Mul(NumOf(177043568), NumOf(1000000000)), NumOf(463114308))

(* The events the block is processed with.                                 *)
EventsOf(cx, b) ==
  IF IsException(cx, b)
  THEN Append(b.ers, [ExceptionEvent EXCEPT !.val = ExceptionAmount])
  ELSE b.ers

NoMev == [is |-> FALSE, amt |-> Zero, to |-> "", dead |-> FALSE]

(* The payment made by the last transaction of the block, if its sender is *)
(* the fee recipient or a whitelisted builder.  A payment that the pool    *)
(* reported went to the pool, whatever contract forwarded it.              *)
LastTxPayment(cx, b) ==
  IF Len(b.txs) = 0 THEN NoMev
  ELSE LET tx == b.txs[Len(b.txs)]
           es == EventsOf(cx, b)
       IN IF tx.to = "" THEN NoMev
          ELSE IF cx.chain \notin KnownChains THEN [NoMev EXCEPT !.dead = TRUE]
          ELSE IF IsException(cx, b)
               THEN [is |-> TRUE, amt |-> ExceptionAmount, to |-> ExceptionTo, dead |-> FALSE]
          ELSE IF tx.from = b.feeRec \/ tx.from \in Builders(cx.chain) \cup cx.builders
               THEN LET hits == {k \in DOMAIN es : es[k].val = tx.val}
                        first == CHOOSE k \in hits : \A j \in hits : k <= j
                    IN [is |-> TRUE, amt |-> tx.val, dead |-> FALSE,
                        to |-> IF hits # {} THEN es[first].addr ELSE tx.to]
          ELSE NoMev

(* A transaction sent to the pool that the pool did not report as received *)
(* ether (a subscription, a claim, ...) is a call, not a payment.          *)
Mev(cx, b) ==
  LET m == LastTxPayment(cx, b) IN
  IF m.is /\ m.to = cx.pool /\ ~(\E k \in DOMAIN EventsOf(cx, b) : EventsOf(cx, b)[k].val = m.amt)
  THEN NoMev ELSE m

MevToPool(cx, b) == LET m == Mev(cx, b) IN m.is /\ m.to = cx.pool

RECURSIVE TipSum(_, _)
TipSum(b, n) ==
  IF n = 0 THEN Zero
  ELSE LET t == b.txs[n]
           sum == Add(t.tip, b.hbase)
           price == IF t.ty \in {0, 1} THEN t.price
                    ELSE IF Leq(t.cap, sum) THEN t.cap ELSE sum
       IN Add(TipSum(b, n - 1), Mul(price, t.gas))

TipOk(b) == /\ b.hdr
            /\ b.nrec = Len(b.txs)
            /\ \A k \in DOMAIN b.txs : b.txs[k].hok /\ b.txs[k].ty \in 0..4
Tip(b) == Sub(TipSum(b, Len(b.txs)), Mul(b.pgas, b.pbase))

(* The summary of the slot: kind, reward, origin of the reward.            *)
(* `sub` = the proposer is subscribed before the block is processed.       *)
Summary(cx, b, sub) ==
  LET m   == Mev(cx, b)
      base == [slot |-> b.slot, block |-> b.bnum, vi |-> b.vi, key |-> b.key, wa |-> b.wa]
      mk(kind, rew, rty) == [ok |-> TRUE, why |-> "", slot |-> b.slot, block |-> b.bnum, vi |-> b.vi,
                             key |-> b.key, wa |-> b.wa, kind |-> kind, rew |-> rew, rty |-> rty]
      bad(why) == [mk("none", Zero, "none") EXCEPT !.ok = FALSE, !.why = why]
      okKind == IF b.cred \in {"eth1", "electra"} THEN "okpoolproposal" ELSE "okpoolproposalblskeys"
  IN IF b.missed THEN [mk("missedproposal", Zero, "unknownrewardtype") EXCEPT !.block = 0]
     ELSE IF m.dead THEN bad("chain")
     ELSE IF m.is
          THEN IF m.to = cx.pool THEN mk(okKind, m.amt, "mev")
                                 ELSE mk("wrongfeerecipient", m.amt, "mev")
     ELSE IF b.feeRec = cx.pool \/ sub
          THEN IF ~TipOk(b) THEN bad("tip")
               ELSE IF b.feeRec = cx.pool THEN mk(okKind, Tip(b), "vanila")
               ELSE mk("wrongfeerecipient", Tip(b), "vanila")
     ELSE mk("wrongfeerecipient", Zero, "unknownrewardtype")

(* Everything the pool reported as received, except the MEV payment.  Of   *)
(* several events of the amount of the MEV payment exactly one is it: the  *)
(* last, since the payment is the last transaction of the block.           *)
Donations(cx, b) ==
  LET es == EventsOf(cx, b)
      m  == Mev(cx, b)
  IN IF b.missed THEN <<>>
     ELSE IF ~(m.is /\ m.to = cx.pool) THEN es
     ELSE LET hits == {k \in DOMAIN es : es[k].val = m.amt}
              last == CHOOSE k \in hits : \A j \in hits : j <= k
          IN [i \in 1..(Len(es) - 1) |-> IF i < last THEN es[i] ELSE es[i + 1]]
=============================================================================
