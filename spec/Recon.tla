------------------------------- MODULE Recon -------------------------------
(***************************************************************************)
(* The books (oracle.go: RunOffchainReconciliation,                        *)
(* RunOnchainReconciliation, GetUniqueWithdrawalAddresses).                *)
(* vals: index -> [wa, acc, pend];  sequences of amounts for the rest.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Num

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), Total(Tail(s)))

RECURSIVE Owed(_, _)
Owed(S, vals) == IF S = {} THEN Zero
                 ELSE LET i == CHOOSE i \in S : TRUE IN Add(Add(vals[i].acc, vals[i].pend), Owed(S \ {i}, vals))

Liabilities(b) == Add(Owed(DOMAIN b.vals, b.vals), b.fees)
Assets(b)      == Add(Total(b.received), Add(Total(b.deposits), Total(b.priority)))

OffChainOk(b)                   == Liabilities(b) = Assets(b)
OnChainOk(b, claimed, balance)  == Sub(Liabilities(b), Total(claimed)) = balance

(* Whose claims are asked for, each once.                                  *)
Claimers(b) == {b.vals[i].wa : i \in DOMAIN b.vals} \cup {b.feeAddr}
=============================================================================
