----------------------------- MODULE ReconTrace -----------------------------
(* Books of the real oracle, balanced and not, and what it said of them.   *)
EXTENDS TraceBase, Recon

VARIABLES l
Line == Trace[l]

BooksOf(x) == [vals |-> FnOf(x.vals, LAMBDA v : v.id, LAMBDA v : v), fees |-> x.fees, received |-> x.received,
               deposits |-> x.deposits, priority |-> x.priority, feeAddr |-> x.feeAddr]

BooksLine ==
  LET b == BooksOf(Line)
  IN /\ Line.ev = "books"
     /\ Check("P25", l, Line.off = (IF OffChainOk(b) THEN "ok" ELSE "err"), <<"off-chain", Line.off, Line.msg, Liabilities(b), Assets(b)>>)
     /\ \A k \in DOMAIN Line.on :
          LET q == Line.on[k] IN
          Check("P25", l, q.out = (IF OnChainOk(b, q.claimed, q.balance) THEN "ok" ELSE "err"),
                <<"on-chain", q.out, q.msg, Liabilities(b), q.claimed, q.balance>>)
     /\ Check("P25", l, Line.same, <<"reconciling changed the state">>)
     /\ Check("P25", l, Len(Line.unique) = Cardinality(Claimers(b)) /\ SeqToSet(Line.unique) = Claimers(b), <<"claimers", Line.unique, Claimers(b)>>)
     \* the books of a real history always balance
     /\ Line.real => Check("P01", l, OffChainOk(b), <<"books", Liabilities(b), Assets(b)>>)

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ BooksLine
Spec == Init /\ [][Next]_l
Accepted == Assert(TLCGet("stats").diameter - 1 = Len(Trace), <<"trace not consumed", TLCGet("stats").diameter>>)
=============================================================================
