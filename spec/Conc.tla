-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Concurrent use of one oracle (P23).                                     *)
(*                                                                         *)
(* The main loop does operations 1, 2, ...; boundary k is the state after  *)
(* k of them.  A reader that began when `from' operations were over and    *)
(* ended when `to' had begun may see any one boundary from..to, and        *)
(* nothing else.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Node

AtBoundary(from, to, P(_)) == \E k \in from..to : P(k)
=============================================================================
