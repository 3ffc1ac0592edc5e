-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Amounts of wei.  As written, ordinary integers: this is what the        *)
(* exhaustive models use.  When traces of the real program are validated   *)
(* the class /verif/java/Num.java overrides every operator below with the  *)
(* same operation on unbounded integers written as decimal strings.        *)
(***************************************************************************)
LOCAL INSTANCE Integers

Zero       == 0
NumOf(i)   == i          \* a small TLA+ integer as an amount
Add(a, b)  == a + b
Sub(a, b)  == a - b
Mul(a, b)  == a * b
Div(a, b)  == a \div b   \* b > 0, floor
Rem(a, b)  == a % b      \* b > 0
Leq(a, b)  == a <= b
Lt(a, b)   == a < b
=============================================================================
