-------------------------------- MODULE Hash --------------------------------
(* The hash functions of the merkle tree as free terms: different inputs,  *)
(* different hashes.  When real traces are validated /verif/java/Hash.java *)
(* overrides them with keccak-256 over the Solidity packing, and AddrLt    *)
(* with the order of lower case hexadecimal strings.                       *)
LOCAL INSTANCE Integers
LeafHash(addr, amt) == <<"leaf", addr, amt>>     \* keccak(address . uint256)
PairHash(a, b)      == <<"pair", {a, b}>>        \* keccak of the sorted pair
AddrLt(a, b)        == a < b
=============================================================================
