------------------------------- MODULE Crypto -------------------------------
(***************************************************************************)
(* Cryptographic primitives.  The specification treats them as functions   *)
(* of which only the type is known (the CHOOSE below); TLC evaluates them  *)
(* with the independent implementations of java/Crypto.java.  None of      *)
(* that code is shared with the system under check.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL Hash(n) == CHOOSE h \in [1..n -> 0..255] : TRUE

Keccak(b) == Hash(32)                 \* Keccak-256
Keccak512(b) == Hash(64)
Sha256(b) == Hash(32)
Ripemd160(b) == Hash(20)

(* public key recovery on secp256k1: hash, recovery bit (0/1), r, s as     *)
(* naturals; the 20-byte address, or <<>> if there is none                 *)
EcRecover(hash, bit, r, s) == Hash(20)

ModExp(b, e, m) == CHOOSE x \in Seq(0..255) : TRUE   \* naturals; m # <<>>

(* alt_bn128; points are 64-byte strings; <<>> means invalid input         *)
Bn128Add(a, b) == Hash(64)
Bn128Mul(a, k) == Hash(64)
(* list of 192-byte pairs: <<1>>, <<0>> or <<>> for invalid                *)
Bn128Pairing(b) == CHOOSE x \in {<<0>>, <<1>>, <<>>} : TRUE

Blake2F(rounds, h, m, t, f) == Hash(64)

(* BLS12-381 *)
BlsG1Add(b) == Hash(128)
BlsG1Msm(b) == Hash(128)
BlsG2Add(b) == Hash(256)
BlsG2Msm(b) == Hash(256)

(* pairing product: <<1>>, <<0>> or <<>> for invalid input *)
BlsPairing(b) == CHOOSE x \in {<<0>>, <<1>>, <<>>} : TRUE
(* the value of the committed polynomial at z is y *)
KzgVerify(c, z, y, proof) == CHOOSE v \in BOOLEAN : TRUE
(* RFC 9380 maps from the base fields; <<>> if out of range                *)
BlsMapG1(b) == Hash(128)
BlsMapG2(b) == Hash(256)

P256Verify(h, r, s, x, y) == CHOOSE v \in BOOLEAN : TRUE
=============================================================================
