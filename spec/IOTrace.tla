------------------------------ MODULE IOTrace ------------------------------
(* The disk format (C16).  The state is the content of the files, as the     *)
(* specification expects it after every write; objects stored in several     *)
(* files are remembered with everything they let one observe.                *)
EXTENDS TraceBase, FiniteSets

VARIABLES fs, objs
vars == <<ep, l, fs, objs>>
(* fs:   file name -> sequence of bytes                                      *)
(* objs: directory -> [k |-> kind, beh |-> observations, files |-> the files *)
(*       written for it, as a function of name to bytes]                     *)

(* A number is logged by its digits to the base 2^16 (u8: 2^8), least first. *)
Elem(t) == IF t = "u8" THEN 1 ELSE IF t = "u16" THEN 2 ELSE IF t \in {"u32", "f32", "opt"} THEN 4
           ELSE IF t \in {"u64", "f64", "pair"} THEN 8 ELSE IF t = "triple" THEN 12 ELSE 0
Digits(t) == IF t = "u8" THEN 1 ELSE Elem(t) \div 2
(* byte i (from 1) of value v of type t, stored little endian, back to back  *)
ByteAt(t, v, i) ==
  IF t = "u8" THEN v[i][1]
  ELSE LET e == ((i - 1) \div Elem(t)) + 1
           k == (i - 1) % Elem(t)
           d == v[e][(k \div 2) + 1]
       IN IF k % 2 = 0 THEN d % 256 ELSE d \div 256
Enc(t, v) == [i \in 1 .. Elem(t) * Len(v) |-> ByteAt(t, v, i)]
(* bit vectors: 64 bit words; value <<size, positions of the set bits>>      *)
Words(size) == (size + 63) \div 64
RECURSIVE BitByte(_, _, _)
BitByte(S, base, k) == IF k = 8 THEN 0 ELSE (IF (base + k) \in S THEN 2 ^ k ELSE 0) + BitByte(S, base, k + 1)
EncBits(size, S) == [i \in 1 .. 8 * Words(size) |-> BitByte(S, 8 * (i - 1), 0)]
Range(s) == {s[i] : i \in 1 .. Len(s)}
BitsOf(b) == {p \in 0 .. (8 * Len(b)) - 1 : (b[(p \div 8) + 1] \div (2 ^ (p % 8))) % 2 = 1}

Put(f, b) == fs' = [x \in DOMAIN fs \union {f} |-> IF x = f THEN b ELSE fs[x]]
(* touching a file below a directory does not change what was stored for it: *)
(* Stored compares the files with those written                              *)
Write == /\ Is("w") /\ Put(Ev.f, IF Ev.t = "bits" THEN EncBits(Ev.size, Range(Ev.v)) ELSE Enc(Ev.t, Ev.v)) /\ UNCHANGED objs
(* bytes put there by someone else                                           *)
Foreign == /\ Is("mk") /\ Put(Ev.f, Ev.b) /\ UNCHANGED objs
Remove == /\ Is("rm") /\ Ev.f \in DOMAIN fs /\ fs' = [x \in DOMAIN fs \ {Ev.f} |-> fs[x]] /\ UNCHANGED objs
Raw == /\ Is("raw") /\ Ev.f \in DOMAIN fs /\ Ev.b = fs[Ev.f] /\ UNCHANGED <<fs, objs>>
(* reading: exactly what is there, or rejected when missing or misfit        *)
Fits(t, n) == IF t = "bits" THEN n % 8 = 0 ELSE n % Elem(t) = 0
Read ==
  /\ Is("ld")
  /\ IF Ev.ok THEN /\ Ev.f \in DOMAIN fs /\ Fits(Ev.t, Len(fs[Ev.f]))
                   /\ IF Ev.t = "bits" THEN /\ Ev.size = 8 * Len(fs[Ev.f]) /\ Range(Ev.v) = BitsOf(fs[Ev.f])
                                            /\ Ev.ones = Cardinality(BitsOf(fs[Ev.f]))
                      ELSE /\ Elem(Ev.t) * Len(Ev.v) = Len(fs[Ev.f])
                           /\ \A i \in 1 .. Len(Ev.v) : Len(Ev.v[i]) = Digits(Ev.t)
                           /\ Enc(Ev.t, Ev.v) = fs[Ev.f]
     ELSE Holds(IF Ev.f \in DOMAIN fs THEN ~Fits(Ev.t, Len(fs[Ev.f])) ELSE TRUE)
  /\ UNCHANGED <<fs, objs>>
(* composite objects: Ev.files are the files found afterwards, Ev.beh all    *)
(* that can be observed of the object, Ev.parts the arrays with fixed names  *)
Named(files) == [x \in {files[i][1] : i \in 1 .. Len(files)} |-> (CHOOSE i \in 1 .. Len(files) : files[i][1] = x)]
Decon ==
  /\ Is("dec")
  /\ \E N \in {Named(Ev.files)} :
       /\ \A i \in 1 .. Len(Ev.parts) : /\ Ev.parts[i][1] \in DOMAIN N
                                        /\ Ev.files[N[Ev.parts[i][1]]][2] = Enc(Ev.parts[i][2], Ev.parts[i][3])
       \* storing the same object again gives the same bytes
       /\ Ev.again = Ev.files
       /\ fs' = [x \in DOMAIN fs \union DOMAIN N |-> IF x \in DOMAIN N THEN Ev.files[N[x]][2] ELSE fs[x]]
       /\ objs' = [x \in DOMAIN objs \union {Ev.d} |-> IF x = Ev.d THEN [k |-> Ev.k, beh |-> Ev.beh, files |-> [y \in DOMAIN N |-> Ev.files[N[y]][2]]] ELSE objs[x]]
Intact(o) == \A f \in DOMAIN o.files : f \in DOMAIN fs /\ fs[f] = o.files[f]
SameSizes(o) == \A f \in DOMAIN o.files : f \in DOMAIN fs /\ Len(fs[f]) = Len(o.files[f])
(* Ev.k is the kind it is read as: the one stored in Ev.d                    *)
Recon ==
  /\ Is("rec") /\ Ev.d \in DOMAIN objs
  /\ LET o == objs[Ev.d] IN
       /\ o.k = Ev.k
       /\ IF Ev.ok THEN /\ SameSizes(o) /\ (Intact(o) => Ev.beh = o.beh)
          ELSE ~Intact(o)
  /\ UNCHANGED <<fs, objs>>
Done == Finished /\ UNCHANGED vars

Init == TBInit /\ fs = <<>> /\ objs = <<>>
Next == \/ Consume /\ (Write \/ Foreign \/ Remove \/ Raw \/ Read \/ Decon \/ Recon)
        \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
