------------------------------- MODULE BitVec -------------------------------
(***************************************************************************)
(* Four-state bit vectors, the values of the system.                       *)
(*                                                                         *)
(* A digit is 0, 1, 2 (x) or 3 (z).  A vector is a sequence of digits with *)
(* the LEAST significant digit first: b[1] is bit 0.  There are no machine *)
(* words, holders or masks here: a vector is exactly its digits.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

X == 2
Z == 3
Digit == 0..3
Known(d) == d < 2
Idx(n) == [i \in 1..n |-> i]

(* Force a tuple: TLC represents [i \in S |-> e] lazily.                    *)
Force(f) == f \o << >>
Tab(n, Op(_)) == FoldLeft(LAMBDA acc, i : Append(acc, Op(i)), << >>, Idx(n))

Fill(n, d) == [i \in 1..n |-> d]
Zeros(n) == Fill(n, 0)
Xs(n) == Fill(n, X)

MaxN(a, b) == IF a > b THEN a ELSE b
MinN(a, b) == IF a > b THEN b ELSE a

HasXZ(b) == \E i \in 1..Len(b) : b[i] > 1
IsZero(b) == \A i \in 1..Len(b) : b[i] = 0
AnyOne(b) == \E i \in 1..Len(b) : b[i] = 1

(*-------------------------------------------------------------------------*)
(* One digit                                                               *)
(*-------------------------------------------------------------------------*)
And1(p, q) == IF p = 0 \/ q = 0 THEN 0 ELSE IF p = 1 /\ q = 1 THEN 1 ELSE X
Or1(p, q)  == IF p = 1 \/ q = 1 THEN 1 ELSE IF p = 0 /\ q = 0 THEN 0 ELSE X
Xor1(p, q) == IF p > 1 \/ q > 1 THEN X ELSE IF p = q THEN 0 ELSE 1
Not1(p)    == IF p > 1 THEN X ELSE 1 - p

(*-------------------------------------------------------------------------*)
(* Width                                                                   *)
(*-------------------------------------------------------------------------*)
Low(b, n) == SubSeq(b, 1, n)
(* Extend by own signedness, or truncate, to width n.                       *)
Resize(b, sgn, n) ==
  IF n <= Len(b) THEN Low(b, n)
  ELSE b \o Fill(n - Len(b), IF sgn THEN b[Len(b)] ELSE 0)

(*-------------------------------------------------------------------------*)
(* Bitwise                                                                 *)
(*-------------------------------------------------------------------------*)
Map2(Op(_, _), a, b) == Force([i \in 1..Len(a) |-> Op(a[i], b[i])])
AndV(a, b) == Map2(And1, a, b)
OrV(a, b)  == Map2(Or1, a, b)
XorV(a, b) == Map2(Xor1, a, b)
NotV(a)    == Force([i \in 1..Len(a) |-> Not1(a[i])])

(*-------------------------------------------------------------------------*)
(* Reductions                                                              *)
(*-------------------------------------------------------------------------*)
RedAnd(b) == IF \E i \in 1..Len(b) : b[i] = 0 THEN 0 ELSE IF HasXZ(b) THEN X ELSE 1
RedOr(b)  == IF AnyOne(b) THEN 1 ELSE IF HasXZ(b) THEN X ELSE 0
RedXor(b) == IF HasXZ(b) THEN X
             ELSE FoldLeft(LAMBDA acc, d : IF d = 1 THEN 1 - acc ELSE acc, 0, b)
(* Truth: x/z anywhere makes the value unknown (that is what ! reports), and *)
(* an unknown value is not true.                                             *)
Truth(b) == IF HasXZ(b) THEN X ELSE IF AnyOne(b) THEN 1 ELSE 0

(*-------------------------------------------------------------------------*)
(* Arithmetic on known digits, modulo 2^Len(a); both operands equally long  *)
(*-------------------------------------------------------------------------*)
AddC(a, b, cin) ==
  FoldLeft(LAMBDA acc, i :
             LET t == a[i] + b[i] + acc[1]
             IN << t \div 2, Append(acc[2], t % 2) >>,
           << cin, << >> >>, Idx(Len(a)))[2]
Add(a, b) == AddC(a, b, 0)
Sub(a, b) == AddC(a, NotV(b), 1)
Neg(a)    == AddC(Zeros(Len(a)), NotV(a), 1)
One(n)    == << 1 >> \o Zeros(n - 1)

(* Reference product: shift and add.                                        *)
MulRef(a, b) ==
  LET n == Len(a)
  IN FoldLeft(LAMBDA acc, i :
                IF b[i] = 1 THEN Add(acc, Zeros(i - 1) \o Low(a, n - i + 1)) ELSE acc,
              Zeros(n), Idx(n))

(* The same product over limbs of L bits, which is what traces are checked   *)
(* with (L*2 + log2(#limbs) has to stay below 31); BitVecLaws checks          *)
(* Mul = MulRef.                                                             *)
Pow2(n) == 2^n
Limbs(b, L) ==
  LET m == (Len(b) + L - 1) \div L
  IN FoldLeft(LAMBDA acc, j :
       Append(acc, FoldLeft(LAMBDA v, i : 2 * v + b[i], 0,
                [k \in 1..(MinN(Len(b), j * L) - (j - 1) * L) |-> MinN(Len(b), j * L) + 1 - k])),
       << >>, Idx(m))
UnLimb(v, L) == [i \in 1..L |-> (v \div Pow2(i - 1)) % 2]
MulL(a, b, L) ==
  LET n == Len(a)
      la == Limbs(a, L)
      lb == Limbs(b, L)
      m == Len(la)
      r == FoldLeft(LAMBDA acc, k :
             (* the carry is kept as low part and multiple of 2^L so far *)
             LET col == FoldLeft(LAMBDA c, i : 
                           LET p == la[i] * lb[k + 1 - i] + c[1]
                           IN << p % Pow2(L), c[2] + p \div Pow2(L) >>,
                         << acc[1] % Pow2(L), acc[1] \div Pow2(L) >>, Idx(k))
             IN << col[2], acc[2] \o UnLimb(col[1], L) >>,
           << 0, << >> >>, Idx(m))
  IN Low(r[2], n)
Mul(a, b) == MulL(a, b, 14)

(* unsigned a < b, by the most significant difference                        *)
ULess(a, b) ==
  FoldLeft(LAMBDA acc, i : IF a[i] = b[i] THEN acc ELSE a[i] < b[i], FALSE, Idx(Len(a)))
SLess(a, b) ==
  LET n == Len(a)
  IN IF a[n] # b[n] THEN a[n] = 1 ELSE ULess(a, b)

(* Long division of known digits, divisor not zero: << quotient, remainder >> *)
UDivMod(a, b) ==
  LET n == Len(a)
      hb == CHOOSE i \in 1..n : b[i] = 1 /\ \A j \in (i + 1)..n : b[j] = 0
      (* remainder window of hb + 1 bits *)
      d == Low(b, hb) \o << 0 >>
      step(acc, k) ==
        LET i == n + 1 - k
            r == << a[i] >> \o Low(acc[2], hb)
        IN IF ULess(r, d) THEN << << 0 >> \o acc[1], r >>
           ELSE << << 1 >> \o acc[1], Sub(r, d) >>
      res == FoldLeft(step, << << >>, Zeros(hb + 1) >>, Idx(n))
  IN << res[1], Low(res[2] \o Zeros(n), n) >>
UDiv(a, b) == UDivMod(a, b)[1]
UMod(a, b) == UDivMod(a, b)[2]
Abs(a) == IF a[Len(a)] = 1 THEN Neg(a) ELSE a
SDivMod(a, b) ==
  LET n == Len(a)
      qr == UDivMod(Abs(a), Abs(b))
  IN << IF a[n] # b[n] THEN Neg(qr[1]) ELSE qr[1],
        IF a[n] = 1 THEN Neg(qr[2]) ELSE qr[2] >>

(*-------------------------------------------------------------------------*)
(* Shifts by a known amount given as digits                                 *)
(*-------------------------------------------------------------------------*)
(* the amount, saturated at cap                                              *)
Amount(b, cap) ==
  FoldLeft(LAMBDA v, i : MinN(cap, 2 * v + b[i]), 0, [k \in 1..Len(b) |-> Len(b) + 1 - k])
ShlN(a, n) == IF n >= Len(a) THEN Zeros(Len(a)) ELSE Zeros(n) \o Low(a, Len(a) - n)
ShrN(a, n, fill) ==
  IF n >= Len(a) THEN Fill(Len(a), fill)
  ELSE SubSeq(a, n + 1, Len(a)) \o Fill(n, fill)

(*-------------------------------------------------------------------------*)
(* Parts                                                                   *)
(*-------------------------------------------------------------------------*)
(* digits lo .. hi, counted from 0                                           *)
Part(b, hi, lo) == SubSeq(b, lo + 1, hi + 1)
(* b with digits lo .. hi replaced by the low digits of v, zero filled        *)
WithPart(b, hi, lo, v) ==
  Low(b, lo) \o Resize(v, FALSE, hi - lo + 1) \o SubSeq(b, hi + 2, Len(b))
(* digits lo.. replaced where they exist                                      *)

(*-------------------------------------------------------------------------*)
(* Numbers, for small vectors                                              *)
(*-------------------------------------------------------------------------*)
ToNat(b) == FoldLeft(LAMBDA v, i : 2 * v + b[i], 0, [k \in 1..Len(b) |-> Len(b) + 1 - k])
ToInt(b, sgn) == IF sgn /\ b[Len(b)] = 1 THEN ToNat(b) - Pow2(Len(b)) ELSE ToNat(b)
FromNat(v, n) == [i \in 1..n |-> (v \div Pow2(i - 1)) % 2]
FromInt(v, n) == FromNat(v % Pow2(n), n)

=============================================================================
