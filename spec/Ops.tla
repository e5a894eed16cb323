-------------------------------- MODULE Ops --------------------------------
(***************************************************************************)
(* Every operation of the library as a function on values.                 *)
(*                                                                         *)
(* A value is [s |-> 0/1, k |-> kind, b |-> digits]: signedness, kind and   *)
(* contents; its width is Len(b).  Kinds: 4 four-state (logic), 2 two-state *)
(* (bit), 0 C++ bool, 1 C++ integer.                                        *)
(*                                                                         *)
(* Apply(o, p, x, t): operation o with constants p on operand values x and  *)
(* text t, giving the sequence of resulting values.  Operations that change *)
(* an object have it as first operand and give its new value first.         *)
(***************************************************************************)
EXTENDS Text

Val(s, k, b) == [s |-> s, k |-> k, b |-> b]
Bit1(k, d) == Val(0, k, << d >>)
Bool(c) == Bit1(0, IF c THEN 1 ELSE 0)
W(v) == Len(v.b)
Sg(v) == v.s = 1
IsObj(v) == v.k \in {2, 4}

(* the result of an expression is signed only if both operands are           *)
BothS(x, y) == IF x.s = 1 /\ y.s = 1 THEN 1 ELSE 0
KindOf(x, y) == MaxN(x.k, y.k)
ExtTo(v, n) == Resize(v.b, Sg(v), n)
(* value of type (w, s, k) that holds v: a two-state target cannot be given   *)
(* x or z by any operation of the library                                    *)
Conv(v, w, s, k) == Val(s, k, ExtTo(v, w))
ConvLike(v, u) == Conv(v, W(u), u.s, u.k)
Default(w, s, k) == Val(s, k, IF k = 4 THEN Xs(w) ELSE Zeros(w))

(*-------------------------------------------------------------------------*)
(* Binary operations at a width n                                           *)
(*-------------------------------------------------------------------------*)
Wide(x, y) == MaxN(W(x), W(y))

BitwiseAt(o, x, y, n) ==
  LET a == ExtTo(x, n) b == ExtTo(y, n)
  IN Val(BothS(x, y), KindOf(x, y),
         CASE o = "and" -> AndV(a, b) [] o = "or" -> OrV(a, b) [] o = "xor" -> XorV(a, b))

ArithAt(o, x, y, n) ==
  LET a == ExtTo(x, n)
      b == ExtTo(y, n)
      s == BothS(x, y)
      k == KindOf(x, y)
  IN Val(s, k,
       IF HasXZ(x.b) \/ HasXZ(y.b) THEN Xs(n)
       ELSE CASE o = "add" -> Add(a, b)
              [] o = "sub" -> Sub(a, b)
              [] o = "mul" -> Mul(a, b)
              [] o \in {"div", "mod"} ->
                   IF IsZero(b) THEN (IF k = 4 THEN Xs(n) ELSE Zeros(n))
                   ELSE LET qr == IF s = 1 THEN SDivMod(a, b) ELSE UDivMod(a, b)
                        IN IF o = "div" THEN qr[1] ELSE qr[2])

(* Shifts keep the width of the left operand; the amount is unsigned         *)
Shift(o, x, y) ==
  LET n == W(x)
      s == BothS(x, y)
      k == KindOf(x, y)
  IN IF HasXZ(x.b) \/ HasXZ(y.b) THEN Val(s, k, Xs(n))
     ELSE LET m == Amount(y.b, n)
          IN Val(s, k, CASE o \in {"shl", "ashl"} -> ShlN(x.b, m)
                         [] o = "shr" -> ShrN(x.b, m, 0)
                         [] o = "ashr" -> ShrN(x.b, m, IF Sg(x) THEN x.b[n] ELSE 0))

(* Comparison of known values: 1 or 0                                        *)
Less(x, y) ==
  LET n == Wide(x, y)
  IN IF BothS(x, y) = 1 THEN SLess(ExtTo(x, n), ExtTo(y, n)) ELSE ULess(ExtTo(x, n), ExtTo(y, n))
Same(x, y) == LET n == Wide(x, y) IN ExtTo(x, n) = ExtTo(y, n)
Compare(o, x, y) ==
  LET c == CASE o = "eq" -> Same(x, y)
             [] o = "ne" -> ~Same(x, y)
             [] o = "lt" -> Less(x, y)
             [] o = "gt" -> Less(y, x)
             [] o = "le" -> ~Less(y, x)
             [] o = "ge" -> ~Less(x, y)
      unknown == HasXZ(x.b) \/ HasXZ(y.b)
      four == Bit1(4, IF unknown THEN X ELSE IF c THEN 1 ELSE 0)
  IN IF x.k = 2 /\ y.k = 2 THEN Bool(c)
     ELSE IF x.k = 2 /\ o \in {"lt", "gt", "le", "ge"}
     THEN Bool(four.b[1] = 1)     \* a two-state value on the left gives a C++ bool
     ELSE four

(* Case equality: digit for digit                                            *)
Match(x, y) == Same(x, y)

Reduce(o, x) ==
  LET d == CASE o = "rand" -> RedAnd(x.b) [] o = "rnand" -> Not1(RedAnd(x.b))
             [] o = "ror" -> RedOr(x.b)   [] o = "rnor" -> Not1(RedOr(x.b))
             [] o = "rxor" -> RedXor(x.b) [] o = "rxnor" -> Not1(RedXor(x.b))
             [] o = "lnot" -> Not1(Truth(x.b))
  IN Bit1(IF x.k = 4 THEN 4 ELSE 0, d)

(*-------------------------------------------------------------------------*)
(* Addressing: digit (counted from 0) of index i in a declared range         *)
(*-------------------------------------------------------------------------*)
PosOf(msb, lsb, i) == IF msb >= lsb THEN i - lsb ELSE lsb - i
InWidth(pos, n) == pos >= 0 /\ pos < n
SetDigit(b, pos, d) == [b EXCEPT ![pos + 1] = d]

Select(v, hi, lo) == Val(0, v.k, Part(v.b, MaxN(hi, lo), MinN(hi, lo)))
Write(v, hi, lo, u) == Val(v.s, v.k, WithPart(v.b, MaxN(hi, lo), MinN(hi, lo), u.b))

(* small non-negative number held by known digits, saturated                 *)
Cap == 1000000
SmallIdx(v) == IF Sg(v) /\ v.b[W(v)] = 1 THEN Cap ELSE Amount(v.b, Cap)
(* number held by known digits, saturated                                    *)
IntOf(v) == IF Sg(v) /\ v.b[W(v)] = 1 THEN 0 - Amount(Neg(v.b), Cap) ELSE Amount(v.b, Cap)
(* base of an indexed part select; a base with x/z counts as 0                *)
BaseOf(v) == IF HasXZ(v.b) THEN 0 ELSE SmallIdx(v)
(* bounds of an indexed part select                                          *)
IdxHi(n, up, base) == IF up = 1 THEN base + n - 1 ELSE base
IdxLo(n, up, base) == IF up = 1 THEN base ELSE base - n + 1

(*-------------------------------------------------------------------------*)
(* Arrays: p = << element width, msb, lsb, ... >>                            *)
(*-------------------------------------------------------------------------*)
ElemAt(p, i) == (i - MinN(p[2], p[3])) * p[1]      \* first digit of element i
ElemValid(p, v) == ~HasXZ(v.b) /\ IntOf(v) >= MinN(p[2], p[3]) /\ IntOf(v) <= MaxN(p[2], p[3])

(*-------------------------------------------------------------------------*)
(* Numbers going out                                                        *)
(*-------------------------------------------------------------------------*)
NumWidth(n) == IF n <= 8 THEN 8 ELSE IF n <= 16 THEN 16 ELSE IF n <= 32 THEN 32 ELSE 64
NumOf(v, n, s) ==
  Val(s, 1, IF HasXZ(v.b) THEN Zeros(n) ELSE ExtTo(v, n))

(* fields for unpacking: digits from..from+n-1 of b, zeros past the top       *)
FieldAt(b, from, n) ==
  LET hi == MinN(Len(b), from + n)
  IN SubSeq(b, from + 1, hi) \o Zeros(n - (hi - from))

SumW(vs) == FoldLeft(LAMBDA acc, v : acc + W(v), 0, vs)

(*-------------------------------------------------------------------------*)
ToWidth(o) == CASE o = "and_to" -> "and" [] o = "or_to" -> "or" [] o = "xor_to" -> "xor"
                [] o = "add_to" -> "add" [] o = "sub_to" -> "sub" [] o = "mul_to" -> "mul"
                [] o = "div_to" -> "div" [] o = "mod_to" -> "mod"
Compound(o) == CASE o = "andeq" -> "and" [] o = "oreq" -> "or" [] o = "xoreq" -> "xor"
                 [] o = "shleq" -> "shl" [] o = "shreq" -> "shr"

Bump(o, v) == LET one == Bit1(v.k, 1)
              IN ConvLike(ArithAt(IF o \in {"preinc", "postinc"} THEN "add" ELSE "sub", v, one, W(v)), v)

Ops1 == {"not", "rand", "rnand", "ror", "rnor", "rxor", "rxnor", "lnot", "bool", "neg", "pos",
         "preinc", "predec", "postinc", "postdec", "tosigned", "tounsigned", "ext", "conv",
         "tonum", "touint64", "popcount", "negative", "allset", "anyset", "clear", "maskall"}
OpsBitwise == {"and", "or", "xor"}
OpsArith == {"add", "sub", "mul", "div", "mod"}
OpsShift == {"shl", "shr", "ashl", "ashr"}
OpsCompare == {"eq", "ne", "lt", "gt", "le", "ge"}

ConcatV(x) == Val(0, FoldLeft(LAMBDA a, v : MaxN(a, v.k), 2, x),
                  FoldLeft(LAMBDA a, v : v.b \o a, << >>, x))
UnpackV(u, vs) ==
  [i \in 1..Len(vs) |->
     Val(vs[i].s, vs[i].k, FieldAt(u.b, SumW(SubSeq(vs, i + 1, Len(vs))), W(vs[i])))]

Apply(o, p, x, t) ==
  CASE o \in OpsBitwise -> << BitwiseAt(o, x[1], x[2], Wide(x[1], x[2])) >>
    [] o \in OpsArith -> << ArithAt(o, x[1], x[2], Wide(x[1], x[2])) >>
    [] o \in OpsShift -> << Shift(o, x[1], x[2]) >>
    [] o \in OpsCompare -> << Compare(o, x[1], x[2]) >>
    [] o \in {"and_to", "or_to", "xor_to"} -> << BitwiseAt(ToWidth(o), x[1], x[2], p[1]) >>
    [] o \in {"add_to", "sub_to", "mul_to", "div_to", "mod_to"} ->
         << ArithAt(ToWidth(o), x[1], x[2], p[1]) >>
    [] o \in {"andeq", "oreq", "xoreq"} ->
         << ConvLike(BitwiseAt(Compound(o), x[1], x[2], Wide(x[1], x[2])), x[1]) >>
    [] o \in {"shleq", "shreq"} -> << ConvLike(Shift(Compound(o), x[1], x[2]), x[1]) >>
    [] o = "match" -> << Bool(Match(x[1], x[2])) >>
    [] o = "nmatch" -> << Bool(~Match(x[1], x[2])) >>
    [] o \in {"rand", "rnand", "ror", "rnor", "rxor", "rxnor", "lnot"} -> << Reduce(o, x[1]) >>
    [] o = "bool" -> << Bool(Truth(x[1].b) = 1) >>
    [] o = "not" -> << Val(0, x[1].k, NotV(x[1].b)) >>
    [] o = "neg" -> << Val(x[1].s, x[1].k, IF HasXZ(x[1].b) THEN Xs(W(x[1])) ELSE Neg(x[1].b)) >>
    [] o = "negate" -> << Val(0, x[1].k, Neg(x[1].b)) >>
    [] o = "negateeq" -> << Val(x[1].s, x[1].k, Neg(x[1].b)) >>
    [] o = "pos" -> << Val(x[1].s, x[1].k, IF HasXZ(x[1].b) THEN Xs(W(x[1])) ELSE x[1].b) >>
    [] o \in {"preinc", "predec"} -> << Bump(o, x[1]) >>
    [] o \in {"postinc", "postdec"} -> << Bump(o, x[1]), x[1] >>
    \* conversions
    [] o = "tosigned" -> << Val(1, x[1].k, x[1].b) >>
    [] o = "tounsigned" -> << Val(0, x[1].k, x[1].b) >>
    [] o = "ext" -> << Conv(x[1], p[1], x[1].s, x[1].k) >>
    [] o \in {"conv", "fromint"} -> << Conv(x[1], p[1], p[2], p[3]) >>
    [] o \in {"assign", "assignint"} -> << ConvLike(x[2], x[1]) >>
    [] o = "default" -> << Default(p[1], p[2], p[3]) >>
    [] o = "tonum" -> << NumOf(x[1], NumWidth(W(x[1])), x[1].s) >>
    [] o = "touint64" -> << NumOf(x[1], 64, 0) >>
    [] o = "lit" -> << Val(1, p[2], Low(DecBits(Chars(t), 64), p[1])) >>
    [] o = "parse" -> LET v == Parse(t, p[1])
                      IN << Val(p[2], p[3], IF p[3] = 4 THEN v
                                            ELSE [i \in 1..Len(v) |-> v[i]]) >>
    [] o = "parsebytes" -> << Val(p[2], p[3], ParseBytes(t, p[1])) >>
    \* two-state extras
    [] o = "popcount" -> << Val(0, 1, FromNat(Cardinality({i \in 1..W(x[1]) : x[1].b[i] = 1}), 16)
                                        \o Zeros(48)) >>
    \* position of the highest one, for values other than zero
    [] o = "hibit" -> LET top == CHOOSE i \in 1..W(x[1]) : x[1].b[i] = 1 /\ \A j \in (i + 1)..W(x[1]) : x[1].b[j] = 0
                      IN << Val(0, 1, FromNat(top - 1, 16) \o Zeros(48)) >>
    [] o = "negative" -> << Bool(Sg(x[1]) /\ x[1].b[W(x[1])] = 1) >>
    [] o = "allset" -> << Bool(\A i \in 1..W(x[1]) : x[1].b[i] = 1) >>
    [] o = "anyset" -> << Bool(AnyOne(x[1].b)) >>
    [] o = "clear" -> << Val(x[1].s, x[1].k, Zeros(W(x[1]))) >>
    [] o = "maskall" -> << Val(x[1].s, x[1].k, Fill(W(x[1]), 1)) >>
    \* single digits: p = << msb, lsb, index >>
    [] o = "get" -> LET pos == PosOf(p[1], p[2], p[3])
                    IN << Bit1(x[1].k, IF InWidth(pos, W(x[1])) THEN x[1].b[pos + 1]
                                       ELSE IF x[1].k = 4 THEN X ELSE 0) >>
    \* the index is an object: p = << msb, lsb >>
    [] o = "geti" -> LET pos == PosOf(p[1], p[2], IntOf(x[2]))
                     IN << Bit1(x[1].k, IF InWidth(pos, W(x[1])) THEN x[1].b[pos + 1]
                                        ELSE IF x[1].k = 4 THEN X ELSE 0) >>
    [] o \in {"set", "setx", "setz"} ->
         LET pos == PosOf(p[1], p[2], p[3])
             d == IF o = "setx" THEN X ELSE IF o = "setz" THEN Z ELSE x[2].b[1]
         IN << IF InWidth(pos, W(x[1])) THEN [x[1] EXCEPT !.b = SetDigit(@, pos, d)] ELSE x[1] >>
    [] o \in {"isx", "isz"} ->
         LET pos == PosOf(p[1], p[2], p[3])
         IN << Bool(InWidth(pos, W(x[1])) /\ x[1].b[pos + 1] = (IF o = "isx" THEN X ELSE Z)) >>
    \* parts: p = << a, b >>
    [] o = "slice" -> << Select(x[1], p[1], p[2]) >>
    [] o = "slicei" -> LET base == BaseOf(x[2])
                       IN << Select(x[1], IdxHi(p[1], p[2], base), IdxLo(p[1], p[2], base)) >>
    \* updates: p = << msb, lsb, a, b >>
    [] o = "update" -> << Write(x[1], PosOf(p[1], p[2], p[3]), PosOf(p[1], p[2], p[4]), x[2]) >>
    [] o = "updatei" -> LET base == BaseOf(x[3])
                        IN << Write(x[1], IdxHi(p[1], p[2], base), IdxLo(p[1], p[2], base), x[2]) >>
    [] o = "concat" -> << ConcatV(x) >>
    [] o = "unpack" -> UnpackV(x[1], Tail(x))
    [] o = "roundtrip" -> UnpackV(ConcatV(x), x)
    [] o = "reparse" ->
         << Val(x[1].s, x[1].k, Parse("'" \o t \o Format(x[1].b, Sg(x[1]), t), W(x[1]))) >>
    \* packed arrays: p = << element width, msb, lsb, hi, lo >>
    [] o = "aslice" -> << Select(x[1], ElemAt(p, MaxN(p[4], p[5])) + p[1] - 1,
                                 ElemAt(p, MinN(p[4], p[5]))) >>
    [] o = "aupd" -> << Write(x[1], ElemAt(p, MaxN(p[4], p[5])) + p[1] - 1,
                              ElemAt(p, MinN(p[4], p[5])), x[2]) >>
    [] o = "aref" -> IF ElemValid(p, x[2])
                     THEN LET at == ElemAt(p, IntOf(x[2]))
                          IN << Select(x[1], at + p[1] - 1, at) >>
                     ELSE << Default(p[1], 0, x[1].k) >>
    [] o = "aupdr" -> IF ElemValid(p, x[2])
                      THEN LET at == ElemAt(p, IntOf(x[2]))
                           IN << Write(x[1], at + p[1] - 1, at, x[3]) >>
                      ELSE << x[1] >>
    \* unpacked arrays: p = << msb, lsb, index >>, the elements are operands
    [] o = "uget" -> LET i == p[3] - MinN(p[1], p[2])
                     IN << IF i >= 0 /\ i < Len(x) THEN x[i + 1]
                           ELSE Default(W(x[1]), x[1].s, x[1].k) >>
    [] o = "uupd" -> LET i == p[3] - MinN(p[1], p[2])
                         n == Len(x) - 1
                     IN [j \in 1..n |-> IF j = i + 1 THEN ConvLike(x[n + 1], x[j]) ELSE x[j]]

(* Known values behave alike in both kinds: the result of an operation on      *)
(* two-state operands and on the same four-state operands (a four-state        *)
(* quotient by zero is x, a two-state one is 0).                              *)
Alike(o, x, r2, r4) ==
  IF o \in {"div", "mod"} /\ IsZero(x[2].b)
  THEN r2.b = Zeros(W(r2)) /\ r4.b = Xs(W(r2)) /\ r4.s = r2.s
  ELSE r4.b = r2.b /\ r4.s = r2.s /\ (r4.k = r2.k \/ r4.k = 4)

(* Operations that read a value as text                                       *)
ApplyText(o, p, x, t) == IF o = "strbytes" THEN FormatBytes(x[1].b, t) ELSE Format(x[1].b, Sg(x[1]), t)

(***************************************************************************)
(* Known deviation of the implementation (see known-findings): arithmetic   *)
(* right shift of a signed value wider than 64 bits by n < width gives 0     *)
(* for the digit that held the sign (position width - 1 - n).               *)
(***************************************************************************)
AshrLostSign(o, x, r) ==
  /\ o = "ashr"
  /\ Sg(x[1]) /\ W(x[1]) > 64 /\ ~HasXZ(x[1].b) /\ ~HasXZ(x[2].b)
  /\ LET n == W(x[1])
         m == Amount(x[2].b, n)
     IN m < n /\ r = << [Shift(o, x[1], x[2]) EXCEPT !.b = SetDigit(@, n - 1 - m, 0)] >>
=============================================================================
