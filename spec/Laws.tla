-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The properties, as laws of the specification, over every tuple of small  *)
(* operands.  A state is one tuple of operands; the laws are invariants.    *)
(* They are stated through notions that Ops and BitVec do not use: integer  *)
(* arithmetic, sets of possible worlds, functions from positions to digits,  *)
(* composition of steps.                                                    *)
(***************************************************************************)
EXTENDS Ops, TLC

CONSTANTS W4, W2      \* widest four-state and two-state operands

VARIABLE v            \* the operands

Signs == {0, 1}
Vec4(n) == [1..n -> 0..3]
Vec2(n) == [1..n -> 0..1]
Four(n) == {Val(s, 4, Force(b)) : s \in Signs, b \in Vec4(n)}
Two(n) == {Val(s, 2, Force(b)) : s \in Signs, b \in Vec2(n)}
UpTo(S(_), n) == UNION {S(k) : k \in 1..n}
Vals4 == UpTo(Four, W4)
Vals2 == UpTo(Two, W2)
Vals == Vals4 \cup Vals2
Small(n) == {x \in Vals : Len(x.b) <= n}

Next == UNCHANGED v

InitOne == v \in {<< x >> : x \in Vals}
(* a four-state and a two-state value combine at equal widths only            *)
Combine(x, y) == x.k = y.k \/ W(x) = W(y)
InitTwo == v \in {q \in Vals \X Vals : Combine(q[1], q[2])}
InitTwoSame == v \in (Vals4 \X Vals4) \cup (Vals2 \X Vals2)
InitThree == v \in (Vals4 \X Vals4 \X Vals4) \cup (Vals2 \X Vals2 \X Vals2)

Do1(o, x) == Apply(o, << >>, << x >>, "")[1]
Do2(o, x, y) == Apply(o, << >>, << x, y >>, "")[1]
Unknown(x) == HasXZ(x.b)
AllX(x) == \A i \in 1..W(x) : x.b[i] = X
(* the integer a value stands for                                             *)
Num(x) == ToInt(x.b, Sg(x))
(* ... and the one it stands for as an operand of an expression of width n     *)
OpNum(x, n, sgn) == ToInt(ExtTo(x, n), sgn)

(* possible worlds: an unknown digit may be 0 or 1                             *)
Poss(d) == IF d > 1 THEN {0, 1} ELSE {d}
Worlds(b) == {w \in [1..Len(b) -> 0..1] : \A i \in 1..Len(b) : w[i] \in Poss(b[i])}
Only(S) == IF Cardinality(S) = 1 THEN CHOOSE d \in S : TRUE ELSE X

-----------------------------------------------------------------------------
(* C01 *)
Bool1(o, p, q) == CASE o = "and" -> p * q [] o = "or" -> p + q - p * q [] o = "xor" -> (p + q) % 2
LawC01 ==
  LET x == v[1] y == v[2] n == Wide(x, y) s == BothS(x, y)
  IN /\ x.k = y.k =>
        \A o \in OpsBitwise :
          LET r == Do2(o, x, y)
              a == ExtTo(x, n) b == ExtTo(y, n)
          IN /\ W(r) = n /\ r.s = s /\ r.k = x.k
             /\ \A i \in 1..n : r.b[i] = Only({Bool1(o, p, q) : p \in Poss(a[i]), q \in Poss(b[i])})
             /\ Do2(o, y, x) = r
             /\ Do2(o, r, r).b = (IF o = "xor" THEN [i \in 1..n |-> IF r.b[i] = X THEN X ELSE 0] ELSE r.b)
             /\ Do2(o \o "eq", x, y) = ConvLike(r, x)
     /\ x.k = y.k /\ W(x) = W(y) =>
          /\ Do1("not", Do2("and", x, y)).b = Do2("or", Do1("not", x), Do1("not", y)).b
          /\ Do1("not", Do2("or", x, y)).b = Do2("and", Do1("not", x), Do1("not", y)).b
     /\ \A i \in 1..W(x) : Do1("not", x).b[i] = Only({1 - p : p \in Poss(x.b[i])})

(* C02 *)
Prod(w) == IF \A i \in 1..Len(w) : w[i] = 1 THEN 1 ELSE 0
LawC02 ==
  LET x == v[1]
      R(o) == Do1(o, x).b[1]
      neg(d) == Only({1 - p : p \in Poss(d)})
      ws == Worlds(x.b)
  IN /\ R("rand") = Only({Prod(w) : w \in ws})
     /\ R("ror") = Only({1 - Prod([i \in 1..W(x) |-> 1 - w[i]]) : w \in ws})
     /\ R("rxor") = Only({Cardinality({i \in 1..W(x) : w[i] = 1}) % 2 : w \in ws})
     /\ R("rnand") = neg(R("rand")) /\ R("rnor") = neg(R("ror")) /\ R("rxnor") = neg(R("rxor"))
     /\ R("lnot") = (IF Unknown(x) THEN X ELSE IF ToNat(x.b) = 0 THEN 1 ELSE 0)
     /\ R("bool") = (IF ~Unknown(x) /\ ToNat(x.b) > 0 THEN 1 ELSE 0)
     /\ ~Unknown(x) => R("bool") = R("ror") /\ R("lnot") = 1 - R("bool")
     /\ x.k = 2 => /\ ToNat(Do1("popcount", x).b) = Cardinality({i \in 1..W(x) : x.b[i] = 1})
                   /\ (R("allset") = 1) = (ToNat(x.b) = Pow2(W(x)) - 1)
                   /\ (R("anyset") = 1) = (ToNat(x.b) # 0)
                   /\ ToNat(x.b) # 0 =>      \* the highest one is the binary logarithm
                        LET h == ToNat(Do1("hibit", x).b)
                        IN Pow2(h) <= ToNat(x.b) /\ ToNat(x.b) < Pow2(h + 1)
                   /\ ToNat(Do1("maskall", x).b) = Pow2(W(x)) - 1 /\ ToNat(Do1("clear", x).b) = 0
                   /\ \A o \in {"maskall", "clear"} : W(Do1(o, x)) = W(x) /\ Do1(o, x).s = x.s
                   /\ (R("negative") = 1) = (Num(x) < 0)

(* C03 *)
LawC03 ==
  LET x == v[1] y == v[2] n == Wide(x, y) s == BothS(x, y) sgn == s = 1
      a == OpNum(x, n, FALSE) b == OpNum(y, n, FALSE)
      unknown == Unknown(x) \/ Unknown(y)
      sum == Do2("add", x, y) dif == Do2("sub", x, y) pro == Do2("mul", x, y)
  IN /\ \A r \in {sum, dif, pro} :
          W(r) = n /\ r.s = s /\ r.k = MaxN(x.k, y.k) /\ (unknown => AllX(r)) /\ (~unknown => ~Unknown(r))
     /\ ~unknown => /\ ToNat(sum.b) = (a + b) % Pow2(n)
                    /\ ToNat(dif.b) = (a - b) % Pow2(n)
                    /\ ToNat(pro.b) = (a * b) % Pow2(n)
                    /\ \A l \in 1..3 : MulL(ExtTo(x, n), ExtTo(y, n), l) = MulRef(ExtTo(x, n), ExtTo(y, n))
                    \* signed operands: the mathematical result where it fits
                    /\ sgn => LET t == Num(x) + Num(y)
                              IN t >= -Pow2(n - 1) /\ t < Pow2(n - 1) => Num(sum) = t
                    /\ Do2("add", dif, y).b = Low(ExtTo(x, n), n)
     /\ LET m == Do1("neg", x)
        IN IF Unknown(x) THEN AllX(m)
           ELSE (ToNat(m.b) + ToNat(x.b)) % Pow2(W(x)) = 0 /\ Do1("neg", m) = x
     /\ x.k = 2 => /\ Do1("negateeq", x) = Do1("neg", x)
                   /\ Do1("negate", x) = [Do1("neg", x) EXCEPT !.s = 0]
     /\ Do1("preinc", x) = ConvLike(Do2("add", x, Val(x.s, x.k, One(W(x)))), x)
     /\ ~Unknown(x) => Do1("predec", Do1("preinc", x)) = x
     /\ Apply("postinc", << >>, << x >>, "") = << Do1("preinc", x), x >>
     /\ \A t \in n..n + 2 :      \* computing wider and truncating changes nothing
          \A o \in {"add", "sub", "mul"} :
            Apply(o \o "_to", << t >>, << x, y >>, "")[1].b
              = (IF unknown THEN Xs(t)
                 ELSE FromInt(CASE o = "add" -> OpNum(x, t, FALSE) + OpNum(y, t, FALSE)
                                [] o = "sub" -> OpNum(x, t, FALSE) - OpNum(y, t, FALSE)
                                [] o = "mul" -> OpNum(x, t, FALSE) * OpNum(y, t, FALSE), t))

(* C04 *)
AbsN(n) == IF n < 0 THEN -n ELSE n
LawC04 ==
  LET x == v[1] y == v[2] n == Wide(x, y) s == BothS(x, y) sgn == s = 1
      a == OpNum(x, n, sgn) b == OpNum(y, n, sgn)
      q == Do2("div", x, y) r == Do2("mod", x, y)
      unknown == Unknown(x) \/ Unknown(y)
  IN /\ \A z \in {q, r} : W(z) = n /\ z.s = s /\ z.k = MaxN(x.k, y.k)
     /\ unknown => AllX(q) /\ AllX(r)
     /\ ~unknown /\ b = 0 => IF q.k = 4 THEN AllX(q) /\ AllX(r) ELSE Num(q) = 0 /\ Num(r) = 0
     /\ ~unknown /\ b # 0 =>
          LET t == IF (a < 0) = (b < 0) THEN AbsN(a) \div AbsN(b) ELSE -(AbsN(a) \div AbsN(b))
          IN /\ ToNat(q.b) = t % Pow2(n)
             /\ Num(r) = a - t * b
             /\ AbsN(Num(r)) < AbsN(b)
             /\ Num(r) = 0 \/ (Num(r) < 0) = (a < 0)
             /\ Do2("add", Do2("mul", q, Val(s, x.k, ExtTo(y, n))), r).b = ExtTo(x, n)

(* C05 *)
Floor(a, d) == IF a >= 0 THEN a \div d ELSE -((AbsN(a) + d - 1) \div d)
LawC05 ==
  LET x == v[1] y == v[2] n == W(x)
      m == IF Unknown(y) THEN 0 ELSE MinN(16, ToNat(y.b))
      R(o) == Do2(o, x, y)
  IN x.k = y.k =>
     /\ \A o \in OpsShift : W(R(o)) = n /\ R(o).s = BothS(x, y) /\ R(o).k = x.k
     /\ Unknown(x) \/ Unknown(y) => \A o \in OpsShift : AllX(R(o))
     /\ ~Unknown(x) /\ ~Unknown(y) =>
          /\ R("ashl") = R("shl")
          /\ ToNat(R("shl").b) = (ToNat(x.b) * Pow2(m)) % Pow2(n)
          /\ ToNat(R("shr").b) = ToNat(x.b) \div Pow2(m)
          /\ ToInt(R("ashr").b, Sg(x)) = Floor(Num(x), Pow2(m))
          /\ \A i \in 0..n - 1 :       \* position by position
               /\ R("shl").b[i + 1] = (IF i >= m THEN x.b[i - m + 1] ELSE 0)
               /\ R("ashr").b[i + 1] = (IF i + m < n THEN x.b[i + m + 1] ELSE IF Sg(x) THEN x.b[n] ELSE 0)
     /\ Do2("shleq", x, y) = ConvLike(R("shl"), x) /\ Do2("shreq", x, y) = ConvLike(R("shr"), x)

(* C06 *)
LawC06 ==
  LET x == v[1] y == v[2] n == Wide(x, y) sgn == BothS(x, y) = 1
      C(o) == Do2(o, x, y).b[1]
      D(o) == Do2(o, y, x).b[1]
      a == OpNum(x, n, sgn) b == OpNum(y, n, sgn)
      T(c) == IF c THEN 1 ELSE 0
  IN IF Unknown(x) \/ Unknown(y)
     THEN \A o \in OpsCompare : Do2(o, x, y).k = 4 => C(o) = X
     ELSE /\ C("lt") + C("eq") + C("gt") = 1
          /\ C("ne") = 1 - C("eq") /\ C("le") = 1 - C("gt") /\ C("ge") = 1 - C("lt")
          /\ C("lt") = T(a < b) /\ C("eq") = T(a = b)
          /\ D("gt") = C("lt") /\ D("eq") = C("eq") /\ D("ge") = C("le")
          /\ C("eq") = 1 => Num(x) % Pow2(n) = Num(y) % Pow2(n)
          /\ sgn => C("lt") = T(Num(x) < Num(y))

LawC06Three ==      \* one order: transitive
  LET C(o, x, y) == Do2(o, x, y).b[1]
  IN (v[1].s = v[2].s /\ v[2].s = v[3].s) =>
       /\ C("lt", v[1], v[2]) = 1 /\ C("lt", v[2], v[3]) = 1 => C("lt", v[1], v[3]) = 1
       /\ C("eq", v[1], v[2]) = 1 /\ C("lt", v[2], v[3]) = 1 => C("lt", v[1], v[3]) = 1
       /\ C("le", v[1], v[2]) = 1 /\ C("le", v[2], v[3]) = 1 => C("le", v[1], v[3]) = 1

(* C07 *)
LawC07 ==
  LET x == v[1] y == v[2]
      m == Do2("match", x, y).b[1]
  IN /\ m \in {0, 1} /\ Do2("nmatch", x, y).b[1] = 1 - m
     /\ Do2("match", x, x).b[1] = 1
     /\ m = Do2("match", y, x).b[1]
     /\ W(x) = W(y) => (m = 1) = (\A i \in 1..W(x) : x.b[i] = y.b[i])
     /\ (x.s = 0 /\ y.s = 0) =>
          (m = 1) = (\A i \in 1..Wide(x, y) : (IF i <= W(x) THEN x.b[i] ELSE 0) = (IF i <= W(y) THEN y.b[i] ELSE 0))
     /\ (m = 1 /\ ~Unknown(x) /\ ~Unknown(y)) => Same(x, y)

(* C08 *)
LawC08 ==
  LET x == v[1] n == W(x)
  IN /\ \A t \in n..n + 4 :
          LET e == Apply("ext", << t >>, << x >>, "")[1]
          IN /\ W(e) = t /\ e.s = x.s /\ e.k = x.k
             /\ ~Unknown(x) => Num(e) = Num(x)
             /\ \A i \in 1..t : e.b[i] = x.b[IF i <= n THEN i ELSE n] \/ (i > n /\ ~Sg(x) /\ e.b[i] = 0)
             /\ \A i \in n + 1..t : Sg(x) => e.b[i] = x.b[n]
             /\ Low(e.b, n) = x.b
     /\ Do1("tosigned", x) = [x EXCEPT !.s = 1] /\ Do1("tounsigned", x) = [x EXCEPT !.s = 0]
     /\ \A t \in 1..n + 3, s \in Signs :
          LET c == Apply("conv", << t, s, x.k >>, << x >>, "")[1]
              d == Default(t, s, x.k)
          IN /\ Do2("assign", d, x) = c
             /\ W(c) = t /\ c.s = s
             /\ \A i \in 1..MinN(t, n) : c.b[i] = x.b[i]
             /\ ~Unknown(x) => ToNat(c.b) = Num(x) % Pow2(t)
             /\ t >= n => Apply("conv", << n, x.s, x.k >>, << c >>, "")[1] = x
     /\ x.k = 2 => LET f == Apply("conv", << n, x.s, 4 >>, << x >>, "")[1]
                   IN f.b = x.b /\ f.k = 4

(* C09: every range of the width around zero                                  *)
Ranges(n) == {<< l + n - 1, l >> : l \in -3..3} \cup {<< m, m + n - 1 >> : m \in -3..3}
LawC09 ==
  LET x == v[1] n == W(x)
  IN \A rg \in Ranges(n) :
       LET lo == MinN(rg[1], rg[2]) hi == MaxN(rg[1], rg[2])
           G(y, i) == Apply("get", << rg[1], rg[2], i >>, << y >>, "")[1].b[1]
           out == IF x.k = 4 THEN X ELSE 0
       IN /\ \A i \in lo - 2..hi + 2 :
               /\ (i < lo \/ i > hi) => G(x, i) = out
               \* the index may be an object of any type that holds the number
               /\ \A s \in (IF i < 0 THEN {1} ELSE Signs), k \in {2, 4}, w \in {5, 7} :
                    Apply("geti", rg, << x, Val(s, k, FromInt(i, w)) >>, "")[1] = Apply("get", << rg[1], rg[2], i >>, << x >>, "")[1]
               /\ \A d \in IF x.k = 4 THEN 0..3 ELSE 0..1 :
                    LET y == Apply("set", << rg[1], rg[2], i >>, << x, Bit1(x.k, d) >>, "")[1]
                    IN IF i < lo \/ i > hi THEN y = x
                       ELSE /\ G(y, i) = d
                            /\ \A j \in (lo..hi) \ {i} : G(y, j) = G(x, j)
               /\ x.k = 4 => /\ (Apply("isx", << rg[1], rg[2], i >>, << x >>, "")[1].b[1] = 1)
                                  = (i \in lo..hi /\ G(x, i) = X)
                             /\ (Apply("isz", << rg[1], rg[2], i >>, << x >>, "")[1].b[1] = 1)
                                  = (i \in lo..hi /\ G(x, i) = Z)
          \* the declared left bound is the most significant digit
          /\ G(x, rg[1]) = x.b[n] /\ G(x, rg[2]) = x.b[1]

(* C10 *)
Sl(x, hi, lo) == Apply("slice", << hi, lo >>, << x >>, "")[1]
LawC10 ==
  LET x == v[1] n == W(x)
  IN \A hi \in 0..n - 1 : \A lo \in 0..hi :
       LET s == Sl(x, hi, lo)
       IN /\ W(s) = hi - lo + 1 /\ s.s = 0 /\ s.k = x.k
          /\ \A i \in lo..hi : s.b[i - lo + 1] = Apply("get", << n - 1, 0, i >>, << x >>, "")[1].b[1]
          /\ Sl(x, lo, hi) = s
          /\ ~Unknown(x) => ToNat(s.b) = (ToNat(x.b) \div Pow2(lo)) % Pow2(hi - lo + 1)
          /\ \A m \in lo..hi - 1 : Apply("concat", << >>, << Sl(x, hi, m + 1), Sl(x, m, lo) >>, "")[1] = s
          /\ \A b \in 0..hi - lo : \A a \in b..hi - lo : Sl(s, a, b) = Sl(x, a + lo, b + lo)
          /\ LET k == hi - lo + 1
                 I(z) == Val(0, 2, FromNat(z, 5))
             IN /\ Apply("slicei", << k, 1 >>, << x, I(lo) >>, "")[1] = s
                /\ Apply("slicei", << k, 0 >>, << x, I(hi) >>, "")[1] = s

(* C11 *)
LawC11 ==
  LET x == v[1] u == v[2] n == W(x)
  IN \A hi \in 0..n - 1 : \A lo \in 0..hi :
       LET y == Apply("update", << n - 1, 0, hi, lo >>, << x, u >>, "")[1]
           k == hi - lo + 1
       IN u.k = x.k =>
          /\ W(y) = n /\ y.s = x.s /\ y.k = x.k
          /\ \A i \in 0..n - 1 :
               y.b[i + 1] = (IF i < lo \/ i > hi THEN x.b[i + 1]
                             ELSE IF i - lo < W(u) THEN u.b[i - lo + 1] ELSE 0)
          /\ Sl(y, hi, lo).b = Resize(u.b, FALSE, k)
          /\ Apply("update", << n - 1, 0, hi, lo >>, << y, u >>, "")[1] = y
          /\ Apply("update", << n - 1, 0, hi, lo >>, << y, Sl(x, hi, lo) >>, "")[1] = x
          /\ Apply("updatei", << k, 1 >>, << x, u, Val(0, 2, FromNat(lo, 5)) >>, "")[1] = y
          /\ Apply("updatei", << k, 0 >>, << x, u, Val(0, 2, FromNat(hi, 5)) >>, "")[1] = y
          \* the same part of the same digits declared in the other direction
          /\ Apply("update", << 0, n - 1, n - 1 - hi, n - 1 - lo >>, << x, u >>, "")[1] = y

(* C12 *)
LawC12 ==
  LET x == v[1] y == v[2] z == v[3]
      c == Apply("concat", << >>, << x, y, z >>, "")[1]
      D(u) == Default(W(u), u.s, u.k)
  IN /\ W(c) = W(x) + W(y) + W(z) /\ c.s = 0
     /\ c.b = z.b \o y.b \o x.b
     /\ c = Apply("concat", << >>, << Apply("concat", << >>, << x, y >>, "")[1], z >>, "")[1]
     /\ (~Unknown(x) /\ ~Unknown(y) /\ ~Unknown(z)) =>
          ToNat(c.b) = (ToNat(x.b) * Pow2(W(y)) + ToNat(y.b)) * Pow2(W(z)) + ToNat(z.b)
     /\ Apply("unpack", << >>, << c, D(x), D(y), D(z) >>, "") = << x, y, z >>
     /\ Apply("roundtrip", << >>, << x, y, z >>, "") = << x, y, z >>
     \* a source that is too short: zeros on top
     /\ LET r == Apply("unpack", << >>, << z, D(x), D(z) >>, "")
        IN r[2] = z /\ IsZero(r[1].b)
     /\ LET r == Apply("unpack", << >>, << x, D(y) >>, "")
        IN \A i \in 1..W(y) : r[1].b[i] = (IF i <= W(x) THEN x.b[i] ELSE 0)

(* C14, C15 *)
Bases == {"b", "o", "h"}
LawC15 ==
  LET x == v[1] n == W(x)
      F(f) == ApplyText("str", << >>, << x >>, f)
  IN /\ \A f \in Bases :
          LET k == Stride(f)
              t == F(f)
              c(g) == At(t, Len(t) - g)            \* digit g from the right
              d(g) == SubSeq(x.b, g * k + 1, MinN(n, (g + 1) * k))
          IN /\ Len(t) = (n + k - 1) \div k
             /\ \A g \in 0..Len(t) - 1 :
                  CASE c(g) = "x" -> \A i \in 1..Len(d(g)) : d(g)[i] = X
                    [] c(g) = "z" -> \A i \in 1..Len(d(g)) : d(g)[i] = Z
                    [] c(g) = "X" -> /\ \E i \in 1..Len(d(g)) : d(g)[i] = X
                                     /\ \E i \in 1..Len(d(g)) : d(g)[i] # X
                    [] c(g) = "Z" -> /\ \E i \in 1..Len(d(g)) : d(g)[i] = Z
                                     /\ \A i \in 1..Len(d(g)) : d(g)[i] # X
                                     /\ \E i \in 1..Len(d(g)) : d(g)[i] # Z
                    [] OTHER -> ~HasXZ(d(g)) /\ DigitVal[c(g)] = ToNat(d(g))
             /\ \A w \in 0..9 : LET u == F(ToString(w) \o f)
                                IN IF w = 0 THEN u = t
                                   ELSE /\ Len(u) = MaxN(w, Len(t))
                                        /\ SubSeq(u, Len(u) - Len(t) + 1, Len(u)) = t
                                        /\ \A i \in 1..Len(u) - Len(t) : At(u, i) = "0"
             /\ ~Unknown(x) => Apply("reparse", << >>, << x >>, f)[1] = x
     /\ Parse("'b" \o F("b"), n) = x.b       \* binary shows everything
     \* as a string: the bytes of the number, at least as many as asked for, and read back
     /\ ~Unknown(x) => \A w \in 0..3 :
          LET t == ApplyText("strbytes", << >>, << x >>, (IF w = 0 THEN "" ELSE ToString(w)) \o "s")
              len == Len(t) \div 2
              byte(i) == 16 * DigitVal[At(t, Len(t) - 2 * i - 1)] + DigitVal[At(t, Len(t) - 2 * i)]  \* i from the right
              own == (n + 7) \div 8
          IN /\ len = MaxN(w, own)
             /\ \A i \in 0..len - 1 : byte(i) = (IF i < own THEN (ToNat(x.b) \div Pow2(8 * i)) % 256 ELSE 32)
             /\ Apply("parsebytes", << n, x.s, x.k >>, << >>, t)[1] = x
     /\ LET t == F("0d")
            DecNat(cs) == FoldLeft(LAMBDA acc, c : 10 * acc + DigitVal[c], 0, cs)
        IN IF Unknown(x) THEN t \in {"x", "z", "X", "Z"}
           ELSE /\ IF Num(x) < 0 THEN At(t, 1) = "-" /\ -DecNat(Tail(Chars(t))) = Num(x)
                                 ELSE DecNat(Chars(t)) = Num(x)
                /\ t # "0" => At(t, 1) # "0"
                /\ LET u == F("d")
                   IN SubSeq(u, Len(u) - Len(t) + 1, Len(u)) = t /\ Len(u) >= Len(t)

(* literals: every text of up to three digits                                  *)
LitDigits(f) == CASE f = "b" -> {"0", "1", "x", "z", "X", "_"}
                  [] f = "o" -> {"0", "3", "7", "x", "Z"}
                  [] f = "h" -> {"0", "9", "a", "F", "z", "_"}
                  [] f = "d" -> {"0", "1", "7", "9", "_"}
Texts(f) == {t \in UNION {[1..n -> LitDigits(f)] : n \in 1..3} : t[1] # "_"}
InitText == v \in UNION {{<< f, Force(t), w >> : t \in Texts(f)} : f \in {"b", "o", "h", "d"}, w \in 1..13}
LawC14 ==
  LET f == v[1] cs == v[2] w == v[3]
      t == "'" \o f \o Str(cs)
      r == Parse(t, w)
      plain == SelectSeq(cs, LAMBDA c : c # "_")
      up(c) == CASE c = "a" -> "A" [] c = "F" -> "f" [] c = "x" -> "X" [] c = "Z" -> "z" [] OTHER -> c
      DecNat == FoldLeft(LAMBDA acc, c : 10 * acc + DigitVal[c], 0, plain)
  IN /\ Len(r) = w
     /\ \A u \in 1..w : Parse(t, u) = Low(r, u)
     /\ Parse("7" \o t, w) = r
     /\ Parse("'" \o f \o Str(plain), w) = r
     /\ f # "d" => Parse("'" \o f \o Str([i \in 1..Len(cs) |-> up(cs[i])]), w) = r
     /\ f = "h" /\ (\A i \in 1..Len(plain) : plain[i] \in {"0", "9", "a"}) =>   \* bytes in hexadecimal
          ParseBytes(Str(plain), w) = r
     /\ IF f = "d" THEN ToNat(r) = DecNat % Pow2(w)
        ELSE LET k == Stride(f)
             IN \A i \in 1..w :
                  LET g == (i - 1) \div k
                      c == plain[Len(plain) - g]
                  IN r[i] = (IF g >= Len(plain) THEN 0
                             ELSE IF c \in {"x", "X"} THEN X ELSE IF c \in {"z", "Z"} THEN Z
                             ELSE (DigitVal[c] \div Pow2((i - 1) % k)) % 2)

(* C16: packed arrays against the function from indices to elements             *)
Shapes == {sh \in [e : 1..3, l : 0..2, n : 1..3] : sh.e * sh.n <= MaxN(W4, W2)}
InitArray ==
  v \in UNION {{<< sh, x, i >> : x \in {y \in Vals : W(y) = sh.e * sh.n}, i \in {-4, -1, 0, 1, 2, 3, 4, 5}} : sh \in Shapes}
LawC16 ==
  LET sh == v[1] x == v[2] i == v[3]
      m == sh.l + sh.n - 1
      p == << sh.e, m, sh.l >>
      Ix(j) == Val(1, 4, FromInt(j, IF j < 0 THEN 3 ELSE 5))
      El(y, j) == Apply("aref", p, << y, Ix(j) >>, "")[1]
      inside == i >= sh.l /\ i <= m
      fill == Val(0, x.k, Fill(sh.e, 1))
      y == Apply("aupdr", p, << x, Ix(i), fill >>, "")[1]
  IN /\ ~inside => y = x /\ El(x, i) = Default(sh.e, 0, x.k)
     /\ inside => /\ El(y, i) = fill
                  /\ \A j \in (sh.l..m) \ {i} : El(y, j) = El(x, j)
                  /\ Apply("aupdr", p, << y, Ix(i), El(x, i) >>, "")[1] = x
                  /\ Apply("aslice", p \o << i, i >>, << x >>, "")[1] = El(x, i)
                  /\ Apply("aupd", p \o << i, i >>, << x, fill >>, "")[1] = y
     /\ Apply("concat", << >>, [j \in 1..sh.n |-> El(x, m + 1 - j)], "")[1].b = x.b
     /\ Apply("aref", p, << x, Val(0, 4, << X, 0, 0 >>) >>, "")[1] = Default(sh.e, 0, x.k)
     /\ Apply("aupdr", p, << x, Val(0, 4, << 0, Z, 0 >>), fill >>, "")[1] = x

(* C17 *)
Lift(x) == [x EXCEPT !.k = IF @ = 2 THEN 4 ELSE @]
Un == {"not", "rand", "rnand", "ror", "rnor", "rxor", "rxnor", "lnot", "bool", "neg", "pos", "preinc",
       "predec", "tosigned", "tounsigned", "tonum", "touint64"}
Bin == OpsBitwise \cup OpsArith \cup OpsShift \cup OpsCompare \cup
       {"match", "nmatch", "andeq", "oreq", "xoreq", "shleq", "shreq", "assign", "concat"}
(* more known digits in, the same known digits out: x is never an invention     *)
Refines(c, d) == \A i \in 1..Len(c) : c[i] > 1 \/ c[i] = d[i]
LawC17 ==
  LET x == v[1] y == v[2]
  IN /\ (x.k = 2 /\ y.k = 2) =>
          /\ \A o \in Bin : Alike(o, << x, y >>, Do2(o, x, y), Do2(o, Lift(x), Lift(y)))
          /\ \A o \in Un : Alike(o, << x >>, Do1(o, x), Do1(o, Lift(x)))
          /\ \A f \in {"b", "o", "h", "d", "0d"} :
               ApplyText("str", << >>, << x >>, f) = ApplyText("str", << >>, << Lift(x) >>, f)
     /\ \A s \in Signs : /\ AllX(Default(W(x), s, 4)) /\ IsZero(Default(W(x), s, 2).b)
     /\ x.k = 2 => \A o \in Un : ~Unknown(Do1(o, x))
     /\ (x.k = 2 /\ y.k = 2) => \A o \in Bin : ~Unknown(Do2(o, x, y))
LawC17Mono ==      \* one operand digit at a time
  LET x == v[1] y == v[2]
  IN (x.k = 4 /\ y.k = 4) =>
     \A i \in 1..W(x) : x.b[i] > 1 =>
       \A d \in 0..1 :
         LET x2 == [x EXCEPT !.b = SetDigit(@, i - 1, d)]
         IN \A o \in OpsBitwise \cup OpsArith \cup OpsShift \cup OpsCompare :
              Refines(Do2(o, x, y).b, Do2(o, x2, y).b)

(* C18 *)
LawC18 ==
  LET x == v[1]
      r == Do1("tonum", x) u == Do1("touint64", x)
  IN /\ W(r) = NumWidth(W(x)) /\ r.s = x.s
     \* the smallest standard integer that fits
     /\ \A n \in 1..64 : NumWidth(n) \in {8, 16, 32, 64} /\ NumWidth(n) >= n
                          /\ (NumWidth(n) > 8 => NumWidth(n) \div 2 < n)
     /\ W(u) = 64 /\ u.s = 0
     /\ Unknown(x) => IsZero(r.b) /\ IsZero(u.b)
     /\ ~Unknown(x) => /\ (Num(x) < 0) = (r.s = 1 /\ r.b[W(r)] = 1)
                       /\ Low(r.b, W(x)) = x.b
                       /\ \A i \in W(x) + 1..W(r) : r.b[i] = (IF Num(x) < 0 THEN 1 ELSE 0)
                       /\ Low(u.b, W(r)) = r.b
                       /\ \A i \in W(x) + 1..64 : u.b[i] = (IF Num(x) < 0 THEN 1 ELSE 0)
     /\ ~Unknown(x) /\ W(x) <= 20 =>
          LET l == Apply("lit", << 32, 2 >>, << >>, ToString(AbsN(Num(x))))[1]
          IN W(l) = 32 /\ l.s = 1 /\ ToNat(Low(l.b, 21)) = AbsN(Num(x)) /\ IsZero(SubSeq(l.b, 22, 32))

(* C19: an object and two fields of it, anywhere; u is written to the first      *)
Spans(n) == {q \in (0..n - 1) \X (0..n - 1) : q[1] >= q[2]}
InitStruct ==
  v \in UNION {{<< x, f, g, Val(s, x.k, Force(b)) >> :
                  f \in Spans(W(x)), g \in Spans(W(x)), s \in {0, 1},
                  b \in [1..MinN(2, W(x)) -> 0..(IF x.k = 4 THEN 3 ELSE 1)]} : x \in {y \in Vals : y.s = 0}}
LawC19 ==
  LET x == v[1] f == v[2] g == v[3] u == v[4] n == W(x)
      Rd(y, h) == Apply("slice", << h[1], h[2] >>, << y >>, "")[1]
      Wr(y, h, z) == Apply("update", << n - 1, 0, h[1], h[2] >>, << y, z >>, "")[1]
      In(i, h) == i >= h[2] /\ i <= h[1]
      y == Wr(x, f, u)
      old == Rd(x, g)
  IN /\ W(y) = n /\ y.s = x.s /\ y.k = x.k
     \* what was written is read, in the field and through every overlapping view
     /\ Rd(y, f).b = Resize(u.b, FALSE, f[1] - f[2] + 1)
     /\ \A i \in g[2]..g[1] :
          Rd(y, g).b[i - g[2] + 1] = (IF In(i, f) THEN Rd(y, f).b[i - f[2] + 1] ELSE old.b[i - g[2] + 1])
     \* fields that do not overlap: unaffected, and written in any order
     /\ (\A i \in g[2]..g[1] : ~In(i, f)) =>
          /\ Rd(y, g) = old
          /\ Wr(Wr(x, f, u), g, old) = y
          /\ Wr(Wr(x, f, u), g, u) = Wr(Wr(x, g, u), f, u)
     \* the last writer wins
     /\ Rd(Wr(y, g, old), g) = old
     /\ Wr(y, f, Rd(x, f)) = x
     \* a field of a field is a field
     /\ (In(f[1], g) /\ In(f[2], g)) =>
          Wr(x, g, Apply("update", << g[1] - g[2], 0, f[1] - g[2], f[2] - g[2] >>, << old, u >>, "")[1]) = y
     \* the fields of a partition make up the object
     /\ \A c \in 1..n - 1 : Apply("concat", << >>, << Rd(x, << n - 1, c >>), Rd(x, << c - 1, 0 >>) >>, "")[1] = x
     /\ AllX(Default(n, 0, 4)) /\ IsZero(Default(n, 0, 2).b)
=============================================================================
