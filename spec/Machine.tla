------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The library as a state machine: a register file of objects.  The only    *)
(* kind of step is a call: evaluate the operation on operands (registers or  *)
(* fresh values) and assign each result to its destination register, which   *)
(* keeps its type.                                                          *)
(***************************************************************************)
EXTENDS Ops

VARIABLE regs

(* values as they are written in logs and in lists of calls:                 *)
(* [width, signed, kind, "digits, most significant first"], or [register]     *)
DigitOfChar == [c \in {"0", "1", "x", "z"} |->
                  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "x" -> X [] c = "z" -> Z]
Digits(t) == LET n == Len(t) IN [j \in 1..n |-> DigitOfChar[At(t, n + 1 - j)]]
FromLog(l) == Val(l[2], l[3], Force(Digits(l[4])))
Operand(l) == IF Len(l) = 1 THEN regs[l[1]] ELSE FromLog(l)


(* assign results r to the registers d (0: result not kept)                  *)
AssignAll(rs, d, r) ==
  FoldLeft(LAMBDA acc, j : IF d[j] = 0 THEN acc
                           ELSE [acc EXCEPT ![d[j]] = ConvLike(r[j], acc[d[j]])],
           rs, Idx(Len(d)))

Do(o, p, x, t, d) == regs' = AssignAll(regs, d, Apply(o, p, x, t))

IsValue(v) == /\ v.s \in {0, 1}
              /\ v.k \in {0, 1, 2, 4}
              /\ Len(v.b) > 0
              /\ \A j \in 1..Len(v.b) : v.b[j] \in (IF v.k = 4 THEN 0..3 ELSE 0..1)

(* objects are always vectors of digits; a two-state object never holds x/z   *)
TypeOK == \A j \in 1..Len(regs) : IsValue(regs[j]) /\ IsObj(regs[j])

(* no step changes the type of an object                                      *)
TypesKept == \A j \in 1..Len(regs) :
               /\ Len(regs'[j].b) = Len(regs[j].b)
               /\ regs'[j].s = regs[j].s /\ regs'[j].k = regs[j].k
=============================================================================
