------------------------------ MODULE LogicGen ------------------------------
(***************************************************************************)
(* Generates behaviours of a register file for replay in the code.  The     *)
(* types of the registers and the menu of possible calls are read from CONF; *)
(* every step prints the call and the contents of all registers after it.    *)
(*                                                                         *)
(* GenSpec with -simulate: random behaviours of any types.                   *)
(* AllSpec: every step from every reachable contents, for tiny types.         *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils, TLC

Conf == JsonDeserialize(IOEnv.CONF)
Types == Conf.regs           \* [width, signed, kind]
Menu == Conf.menu            \* operation, constants, text, operands, destinations
N == Len(Types)
Depth == Conf.depth

VARIABLE n

Step(k) == LET e == Menu[k]
               x == Force([j \in 1..Len(e.x) |-> Operand(e.x[j])])
           IN Do(e.o, e.p, x, e.t, e.d)

CharsOfDigit == << "0", "1", "x", "z" >>
Show(v) == FoldLeft(LAMBDA acc, d : CharsOfDigit[d + 1] \o acc, "", v.b)
ShowAll(rs) == FoldLeft(LAMBDA acc, j : acc \o " " \o Show(rs[j]), "", Idx(N))

Defaults == [j \in 1..N |-> Default(Types[j][1], Types[j][2], Types[j][3])]
GenInit == regs = Force(Defaults) /\ n = 0

(* contents: any digits, or mostly one digit                                  *)
StyledDigits(w, top, bg, style, hole) ==
  Force([i \in 1..w |-> CASE style = 1 -> RandomElement(0..top)
                             [] style = 2 -> RandomElement(0..1)
                             [] style = 3 -> IF i = hole THEN RandomElement(0..top) ELSE bg
                             [] style = 4 -> IF i >= hole THEN bg ELSE RandomElement(0..1)])
RandomDigits(w, k) ==
  LET top == IF k = 4 /\ RandomElement(1..3) = 1 THEN 3 ELSE 1
  IN StyledDigits(w, top, RandomElement(0..top), RandomElement(1..4), RandomElement(1..w))
Load == /\ n = 0
        /\ regs' = Force([j \in 1..N |-> Val(Types[j][2], Types[j][3], RandomDigits(Types[j][1], Types[j][3]))])
        /\ PrintT("B" \o ShowAll(regs'))
Run == /\ n > 0 /\ n < Depth
       /\ \E k \in {RandomElement(1..Len(Menu))} :
            Step(k) /\ PrintT("S " \o ToString(k) \o ShowAll(regs'))
GenNext == n' = n + 1 /\ (Load \/ Run)
GenSpec == GenInit /\ [][GenNext]_<< regs, n >>

AllNext == \E k \in 1..Len(Menu) :
             /\ Step(k) /\ UNCHANGED n
             /\ PrintT("T" \o ShowAll(regs) \o " " \o ToString(k) \o ShowAll(regs'))
AllSpec == GenInit /\ [][AllNext]_<< regs, n >>
Kept == [][TypesKept]_regs
=============================================================================
