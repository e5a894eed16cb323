----------------------------- MODULE LogicTrace -----------------------------
(***************************************************************************)
(* Checks recorded executions of the implementation.  Every event is one    *)
(* public API call: operation, constants, operands (inline values or        *)
(* registers), results as observed.  The step is a Machine step; an event    *)
(* whose observed results differ from the specified ones is recorded in bad  *)
(* and the registers continue from what was observed, so that the rest of    *)
(* the trace is still checked.                                              *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, bad, known
tvars == << regs, i, bad, known >>

Wellformed(l) == Len(l) = 1 \/ (Len(l[4]) = l[1] /\ (l[3] \in {0, 1, 2} => \A j \in 1..Len(l[4]) : At(l[4], j) \in {"0", "1"}))

Has(e, f) == f \in DOMAIN e
P(e) == IF Has(e, "p") THEN e.p ELSE << >>
T(e) == IF Has(e, "t") THEN e.t ELSE ""
XOf(e) == Force([j \in 1..Len(e.x) |-> Operand(e.x[j])])
Observed(e) == IF Has(e, "r") THEN Force([j \in 1..Len(e.r) |-> FromLog(e.r[j])]) ELSE << >>

(* observed results are the specified ones, in values and types, and the      *)
(* result objects are indistinguishable from fresh objects (probe mask c)      *)
Agrees(e, x, r) ==
  /\ \A j \in 1..Len(e.r) : Wellformed(e.r[j])
  /\ r = Apply(e.o, P(e), x, T(e))
  /\ (Has(e, "c") => e.c = 0)
  /\ (Has(e, "u") => e.u = 0)   \* operands that the call must not change

TInit == regs = << >> /\ i = 1 /\ bad = << >> /\ known = << >>

(* reset: declare the registers with these (observed, freshly built) values   *)
TReset(e) == /\ e.o = "reset"
             /\ regs' = Observed(e)
             /\ UNCHANGED << bad, known >>
(* dump: all registers as printed by the implementation                        *)
TDump(e) == /\ e.o = "dump"
            /\ LET r == Observed(e)
               IN /\ regs' = r
                  /\ bad' = IF r = regs /\ e.c = 0 THEN bad ELSE Append(bad, e.i)
            /\ UNCHANGED known
TText(e) == /\ e.o \in {"str", "strbytes"}
            /\ bad' = IF e.rt = ApplyText(e.o, P(e), XOf(e), T(e)) THEN bad ELSE Append(bad, e.i)
            /\ UNCHANGED << regs, known >>
(* the same call on both kinds                                                 *)
(* "replayed": the registers after a step that the specification generated     *)
TMirror(e) == /\ e.o \in {"mirror", "mirrortext", "replayed"}
              /\ LET r == Observed(e)
                     ok == IF e.o = "mirror" THEN Alike(e.t, XOf(e), r[1], r[2]) ELSE e.rt = e.rt4 /\ (Has(e, "c") => e.c = 0)
                 IN bad' = IF ok THEN bad ELSE Append(bad, e.i)
              /\ UNCHANGED << regs, known >>
TOp(e) == /\ e.o \notin {"reset", "dump", "str", "strbytes", "mirror", "mirrortext", "replayed"}
          /\ LET x == XOf(e)
                 r == Observed(e)
             IN IF Agrees(e, x, r)
                THEN /\ (IF Has(e, "d") THEN Do(e.o, P(e), x, T(e), e.d) ELSE UNCHANGED regs)
                     /\ UNCHANGED << bad, known >>
                ELSE /\ regs' = IF Has(e, "d") THEN AssignAll(regs, e.d, r) ELSE regs
                     /\ IF AshrLostSign(e.o, x, r)
                        THEN known' = Append(known, e.i) /\ UNCHANGED bad
                        ELSE /\ bad' = Append(bad, e.i)
                             /\ UNCHANGED known
                             /\ (Len(bad) < 5 =>
                                   PrintT("EXPECT " \o ToString(e.i) \o " " \o ToString(Apply(e.o, P(e), x, T(e)))))

TNext == /\ i <= Len(Trace)
         /\ i' = i + 1
         /\ LET e == Trace[i] IN TReset(e) \/ TDump(e) \/ TText(e) \/ TMirror(e) \/ TOp(e)
TSpec == TInit /\ [][TNext]_tvars

(* printed once, at the end                                                   *)
Report == i = Len(Trace) + 1 =>
            PrintT("TRACE " \o ToString(Len(Trace)) \o " BAD " \o ToJson(bad) \o " KNOWN " \o ToJson(known))
(* every line was consumed                                                    *)
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
