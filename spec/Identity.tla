------------------------------ MODULE Identity ------------------------------
(***************************************************************************)
(* The identity table: which resources are the same, and which one stands  *)
(* for the class.  State and transitions of internal/triplestore/imap.     *)
(*                                                                         *)
(*  known  resources that have been mentioned                              *)
(*  can    the canonical resource of every resource                        *)
(*  fin    the table has been finalized                                    *)
(*  hist   the operations so far, each with its answer and the table       *)
(*         after it (history variable, only used to emit behaviours)       *)
(*  links  the declared identities (history variable, only used to state   *)
(*         the property without reference to the algorithm)                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Lab,      \* resources
          MaxOps,   \* length of histories
          WithFin,  \* whether Finalize may occur
          Emit      \* print every history of full length

VARIABLES known, can, fin, hist, links
vars == <<known, can, fin, hist, links>>

None == "-"

TypeOK == /\ known \subseteq Lab
          /\ can \in [Lab -> Lab]
          /\ fin \in BOOLEAN

Init == /\ known = {}
        /\ can = [l \in Lab |-> l]
        /\ fin = FALSE
        /\ hist = <<>>
        /\ links = {}

(* what can be asked of the table: for every resource whether it is known, *)
(* its canonical resource, and the table of aliases                        *)
Table(k, c) == [l \in Lab |-> IF l \in k THEN c[l] ELSE None]
Aliases(k, c) == {<<l, c[l]>> : l \in {x \in k : c[x] # x}}

Log(op, x, y, ret, k, c) ==
  hist' = Append(hist, [op |-> op, x |-> x, y |-> y, ret |-> ret, table |-> Table(k, c)])

(* mention a resource *)
Add(l) ==
  /\ IF fin THEN /\ UNCHANGED <<known, can, links>>
                 /\ Log("add", l, None, "refused", known, can)
     ELSE /\ known' = known \cup {l}
          /\ UNCHANGED <<can, links>>
          /\ Log("add", l, None, can[l], known', can)
  /\ UNCHANGED fin

(* declare x and y identical: the class of y joins the class of x *)
Mark(x, y) ==
  /\ IF fin THEN /\ UNCHANGED <<known, can, links>>
                 /\ Log("mark", x, y, "refused", known, can)
     ELSE /\ known' = known \cup {x, y}
          /\ can' = [l \in Lab |-> IF can[l] = can[y] THEN can[x] ELSE can[l]]
          /\ links' = links \cup {{x, y}}
          /\ Log("mark", x, y, can[x], known', can')
  /\ UNCHANGED fin

Finalize ==
  /\ WithFin
  /\ fin' = TRUE
  /\ UNCHANGED <<known, can, links>>
  /\ Log("fin", None, None, IF fin THEN "refused" ELSE "ok", known, can)

(* an identity for something that has no name (a literal); and an           *)
(* optimisation of the storage: neither is visible in the table             *)
Quiet(op, ret) == /\ UNCHANGED <<known, can, fin, links>>
                  /\ Log(op, None, None, ret, known, can)
Fresh   == Quiet("fresh", "new")
Compact == ~fin /\ Quiet("compact", "ok")

Next == /\ Len(hist) < MaxOps
        /\ \/ \E l \in Lab : Add(l)
           \/ \E x, y \in Lab : Mark(x, y)
           \/ Finalize

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Property C01, stated without the algorithm: two resources have the same *)
(* canonical resource iff the declarations connect them                    *)
RECURSIVE Closure(_, _)
Closure(S, L) ==
  LET T == S \cup UNION {e \in L : e \cap S # {}}
  IN IF T = S THEN S ELSE Closure(T, L)
Connected(a, b) == b \in Closure({a}, links)

ClassesRight == \A a, b \in Lab : (can[a] = can[b]) <=> Connected(a, b)
CanonicalIsMember == \A a \in Lab : Connected(a, can[a]) /\ can[can[a]] = can[a]
AliasesRight == \A p \in Aliases(known, can) : p[1] # p[2] /\ Connected(p[1], p[2])

(* the canonical resource of a merged class is that of the subject *)
SubjectWins ==
  [][\A x, y \in Lab : (~fin /\ links' # links /\ links' = links \cup {{x, y}} /\ hist'[Len(hist')].x = x)
        => can'[x] = can[x]]_vars
FinalIsFinal == [][fin => (can' = can /\ known' = known)]_vars

EmitHist == (Emit /\ Len(hist) = MaxOps) => PrintT(ToJson([scenario |-> hist]))
=============================================================================
