------------------------------- MODULE TablesMC -------------------------------
(***************************************************************************)
(* How tables are written: bundles are exported at the same time, their    *)
(* entities collected in batches, batches split into inserts with a        *)
(* limited number of variables. Refines Tables.                            *)
(* Bundle 1 has the nested bundle 2, that has the nested bundle 3;         *)
(* bundle 4 is another one.                                                *)
(***************************************************************************)
EXTENDS Tables, TLC
CONSTANTS N, MaxBatch, MaxVars, Exports,
          Rest,   \* the rest of the entities is inserted at the end
          Once,   \* fields and children of an entity with several parents are inserted only once
          Drop    \* old tables are dropped first
VARIABLES ds, batch, vars, fieldTables, todo, waiting, begun, bundleRows, fieldRows, seen, round, status
v == <<ds, batch, vars, fieldTables, todo, waiting, begun, bundleRows, fieldRows, seen, round, status>>

Tops == {1, 4}
U(b, i) == 10 * b + i
Ents(b, n) == {U(b, i) : i \in 1..n}
Val(x) == [of |-> x, v |-> [text |-> x, lang |-> "l"]]
\* all data sets: any number of entities, any children
Sets == {[b \in 1..4 |->
           [up |-> CASE b = 2 -> 1 [] b = 3 -> 2 [] OTHER -> 0,
            ents |-> IF b = 4 THEN Ents(4, n[2]) ELSE Ents(b, IF b = 1 THEN n[1] ELSE 1),
            fields |-> IF b = 1 THEN <<[i \in 1..n[1] |-> Val(U(1, i))]>> ELSE IF b = 2 THEN <<<<Val(U(2, 1)), Val(U(2, 1))>>>> ELSE IF b = 3 THEN <<<<Val(U(3, 1))>>>> ELSE <<>>,
            kids |-> IF b = 2 THEN {<<p, U(2, 1)>> : p \in k[1]} ELSE IF b = 3 THEN {<<p, U(3, 1)>> : p \in k[2]} ELSE {}]]
         : n \in (0..N) \X (0..1), k \in (SUBSET {U(1, i) : i \in 1..N}) \X (SUBSET {U(2, 1)})}
Proper == {d \in Sets : \A b \in {2, 3} : \A k \in d[b].kids : k[1] \in d[d[b].up].ents}

Init == /\ ds \in Proper /\ batch \in 1..MaxBatch /\ vars \in 1..MaxVars /\ fieldTables \in BOOLEAN
        /\ todo = [b \in Tops |-> ds[b].ents] /\ waiting = [b \in Tops |-> <<>>] /\ begun = {}
        /\ bundleRows = [b \in 1..4 |-> <<>>] /\ fieldRows = [b \in 1..4 |-> <<>>]
        /\ seen = [b \in 1..4 |-> {}] /\ round = 1 /\ status = "running"

Min(a, b) == IF a < b THEN a ELSE b
\* splits rows into inserts, each limited by the number of variables and the size of batches; <<rows>>, or << >> if it is impossible
Insert(rows, columns) ==
  LET size == Min(vars \div columns, batch)
      RECURSIVE Ins(_)
      Ins(r) == IF r = <<>> THEN <<>> ELSE SubSeq(r, 1, Min(size, Len(r))) \o Ins(SubSeq(r, size + 1, Len(r)))
  IN IF rows = <<>> THEN [ok |-> TRUE, rows |-> <<>>] ELSE IF size = 0 THEN [ok |-> FALSE, rows |-> <<>>] ELSE [ok |-> TRUE, rows |-> Ins(rows)]

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})

\* the tables after inserting entities of a bundle with a parent
RECURSIVE Put(_, _, _, _), Kids(_, _, _)
Put(s, b, parent, es) ==
  LET columns == (IF ds[b].up = 0 THEN 1 ELSE 2) + (IF fieldTables THEN 0 ELSE Len(ds[b].fields))
      cells(e) == IF fieldTables THEN <<>> ELSE [f \in DOMAIN ds[b].fields |-> LET x == Texts(ds, b, f, e) IN [i \in DOMAIN x |-> x[i].v.text]]
      rows == Insert([i \in DOMAIN es |-> [uri |-> es[i], parent |-> parent, cells |-> cells(es[i])]], columns)
      fresh == IF Once THEN SelectSeq(es, LAMBDA e : e \notin s.seen[b]) ELSE es
      vals == IF fieldTables /\ ds[b].fields # <<>> THEN LET RECURSIVE All(_) All(i) == IF i > Len(fresh) THEN <<>> ELSE Texts(ds, b, 1, fresh[i]) \o All(i + 1) IN Insert(All(1), 3)
              ELSE [ok |-> TRUE, rows |-> <<>>]
      s2 == [s EXCEPT !.ok = @ /\ rows.ok /\ vals.ok, !.b[b] = @ \o rows.rows, !.f[b] = @ \o vals.rows, !.seen[b] = @ \cup {es[i] : i \in DOMAIN es}]
  IN Kids(s2, b, fresh)
Kids(s, b, es) == IF es = <<>> \/ b \in {3, 4} THEN s
                  ELSE Kids(Put(s, b + 1, Head(es), SetSeq({k[2] : k \in {k \in ds[b + 1].kids : k[1] = Head(es)}})), b, Tail(es))
Write(b, es) ==
  LET s == Put([ok |-> TRUE, b |-> bundleRows, f |-> fieldRows, seen |-> seen], b, "", es)
  IN /\ bundleRows' = s.b /\ fieldRows' = s.f /\ seen' = s.seen /\ status' = IF s.ok THEN status ELSE "failed"

Own(b) == IF b = 1 THEN {1, 2, 3} ELSE {4}
Begin(b) == /\ b \notin begun /\ begun' = begun \cup {b}
            /\ bundleRows' = [x \in 1..4 |-> IF x \in Own(b) /\ Drop THEN <<>> ELSE bundleRows[x]]
            /\ fieldRows' = [x \in 1..4 |-> IF x \in Own(b) /\ Drop THEN <<>> ELSE fieldRows[x]]
            /\ seen' = [x \in 1..4 |-> IF x \in Own(b) THEN {} ELSE seen[x]]
            /\ UNCHANGED <<ds, batch, vars, fieldTables, todo, waiting, round, status>>
Add(b) == /\ b \in begun /\ todo[b] # {}
          /\ \E e \in todo[b] :
               LET w == Append(waiting[b], e) IN
               /\ todo' = [todo EXCEPT ![b] = @ \ {e}]
               /\ IF Len(w) < batch THEN waiting' = [waiting EXCEPT ![b] = w] /\ UNCHANGED <<bundleRows, fieldRows, seen, status>>
                  ELSE waiting' = [waiting EXCEPT ![b] = <<>>] /\ Write(b, w)
          /\ UNCHANGED <<ds, batch, vars, fieldTables, begun, round>>
End(b) == /\ b \in begun /\ todo[b] = {} /\ waiting[b] # <<>>
          /\ waiting' = [waiting EXCEPT ![b] = <<>>]
          /\ IF Rest THEN Write(b, waiting[b]) ELSE UNCHANGED <<bundleRows, fieldRows, seen, status>>
          /\ UNCHANGED <<ds, batch, vars, fieldTables, todo, begun, round>>
Over == begun = Tops /\ \A b \in Tops : todo[b] = {} /\ waiting[b] = <<>>
Again == /\ Over /\ round < Exports /\ round' = round + 1 /\ begun' = {} /\ todo' = [b \in Tops |-> ds[b].ents]
         /\ UNCHANGED <<ds, batch, vars, fieldTables, waiting, bundleRows, fieldRows, seen, status>>
Next == status = "running" /\ (Again \/ \E b \in Tops : Begin(b) \/ Add(b) \/ End(b))
Spec == Init /\ [][Next]_v

Correct == (Over /\ status = "running") =>
  \A b \in 1..4 : /\ BundleTableOk(ds, b, ~fieldTables, bundleRows[b])
                  /\ (fieldTables /\ ds[b].fields # <<>>) => FieldTableOk(ds, b, 1, fieldRows[b])
=============================================================================
