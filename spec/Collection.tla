----------------------------- MODULE Collection -----------------------------
(***************************************************************************)
(* Particle sets as collections: creation, addition, removal, lookup,      *)
(* assignment and execution, in any order.  A set is a set of particles,   *)
(* each with its own id and variables; no operation changes a particle or  *)
(* a set that it does not name.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NS,      \* number of particle sets
          Sizes,   \* sizes of new sets
          Pats,    \* how ids are given: "plain", "rev", "gap", "mix"
          Rems,    \* how particles are removed
          Sets,    \* how variables are set
          MaxOps, MaxId, MaxK, Emit

VARIABLES sets,    \* slot -> set of particles
          made,    \* slots in use
          nid,     \* the next id
          log, ph
vars == <<sets, made, nid, log, ph>>

Slots == 1..NS
Ids(a) == {p.id : p \in sets[a]}
Get(a, i) == CHOOSE p \in sets[a] : p.id = i
\* offsets of the ids of n new particles
Off(pat, n) == [q \in 1..n |-> CASE pat = "plain" -> q - 1 [] pat = "rev" -> n - q [] pat = "gap" -> (q - 1) * q [] pat = "mix" -> IF q = 1 /\ n > 1 THEN 1 ELSE IF q = 2 THEN 0 ELSE q - 1]
\* some of the subsets of S
Fam(S) == {{i, j} : i, j \in S} \cup {S \ {i} : i \in S} \cup {{l \in S : l >= i /\ l <= i + 2} : i \in S} \cup {{l \in S : l % 2 = b} : b \in {0, 1}} \cup {S}
New(i, k) == [id |-> i, x |-> i % 3, s |-> 1 + (i % 2), k |-> k, g |-> 0, del |-> FALSE]

Init == /\ sets = [a \in Slots |-> {}] /\ made = {} /\ nid = 0 /\ log = <<>> /\ ph = "go"

\* every operation records what it was, its result, and all sets afterwards
Rec(op, st, md) == Append(log, op @@ [after |-> [a \in Slots |-> [made |-> a \in md, parts |-> st[a]]]])
Go == ph = "go" /\ Len(log) < MaxOps

Create ==
  /\ Go
  /\ \E a \in Slots, n \in Sizes, pat \in Pats, k \in 0..MaxK :
       LET ids == [q \in 1..n |-> nid + Off(pat, n)[q]]
           K(q) == IF q = 1 THEN 0 ELSE (k + q) % (MaxK + 1)
           top == IF n = 0 THEN nid ELSE 1 + CHOOSE m \in {ids[q] : q \in 1..n} : \A q \in 1..n : ids[q] <= m
       IN /\ top <= MaxId
          /\ sets' = [sets EXCEPT ![a] = {New(ids[q], K(q)) : q \in 1..n}]
          /\ made' = made \cup {a} /\ nid' = top
          /\ log' = Rec([op |-> "new", a |-> a, ids |-> [q \in 1..n |-> Off(pat, n)[q]], first |-> nid, plain |-> pat = "plain", k |-> [q \in 1..n |-> K(q)]], sets', made')
  /\ UNCHANGED ph

Add ==
  /\ Go
  /\ \E a, b \in made : a # b /\ Ids(a) \cap Ids(b) = {}
       /\ sets' = [sets EXCEPT ![a] = @ \cup sets[b]]
       /\ log' = Rec([op |-> "add", a |-> a, b |-> b], sets', made)
  /\ UNCHANGED <<made, nid, ph>>

Remove ==
  /\ Go
  /\ \E a \in made, how \in Rems : \E I \in Fam(Ids(a)) :
       /\ how \in {"one", "oneid", "sub", "flag"} => Cardinality(I) = 1
       /\ how # "bool" => I # {}
       /\ sets' = [sets EXCEPT ![a] = IF how = "flag" THEN {IF p.id \in I THEN [p EXCEPT !.del = TRUE] ELSE p : p \in @} ELSE {p \in @ : p.id \notin I}]
       /\ log' = Rec([op |-> "rem", a |-> a, how |-> how, ids |-> I], sets', made)
  /\ UNCHANGED <<made, nid, ph>>

\* look for some ids, of which some may not be there
Look ==
  /\ Go
  /\ \E a \in made, one \in BOOLEAN : \E I \in Fam(0..(nid - 1)) :
       /\ I # {} /\ (one => Cardinality(I) = 1)
       /\ log' = Rec([op |-> "look", a |-> a, one |-> one, ids |-> I, found |-> {p \in sets[a] : p.id \in I}], sets, made)
  /\ UNCHANGED <<sets, made, nid, ph>>

Select ==
  /\ Go
  /\ \E a \in made, v \in 0..4, inv \in BOOLEAN :
       log' = Rec([op |-> "select", a |-> a, v |-> v, inv |-> inv, found |-> {p \in sets[a] : (p.x = v) # inv}], sets, made)
  /\ UNCHANGED <<sets, made, nid, ph>>

Assign ==
  /\ Go
  /\ \E a \in made, how \in Sets, v \in 5..7 : \E i \in Ids(a) :
       /\ sets' = [sets EXCEPT ![a] = {IF how = "all" \/ p.id = i THEN [p EXCEPT !.x = v] ELSE p : p \in @}]
       /\ log' = Rec([op |-> "set", a |-> a, how |-> how, id |-> i, v |-> v], sets', made)
  /\ UNCHANGED <<made, nid, ph>>

\* one time step: x increases by s; k counts down to 1, then the particle is deleted; those marked before are removed at once
Step(p) == [p EXCEPT !.x = @ + p.s, !.k = IF @ > 1 THEN @ - 1 ELSE @, !.g = p.id]
Run ==
  /\ Go
  /\ \E a \in made :
       /\ {p \in sets[a] : ~p.del} # {}
       /\ sets' = [sets EXCEPT ![a] = {Step(p) : p \in {q \in @ : ~q.del /\ q.k # 1}}]
       /\ log' = Rec([op |-> "run", a |-> a], sets', made)
  /\ UNCHANGED <<made, nid, ph>>

Done == /\ ph = "go" /\ Len(log) = MaxOps /\ ph' = "done"
        /\ Emit => PrintT("@@" \o ToJson([log |-> log]))
        /\ UNCHANGED <<sets, made, nid, log>>
Next == Create \/ Add \/ Remove \/ Look \/ Select \/ Assign \/ Run \/ Done
Spec == Init /\ [][Next]_vars
Bound == Len(log) <= MaxOps

(* ------------------------------ properties ---------------------------- *)
Unique == \A a \in made : Cardinality(Ids(a)) = Cardinality(sets[a])
Fresh == \A a \in made : \A i \in Ids(a) : i < nid
Last == log[Len(log)]
\* a new set has ids that were never used before
NewIds == log # <<>> /\ Last.op = "new" => \A a \in made \ {Last.a} : Ids(a) \cap Ids(Last.a) = {}
\* only the named set is affected
Local == [][\A a \in Slots : sets'[a] # sets[a] => Len(log') > Len(log) /\ log'[Len(log')].a = a]_vars
=============================================================================
