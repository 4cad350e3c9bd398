---------------------------- MODULE KernelLang ----------------------------
(***************************************************************************)
(* The language of kernels and its meaning.                                *)
(*                                                                         *)
(* A program is derived from a grammar, token by token (prefix notation,   *)
(* leftmost derivation: one production per step), cut into one or more     *)
(* kernels, and then executed for several particles and time steps.  The   *)
(* meaning of a program is that of Python: it is what both Scipy and JIT   *)
(* mode have to compute.  Numbers are integers in units of 1/One, so that  *)
(* all arithmetic is exact in single precision; a program that leaves the  *)
(* range, divides inexactly, reads an undefined local variable or samples  *)
(* off the grid points has no specified result (bad) and is not replayed.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Leaves, Bins, Uns, Conds, Cmps, Kinds, Targets, CTargets, Consts, MaxTok, MinStm, MaxStm, Depth, EDepth,
          Inits, NP, Steps, Cuts, Reps, Emit

One == 64
Lim == 1048576
BAD == 100000000
PV == <<3, -2, 5, 8, 1>>     \* field P at grid points 0..4
QV == <<1, 4, -1, 2, 0>>     \* field Q; S is the SummedField P + Q
UV == <<2, 0, -3, 1, 4>>
VV == <<-1, 5, 2, 0, 3>>
KONST == 96                  \* fieldset.kon

ConstVal == [c0 |-> 0, c1 |-> 64, c2 |-> 128, c3 |-> 192, c4 |-> 256, chalf |-> 32, cm |-> 96, K1 |-> 64, K2 |-> 128, K3 |-> 192,
             p0 |-> 0, p2 |-> 128, p3 |-> 192]
Vars == {"a", "b", "i", "x"}
Locals == {"u", "v", "w"}

VARIABLES need,    \* the nonterminals still to be expanded
          prog,    \* the tokens so far
          nst,     \* number of top-level statements
          ncut,    \* number of cuts
          used, set,  \* local variables read and assigned in the program
          rep,     \* how often the kernels are added in a row
          ph, env, stp, log
vars == <<need, prog, nst, ncut, used, set, rep, ph, env, stp, log>>

NT(n, d, l) == [n |-> n, d |-> d, l |-> l]
Full == Len(prog) >= MaxTok

(* -------------------------------- the grammar ------------------------- *)
Init == /\ need = <<NT("S", Depth, 2)>>      \* l: 2 top level, 1 in a loop, 0 in a branch outside loops
        /\ rep \in Reps /\ prog = <<>> /\ nst = 0 /\ ncut = 0 /\ used = {} /\ set = {}
        /\ ph = "gen" /\ env = <<>> /\ stp = 0 /\ log = <<>>

Emit1(toks, nts) ==
  /\ prog' = prog \o toks
  /\ need' = nts \o Tail(need)

Same == UNCHANGED <<rep, ph, env, stp, log>>
SameG == UNCHANGED <<nst, ncut, used, set>>

Top == Head(need)
Gen(n) == ph = "gen" /\ need # <<>> /\ Top.n = n

EndBlock ==
  /\ Gen("S")
  /\ Emit1(<<"end">>, <<>>)
  /\ Top.l = 2 => nst >= MinStm /\ (nst >= MaxStm \/ Full \/ ncut > 0 \/ Cuts = 1)
  /\ prog # <<>> => prog[Len(prog)] # "cut"
  /\ Same /\ SameG

Statement ==
  /\ Gen("S") /\ (~Full \/ (Top.l = 2 /\ nst < MinStm))
  /\ Top.l = 2 => nst < MaxStm
  /\ Emit1(<<";">>, <<NT("T", Top.d, Top.l), Top>>)
  /\ nst' = IF Top.l = 2 THEN nst + 1 ELSE nst
  /\ Same /\ UNCHANGED <<ncut, used, set>>

Block ==   \* at least one statement
  /\ Gen("B")
  /\ Emit1(<<";">>, <<NT("T", Top.d, Top.l), NT("S", Top.d, Top.l)>>)
  /\ Same /\ SameG

Cut ==
  /\ Gen("S") /\ Top.l = 2 /\ ncut + 1 < Cuts /\ prog # <<>> /\ prog[Len(prog)] # "cut" /\ nst < MaxStm
  /\ Emit1(<<";", "cut">>, <<Top>>)
  /\ ncut' = ncut + 1
  /\ Same /\ UNCHANGED <<nst, used, set>>

In(l) == IF l = 2 THEN 0 ELSE l

Prod(k, d, l) ==
  CASE k = "=" -> <<NT("V", 0, l), NT("E", EDepth, l)>>
    [] k \in {"+=", "-=", "*="} -> <<NT("V", 0, l), NT("E", EDepth - 1, l)>>
    [] k = "tup" -> <<NT("V", 0, l), NT("V", 0, l), NT("E", EDepth - 1, l), NT("E", EDepth - 1, l)>>
    [] k = "multi" -> <<NT("V", 0, l), NT("V", 0, l), NT("E", EDepth - 1, l)>>
    [] k = "=c" -> <<NT("CV", 0, l), NT("C", 1, l)>>
    [] k = "uv" -> <<NT("V", 0, l), NT("V", 0, l), NT("L", 0, l)>>
    [] k = "if" -> <<NT("C", 1, l), NT("B", d - 1, In(l)), NT("S", d - 1, In(l))>>
    [] k = "loop" -> <<NT("K", 0, l), NT("B", d - 1, 1)>>
    [] k = "loopc" -> <<NT("K", 0, l), NT("C", 1, 1), NT("B", d - 1, 1)>>
    [] OTHER -> <<>>

OneStm ==
  /\ Gen("T")
  /\ \E k \in Kinds :
       /\ k \in {"if", "loop", "loopc"} => Top.d > 0
       /\ k \in {"loop", "loopc"} => Top.l # 1
       /\ k = "break" => Top.l = 1
       /\ Emit1(<<k>>, Prod(k, Top.d, Top.l))
       /\ set' = IF k \in {"loop", "loopc"} THEN set \cup {"w"} ELSE set
       /\ used' = used
  /\ Same /\ UNCHANGED <<nst, ncut>>

Target ==
  /\ Gen("V")
  /\ \E t \in Targets : Emit1(<<t>>, <<>>) /\ set' = set \cup ({t} \cap Locals)
  /\ Same /\ UNCHANGED <<nst, ncut, used>>
CTarget ==
  /\ Gen("CV")
  /\ \E t \in CTargets : Emit1(<<t>>, <<>>)
  /\ Same /\ SameG
Count ==
  /\ Gen("K")
  /\ \E t \in {"K1", "K2", "K3"} : Emit1(<<t>>, <<>>)
  /\ Same /\ SameG
Loc ==
  /\ Gen("L")
  /\ \E t \in {"c0", "c1", "c3", "x"} \cup (IF Top.l = 1 THEN {"w"} ELSE {}) :
        Emit1(<<t>>, <<>>) /\ used' = used \cup ({t} \cap Locals)
  /\ Same /\ UNCHANGED <<nst, ncut, set>>

Leaf ==
  /\ Gen("E") /\ (Top.d < 2 \/ Full)
  /\ \E t \in Leaves \cup (IF Top.l = 1 THEN {"w"} ELSE {}) :
        /\ IF t \in {"P", "S"} THEN Emit1(<<t>>, <<NT("L", 0, Top.l)>>) ELSE Emit1(<<t>>, <<>>)
        /\ used' = used \cup ({t} \cap Locals)
  /\ Same /\ UNCHANGED <<nst, ncut, set>>
Number ==
  /\ Gen("E") /\ (Top.d < 2 \/ Full) /\ \E t \in Consts : Emit1(<<t>>, <<>>)
  /\ Same /\ SameG
Binary ==
  /\ Gen("E") /\ Top.d > 0 /\ ~Full
  /\ \E o \in Bins :
       Emit1(<<o>>, CASE o = "/" -> <<NT("E", Top.d - 1, Top.l), NT("D", 0, Top.l)>>
                      [] o = "**" -> <<NT("E", Top.d - 1, Top.l), NT("X", 0, Top.l)>>
                      [] OTHER -> <<NT("E", Top.d - 1, Top.l), NT("E", Top.d - 1, Top.l)>>)
  /\ Same /\ SameG
Unary ==
  /\ Gen("E") /\ Top.d > 0 /\ ~Full
  /\ \E o \in Uns : Emit1(<<o>>, <<NT("E", Top.d - 1, Top.l)>>)
  /\ Same /\ SameG
Divisor ==
  /\ Gen("D")
  /\ \E t \in {"c2", "c4", "chalf", "i", "u"} : Emit1(<<t>>, <<>>) /\ used' = used \cup ({t} \cap Locals)
  /\ Same /\ UNCHANGED <<nst, ncut, set>>
Exponent ==
  /\ Gen("X") /\ \E t \in {"p0", "p2", "p3"} : Emit1(<<t>>, <<>>)
  /\ Same /\ SameG
Comparison ==
  /\ Gen("C")
  /\ \E o \in Cmps : Emit1(<<o>>, <<NT("E", 1, Top.l), NT("E", 0, Top.l)>>)
  /\ Same /\ SameG
Connective ==
  /\ Gen("C") /\ Top.d > 0 /\ ~Full
  /\ \E o \in Conds : Emit1(<<o>>, IF o = "not" THEN <<NT("C", Top.d - 1, Top.l)>> ELSE <<NT("C", Top.d - 1, Top.l), NT("C", Top.d - 1, Top.l)>>)
  /\ Same /\ SameG

(* -------------------------------- the meaning ------------------------- *)
Arity(t) ==
  CASE t \in {";", "=", "+=", "-=", "*=", "=c", "+", "-", "*", "/", "**", "min", "max", "and", "or", "&", "|", "loop"} -> 2
    [] t \in {"<", "<=", ">", ">=", "==", "!="} -> 2
    [] t = "tup" -> 4
    [] t \in {"multi", "uv", "if", "loopc"} -> 3
    [] t \in {"neg", "not", "fabs", "floor", "P", "S"} -> 1
    [] OTHER -> 0

RECURSIVE SkipN(_, _)
SkipN(i, n) == IF n = 0 THEN i ELSE SkipN(i + 1, n - 1 + Arity(prog[i]))
Skip(i) == SkipN(i, 1)

Abs(x) == IF x < 0 THEN -x ELSE x
Ok(x) == IF Abs(x) > Lim THEN BAD ELSE x
Mul(x, y) == IF (x * y) % One = 0 THEN Ok((x * y) \div One) ELSE BAD
Dvd(x, y) == IF y = 0 THEN BAD
             ELSE IF (x * One) % Abs(y) = 0 THEN Ok(((x * One) \div Abs(y)) * (IF y < 0 THEN -1 ELSE 1)) ELSE BAD
Floor(x) == (x \div One) * One
Trunc(x) == IF x < 0 THEN -Floor(-x) ELSE Floor(x)
Val(b) == IF b THEN One ELSE 0
Node(F, x) == IF x # BAD /\ x % One = 0 /\ x >= 0 /\ x <= 4 * One THEN F[(x \div One) + 1] * One ELSE BAD

Apply(o, x, y) ==
  IF x = BAD \/ y = BAD THEN BAD
  ELSE CASE o = "+" -> Ok(x + y)
         [] o = "-" -> Ok(x - y)
         [] o = "*" -> IF Abs(x) > 30000 \/ Abs(y) > 30000 THEN BAD ELSE Mul(x, y)
         [] o = "/" -> Dvd(x, y)
         [] o = "**" -> IF Abs(x) > 1000 THEN BAD
                        ELSE IF y = 0 THEN One ELSE LET q == Mul(x, x) IN IF q = BAD \/ y = 2 * One THEN q ELSE IF Abs(q) > 30000 THEN BAD ELSE Mul(q, x)
         [] o = "min" -> IF y < x THEN y ELSE x
         [] o = "max" -> IF y > x THEN y ELSE x
         [] o = "<" -> Val(x < y) [] o = "<=" -> Val(x <= y)
         [] o = ">" -> Val(x > y) [] o = ">=" -> Val(x >= y)
         [] o = "==" -> Val(x = y) [] o = "!=" -> Val(x # y)
         [] o \in {"and", "&"} -> Val(x # 0 /\ y # 0)
         [] o \in {"or", "|"} -> Val(x # 0 \/ y # 0)

\* value of the expression or condition at position i
RECURSIVE Ev(_, _)
Ev(i, e) ==
  LET t == prog[i] IN
  CASE t \in DOMAIN ConstVal -> ConstVal[t]
    [] t \in Vars \cup Locals -> e[t]
    [] t = "kon" -> KONST
    [] t = "time" -> e.t
    [] t = "dt" -> One
    [] t = "P" -> Node(PV, Ev(i + 1, e))
    [] t = "S" -> LET x == Ev(i + 1, e) IN Apply("+", Node(PV, x), Node(QV, x))
    [] t = "neg" -> LET x == Ev(i + 1, e) IN IF x = BAD THEN BAD ELSE -x
    [] t = "fabs" -> LET x == Ev(i + 1, e) IN IF x = BAD THEN BAD ELSE Abs(x)
    [] t = "floor" -> LET x == Ev(i + 1, e) IN IF x = BAD THEN BAD ELSE Floor(x)
    [] t = "not" -> LET x == Ev(i + 1, e) IN IF x = BAD THEN BAD ELSE Val(x = 0)
    [] OTHER -> Apply(t, Ev(i + 1, e), Ev(Skip(i + 1), e))

Put(e, v, x) ==
  IF x = BAD \/ e.bad THEN [e EXCEPT !.bad = TRUE]
  ELSE [e EXCEPT ![v] = IF v = "i" THEN Trunc(x) ELSE x]

\* executing the statement or block at position i: the new environment and whether the loop is left
RECURSIVE Ex(_, _), Loop(_, _, _, _, _)
Ex(i, e) ==
  LET t == prog[i] R(x) == [e |-> x, br |-> FALSE] IN
  CASE t = "end" -> R(e)
    [] t = ";" -> LET r == Ex(i + 1, e) IN IF r.br THEN r ELSE Ex(Skip(i + 1), r.e)
    [] t \in {"cut", "pass"} -> R(e)
    [] t = "break" -> [e |-> e, br |-> TRUE]
    [] t \in {"=", "=c"} -> R(Put(e, prog[i + 1], Ev(i + 2, e)))
    [] t = "+=" -> R(Put(e, prog[i + 1], Apply("+", e[prog[i + 1]], Ev(i + 2, e))))
    [] t = "-=" -> R(Put(e, prog[i + 1], Apply("-", e[prog[i + 1]], Ev(i + 2, e))))
    [] t = "*=" -> R(Put(e, prog[i + 1], Apply("*", e[prog[i + 1]], Ev(i + 2, e))))
    [] t = "tup" -> LET j == i + 3 IN R(Put(Put(e, prog[i + 1], Ev(j, e)), prog[i + 2], Ev(Skip(j), e)))
    [] t = "multi" -> LET x == Ev(i + 3, e) IN R(Put(Put(e, prog[i + 1], x), prog[i + 2], x))
    [] t = "uv" -> LET x == Ev(i + 3, e) IN R(Put(Put(e, prog[i + 1], Node(UV, x)), prog[i + 2], Node(VV, x)))
    [] t = "if" -> LET c == Ev(i + 1, e) b == Skip(i + 1) IN
                   IF c = BAD THEN R([e EXCEPT !.bad = TRUE]) ELSE IF c # 0 THEN Ex(b, e) ELSE Ex(Skip(b), e)
    [] t = "loop" -> Loop(prog[i + 1], 0, i + 2, [e EXCEPT !.w = 0], 0)
    [] t = "loopc" -> Loop(prog[i + 1], i + 2, Skip(i + 2), [e EXCEPT !.w = 0], 0)
\* w = 0; while w < k [and condition]: w += 1; body
Loop(k, c, b, e, n) ==
  LET g == IF c = 0 THEN One ELSE Ev(c, e) IN
  IF g = BAD \/ e.bad THEN [e |-> [e EXCEPT !.bad = TRUE], br |-> FALSE]
  ELSE IF e.w < ConstVal[k] /\ g # 0
       THEN LET r == Ex(b, [e EXCEPT !.w = @ + One]) IN
            IF r.br THEN [e |-> r.e, br |-> FALSE] ELSE Loop(k, c, b, r.e, n + 1)
       ELSE [e |-> e, br |-> FALSE]

(* ------------------------------- execution ---------------------------- *)
NewEnv(ini) == [a |-> ini[1], b |-> ini[2], i |-> ini[3], x |-> ini[4], u |-> BAD, v |-> BAD, w |-> BAD, t |-> 0, bad |-> FALSE]
Fresh(e, t) == [e EXCEPT !.u = BAD, !.v = BAD, !.w = BAD, !.t = t * One]  \* local variables do not survive

RECURSIVE Again(_, _)
Again(e, n) == IF n = 0 THEN e ELSE Again(Ex(1, e).e, n - 1)

Start ==
  /\ ph = "gen" /\ need = <<>>
  /\ used \subseteq set
  /\ \E ini \in [1..NP -> Inits] : env' = [p \in 1..NP |-> NewEnv(ini[p])]
  /\ ph' = "run"
  /\ log' = <<[p \in 1..NP |-> <<env'[p].a, env'[p].b, env'[p].i, env'[p].x>>]>>
  /\ UNCHANGED <<need, prog, nst, ncut, used, set, rep, stp>>

Timestep ==
  /\ ph = "run" /\ stp < Steps
  /\ env' = [p \in 1..NP |-> Again(Fresh(env[p], stp), rep)]
  /\ stp' = stp + 1
  /\ log' = Append(log, [p \in 1..NP |-> <<env'[p].a, env'[p].b, env'[p].i>>])
  /\ UNCHANGED <<need, prog, nst, ncut, used, set, rep, ph>>

Bad == \E p \in 1..NP : env[p].bad
Finish ==
  /\ ph = "run" /\ stp = Steps
  /\ ph' = "done"
  /\ (Emit /\ ~Bad) => PrintT("@@" \o ToJson([prog |-> prog, log |-> log, cuts |-> ncut, rep |-> rep]))
  /\ UNCHANGED <<need, prog, nst, ncut, used, set, rep, env, stp, log>>

Next == EndBlock \/ Statement \/ Block \/ Cut \/ OneStm \/ Target \/ CTarget \/ Count \/ Loc \/ Leaf \/ Number \/ Binary \/ Unary
        \/ Divisor \/ Exponent \/ Comparison \/ Connective \/ Start \/ Timestep \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties --------------------------- *)
WellFormed == ph # "gen" => Skip(1) = Len(prog) + 1
Typed == ph \in {"run", "done"} => \A p \in 1..NP : env[p].i % One = 0 /\ Abs(env[p].a) <= Lim /\ Abs(env[p].b) <= Lim
\* Concatenation: executing the top-level statements one after the other, in any grouping, is executing the whole
RECURSIVE Chain(_, _, _)
Chain(i, e, k) == IF prog[i] = "end" THEN e
                  ELSE LET r == Ex(i + 1, e) IN Chain(Skip(i + 1), r.e, k + 1)
Concat == (ph \in {"run"} /\ stp < Steps) => \A p \in 1..NP : LET e == Fresh(env[p], stp) IN Ex(1, e).e = Chain(1, e, 0)
\* Locals never leak into the next time step
NoLeak == (ph = "run" /\ stp < Steps) => \A p \in 1..NP :
            Ex(1, Fresh(env[p], stp)).e = Ex(1, Fresh([env[p] EXCEPT !.u = 64, !.v = 0, !.w = 64], stp)).e
=============================================================================
