------------------------------ MODULE Combine ------------------------------
(***************************************************************************)
(* Fields made of fields: nested fields (the first one that is not out of  *)
(* bounds at the place of the particle) and summed fields, both for        *)
(* scalars (P and Q, two of them made of the same components) and for      *)
(* velocities (UV or UVW, where a component is a velocity whose parts may  *)
(* be on different grids).  Every component covers a box and a time range  *)
(* and is linear in space and time, so that its value is known everywhere. *)
(* Particles visit places at times, in any order.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Boxes,    \* boxes of the components to choose from
          Times,    \* time ranges to choose from: 0 (constant), 1..3
          MaxC,     \* components of a scalar field
          MaxW,     \* components of a velocity
          Dims,     \* {2, 3}: velocities without and with vertical part
          Sph,      \* subset of BOOLEAN: components in degrees
          Kuv, Trees, Alien, \* kinds of velocities, groupings of sums, parts on another grid
          Zs, Ts,   \* depths and times of visits
          Seeds, MaxV, Emit

VARIABLES ph, comps, vel, kinds, tree, nq, seed, at, visits
vars == <<ph, comps, vel, kinds, tree, nq, seed, at, visits>>

\* x0, x1, y0, y1, z0, z1 (z0 = z1: without depth levels)
Box(b) == CASE b = 1 -> <<0, 16, 0, 16, 0, 0>> [] b = 2 -> <<4, 8, 4, 12, 0, 0>> [] b = 3 -> <<8, 14, 2, 6, 0, 0>> [] b = 4 -> <<2, 10, 6, 7, 0, 8>>
            [] b = 5 -> <<0, 16, 0, 16, 4, 8>> [] b = 6 -> <<-4, 6, 10, 20, 2, 12>> [] b = 7 -> <<6, 20, -4, 10, 0, 4>> [] b = 8 -> <<5, 6, 5, 6, 1, 2>>
Bx == [b \in 1..8 |-> Box(b)]
Range(t) == CASE t = 0 -> <<0, 0>> [] t = 1 -> <<0, 16>> [] t = 2 -> <<4, 8>> [] t = 3 -> <<8, 32>>
Scale(c) == 1 + ((c.b + c.s) % 5)

\* components: [b: box, t: time range, sph: degrees, s: seed of the values]
Comp(B) == [b : B, t : Times, sph : Sph, s : {seed % 7, (seed + 3) % 7}]
\* value at place p (in halves), doubled
Coef(c, n) == ((c.s * 5 + c.b * 3 + n * 7 + c.t) % 9) - 4
\* doubled value; time enters with the time coefficient of a component that varies
Val(c, p) == 2 * Scale(c) + Coef(c, 1) * p.x + Coef(c, 2) * p.y + (IF Bx[c.b][5] = Bx[c.b][6] THEN 0 ELSE Coef(c, 3) * p.z) + (IF c.t = 0 THEN 0 ELSE Coef(c, 4) * 2 * p.t)
\* the coefficients of twice the value: constant, halves of x, y, z, time
Cf(c) == <<2 * Scale(c), Coef(c, 1), Coef(c, 2), IF Bx[c.b][5] = Bx[c.b][6] THEN 0 ELSE Coef(c, 3), IF c.t = 0 THEN 0 ELSE 2 * Coef(c, 4)>>
Err(c, p) ==
  LET b == Bx[c.b] r == Range(c.t) IN
  IF c.t # 0 /\ (p.t < r[1] \/ p.t > r[2]) THEN "time"
  ELSE IF p.x < 2 * b[1] \/ p.x > 2 * b[2] \/ p.y < 2 * b[3] \/ p.y > 2 * b[4] THEN "bounds"
  ELSE IF b[5] # b[6] /\ p.z < 2 * b[5] THEN "surface"
  ELSE IF b[5] # b[6] /\ p.z > 2 * b[6] THEN "bounds"
  ELSE "none"
\* a velocity is a sequence of components: the first error counts
RECURSIVE FirstErr(_, _)
FirstErr(cs, p) == IF cs = <<>> THEN "none" ELSE IF Err(cs[1], p) # "none" THEN Err(cs[1], p) ELSE FirstErr(Tail(cs), p)

\* the result for a combined field: err, or the sequence numbers of the parts whose values are summed
RECURSIVE Nest(_, _, _)
Nest(ps, n, p) == LET e == FirstErr(ps[n], p) IN
  IF e = "none" THEN [err |-> "none", use |-> <<n>>] ELSE IF e = "bounds" /\ n < Len(ps) THEN Nest(ps, n + 1, p) ELSE [err |-> e, use |-> <<>>]
RECURSIVE SumErr(_, _)
SumErr(ps, p) == IF ps = <<>> THEN "none" ELSE IF FirstErr(ps[1], p) # "none" THEN FirstErr(ps[1], p) ELSE SumErr(Tail(ps), p)
Sum(ps, p) == LET e == SumErr(ps, p) IN [err |-> e, use |-> IF e = "none" THEN [n \in 1..Len(ps) |-> n] ELSE <<>>]
Eval(kind, ps, p) == IF kind = "nested" THEN Nest(ps, 1, p) ELSE Sum(ps, p)
Vals(r, ps, p) == [d \in 1..Len(ps[1]) |-> [n \in 1..Len(r.use) |-> [v |-> Val(ps[r.use[n]][d], p), sph |-> ps[r.use[n]][d].sph]]]

Scal(q) == [n \in 1..Len(q) |-> <<comps[q[n]]>>]
\* P has the first components, Q all of them (in reverse order if nested)
PIdx == [n \in 1..nq |-> n]
QIdx == IF kinds.q = "nested" THEN [n \in 1..Len(comps) |-> Len(comps) + 1 - n] ELSE [n \in 1..Len(comps) |-> n]
Result(p) ==
  LET u == Eval(kinds.uv, vel, p)  a == Eval(kinds.p, Scal(PIdx), p)  b == Eval(kinds.q, Scal(QIdx), p) IN
  [x |-> p.x, y |-> p.y, z |-> p.z, t |-> p.t,
   uv |-> [err |-> u.err, v |-> Vals(u, vel, p)], p |-> [err |-> a.err, v |-> Vals(a, Scal(PIdx), p)], q |-> [err |-> b.err, v |-> Vals(b, Scal(QIdx), p)],
   pq |-> IF a.err # "none" THEN a.err ELSE b.err]

\* velocities: the parts are mostly on one grid
Parts(c, d, m) == [n \in 1..d |-> IF n = m THEN [c EXCEPT !.b = 1 + (c.b % 8), !.s = @ + n] ELSE [c EXCEPT !.s = @ + n]]

Init == /\ ph = "comps" /\ comps = <<>> /\ vel = <<>> /\ visits = <<>> /\ at = <<>> /\ seed \in Seeds
        /\ kinds = [uv |-> "", p |-> "", q |-> "", d |-> 0] /\ tree = 0 /\ nq = 0
AddC == /\ ph = "comps" /\ Len(comps) < MaxC
        /\ \E c \in Comp(Boxes) : comps' = Append(comps, c)
        /\ UNCHANGED <<ph, vel, kinds, tree, nq, seed, at, visits>>
Choose == /\ ph = "comps" /\ Len(comps) >= 1
          /\ \E ku \in Kuv, kp, kq \in {"nested", "summed"}, d \in Dims, n \in 1..Len(comps), t \in Trees :
               /\ kinds' = [uv |-> ku, p |-> kp, q |-> kq, d |-> d] /\ tree' = t /\ nq' = n
          /\ ph' = "vel" /\ UNCHANGED <<comps, vel, seed, at, visits>>
AddV == /\ ph = "vel" /\ Len(vel) < MaxW
        /\ \E c \in Comp(Boxes), m \in Alien : vel' = Append(vel, Parts(c, kinds.d, m))
        /\ UNCHANGED <<ph, comps, kinds, tree, nq, seed, at, visits>>
Start == ph = "vel" /\ vel # <<>> /\ ph' = "go" /\ UNCHANGED <<comps, vel, kinds, tree, nq, seed, at, visits>>
\* places inside, on the border of and outside some component
Xs == UNION {{2 * Bx[c.b][1], 2 * Bx[c.b][2], Bx[c.b][1] + Bx[c.b][2], 2 * Bx[c.b][2] + 1, 2 * Bx[c.b][1] - 1} : c \in {comps[n] : n \in 1..Len(comps)} \cup {vel[n][1] : n \in 1..Len(vel)}}
Ys == UNION {{2 * Bx[c.b][3], 2 * Bx[c.b][4], Bx[c.b][3] + Bx[c.b][4] + 1} : c \in {comps[n] : n \in 1..Len(comps)} \cup {vel[n][1] : n \in 1..Len(vel)}}
Go == /\ ph = "go" /\ Len(visits) < MaxV /\ ph' = "visit"
      /\ \E x \in Xs, z \in Zs : at' = <<x, z>>
      /\ UNCHANGED <<comps, vel, kinds, tree, nq, seed, visits>>
Visit == /\ ph = "visit" /\ ph' = "go" /\ at' = <<>>
         /\ \E y \in Ys, t \in Ts : visits' = Append(visits, Result([x |-> at[1], y |-> y, z |-> at[2], t |-> t]))
         /\ UNCHANGED <<comps, vel, kinds, tree, nq, seed>>
Done == /\ ph = "go" /\ Len(visits) = MaxV /\ ph' = "done"
        /\ Emit => PrintT("@@" \o ToJson([comps |-> [n \in 1..Len(comps) |-> comps[n]], vel |-> vel, kinds |-> kinds, tree |-> tree, nq |-> nq, pidx |-> PIdx, qidx |-> QIdx,
                       boxes |-> Bx, ranges |-> [t \in 0..3 |-> Range(t)], coefs |-> [n \in 1..Len(comps) |-> Cf(comps[n])], vcoefs |-> [n \in 1..Len(vel) |-> [m \in 1..kinds.d |-> Cf(vel[n][m])]], visits |-> visits]))
        /\ UNCHANGED <<comps, vel, kinds, tree, nq, seed, at, visits>>
Next == AddC \/ Choose \/ AddV \/ Start \/ Go \/ Visit \/ Done
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ---------------------------- *)
Last == visits[Len(visits)]
Here(c) == Err(c, Last) = "none"
\* a nested field has a value exactly if a component has one before one of them fails otherwise; a sum only if all have
NestedHas == visits # <<>> /\ kinds.p = "nested" => ((Last.p.err = "none") = (\E n \in 1..nq : Here(comps[n]) /\ \A m \in 1..(n - 1) : Err(comps[m], Last) = "bounds"))
SummedHas == visits # <<>> /\ kinds.p = "summed" => ((Last.p.err = "none") = (\A n \in 1..nq : Here(comps[n])))
\* a single component, nested or summed, is itself
Single == visits # <<>> /\ nq = 1 => Last.p.err = Err(comps[1], Last) /\ (Last.p.err = "none" => Last.p.v[1] = <<[v |-> Val(comps[1], Last), sph |-> comps[1].sph]>>)
\* where all components are defined, the nested field is the first one and the sum the sum of all
Everywhere == visits # <<>> /\ (\A n \in 1..nq : Here(comps[n])) => Last.p.err = "none" /\ Len(Last.p.v[1]) = (IF kinds.p = "nested" THEN 1 ELSE nq) /\ Last.p.v[1][1].v = Val(comps[1], Last)
=============================================================================
