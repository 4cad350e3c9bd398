------------------------------ MODULE TimeWindow ------------------------------
(* Fields on a time axis: interpolation in time, periodic and extrapolated
   series, and deferred loading, where only the two time slices around the current
   time are in memory and execute is interrupted at every field time.

   All times are even ticks (so that half timesteps are ticks).  A field has
   data[i][j][k] = 10 * F[i] + 100 * H[j] + G[k]: F over its time axis, H over the rows
   and G over the columns of the grid.  Particles hop over the columns (which moves them over the chunks of a
   chunked grid) and sample at t, t + dt/2 and t + dt in every timestep.

   A field is a record [ax |-> times, per |-> 0 or period, ext |-> BOOLEAN, df |-> deferred].
   If the period is longer than the axis, the first slice closes the series. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Axes,       \* set of time axes (sequences of even ticks)
  Pers,       \* 0: not periodic; n > 0: period = length of the axis + (n - 1)
  Exts,       \* allow_time_extrapolation
  Defers,     \* deferred loading
  Rels, Dts, Spans, MaxP, MaxCalls,
  Cols, Moves,  \* columns (in halves) a particle moves per timestep
  Rows, MovesY, \* the same for rows
  NF,         \* number of fields
  Again,      \* after an error, the other calls are made with new particles in the same fields
  Uses,       \* what is sampled in a call: 0: all fields, k: only field k
  Emit

FV == <<3, 8, -2, 5, 9, 0, 4>>       \* F over the time axis
GV == <<0, 7, 2, 9, 4, -3, 6, 1, 5>> \* G over the columns
HV == <<0, 3, -2, 5, 1>>              \* H over the rows
W == 2 * (Len(GV) - 1)               \* width in halves
WY == 2 * (Len(HV) - 1)

VARIABLES phase, sc, P, c, T, endT, D, win, log, bad
vars == <<phase, sc, P, c, T, endT, D, win, log, bad>>

Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
MinS(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxS(S) == CHOOSE a \in S : \A b \in S : a >= b

(* the closed axis and its values *)
Span(f) == f.ax[Len(f.ax)] - f.ax[1]
Closed(f) == IF f.per > 1 THEN Append(f.ax, f.ax[1] + Span(f) + f.per - 1) ELSE f.ax
Vals(f) == [i \in 1..Len(Closed(f)) |-> IF f.per > 0 /\ i = Len(Closed(f)) THEN FV[1] ELSE FV[i]]
L(f) == Span(f) + f.per - 1                          \* period
Norm(f, t) == IF f.per = 0 THEN t ELSE f.ax[1] + ((t - f.ax[1]) % L(f))
InRange(f, t) == f.per # 0 \/ f.ext \/ (f.ax[1] <= t /\ t <= f.ax[Len(f.ax)])
(* value in time as <<num, den>> *)
At(f, t) ==
  LET a == Closed(f) v == Vals(f) n == Len(a) u == Norm(f, t)
  IN IF u <= a[1] THEN <<v[1], 1>>
     ELSE IF u >= a[n] THEN <<v[n], 1>>
     ELSE LET i == CHOOSE k \in 1..(n - 1) : a[k] <= u /\ u < a[k + 1]
          IN <<v[i] * (a[i + 1] - u) + v[i + 1] * (u - a[i]), a[i + 1] - a[i]>>
G2(x) == IF x % 2 = 0 THEN 2 * GV[x \div 2 + 1] ELSE GV[(x - 1) \div 2 + 1] + GV[(x + 1) \div 2 + 1]
H2(y) == IF y % 2 = 0 THEN 2 * HV[y \div 2 + 1] ELSE HV[(y - 1) \div 2 + 1] + HV[(y + 1) \div 2 + 1]
(* 10 * F + 100 * H + G as <<num, den>> *)
Sample(f, t, p) == LET a == At(f, t) IN <<20 * a[1] + a[2] * (G2(p.x) + 100 * H2(p.y)), 2 * a[2]>>

(* deferred loading: the window (index i, period p: slices i and i+1 of the closed axis, shifted by p periods) that holds
   time t when running in direction d *)
Window(f, t, d) ==
  LET a == Closed(f) n == Len(a)
      p == IF f.per = 0 THEN 0
           ELSE IF d >= 0 THEN (t - a[1]) \div L(f) ELSE -((a[1] - t) \div L(f)) - 1
      u == t - p * (IF f.per = 0 THEN 0 ELSE L(f))
      i == IF d >= 0
           THEN (IF u < a[1] THEN 1 ELSE IF u >= a[n] THEN n - 1 ELSE CHOOSE k \in 1..(n - 1) : a[k] <= u /\ u < a[k + 1])
           ELSE (IF u <= a[1] THEN 1 ELSE IF u > a[n] THEN n - 1 ELSE CHOOSE k \in 1..(n - 1) : a[k] < u /\ u <= a[k + 1])
  IN [i |-> i, p |-> p]
(* the time at which the window has to move *)
WinEnd(f, w, d) ==
  LET a == Closed(f) n == Len(a) s == IF f.per = 0 THEN 0 ELSE w.p * L(f)
  IN IF d > 0 THEN (IF w.i < n - 1 \/ ~f.ext \/ f.per # 0 THEN a[w.i + 1] + s ELSE 1000000)
     ELSE (IF w.i > 1 \/ ~f.ext \/ f.per # 0 THEN a[w.i] + s ELSE -1000000)
Covers(f, w, t) ==
  LET a == Closed(f) n == Len(a) s == IF f.per = 0 THEN 0 ELSE w.p * L(f)
  IN \/ (a[w.i] + s <= t /\ t <= a[w.i + 1] + s)
     \/ (f.ext /\ f.per = 0 /\ ((t <= a[1] /\ w.i = 1) \/ (t >= a[n] /\ w.i = n - 1)))

-----------------------------------------------------------------------------
Init ==
  /\ phase = "field" /\ sc = [fields |-> <<>>, parts |-> <<>>, calls |-> <<>>]
  /\ P = <<>> /\ c = 1 /\ T = 0 /\ endT = 0 /\ D = 0 /\ win = <<>> /\ log = <<>> /\ bad = FALSE
Rest == <<P, c, T, endT, D, win, log, bad>>

ChooseField ==
  /\ phase = "field"
  /\ \E a \in Axes, p \in Pers, e \in Exts, df \in Defers :
       /\ (p > 0) => ~e
       /\ sc' = [sc EXCEPT !.fields = Append(@, [ax |-> a, per |-> p, ext |-> e, df |-> df])]
  /\ phase' = (IF Len(sc.fields) + 1 < NF THEN "field" ELSE "part")
  /\ UNCHANGED Rest
ChoosePart ==
  /\ phase = "part"
  /\ \E r \in Rels, x \in Cols, m \in Moves : sc' = [sc EXCEPT !.parts = Append(@, [r |-> r, x |-> x, m |-> m])]
  /\ phase' = "row" /\ UNCHANGED Rest
ChooseRow ==
  /\ phase = "row"
  /\ \E y \in Rows, n \in MovesY : sc' = [sc EXCEPT !.parts[Len(sc.parts)] = [r |-> @.r, x |-> @.x, m |-> @.m, y |-> y, n |-> n]]
  /\ phase' \in IF Len(sc.parts) < MaxP THEN {"part", "call"} ELSE {"call"}
  /\ UNCHANGED Rest
ChooseCall ==
  /\ phase = "call"
  /\ \E d \in Dts, s \in Spans, u \in Uses : sc' = [sc EXCEPT !.calls = Append(@, [dt |-> d, span |-> s, use |-> u])]
  /\ phase' \in IF Len(sc.calls) + 1 < MaxCalls THEN {"call", "build"} ELSE {"build"}
  /\ UNCHANGED Rest
Build ==
  /\ phase = "build"
  /\ P' = [i \in 1..Len(sc.parts) |-> [t |-> sc.parts[i].r, dt |-> 0, x |-> sc.parts[i].x, m |-> sc.parts[i].m,
                                   y |-> sc.parts[i].y, n |-> sc.parts[i].n]]
  /\ phase' = "start" /\ UNCHANGED <<sc, c, T, endT, D, win, log, bad>>

(* loading the window may itself discover that the fields do not cover the time *)
Deferred(f) == f.df /\ Len(f.ax) > 2   \* (two slices are always loaded completely)
LoadFails(t, d) == \E k \in 1..NF : LET f == sc.fields[k] IN
    /\ Deferred(f) /\ f.per = 0 /\ ~f.ext
    /\ (t < f.ax[1] \/ t > f.ax[Len(f.ax)] \/ (d > 0 /\ t = f.ax[Len(f.ax)]) \/ (d < 0 /\ t = f.ax[1]))
Load(t, d) == [k \in 1..NF |-> Window(sc.fields[k], t, d)]

StartCall ==
  /\ phase = "start" /\ c <= Len(sc.calls)
  /\ LET d == sc.calls[c].dt
         ts == {P[i].t : i \in 1..Len(P)}
         start == IF d > 0 THEN MinS(ts) ELSE MaxS(ts)
     IN /\ D' = d /\ T' = start /\ endT' = start + sc.calls[c].span * Sgn(d)
        /\ P' = [i \in 1..Len(P) |-> [P[i] EXCEPT !.dt = d]]
        /\ win' = Load(start, d)
        /\ log' = Append(log, [e |-> "call"])
        /\ IF LoadFails(start, d) THEN phase' = "done" /\ bad' = TRUE ELSE phase' = "loop" /\ bad' = bad
  /\ UNCHANGED <<sc, c>>

WindowEnd == LET S == {WinEnd(sc.fields[k], win[k], D) : k \in {k \in 1..NF : Deferred(sc.fields[k])}} \cup {1000000 * Sgn(D)} IN IF D > 0 THEN MinS(S) ELSE MaxS(S)
(* after the first interruption, execute stops a whole number of timesteps later, as long as the window lasts *)
NextInput == LET w == WindowEnd n == Abs(w - T) \div Abs(D)
             IN IF n = 0 \/ Abs(w) = 1000000 \/ T = endT - sc.calls[c].span * Sgn(D) THEN w ELSE T + n * D
Tgt == IF D > 0 THEN Min2(NextInput, endT) ELSE MaxS({NextInput, endT})

(* advance particle i to the interruption; every timestep is one event *)
Due(p, g) == Sgn(g - p.t) = Sgn(D)
Used == IF sc.calls[c].use = 0 THEN 1..NF ELSE {sc.calls[c].use}
StepOK(p, h) == \A k \in Used : \A q \in {p.t, p.t + h \div 2, p.t + h} : InRange(sc.fields[k], q)
FirstDue(g) == CHOOSE i \in 1..Len(P) : Due(P[i], g) /\ \A j \in 1..(i - 1) : ~Due(P[j], g)
Wrap(x, w) == IF x > w THEN x - w ELSE IF x < 0 THEN x + w ELSE x
Step ==
  /\ phase = "loop" /\ T # endT /\ \E i \in 1..Len(P) : Due(P[i], Tgt)
  /\ LET i == FirstDue(Tgt) p == P[i]
         h == Sgn(D) * Min2(Abs(p.dt), Abs(Tgt - p.t))
     IN IF StepOK(p, h)
        THEN /\ P' = [P EXCEPT ![i] = [p EXCEPT !.t = @ + h, !.dt = h, !.x = Wrap(@ + p.m, W), !.y = Wrap(@ + p.n, WY)]]
             /\ log' = Append(log, [e |-> "step", u |-> sc.calls[c].use, i |-> i - 1, t |-> p.t, h |-> h, x |-> p.x, y |-> p.y,
                                    v |-> [k \in 1..NF |-> << Sample(sc.fields[k], p.t, p),
                                          Sample(sc.fields[k], p.t + h \div 2, p), Sample(sc.fields[k], p.t + h, p) >>]])
             /\ bad' = bad /\ phase' = phase
        ELSE P' = P /\ log' = log /\ bad' = TRUE /\ phase' = "done"
  /\ UNCHANGED <<sc, c, T, endT, D, win>>
Reach ==
  /\ phase = "loop" /\ T # endT /\ ~\E i \in 1..Len(P) : Due(P[i], Tgt)
  /\ T' = Tgt
  /\ IF Tgt # endT
     THEN /\ win' = Load(Tgt, D)
          /\ IF LoadFails(Tgt, D) THEN phase' = "done" /\ bad' = TRUE ELSE phase' = phase /\ bad' = bad
     ELSE win' = win /\ phase' = phase /\ bad' = bad
  /\ UNCHANGED <<sc, P, c, endT, D, log>>
EndCall ==
  /\ phase = "loop" /\ T = endT
  /\ c' = c + 1 /\ phase' = "start" /\ UNCHANGED <<sc, P, T, endT, D, win, log, bad>>
Finish ==
  /\ phase = "start" /\ c > Len(sc.calls) /\ phase' = "done"
  /\ UNCHANGED <<sc, P, c, T, endT, D, win, log, bad>>
(* an error that is caught does no harm to the fields *)
More == Again /\ bad /\ c < Len(sc.calls)
Retry ==
  /\ phase = "done" /\ More
  /\ P' = [i \in 1..Len(sc.parts) |-> [t |-> sc.parts[i].r, dt |-> 0, x |-> sc.parts[i].x, m |-> sc.parts[i].m,
                                   y |-> sc.parts[i].y, n |-> sc.parts[i].n]]
  /\ c' = c + 1 /\ bad' = FALSE /\ log' = Append(log, [e |-> "retry"]) /\ phase' = "start" /\ UNCHANGED <<sc, T, endT, D, win>>
Done ==
  /\ phase = "done" /\ Emit /\ ~More
  /\ PrintT("@@" \o ToJson([sc |-> sc, log |-> log, bad |-> bad, closed |-> [k \in 1..NF |-> Closed(sc.fields[k])],
                             vals |-> [k \in 1..NF |-> Vals(sc.fields[k])]]))
  /\ phase' = "printed" /\ UNCHANGED <<sc, P, c, T, endT, D, win, log, bad>>
Next == ChooseField \/ ChoosePart \/ ChooseRow \/ ChooseCall \/ Build \/ StartCall \/ Step \/ Reach \/ EndCall \/ Finish \/ Retry \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the guarantees *)
(* deferred loading: whatever is sampled between two interruptions is covered by the two slices in memory *)
WindowCovers ==
  (phase = "loop" /\ T # endT) =>
     \A i \in 1..Len(P) : Due(P[i], Tgt) =>
        LET h == Sgn(D) * Min2(Abs(P[i].dt), Abs(Tgt - P[i].t))
        IN (Sgn(P[i].t - T) # -Sgn(D)) =>
           \A k \in 1..NF : Deferred(sc.fields[k]) => \A q \in {P[i].t, P[i].t + h \div 2, P[i].t + h} : Covers(sc.fields[k], win[k], q)
WindowValid == \A k \in 1..Len(win) : win[k].i \in 1..(Len(Closed(sc.fields[k])) - 1)
Progress == (phase = "loop" /\ T # endT) => (Sgn(Tgt - T) = Sgn(D))
(* interpolation stays between its neighbours and hits the data at the field times *)
Hits == \A k \in 1..Len(sc.fields) : \A i \in 1..Len(sc.fields[k].ax) :
           LET f == sc.fields[k] a == At(f, f.ax[i])
           IN (i < Len(f.ax) \/ f.per # 1) => a[1] = FV[i] * a[2]
Periodic == \A k \in 1..Len(sc.fields) : sc.fields[k].per > 0 =>
           \A t \in -6..6 : At(sc.fields[k], t) = At(sc.fields[k], t + L(sc.fields[k]))
=============================================================================
