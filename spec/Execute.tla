------------------------------- MODULE Execute -------------------------------
(* ParticleSet.execute: the interruption schedule (output, callback, repeated
   release, end), the per-particle time-stepping state machine, the protocol for
   Repeat / error / Delete outcomes of a kernel, recovery kernels and what is
   written to the output file.  Times are integer ticks; the replay maps ticks
   affinely to seconds.

   One kernel invocation is one action (Attempt).  The environment - the outcome
   of each kernel invocation - is the script s of a particle: s[k+1] is what the
   kernel does at script position k (k is itself a particle variable, so it is
   rolled back with the others). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  MaxP,        \* particles 1..MaxP in the initial set
  Rels,        \* possible release times (NoT = not given: release at the first field time)
  Dts,         \* possible timesteps (negative: backward, 0: execute once)
  Spans,       \* runtimes / endtimes
  Modes,       \* subset of {"run","end","def"}: runtime, endtime, neither
  Outs,        \* output intervals, 0 = no output file
  OnDel,       \* may the file have write_ondelete (only deleted particles are written)
  Cbs,         \* callback intervals, 0 = default
  Reps,        \* repeatdt, 0 = none
  Outcomes,    \* script alphabet
  ScriptLens,  \* possible script lengths
  RecModes,    \* what the recovery kernels may do
  MaxCalls,    \* number of consecutive execute() calls
  Emit         \* TRUE: print completed behaviours (generator mode)

NoT == -999
INF == 1000000
FT0 == 0       \* first and last time of the fields
FT1 == 16
Errs == {"err", "oob", "surf", "text"}

VARIABLES phase, sc, P, c, T, tgt, endT, D, once, nrel, nout, ncb, cur, lasttime, nid, log, released, rs
vars == <<phase, sc, P, c, T, tgt, endT, D, once, nrel, nout, ncb, cur, lasttime, nid, log, released, rs>>

Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
MinS(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxS(S) == CHOOSE a \in S : \A b \in S : a >= b
Range(q) == {q[i] : i \in 1..Len(q)}

EmptyCall == [dt |-> 1, mode |-> "run", span |-> 0, cb |-> 0, useout |-> FALSE]

Init ==
  /\ phase = "nparts"
  /\ sc = [parts |-> <<>>, rep |-> 0, out |-> 0, ondel |-> FALSE, rec |-> [e \in Errs |-> "skip"], calls |-> <<>>]
  /\ P = <<>> /\ c = 1 /\ T = 0 /\ tgt = 0 /\ endT = 0 /\ D = 0 /\ once = FALSE
  /\ nrel = INF /\ nout = INF /\ ncb = INF /\ cur = 1 /\ lasttime = NoT /\ nid = 0 /\ log = <<>>
  /\ released = {} /\ rs = NoT

Rest == <<P, c, T, tgt, endT, D, once, nrel, nout, ncb, cur, lasttime, nid, log, released, rs>>

-----------------------------------------------------------------------------
(* choosing a scenario *)
ChooseRep == /\ phase = "nparts"
             /\ \E r \in Reps, o \in Outs, w \in OnDel :
                  /\ (o = 0) => ~w
                  /\ sc' = [sc EXCEPT !.rep = r, !.out = o, !.ondel = w]
             /\ phase' = "rec" /\ UNCHANGED Rest
ChooseRec == /\ phase = "rec"
             /\ \E a \in RecModes, b \in RecModes, d \in RecModes, e \in RecModes :
                   sc' = [sc EXCEPT !.rec = [x \in Errs |-> CASE x = "err" -> a [] x = "oob" -> b
                                                              [] x = "text" -> d [] OTHER -> e]]
             /\ phase' = "part" /\ UNCHANGED Rest
(* with repeatdt all release times of a set are the same *)
ChoosePart == /\ phase = "part" /\ Len(sc.parts) < MaxP
              /\ \E r \in Rels, n \in ScriptLens :
                   /\ (sc.rep # 0) => (Len(sc.parts) > 0 => r = sc.parts[1].r)
                   /\ sc' = [sc EXCEPT !.parts = Append(@, [r |-> r, s |-> <<>>, n |-> n])]
              /\ phase' = "script" /\ UNCHANGED Rest
ChooseScript == /\ phase = "script"
                /\ LET m == Len(sc.parts) IN
                   IF Len(sc.parts[m].s) < sc.parts[m].n
                   THEN /\ \E o \in Outcomes : sc' = [sc EXCEPT !.parts[m].s = Append(@, o)]
                        /\ phase' = "script"
                   ELSE /\ sc' = sc /\ phase' \in IF m < MaxP THEN {"part", "call"} ELSE {"call"}
                /\ UNCHANGED Rest
ChooseCall == /\ phase = "call"
              /\ \E d \in Dts, m \in Modes, s \in Spans, b \in Cbs, u \in BOOLEAN :
                   /\ (m = "def") => s = MinS(Spans)
                   /\ (sc.out = 0) => ~u
                   /\ sc' = [sc EXCEPT !.calls = Append(@, [dt |-> d, mode |-> m, span |-> s, cb |-> b, useout |-> u])]
              /\ phase' \in IF Len(sc.calls) + 1 < MaxCalls THEN {"call", "build"} ELSE {"build"}
              /\ UNCHANGED Rest
Build == /\ phase = "build"
         /\ P' = [i \in 1..Len(sc.parts) |->
                    [id |-> i - 1, lab |-> i, rel |-> sc.parts[i].r, t |-> sc.parts[i].r, dt |-> 0, k |-> 0, x |-> 0, st |-> "S"]]
         /\ nid' = Len(sc.parts) /\ phase' = "start" /\ c' = 1
         /\ released' = {} /\ rs' = IF sc.rep = 0 THEN NoT ELSE sc.parts[1].r
         /\ UNCHANGED <<sc, T, tgt, endT, D, once, nrel, nout, ncb, cur, lasttime, log>>

-----------------------------------------------------------------------------
(* output: a full write at time W, or the write of the particles being deleted *)
Row(p) == [id |-> p.id, t |-> p.t, x |-> p.x]
InWindow(p, W) == 2 * Abs(p.t - W) <= Abs(p.dt)
WriteRows(Q, W) == [e |-> "wr", at |-> W, rows |-> SelectSeq(Q, LAMBDA p : InWindow(p, W))]
LogWrite(lg, Q, W, lt, on) ==
  IF on /\ lt # W
  THEN Append(lg, [e |-> "wr", at |-> W, rows |-> LET S == SelectSeq(Q, LAMBDA p : InWindow(p, W))
                                                   IN [i \in 1..Len(S) |-> Row(S[i])]])
  ELSE lg
Out == sc.out # 0 /\ sc.calls[c].useout
OutFull == Out /\ ~sc.ondel

(* start of an execute() call *)
StartCall ==
  /\ phase = "start" /\ c <= Len(sc.calls) /\ Len(P) > 0
  /\ LET call == sc.calls[c]
         dflt == IF call.dt >= 0 THEN FT0 ELSE FT1
         P1 == [i \in 1..Len(P) |-> IF P[i].t = NoT THEN [P[i] EXCEPT !.t = dflt, !.rel = dflt] ELSE P[i]]
         ts == {P1[i].t : i \in 1..Len(P1)}
         start == IF call.dt >= 0 THEN MinS(ts) ELSE MaxS(ts)
         end0 == CASE call.mode = "run" -> start + call.span * Sgn(call.dt)
                   [] call.mode = "end" -> call.span
                   [] OTHER -> IF call.dt >= 0 THEN FT1 ELSE FT0
         isonce == end0 = start \/ call.dt = 0 \/ (call.mode = "run" /\ call.span = 0)
         d == IF isonce THEN 0 ELSE call.dt
         e == IF isonce THEN start ELSE end0
         sg == IF d > 0 THEN 1 ELSE -1
         P2 == [i \in 1..Len(P1) |-> [P1[i] EXCEPT !.dt = d]]
         rs1 == IF sc.rep # 0 /\ rs = NoT THEN start ELSE rs
         cbd == IF call.cb # 0 THEN call.cb
                ELSE MinS({INF} \cup (IF sc.out # 0 /\ call.useout THEN {sc.out} ELSE {}) \cup (IF sc.rep # 0 THEN {sc.rep} ELSE {}))
         never == IF d > 0 THEN INF ELSE -INF
     IN /\ P' = P2 /\ D' = d /\ once' = isonce /\ endT' = e /\ T' = start
        /\ nrel' = IF sc.rep # 0 /\ d # 0 THEN rs1 + (Abs(start - rs1) \div sc.rep + 1) * sc.rep * sg ELSE never
        /\ nout' = IF Out THEN start + sg * sc.out ELSE never
        /\ ncb' = IF cbd = INF THEN never ELSE start + sg * cbd
        /\ log' = LogWrite(Append(log, [e |-> "call", dt |-> d, start |-> start, end |-> e]), P2, start, lasttime, OutFull)
        /\ lasttime' = IF OutFull THEN start ELSE lasttime
        /\ phase' = "loop" /\ rs' = rs1
        /\ UNCHANGED <<sc, c, tgt, cur, nid, released>>

NoMoreCalls ==
  /\ phase = "start" /\ (c > Len(sc.calls) \/ Len(P) = 0)
  /\ phase' = "done" /\ UNCHANGED <<sc, P, c, T, tgt, endT, D, once, nrel, nout, ncb, cur, lasttime, nid, log, released, rs>>

Continue == (D > 0 /\ T < endT) \/ (D < 0 /\ T > endT) \/ D = 0

Loop ==
  /\ phase = "loop" /\ Continue
  /\ tgt' = IF D > 0 THEN MinS({nrel, nout, ncb, endT}) ELSE MaxS({nrel, nout, ncb, endT})
  /\ P' = [i \in 1..Len(P) |-> [P[i] EXCEPT !.st = "E"]]
  /\ cur' = 1 /\ phase' = "pass"
  /\ UNCHANGED <<sc, c, T, endT, D, once, nrel, nout, ncb, lasttime, nid, log, released, rs>>

EndCall ==
  /\ phase = "loop" /\ ~Continue
  /\ log' = LogWrite(log, P, T, lasttime, OutFull)
  /\ lasttime' = IF OutFull THEN T ELSE lasttime
  /\ c' = c + 1 /\ phase' = "start"
  /\ UNCHANGED <<sc, P, T, tgt, endT, D, once, nrel, nout, ncb, cur, nid, released, rs>>

-----------------------------------------------------------------------------
(* the per-particle state machine *)
Eligible(p) == p.st = "E" /\ (D = 0 \/ (Sgn(tgt - p.t) = Sgn(D)))
Outcome(p, h) == IF p.k < Len(sc.parts[p.lab].s)
                 THEN LET o == sc.parts[p.lab].s[p.k + 1]
                      IN IF o \in {"rep", "hlv"} /\ Abs(h) \notin {4, 8} THEN "ok" ELSE o
                 ELSE "ok"

SkipParticle ==
  /\ phase = "pass" /\ cur <= Len(P) /\ ~Eligible(P[cur])
  /\ cur' = cur + 1
  /\ UNCHANGED <<phase, sc, P, c, T, tgt, endT, D, once, nrel, nout, ncb, lasttime, nid, log, released, rs>>

Attempt ==
  /\ phase = "pass" /\ cur <= Len(P) /\ Eligible(P[cur])
  /\ LET p == P[cur]
         h == Sgn(D) * Min2(Abs(p.dt), Abs(tgt - p.t))
         o == Outcome(p, h)
         ok == [p EXCEPT !.t = @ + h, !.dt = h, !.k = @ + 1, !.x = @ + 1]
         okst == IF D # 0 /\ Sgn(tgt - ok.t) = Sgn(D) THEN "E" ELSE "S"
     IN /\ log' = Append(log, [e |-> "att", id |-> p.id, t |-> p.t, h |-> h, k |-> p.k, x |-> p.x, o |-> o, tgt |-> tgt])
        /\ P' = [P EXCEPT ![cur] =
             CASE o = "ok" -> [ok EXCEPT !.st = okst]
               [] o = "nd" -> [ok EXCEPT !.st = okst, !.dt = 2 * h]
               [] o = "del" -> [ok EXCEPT !.st = "D"]
               [] o \in {"rep", "hlv"} -> [p EXCEPT !.dt = h \div 2, !.st = "R"]
               [] OTHER -> [p EXCEPT !.dt = h, !.st = o]]
        /\ cur' = IF P'[cur].st = "E" THEN cur ELSE cur + 1
  /\ UNCHANGED <<phase, sc, c, T, tgt, endT, D, once, nrel, nout, ncb, lasttime, nid, released, rs>>

EndPass ==
  /\ phase = "pass" /\ cur > Len(P)
  /\ phase' = "sweep"
  /\ UNCHANGED <<sc, P, c, T, tgt, endT, D, once, nrel, nout, ncb, cur, lasttime, nid, log, released, rs>>

(* remove the particles that asked for deletion (written to file first) *)
IsErr(p) == p.st \in Errs \cup {"R"}
Sweep ==
  /\ phase = "sweep"
  /\ LET del == SelectSeq(P, LAMBDA p : p.st = "D")
         keep == SelectSeq(P, LAMBDA p : p.st # "D")
     IN /\ P' = keep
        /\ log' = IF del = <<>> THEN log
                  ELSE Append(log, [e |-> "del", at |-> tgt, wrote |-> Out /\ lasttime # tgt,
                                    rows |-> [i \in 1..Len(del) |-> Row(del[i])]])
        /\ phase' = IF \E i \in 1..Len(keep) : IsErr(keep[i]) THEN "recover" ELSE "post"
  /\ cur' = 1
  /\ UNCHANGED <<sc, c, T, tgt, endT, D, once, nrel, nout, ncb, lasttime, nid, released, rs>>

(* an error through the surface is out of bounds, unless it has a recovery kernel of its own *)
Handler(st) == IF st = "surf" /\ sc.rec["surf"] = "raise" THEN sc.rec["oob"] ELSE sc.rec[st]
Recover ==
  /\ phase = "recover" /\ cur <= Len(P)
  /\ LET p == P[cur]
         a == IF p.st \in Errs THEN Handler(p.st) ELSE "none"
     IN CASE p.st = "R" -> P' = [P EXCEPT ![cur].st = "E"] /\ log' = log /\ phase' = phase
          [] p.st \in Errs /\ a = "raise" ->
               P' = P /\ log' = Append(log, [e |-> "exc", id |-> p.id, t |-> p.t, err |-> p.st]) /\ phase' = "done"
          [] p.st \in Errs /\ a # "raise" ->
               /\ log' = Append(log, [e |-> "rec", id |-> p.id, t |-> p.t,
                                            err |-> IF p.st = "surf" /\ sc.rec["surf"] = "raise" THEN "oob" ELSE p.st, x |-> p.x, k |-> p.k])
               /\ P' = [P EXCEPT ![cur] = CASE a = "skip" -> [p EXCEPT !.k = @ + 1, !.st = "E"]
                                            [] a = "mut" -> [p EXCEPT !.k = @ + 1, !.x = @ + 100, !.st = "E"]
                                            [] a = "del" -> [p EXCEPT !.st = "D"]]
               /\ phase' = phase
          [] OTHER -> P' = P /\ log' = log /\ phase' = phase
  /\ cur' = cur + 1
  /\ UNCHANGED <<sc, c, T, tgt, endT, D, once, nrel, nout, ncb, lasttime, nid, released, rs>>

(* deletion requested by recovery kernels is carried out before the loop is entered again *)
EndRecover ==
  /\ phase = "recover" /\ cur > Len(P)
  /\ LET del == SelectSeq(P, LAMBDA p : p.st = "D")
     IN /\ P' = SelectSeq(P, LAMBDA p : p.st # "D")
        /\ log' = IF del = <<>> THEN log
                  ELSE Append(log, [e |-> "del", at |-> tgt, wrote |-> Out /\ lasttime # tgt,
                                    rows |-> [i \in 1..Len(del) |-> Row(del[i])]])
  /\ cur' = 1 /\ phase' = "pass"
  /\ UNCHANGED <<sc, c, T, tgt, endT, D, once, nrel, nout, ncb, lasttime, nid, released, rs>>

Post ==
  /\ phase = "post"
  /\ LET n == Len(sc.parts)
         rel == tgt = nrel
         P1 == IF rel THEN P \o [i \in 1..n |-> [id |-> nid + i - 1, lab |-> i, rel |-> tgt, t |-> tgt, dt |-> D, k |-> 0, x |-> 0, st |-> "S"]]
               ELSE P
         l1 == IF rel THEN Append(log, [e |-> "rel", at |-> tgt, n |-> n]) ELSE log
         l2 == IF tgt = nout THEN LogWrite(l1, P1, tgt, lasttime, OutFull) ELSE l1
         l3 == IF tgt = ncb THEN Append(l2, [e |-> "cb", at |-> tgt, rows |-> [i \in 1..Len(P1) |-> Row(P1[i])]]) ELSE l2
         sg == IF D > 0 THEN 1 ELSE -1
         cbd == Abs(ncb - tgt)
     IN /\ P' = P1 /\ log' = l3
        /\ released' = IF rel THEN released \cup {tgt} ELSE released
        /\ nid' = IF rel THEN nid + n ELSE nid
        /\ nrel' = IF rel THEN nrel + sg * sc.rep ELSE nrel
        /\ nout' = IF tgt = nout THEN nout + sg * sc.out ELSE nout
        /\ ncb' = IF tgt = ncb
                  THEN ncb + sg * (IF sc.calls[c].cb # 0 THEN sc.calls[c].cb
                                   ELSE MinS({INF} \cup (IF Out THEN {sc.out} ELSE {}) \cup (IF sc.rep # 0 THEN {sc.rep} ELSE {})))
                  ELSE ncb
        /\ lasttime' = IF tgt = nout /\ OutFull THEN tgt ELSE lasttime
  /\ T' = tgt
  /\ phase' = IF D = 0 THEN "fin0" ELSE "loop"
  /\ UNCHANGED <<sc, c, tgt, endT, D, once, cur, rs>>

Fin0 ==
  /\ phase = "fin0"
  /\ log' = LogWrite(log, P, T, lasttime, OutFull)
  /\ lasttime' = IF OutFull THEN T ELSE lasttime
  /\ c' = c + 1 /\ phase' = "start"
  /\ UNCHANGED <<sc, P, T, tgt, endT, D, once, nrel, nout, ncb, cur, nid, released, rs>>

Done ==
  /\ phase = "done" /\ Emit
  /\ PrintT("@@" \o ToJson([sc |-> sc, log |-> log, final |-> P]))
  /\ phase' = "printed"
  /\ UNCHANGED <<sc, P, c, T, tgt, endT, D, once, nrel, nout, ncb, cur, lasttime, nid, log, released, rs>>

Next == \/ ChooseRep \/ ChooseRec \/ ChoosePart \/ ChooseScript \/ ChooseCall \/ Build
        \/ StartCall \/ NoMoreCalls \/ Loop \/ EndCall
        \/ SkipParticle \/ Attempt \/ EndPass \/ Sweep \/ Recover \/ EndRecover \/ Post \/ Fin0 \/ Done
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* the guarantees, on the specification *)
Atts(i) == SelectSeq(log, LAMBDA ev : ev.e = "att" /\ ev.id = i)
Succ(a) == a.o \in {"ok", "nd", "del"}
CallDt == IF D = 0 THEN 0 ELSE Abs(sc.calls[c].dt)

TypeOK == /\ phase \in {"nparts", "rec", "part", "script", "call", "build", "start", "loop", "pass", "sweep",
                        "recover", "post", "fin0", "done", "printed"}
          /\ \A i \in 1..Len(P) : P[i].st \in {"E", "S", "R", "D"} \cup Errs

(* every kernel invocation starts at the particle's own time, never overshoots the interruption it runs to, and
   goes in the direction of dt; "nd" (update_next_dt) is the only way to exceed the dt of the call *)
StepsInside ==
  \A n \in 1..Len(log) : log[n].e = "att" =>
      /\ (log[n].h # 0 => Sgn(log[n].h) = Sgn(log[n].tgt - log[n].t))
      /\ Abs(log[n].h) <= Abs(log[n].tgt - log[n].t) \/ log[n].h = 0
StepsAbut ==
  LET as == [i \in 0..(nid - 1) |-> Atts(i)] IN
  \A i \in 0..(nid - 1) : \A m \in 1..(Len(as[i]) - 1) :
      LET a == as[i][m] b == as[i][m + 1]
      IN IF Succ(a) THEN b.t = a.t + a.h /\ b.k = a.k + 1 ELSE b.t = a.t
RolledBack ==    \* a step that did not complete leaves no trace in the particle (recovery may change it, by 0 or 100)
  LET as == [i \in 0..(nid - 1) |-> Atts(i)] IN
  \A i \in 0..(nid - 1) : \A m \in 1..(Len(as[i]) - 1) :
      LET a == as[i][m] b == as[i][m + 1]
      IN ~Succ(a) => b.x \in {a.x, a.x + 100}
ReachesEnd ==    \* at the end of a call every surviving particle that was due stands exactly at the end time
  (phase = "loop" /\ ~Continue) =>
      \A i \in 1..Len(P) : (Sgn(endT - P[i].t) # Sgn(D)) /\ (P[i].t = endT \/ Sgn(P[i].rel - endT) = Sgn(D) \/ Sgn(P[i].t - endT) = Sgn(D))
Interrupted ==   \* whatever happens at an interruption sees every due particle exactly at that time
  phase = "post" => \A i \in 1..Len(P) : D = 0 \/ P[i].t = tgt \/ Sgn(P[i].t - tgt) = Sgn(D)
OncePerParticle ==   \* dt = 0: the kernel completes exactly once
  (phase = "fin0") => \A i \in 1..Len(P) : P[i].st # "E"
NoEarlyStep ==   \* nobody moves before its release
  \A n \in 1..Len(log) : log[n].e = "att" => log[n].id >= 0
UniqueIds == \A i, j \in 1..Len(P) : i # j => P[i].id # P[j].id
ReleaseSchedule == (* the k-th repeated release happens at start + k*repeatdt, none is missed or doubled *)
  (phase = "loop" /\ sc.rep # 0 /\ Len(sc.calls) = 1 /\ D > 0) =>
      released = {r \in (rs + 1)..T : (r - rs) % sc.rep = 0}
WritesOrdered ==  \* no two full writes for the same time in a row
  LET w == SelectSeq(log, LAMBDA ev : ev.e = "wr") IN \A i \in 1..(Len(w) - 1) : w[i].at # w[i + 1].at
Terminates == <>(phase = "done")
=============================================================================
