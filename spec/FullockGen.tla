----------------------------- MODULE FullockGen -----------------------------
(***************************************************************************)
(* Tests from the specification: the states which are reachable when the   *)
(* calls of a menu are made one after another(the next one when nothing    *)
(* moves any more, blocked calls stay), by shortest paths.  Every          *)
(* transition(a path to a state and one more call) is printed, the real    *)
(* code is executed along it, with variations, and FullockTrace judges.    *)
(***************************************************************************)
EXTENDS Fullock, Json, IOUtils, SequencesExt

VARIABLES nc, deaths, path

MCData == JsonDeserialize(IOEnv.MCFILE)
RangeOf(s) == {s[j] : j \in 1..Len(s)}
Cfgs == [j \in 1..Len(MCData.progs) |-> [MCData.progs[j] EXCEPT !.fds = RangeOf(@)] @@ [kf |-> FALSE]]
MCCfg(n) == Cfgs[n]
NM(a) == C.menu[a]

GInit ==
  /\ t \in 1..Len(Cfgs) /\ InitState
  /\ nc = [a \in Actors |-> IF C.forked[a] THEN -1 ELSE 0] /\ deaths = 0 /\ path = << >>

Go(x) == PrintT(<<"T", t, path, x>>) /\ path' = Append(path, x)
Rest == AllBlocked
Sense(op) == CASE op.k = "fork" -> nc[op.v] = -1
               [] op.k = "reach" -> ~Reach(op.n)
               [] op.k = "unreach" -> Reach(op.n)
               [] OTHER -> TRUE
Called(a, op) == nc' = IF op.k = "fork" THEN [nc EXCEPT ![a] = @ + 1, ![op.v] = 0] ELSE [nc EXCEPT ![a] = @ + 1]
GCall(a) ==
  /\ nc[a] >= 0 /\ nc[a] < C.k[a] /\ Len(path) < C.depth
  /\ \E j \in 1..NM(a) :
     LET i == nc[a] * NM(a) + j IN
     Sense(C.acts[a][i]) /\ Call(a, i) /\ Go(100 * a + j) /\ Called(a, C.acts[a][i])
  /\ UNCHANGED deaths
GDie ==
  /\ deaths < C.deaths /\ Len(path) < C.depth
  /\ deaths' = deaths + 1
  /\ \/ \E p \in RangeOf(C.mortal) : ActorsOf(p) \cap live /= {} /\ Die(p) /\ Go(10000 + p)
     \/ \E a \in RangeOf(C.ending) : ThreadEnd(a) /\ Go(100 * a)
     \/ \E a \in RangeOf(C.exiting) : pend[a].st = "idle" /\ a \in live /\ Die(P(a)) /\ Go(20000 + a)
  /\ UNCHANGED nc
\* one after another
Busy == {a \in live : pend[a].st /= "idle" /\ ~Blocked(a)}
First(S) == CHOOSE a \in S : \A b \in S : a <= b
GStep(a) ==
  /\ \/ Internal(a)
     \/ pend[a].st = "done" /\ Ret(a, pend[a].res)
  /\ UNCHANGED <<nc, deaths, path>>
GNext ==
  IF Rest THEN (\E a \in Actors : GCall(a)) \/ GDie
  ELSE LET a == First(Busy) IN
       \/ GStep(a)
       \/ ~ENABLED GStep(a) /\ Recover /\ UNCHANGED <<nc, deaths, path>>
GSpec == GInit /\ [][GNext]_<<vars, nc, deaths, path>>

NoId(e) == [x \in DOMAIN e \ {"id"} |-> e[x]]
GView == <<t, live, [a \in Actors |-> IF pend[a].st = "idle" THEN <<>> ELSE <<pend[a].st, Op(a), pend[a].res>>], att, [j \in 1..Len(spc) |-> spc[j].caps], mtx,
           [k \in DOMAIN cnd |-> [j \in 1..Len(cnd[k]) |-> <<cnd[k][j].a, cnd[k][j].st>>]],
           {<<NoId(e), Cardinality({x \in lk : NoId(x) = NoId(e)})>> : e \in lk}, offs, fls, rcs, fdm, mode, fsd>>
=============================================================================
