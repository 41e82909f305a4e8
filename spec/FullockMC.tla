----------------------------- MODULE FullockMC -----------------------------
(***************************************************************************)
(* Exhaustive checking of Fullock for menus of operations: every thread    *)
(* calls up to C.k operations of its menu in any order, processes die and  *)
(* threads end between any two steps, time passes.                         *)
(*                                                                         *)
(* What a user has seen - the results of the calls, nothing else - is kept *)
(* in ghost variables, and the properties are stated over them: they do    *)
(* not use the tables by which Fullock decides.                            *)
(*                                                                         *)
(* FullockGen uses the same menus for generating tests.                    *)
(***************************************************************************)
EXTENDS Fullock, Json, IOUtils, SequencesExt

VARIABLES
  nc,     \* calls made by each actor
  deaths, \* deaths until now
  hm,     \* <<actor, space, key>> -> levels of the mutex which the actor has
  hr,     \* reader/writer locks which were obtained: [a, sp, fd, f, o, l, m, n]
  ho,     \* ranges held by recursive objects: [a, obj, sp, fd, f, o, l, m]
  gone,   \* what the pending call may give up: actor -> sets of entries of hm/hr/ho
  saw,    \* actors which could see a conflicting lock during their call
  due,    \* <<space, key>> of a condition -> signals which woke somebody, minus wake ups
  sent,   \* <<space, key>> -> signals(1000 for a broadcast) sent minus wake ups
  err     \* violated properties

mvars == <<vars, nc, deaths, hm, hr, ho, gone, saw, due, sent, err>>

MCData == JsonDeserialize(IOEnv.MCFILE)
RangeOf(s) == {s[j] : j \in 1..Len(s)}
Cfgs == [j \in 1..Len(MCData.progs) |-> [MCData.progs[j] EXCEPT !.fds = RangeOf(@)] @@ [kf |-> FALSE]]
MCCfg(n) == Cfgs[n]

NM(a) == C.menu[a]                     \* the menu is repeated C.k[a] times in C.acts[a]
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Add(f, k, n) == LET v == Get(f, k) + n IN IF v = 0 THEN [x \in DOMAIN f \ {k} |-> f[x]] ELSE Put(f, k, v)
NoGone == [m |-> {}, r |-> {}, o |-> {}, s |-> {}]
\* a lock is in force while its descriptor is the one it was taken through
FdSame(e) == e.fd < 0 \/ (<<P(e.a), e.fd>> \in DOMAIN fdm /\ fdm[<<P(e.a), e.fd>>] = e.f)

MInit ==
  /\ t \in 1..Len(Cfgs) /\ InitState
  /\ nc = [a \in Actors |-> IF C.forked[a] THEN -1 ELSE 0] /\ deaths = 0
  /\ hm = << >> /\ hr = {} /\ ho = {} /\ gone = [a \in Actors |-> NoGone] /\ saw = {} /\ due = << >> /\ sent = << >> /\ err = {}

Full(n) == IF Len(n) > 63 THEN SubSeq(n, 1, 63) ELSE n
UMutex(a) == <<a, Sp(a), Full(Op(a).n)>>
UCond(a) == <<Sp(a), Full(Op(a).c)>>

\* can a conflicting lock be seen now by the pending call of a?
Conflicts(a) ==
  LET op == Op(a) IN
  IF op.k \in {"ml", "mt", "mT"} THEN LET k == <<Sp(a), Full(op.n)>> IN k \in DOMAIN mtx /\ mtx[k].own \notin {0, a}
  ELSE IF IsRLock(op.k) \/ IsObjLock(op.k)
  THEN Sp(a) /= 0 /\ FdOk(P(a), op.fd) /\ \E e \in lk : e.sp = Sp(a) /\ e.f = FileOf(P(a), op.fd) /\ e.o < op.o + op.l /\ op.o < e.o + e.l /\ (e.m = "w" \/ IsWrite(op.k) \/ IsOWrite(op.k)) /\ ~(e.a = a /\ ~e.g)
  ELSE IF op.k = "il" THEN Sp(a) /= 0 /\ FdOk(P(a), op.fd) /\ \E e \in lk : e.sp = Sp(a) /\ e.f = FileOf(P(a), op.fd) /\ e.o < op.o + op.l /\ op.o < e.o + e.l
  ELSE FALSE
SawNow == {a \in live : pend[a].st \notin {"idle", "call", "ent"} /\ Conflicts(a)}

OpMode(k) == IF k \in {"rl", "rt", "rT", "or", "oR", "xr"} THEN "r" ELSE "w"
\* a call begins: what it may give up is no longer relied upon
GCall(a, i) ==
  LET op == C.acts[a][i]
      k == op.k
      sp == att[P(a)]
      hit == IF k = "u" /\ sp /= 0 /\ FdOk(P(a), op.fd)
             THEN LET c == {e \in hr : e.a = a /\ e.sp = sp /\ e.fd = op.fd /\ e.f = FileOf(P(a), op.fd) /\ e.o < op.o + op.l /\ op.o < e.o + e.l}
                      x == {e \in c : e.o = op.o /\ e.l = op.l} IN
                  IF x /= {} THEN {CHOOSE e \in x : TRUE} ELSE c
             ELSE {}
      mh == IF k \in {"mu", "cw", "cT"} /\ Get(hm, <<a, sp, Full(op.n)>>) > 0 THEN {<<a, sp, Full(op.n)>>} ELSE {}
      oh == IF IsObjLock(k) \/ k \in {"ou", "od"} THEN {e \in ho : e.a = a /\ e.obj = op.obj} ELSE {}
      \* an upgrade gives the read lock back first
      up == IF IsOWrite(k) THEN {e \in ho : e.a = a /\ e.fd = op.fd /\ e.m = "r" /\ e.o < op.o + op.l /\ op.o < e.o + e.l} ELSE {}
  IN /\ gone' = [[b \in Actors |-> [gone[b] EXCEPT !.s = @ \ mh]] EXCEPT ![a] = [m |-> mh, r |-> hit, o |-> oh \cup up, s |-> IF k = "il" THEN hr \cup ho ELSE IF k = "mu" THEN DOMAIN hm ELSE {}]]
     /\ hm' = IF mh = {} THEN hm ELSE Add(hm, CHOOSE x \in mh : TRUE, -1)
     /\ hr' = hr \ hit
     /\ ho' = ho \ (oh \cup up)
     /\ saw' = saw \ {a}
     /\ sent' = IF k \in {"cs", "cb"} /\ sp /= 0 THEN Add(sent, <<sp, Full(op.c)>>, IF k = "cs" THEN 1 ELSE 1000) ELSE sent
     /\ due' = due
     /\ err' = err

\* a call returns r
GRet(a, r) ==
  LET op == Op(a)
      k == op.k
      sp == Sp(a)
      g == gone[a]
      f == IF "fd" \in DOMAIN op /\ FdOk(P(a), op.fd) THEN FileOf(P(a), op.fd) ELSE ""
      real == sp /= 0 /\ ("fd" \in DOMAIN op => FdOk(P(a), op.fd))
      hold == [a |-> a, sp |-> sp, fd |-> op.fd, f |-> f, o |-> op.o, l |-> op.l, m |-> OpMode(k), n |-> nc[a]]
      ohold == [a |-> a, obj |-> op.obj, sp |-> sp, fd |-> op.fd, f |-> f, o |-> op.o, l |-> op.l, m |-> OpMode(k)]
      back == {e \in g.o : e.obj /= op.obj}
      E(b, id) == IF b THEN {id} ELSE {}
  IN
  /\ gone' = [gone EXCEPT ![a] = NoGone]
  /\ saw' = saw \ {a}
  /\ hm' = IF ~real THEN hm
           ELSE IF IsMLock(k) /\ r = 0 THEN Add(hm, UMutex(a), 1)
           ELSE IF IsWait(k) /\ g.m /= {} THEN Add(hm, CHOOSE x \in g.m : TRUE, 1)      \* it has the mutex again in any case
           ELSE IF k = "mu" /\ r /= 0 /\ g.m /= {} THEN Add(hm, CHOOSE x \in g.m : TRUE, 1)
           ELSE hm
  /\ hr' = IF IsRLock(k) /\ r = 0 /\ real THEN hr \cup {hold} ELSE IF k = "u" /\ r /= 0 THEN hr \cup g.r
           ELSE IF k = "u" /\ Cardinality(g.r) > 1       \* the request fits more than one: it is seen later which one was meant
           THEN hr \cup {e \in g.r : \E x \in lk : x.g /\ x.a = a /\ x.sp = e.sp /\ x.fd = e.fd /\ x.f = e.f /\ x.o = e.o /\ x.l = e.l}
           ELSE hr
  /\ ho' = IF IsObjLock(k) /\ r = 0 /\ real
           THEN LET all == ho \cup {ohold} \cup back
                    grp == {e \in all : e.a = a /\ e.fd = op.fd /\ e.o < op.o + op.l /\ op.o < e.o + e.l}
                    w == \E e \in grp : e.m = "w" IN
                {IF e \in grp /\ w THEN [e EXCEPT !.m = "w"] ELSE e : e \in all}
           ELSE ho
  /\ sent' = IF IsWait(k) /\ r = 0 /\ real THEN Add(sent, UCond(a), -1) ELSE sent
  /\ due' = IF IsWait(k) /\ r = 0 /\ real THEN Add(due, UCond(a), -1) ELSE due
  /\ err' = err
       \cup E(IsMLock(k) /\ real /\ r = EBUSY /\ a \notin saw, "C04 busy mutex was free")
       \cup E(IsRLock(k) /\ r = EBUSY /\ a \notin saw, "C04 busy range was free")
       \cup E(r = ETIMEDOUT /\ now < pend[a].dl, "C04 timed out too early")
       \cup E(r = ETIMEDOUT /\ ~IsWait(k) /\ a \notin saw, "C04 timed out though it was free")
       \cup E(r \in {EBUSY, ETIMEDOUT} /\ k \in {"ml", "rl", "wl", "cw"}, "C04 blocking call gives up")
       \cup E(r = EBUSY /\ ~IsTry(op), "C04 EBUSY from a call which may wait")
       \cup E(k = "mu" /\ real /\ r = 0 /\ g.m = {} /\ \E x \in g.s \cap DOMAIN hm : x[1] /= a /\ x[1] \in live /\ x[2] = sp /\ x[3] = Full(op.n), "C02 a stranger unlocked the mutex")
       \cup E(k = "mu" /\ real /\ r /= 0 /\ g.m /= {}, "C02 the owner can not unlock")
       \cup E(k = "u" /\ real /\ r = 0 /\ g.r = {}, "C07 unlocked what it did not have")
       \cup E(k = "u" /\ real /\ r /= 0 /\ g.r /= {}, "C07 can not unlock what it has")
       \cup E(IsWait(k) /\ real /\ r \in {0, ETIMEDOUT} /\ g.m = {}, "C12 wait without the mutex")
       \cup E(IsWait(k) /\ real /\ op.k = "cw" /\ r = ETIMEDOUT, "C12 wait without timeout timed out")
       \cup E(~real /\ sp = 0 /\ IsLockOp(k) /\ k \notin {"il", "bm", "bo", "bl", "bc", "bf"} /\ ~("n" \in DOMAIN op /\ op.n = NULLNAME) /\ ~("c" \in DOMAIN op /\ op.c = NULLNAME)
              /\ r \notin (IF k \in {"ou", "od"} THEN {0} ELSE IF Mode(a).nomap \in {0, 2} THEN {0} ELSE IF IsObjLock(k) THEN {OAns(k, 1)} ELSE {ENOLCK}), "C16 wrong answer without a lock space")
       \cup E(k = "il" /\ sp = 0 /\ r /= (IF Mode(a).nomap \in {0, 2} THEN 0 ELSE 1), "C16 islocked without a lock space")
       \cup E(k = "il" /\ real /\ r = 0 /\ \E e \in g.s \cap (hr \cup ho) : e.a \in live /\ att[P(e.a)] = sp /\ e.sp = sp /\ e.f = f /\ FdSame(e) /\ e.o < op.o + op.l /\ op.o < e.o + e.l, "C10 a held range is not locked")
       \cup E(k = "il" /\ real /\ r = 1 /\ a \notin saw /\ deaths = 0, "C10 a free range is locked")

\* calls which make sense: a process is forked once, a path becomes (un)reachable in turn
Sense(op) == CASE op.k = "fork" -> nc[op.v] = -1
               [] op.k = "reach" -> ~Reach(op.n)
               [] op.k = "unreach" -> Reach(op.n)
               [] OTHER -> TRUE
Called(a, op) == nc' = IF op.k = "fork" THEN [nc EXCEPT ![a] = @ + 1, ![op.v] = 0] ELSE [nc EXCEPT ![a] = @ + 1]
MCall(a) ==
  /\ nc[a] >= 0 /\ nc[a] < C.k[a]
  /\ \E j \in 1..NM(a) :
     LET i == nc[a] * NM(a) + j IN
     /\ Sense(C.acts[a][i])
     /\ Call(a, i) /\ GCall(a, i)
     /\ Called(a, C.acts[a][i])
  /\ UNCHANGED deaths
MRet(a) ==
  /\ pend[a].st = "done"
  /\ Ret(a, pend[a].res) /\ GRet(a, pend[a].res)
  /\ UNCHANGED <<nc, deaths>>
\* a signal which finds a living waiter will wake somebody
GDue(a) == IF Op(a).k = "cs" /\ pend[a].st = "run" /\ cnd' /= cnd /\ UCond(a) \in DOMAIN cnd /\ (\E j \in DOMAIN cnd[UCond(a)] : cnd[UCond(a)][j].st = "W" /\ cnd[UCond(a)][j].a \in live)
           THEN Add(due, UCond(a), 1) ELSE due
MStep(a) ==
  /\ Internal(a)
  /\ due' = GDue(a)
  /\ saw' = saw \cup SawNow
  /\ UNCHANGED <<nc, deaths, hm, hr, ho, gone, sent, err>>
MRecover ==
  /\ Recover /\ saw' = saw \cup SawNow
  /\ UNCHANGED <<nc, deaths, hm, hr, ho, gone, due, sent, err>>
Forget(S) ==
  /\ hm' = [x \in {y \in DOMAIN hm : y[1] \notin S} |-> hm[x]]
  /\ hr' = {e \in hr : e.a \notin S} /\ ho' = {e \in ho : e.a \notin S}
  /\ gone' = [a \in Actors |-> IF a \in S THEN NoGone ELSE gone[a]]
MDie ==
  /\ deaths < C.deaths
  /\ deaths' = deaths + 1
  /\ \/ \E p \in RangeOf(C.mortal) : ActorsOf(p) \cap live /= {} /\ Die(p) /\ Forget(ActorsOf(p))
     \/ \E a \in RangeOf(C.ending) : ThreadEnd(a) /\ Forget({a})
  /\ saw' = saw \cup SawNow
  /\ UNCHANGED <<nc, due, sent, err>>
MTick ==
  /\ \E a \in live : pend[a].st /= "idle" /\ pend[a].dl > now /\ Tick(pend[a].dl)
  /\ UNCHANGED <<nc, deaths, hm, hr, ho, gone, due, sent, err>> /\ saw' = saw \cup SawNow

MNext == (\E a \in Actors : MCall(a) \/ MRet(a) \/ MStep(a)) \/ MRecover \/ MDie \/ MTick
MSpec == MInit /\ [][MNext]_mvars

(* ---------------------------------------------------------------------- *)
(* Properties, over what the users have seen                              *)
(* ---------------------------------------------------------------------- *)
NoErr == err = {}
\* C01, C20: at most one live thread has a mutex
MutexExclusion == \A x, y \in DOMAIN hm : x[2] = y[2] /\ x[3] = y[3] => x = y
\* C02, C03: the levels are known by the system, nobody loses a mutex
MutexKept == \A x \in DOMAIN hm : LET k == <<x[2], x[3]>> IN
               att[P(x[1])] = x[2] => k \in DOMAIN mtx /\ mtx[k].own = x[1] /\ mtx[k].cnt >= hm[x]
\* C05, C18, C20
InForce(e) == att[P(e.a)] = e.sp /\ FdSame(e)
RwExclusion == \A x, y \in hr \cup ho :
                 x /= y /\ x.sp = y.sp /\ x.f = y.f /\ x.o < y.o + y.l /\ y.o < x.o + x.l /\ (x.m = "w" \/ y.m = "w") /\ InForce(x) /\ InForce(y)
                 => x.a = y.a /\ x \in ho /\ y \in ho
\* C07, C08: locks in force are not lost
RwKept == /\ \A x \in hr : InForce(x) => \E e \in lk : e.g /\ e.a = x.a /\ e.sp = x.sp /\ e.fd = x.fd /\ e.f = x.f /\ e.o = x.o /\ e.l = x.l /\ e.m = x.m
          /\ \A x \in ho : InForce(x) => \E e \in lk : e.g /\ e.a = x.a /\ e.sp = x.sp /\ e.f = x.f /\ e.o < x.o + x.l /\ x.o < e.o + e.l /\ (x.m = "w" => e.m = "w")
\* C09: capacities are kept, and nothing is left when nobody has or does anything
Capacity == \A s \in 1..Len(spc) : NFile(s) <= Caps(s)[1] /\ NOff(s) <= Caps(s)[2] /\ NLkr(s) <= Caps(s)[3] /\ NMtx(s) <= Caps(s)[4] /\ NCnd(s) <= Caps(s)[5] /\ NWtr(s) <= Caps(s)[6]
NoLeak == (deaths = 0 /\ (\A a \in Actors : \A i \in 1..C.menu[a] : C.acts[a][i].k /= "close") /\ (\A a \in Actors : pend[a].st = "idle") /\ hr = {} /\ ho = {})
          => /\ lk = {} /\ \A k \in DOMAIN cnd : cnd[k] = << >>
             /\ (\A p \in Procs : mode[p].free = 1) => fls = {} /\ offs = {}
             /\ (\A p \in Procs : mode[p].free = 2) => offs = {}
\* C11: nobody wakes without a signal, and no signal which had a waiter is lost
NoFalseWake == \A k \in DOMAIN sent : sent[k] >= 0
\* C14: one lock space for all which are attached to one file
OneSpace == \A p, q \in Procs : att[p] /= 0 /\ att[q] /= 0 /\ mode[p].file = mode[q].file /\ spc[att[p]].v = spc[att[q]].v /\ spc[att[p]].v = Ver(mode[p].file) => att[p] = att[q]
\* Progress(C01, C03, C06, C08, C18): when nothing can move, every blocked call is blocked by a lock of a living thread
Moves == (\E a \in Actors : ENABLED MRet(a) \/ ENABLED MStep(a)) \/ ENABLED MRecover
Stuck == ~Moves
NobodyForgotten == AllBlocked \/ Moves
MutexProgress == Stuck => \A a \in live : pend[a].st = "try" /\ Op(a).k = "ml" /\ High(a)
                   => \E x \in DOMAIN hm : x[1] /= a /\ x[1] \in live /\ x[2] = Sp(a) /\ x[3] = Full(Op(a).n)
WaitProgress == Stuck => \A a \in live : pend[a].st = "k5" /\ High(a)
                   => \E x \in DOMAIN hm : x[1] /= a /\ x[1] \in live /\ x[2] = Sp(a) /\ x[3] = Full(Op(a).n)
RwProgress == Stuck => \A a \in live : pend[a].st = "wait" /\ High(a) /\ FdOk(P(a), Op(a).fd) /\ (Op(a).k \in {"rl", "wl"} \/ IsObjLock(Op(a).k))
                   => \E e \in hr \cup ho : e.a \in live /\ e.sp = Sp(a) /\ e.f = FileOf(P(a), Op(a).fd) /\ InForce(e) /\ e.o < Op(a).o + Op(a).l /\ Op(a).o < e.o + e.l
                                            /\ (e.m = "w" \/ OpMode(Op(a).k) = "w") /\ (IsObjLock(Op(a).k) => e.a /= a \/ e \in hr)
\* C11: signals which had a living waiter have woken somebody
SignalsArrive == Stuck /\ deaths = 0 /\ (\A a \in live : pend[a].st = "idle") => \A k \in DOMAIN due : due[k] <= 0
\* C19: nothing of the dead is left when the system is at rest
Recovered == Stuck => \A p \in Procs : att[p] /= 0 /\ Robust(att[p]) =>
               /\ \A k \in KeysIn(mtx, att[p]) : mtx[k].own = 0 \/ Alive(mtx[k].own)
               /\ \A e \in lk : e.sp = att[p] => Valid(e) \/ (e.a \in live /\ ~e.g)
=============================================================================
