------------------------------ MODULE Fullock ------------------------------
(***************************************************************************)
(* Abstract specification of fullock: named mutexes, reader/writer locks   *)
(* on file ranges, named conditions and recursive lock objects which live  *)
(* in a lock space(a shared file), and the life of the processes which are *)
(* attached to it(attach, exit, crash, fork, reconfiguration).             *)
(*                                                                         *)
(* The state is what a user can know about the system: who owns what, who  *)
(* is waiting, how much of each resource is in use.  An API call is a      *)
(* CALL, some internal steps(each of them atomic) and a RET.  A thread or  *)
(* process may die between any two steps.                                  *)
(*                                                                         *)
(* The same module is used by FullockTrace(conformance of the real code)   *)
(* and FullockMC(exhaustive checking of the design).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT CfgOf(_)        \* configuration(program) number -> record

VARIABLES
  t,      \* which configuration this behaviour belongs to
  live,   \* living threads
  pend,   \* actor -> operation in progress
  att,    \* process -> lock space(0: not attached)
  spc,    \* lock spaces: sequence of [file, version, caps, perm]
  mtx,    \* <<space, key>> -> [own, cnt]
  cnd,    \* <<space, key>> -> sequence of waiters [a, i, st]
  lk,     \* lockers(waiting or granted) of reader/writer locks
  offs,   \* range objects in use
  fls,    \* file objects in use
  rcs,    \* recursive lock objects which hold a range
  fdm,    \* <<process, descriptor>> -> file
  mode,   \* process -> configuration
  dmg,    \* deaths in the middle of an operation(what may be leaked)
  fsd,    \* environment: versions and reachability of shared files
  now     \* virtual time(us)

vars == <<t, live, pend, att, spc, mtx, cnd, lk, offs, fls, rcs, fdm, mode, dmg, fsd, now>>

EPERM == 1
EBUSY == 16
EINVAL == 22
ENOLCK == 37
ETIMEDOUT == 110

C == CfgOf(t)
NA == Len(C.po)
Actors == 1..NA
Procs == 1..C.np
P(a) == C.po[a]
Op(a) == C.acts[a][pend[a].i]
ActorsOf(p) == {a \in Actors : C.po[a] = p}
NOFILE == "~nofd"
NULLNAME == "~"

(* ---------------------------------------------------------------------- *)
(* Helpers                                                                *)
(* ---------------------------------------------------------------------- *)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumN(_)
SumN(S) == IF S = {} THEN 0 ELSE LET e == CHOOSE x \in S : TRUE IN e.n + 1 + SumN(S \ {e})

\* Identity of names(C20): only the first 63 characters are significant
MAXNAME == 63
Key(n) == IF Len(n) > MAXNAME THEN SubSeq(n, 1, MAXNAME) ELSE n

\* Ranges: [o, o + l)
Overlap(o1, l1, o2, l2) == IF o1 <= o2 THEN o2 - o1 < l1 ELSE o1 - o2 < l2

Idle == [st |-> "idle", i |-> 0, dl |-> -1, res |-> 0, m |-> "", u |-> FALSE, hi |-> FALSE]
Sp(a) == att[P(a)]
Mode(a) == mode[P(a)]
Retry(m) == m.nomap \in {2, 3}
Allow(m) == m.nomap \in {0, 2}
NoShm(a) == IF Allow(Mode(a)) THEN 0 ELSE ENOLCK

Caps(sp) == spc[sp].caps
KeysIn(f, sp) == {k \in DOMAIN f : k[1] = sp}
RECURSIVE SeqSum(_, _)
SeqSum(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN Len(f[k]) + SeqSum(f, S \ {k})

\* Amount of each resource in use
NFile(sp) == Cardinality({x \in fls : x.sp = sp})
NOff(sp) == Cardinality({x \in offs : x.sp = sp})
NLkr(sp) == Cardinality({x \in lk : x.sp = sp})
NMtx(sp) == Cardinality(KeysIn(mtx, sp))
NCnd(sp) == Cardinality(KeysIn(cnd, sp))
NWtr(sp) == SeqSum(cnd, KeysIn(cnd, sp))
\* What a death in the middle of an operation may have taken away for ever
Dmg(sp, cl) == {d \in dmg : d.sp = sp /\ d.cl \in cl}
LFile(sp) == Cardinality(Dmg(sp, {"rw"}))
LOff(sp) == SumN(Dmg(sp, {"rw"}))
LLkr(sp) == SumN(Dmg(sp, {"rw"}))
LMtx(sp) == Cardinality(Dmg(sp, {"m"}))
LCnd(sp) == Cardinality(Dmg(sp, {"c"}))

Alive(a) == a \in live

\* The file which a descriptor refers to
FdOk(p, fd) == fd < 0 \/ <<p, fd>> \in DOMAIN fdm
FileOf(p, fd) == IF fd < 0 THEN NOFILE ELSE fdm[<<p, fd>>]

\* A locker is in force only while its thread lives and its descriptor is open
Valid(e) == /\ e.a \in live
            /\ \/ e.fd < 0
               \/ <<P(e.a), e.fd>> \in DOMAIN fdm /\ fdm[<<P(e.a), e.fd>>] = e.f

ConflictSet(e) == {x \in lk : x.g /\ x.id /= e.id /\ x.sp = e.sp /\ x.f = e.f /\ Overlap(x.o, x.l, e.o, e.l) /\ (x.m = "w" \/ e.m = "w")}

(* Known findings(KNOWN_FINDINGS): only for telling a known deviation from a new one, see C.kf.
   A death between taking the lock word of a range and marking the locker leaks the word("g": ghost),
   a death between releasing the word and removing the locker makes recovery release twice("x"). *)
GhostConf(e) == {d \in dmg : d.cl = "g" /\ d.sp = e.sp /\ d.f = e.f /\ d.ob = e.ob /\ (d.m = "w" \/ e.m = "w")}
Released2(e) == \E d \in dmg : d.cl = "x" /\ d.sp = e.sp /\ d.f = e.f

SetP(a, r) == pend' = [pend EXCEPT ![a] = r]
Goto(a, st) == pend' = [pend EXCEPT ![a].st = st]
Done(a, res) == pend' = [pend EXCEPT ![a].st = "done", ![a].res = res]

(* ---------------------------------------------------------------------- *)
(* Shared file and attaching(C14 - C17)                                   *)
(* ---------------------------------------------------------------------- *)
Ver(f) == IF f \in DOMAIN fsd THEN fsd[f].v ELSE 0
Reach(f) == f /= "" /\ (f \in DOMAIN fsd => fsd[f].ok)
AttachedTo(sp) == {p \in DOMAIN att : att[p] = sp}
SpaceOf(f) == {s \in 1..Len(spc) : spc[s].file = f /\ spc[s].v = Ver(f) /\ AttachedTo(s) /= {}}
\* Permissions of the file(C17): who makes it decides by FLCKUMASK(0 - 0776), it is not changed afterwards
UmaskOf(p) == LET u == C.env[p].umask IN IF 0 <= u /\ u < 511 THEN u ELSE 0
RwOf(d) == (IF d % 8 >= 4 THEN 0 ELSE 4) + (IF d % 4 >= 2 THEN 0 ELSE 2)
PermBy(u) == 64 * RwOf(u \div 64) + 8 * RwOf((u \div 8) % 8) + RwOf(u % 8)
MadeOf(f) == {s \in 1..Len(spc) : spc[s].file = f /\ spc[s].v = Ver(f)}
PermOf(p, f) == IF MadeOf(f) /= {} THEN spc[CHOOSE s \in MadeOf(f) : TRUE].perm ELSE PermBy(UmaskOf(p))
\* the library leaves the umask of the process as it is
PermRes(n) == IF n = "-" THEN 18 ELSE IF MadeOf(n) = {} THEN -1 ELSE spc[CHOOSE s \in MadeOf(n) : TRUE].perm
\* The environment lets a step of attaching fail(C16, C17): whether process p takes that step
FaultHits(p, m) == CASE m.flt \in {"open", "map"} -> TRUE
                     [] m.flt \in {"trunc", "write"} -> SpaceOf(m.file) = {}
                     [] m.flt = "thread" -> m.robust /= 0
                     [] OTHER -> FALSE
NewSpace(p, m) == [file |-> m.file, v |-> Ver(m.file), caps |-> m.caps, perm |-> PermOf(p, m.file)]
\* New values of <<att, spc, fault>> when process p attaches to its configured file
AttachRes(p, m) ==
  IF ~Reach(m.file) THEN <<[att EXCEPT ![p] = 0], spc, IF m.file /= "" /\ m.flt = "open" THEN "" ELSE m.flt>>
  ELSE IF FaultHits(p, m)
  THEN \* a file may be left, but nobody is attached to it
       <<[att EXCEPT ![p] = 0], IF m.flt = "open" \/ MadeOf(m.file) /= {} THEN spc ELSE Append(spc, NewSpace(p, m)), "">>
  ELSE LET ss == SpaceOf(m.file) IN
       IF ss /= {} THEN <<[att EXCEPT ![p] = CHOOSE s \in ss : TRUE], spc, m.flt>>
       ELSE <<[att EXCEPT ![p] = Len(spc) + 1], Append(spc, NewSpace(p, m)), m.flt>>

DefCaps == <<128, 8192, 8192, 256, 256, 8192>>
MinCaps == <<1, 4, 4, 1, 1, 4>>
MaxCaps == <<2048, 16384, 16384, 8192, 8192, 16384>>
CapOk(i, v) == MinCaps[i] <= v /\ v <= MaxCaps[i]

\* Environment variables(C17): the values are given as they are written
IsYes(s) == s \in {"YES", "yes", "Yes", "yEs"}
IsNo(s) == s \in {"NO", "no", "No", "nO"}
EnvRobust(s, d) == IF IsNo(s) THEN 0 ELSE IF s \in {"LOW", "low", "Low"} THEN 1 ELSE IF s \in {"HIGH", "high", "High"} THEN 2 ELSE d
EnvNomap(s, d) == CASE s \in {"ALLOW_NORETRY", "allow_noretry"} -> 0
                    [] s \in {"DENY_NORETRY", "deny_noretry"} -> 1
                    [] s \in {"ALLOW_RETRY", "allow_retry"} -> 2
                    [] s \in {"DENY_RETRY", "deny_retry"} -> 3
                    [] s \in {"ALLOW", "allow"} -> 0
                    [] s \in {"DENY", "deny"} -> 1
                    [] OTHER -> d
EnvFree(s, d) == CASE IsNo(s) -> 0
                   [] s \in {"FD", "fd"} -> 1
                   [] s \in {"OFFSET", "offset"} -> 2
                   [] s \in {"ALWAYS", "always"} -> 1
                   [] OTHER -> d
EnvCap(e, i) == IF CapOk(i, e.caps[i]) THEN e.caps[i] ELSE DefCaps[i]
ModeEnv(p, m) == LET e == C.env[p] IN
  [m EXCEPT !.robust = EnvRobust(e.robust, m.robust), !.nomap = EnvNomap(e.nomap, m.nomap), !.free = EnvFree(e.free, m.free)]

\* Initialisation at the first call of a process(not with FLCKAUTOINIT=NO)
ModeFirst(p) == LET e == C.env[p]
                    m == ModeEnv(p, mode[p]) IN
  [m EXCEPT !.init = TRUE, !.file = IF IsNo(e.auto) THEN "" ELSE e.file, !.caps = [i \in 1..6 |-> EnvCap(e, i)]]

IsLockOp(k) == k \in {"ml", "mt", "mT", "mu", "rl", "rt", "rT", "wl", "wt", "wT", "u", "il", "cw", "cT", "cs", "cb", "bm", "bo", "bl", "bc", "bf", "or", "ow", "oR", "oW", "xr", "xw", "ou", "od"}
IsORead(k) == k \in {"or", "oR", "xr"}
IsOWrite(k) == k \in {"ow", "oW", "xw"}
IsObjLock(k) == IsORead(k) \/ IsOWrite(k)
\* the answer of a lock object(its constructor has none)
OAns(k, r) == IF k \in {"xr", "xw"} THEN 0 ELSE r
IsApiOp(k) == IsLockOp(k) \/ k \in {"init", "robust", "nomap", "free", "chk"}

\* "call": first use of the library in this process
FirstUse(a) ==
  /\ pend[a].st = "call"
  /\ LET p == P(a)
         m == ModeFirst(p)
         r == AttachRes(p, m) IN
     /\ mode' = [mode EXCEPT ![p] = [m EXCEPT !.flt = IF m.file = "" THEN m.flt ELSE r[3]]]
     /\ IF m.file = "" THEN UNCHANGED <<att, spc>> ELSE att' = r[1] /\ spc' = r[2]
  /\ Goto(a, "ent")
  /\ UNCHANGED <<live, mtx, cnd, lk, offs, fls, rcs, fdm, dmg, fsd>>

\* "ent": the retry modes try to attach before a lock call
Enter(a) ==
  /\ pend[a].st = "ent"
  /\ LET p == P(a) IN
     IF IsLockOp(Op(a).k) /\ att[p] = 0 /\ Retry(mode[p])
     THEN LET r == AttachRes(p, mode[p]) IN att' = r[1] /\ spc' = r[2] /\ mode' = [mode EXCEPT ![p].flt = r[3]]
     ELSE UNCHANGED <<att, spc, mode>>
  /\ Goto(a, "run")
  /\ UNCHANGED <<live, mtx, cnd, lk, offs, fls, rcs, fdm, dmg, fsd>>

\* fullock_reinitialize(_ex)
BoolRes(b) == IF b THEN 0 ELSE 1
InitOk(op) == op.ok /\ (\A i \in 1..6 : op.caps[i] = 0 \/ CapOk(i, op.caps[i]))
InitConf(p, op) == LET m == ModeEnv(p, mode[p]) IN
  [m EXCEPT !.file = IF op.n = "" \/ op.n = NULLNAME THEN C.env[p].file ELSE op.n,
            !.caps = [i \in 1..6 |-> IF op.caps[i] = 0 THEN EnvCap(C.env[p], i) ELSE op.caps[i]]]
InitOp(a) ==
  LET p == P(a)
      op == Op(a) IN
  \/ /\ pend[a].st = "run" /\ op.k = "init"
     /\ IF InitOk(op)
        THEN /\ att' = [att EXCEPT ![p] = 0]
             /\ mode' = [mode EXCEPT ![p] = InitConf(p, op)]
             /\ Goto(a, "at")
        ELSE Done(a, 1) /\ UNCHANGED <<att, mode>>
     /\ UNCHANGED <<live, spc, mtx, cnd, lk, offs, fls, rcs, fdm, dmg, fsd>>
  \/ /\ pend[a].st = "at"
     /\ LET r == AttachRes(p, mode[p]) IN
        /\ att' = r[1] /\ spc' = r[2] /\ mode' = [mode EXCEPT ![p].flt = r[3]]
        /\ Done(a, BoolRes(r[1][p] /= 0))
     /\ UNCHANGED <<live, mtx, cnd, lk, offs, fls, rcs, fdm, dmg, fsd>>

\* Mode setters
SetOp(a) ==
  LET p == P(a)
      op == Op(a) IN
  /\ pend[a].st = "run" /\ op.k \in {"robust", "nomap", "free", "chk", "fault"}
  /\ mode' = CASE op.k = "robust" -> [mode EXCEPT ![p].robust = op.v]
               [] op.k = "nomap" -> [mode EXCEPT ![p].nomap = op.v]
               [] op.k = "free" -> [mode EXCEPT ![p].free = op.v]
               [] op.k = "fault" -> [mode EXCEPT ![p].flt = op.n]
               [] OTHER -> mode
  /\ Done(a, IF op.k = "chk" THEN BoolRes(mode[p].robust = 2 /\ op.v >= 50) ELSE 0)
  /\ UNCHANGED <<live, att, spc, mtx, cnd, lk, offs, fls, rcs, fdm, dmg, fsd>>

\* fork: the child is another lock owner, it has the lock space, the
\* configuration and the descriptors of its parent, but none of its locks
ForkOp(a) ==
  /\ pend[a].st = "run" /\ Op(a).k = "fork"
  /\ LET c == Op(a).v
         p == P(a)
         q == P(c) IN
     /\ live' = live \cup {c}
     /\ att' = [att EXCEPT ![q] = att[p]]
     /\ mode' = [mode EXCEPT ![q] = mode[p]]
     /\ fdm' = LET mine == {k \in DOMAIN fdm : k[1] = p} IN
               [x \in DOMAIN fdm \cup {<<q, k[2]>> : k \in mine} |-> IF x[1] = q THEN fdm[<<p, x[2]>>] ELSE fdm[x]]
     /\ Done(a, 0)
  /\ UNCHANGED <<spc, mtx, cnd, lk, offs, fls, rcs, dmg, fsd>>

\* Descriptors and files(environment of the library)
FdOp(a) ==
  LET p == P(a)
      op == Op(a)
      k == <<p, op.fd>> IN
  /\ pend[a].st = "run" /\ op.k \in {"open", "close", "dup", "reach", "unreach", "garbage", "perm"}
  /\ CASE op.k = "open" -> fdm' = Put(fdm, k, op.f) /\ Done(a, 0) /\ UNCHANGED fsd
       [] op.k = "dup" -> fdm' = Put(fdm, k, fdm[<<p, op.v>>]) /\ Done(a, 0) /\ UNCHANGED fsd
       [] op.k = "close" -> fdm' = [x \in DOMAIN fdm \ {k} |-> fdm[x]] /\ Done(a, IF k \in DOMAIN fdm THEN 0 ELSE -1) /\ UNCHANGED fsd
       [] op.k = "unreach" -> fsd' = Put(fsd, op.n, [ok |-> FALSE, v |-> Ver(op.n) + 1]) /\ Done(a, 0) /\ UNCHANGED fdm
       [] op.k = "reach" -> fsd' = Put(fsd, op.n, [ok |-> TRUE, v |-> Ver(op.n)]) /\ Done(a, 0) /\ UNCHANGED fdm
       [] op.k = "perm" -> Done(a, PermRes(op.n)) /\ UNCHANGED <<fdm, fsd>>
       [] OTHER -> Done(a, 0) /\ UNCHANGED <<fdm, fsd>>
  /\ UNCHANGED <<live, att, spc, mtx, cnd, lk, offs, fls, rcs, mode, dmg>>

(* ---------------------------------------------------------------------- *)
(* Named mutex(C01 - C04)                                                 *)
(* ---------------------------------------------------------------------- *)
IsMLock(k) == k \in {"ml", "mt", "mT"}
IsTimed(k) == k \in {"mT", "rT", "wT", "cT"}
\* a timeout of 0 is a try(FLCK_TRY_TIMEOUT)
IsTry(op) == op.k \in {"mt", "rt", "wt"} \/ (op.k \in {"mT", "rT", "wT"} /\ op.us = 0)
\* a lock which waits until its deadline
Waits(a) == IsTimed(Op(a).k) /\ ~IsTry(Op(a)) /\ pend[a].dl >= 0
MUnch == UNCHANGED <<live, att, spc, cnd, lk, offs, fls, rcs, fdm, mode, dmg, fsd>>

\* looks up the name, it is made when it is used first
MutexLookup(a) ==
  LET sp == Sp(a)
      k == <<sp, Key(Op(a).n)>> IN
  /\ pend[a].st = "run" /\ IsMLock(Op(a).k)
  /\ IF Op(a).n = NULLNAME THEN Done(a, EINVAL) /\ UNCHANGED mtx
     ELSE IF sp = 0 THEN Done(a, NoShm(a)) /\ UNCHANGED mtx
     ELSE IF k \in DOMAIN mtx THEN Goto(a, "try") /\ UNCHANGED mtx
     ELSE \/ /\ NMtx(sp) < Caps(sp)[4]
             /\ mtx' = Put(mtx, k, [own |-> 0, cnt |-> 0])
             /\ Goto(a, "try")
          \/ /\ NMtx(sp) + LMtx(sp) >= Caps(sp)[4]
             /\ Done(a, ENOLCK) /\ UNCHANGED mtx
  /\ MUnch

MutexTry(a) ==
  LET op == Op(a)
      k == <<Sp(a), Key(op.n)>>
      x == mtx[k] IN
  /\ pend[a].st = "try" /\ IsMLock(op.k)
  /\ \/ /\ x.own \in {0, a}
        /\ mtx' = [mtx EXCEPT ![k] = [own |-> a, cnt |-> x.cnt + 1]]
        /\ Done(a, 0)
     \/ /\ x.own \notin {0, a} /\ IsTry(op)
        /\ Done(a, EBUSY) /\ UNCHANGED mtx
     \/ /\ x.own \notin {0, a} /\ Waits(a) /\ ~pend[a].u        \* it was seen that the lock is not free
        /\ pend' = [pend EXCEPT ![a].u = TRUE] /\ UNCHANGED mtx
     \/ /\ x.own \notin {0, a} \/ pend[a].u
        /\ Waits(a) /\ now >= pend[a].dl
        /\ Done(a, ETIMEDOUT) /\ UNCHANGED mtx
  /\ MUnch

\* one level of ownership is given back
Release1(k) == LET x == mtx[k] IN
  mtx' = [mtx EXCEPT ![k] = IF x.cnt <= 1 THEN [own |-> 0, cnt |-> 0] ELSE [own |-> x.own, cnt |-> x.cnt - 1]]

MutexUnlock(a) ==
  LET op == Op(a)
      sp == Sp(a)
      k == <<sp, Key(op.n)>> IN
  /\ pend[a].st = "run" /\ op.k = "mu"
  /\ IF op.n = NULLNAME THEN Done(a, EINVAL) /\ UNCHANGED mtx
     ELSE IF sp = 0 THEN Done(a, NoShm(a)) /\ UNCHANGED mtx
     ELSE IF k \notin DOMAIN mtx THEN Done(a, EINVAL) /\ UNCHANGED mtx
     ELSE IF mtx[k].own = 0 THEN Done(a, 0) /\ UNCHANGED mtx
     ELSE IF mtx[k].own = a THEN Release1(k) /\ Done(a, 0)
     ELSE Done(a, EPERM) /\ UNCHANGED mtx
  /\ MUnch

(* ---------------------------------------------------------------------- *)
(* Reader/writer locks(C04 - C10)                                         *)
(* ---------------------------------------------------------------------- *)
IsRead(k) == k \in {"rl", "rt", "rT"}
IsWrite(k) == k \in {"wl", "wt", "wT"}
IsRLock(k) == IsRead(k) \/ IsWrite(k)
RUnch == UNCHANGED <<live, att, spc, mtx, cnd, fdm, mode, dmg, fsd>>

\* The range object(a set of connected ranges) which covers a request
ObjOf(sp, f, o, l) == {x \in offs : x.sp = sp /\ x.f = f /\ Overlap(x.o, x.l, o, l)}
LkOfObj(S, x) == {e \in S : e.sp = x.sp /\ e.f = x.f /\ e.ob = <<x.o, x.l>>}
LkOfFile(S, sp, f) == {e \in S : e.sp = sp /\ e.f = f}

\* What is freed when the lockers become S: by FREE_FD files without lockers(and all of their ranges), and ranges
\* without lockers by others than FREE_NO. Only the range(object x) and file of the operation are considered.
FreedOffs(m, S, sp, f, xs) ==
  LET o1 == IF m.free = 0 THEN {} ELSE {x \in xs : LkOfObj(S, x) = {}}
      o2 == IF m.free = 1 /\ LkOfFile(S, sp, f) = {} THEN {x \in offs : x.sp = sp /\ x.f = f} ELSE {}
  IN o1 \cup o2
FreedFls(m, S, sp, f) == IF m.free = 1 /\ LkOfFile(S, sp, f) = {} THEN {[sp |-> sp, f |-> f]} ELSE {}

\* take a file, a range and a locker(all of them at once)
Enqueue(a, md, id, okst, frst) ==
  LET op == Op(a)
      sp == Sp(a)
      f == FileOf(P(a), op.fd)
      cp == Caps(sp)
      newf == [sp |-> sp, f |-> f] \notin fls
      xs == ObjOf(sp, f, op.o, op.l)
      newo == xs = {}
      x == IF newo THEN [sp |-> sp, f |-> f, o |-> op.o, l |-> op.l] ELSE CHOOSE y \in xs : TRUE
      fullf == newf /\ NFile(sp) + LFile(sp) >= cp[1]
      fullo == newo /\ NOff(sp) + LOff(sp) >= cp[2]
      fulll == NLkr(sp) + LLkr(sp) >= cp[3]
      canf == ~newf \/ NFile(sp) < cp[1]
      cano == ~newo \/ NOff(sp) < cp[2]
      canl == NLkr(sp) < cp[3]
  IN
  \/ /\ fullf
     /\ pend' = [pend EXCEPT ![a].st = frst, ![a].res = ENOLCK] /\ UNCHANGED <<lk, offs, fls>>
  \/ /\ canf /\ fullo
     /\ fls' = fls \cup {[sp |-> sp, f |-> f]}
     /\ pend' = [pend EXCEPT ![a].st = "cf", ![a].res = ENOLCK] /\ UNCHANGED <<lk, offs>>
  \/ /\ canf /\ cano /\ fulll
     /\ fls' = fls \cup {[sp |-> sp, f |-> f]}
     /\ offs' = offs \cup {x}
     /\ pend' = [pend EXCEPT ![a].st = "co", ![a].res = ENOLCK] /\ UNCHANGED lk
  \/ /\ canf /\ cano /\ canl
     /\ fls' = fls \cup {[sp |-> sp, f |-> f]}
     /\ offs' = offs \cup {x}
     /\ lk' = lk \cup {[id |-> id, a |-> a, sp |-> sp, fd |-> op.fd, f |-> f, o |-> op.o, l |-> op.l, m |-> md, g |-> FALSE, ob |-> <<x.o, x.l>>]}
     /\ pend' = [pend EXCEPT ![a].st = okst, ![a].m = md]

RwStart(a) ==
  LET op == Op(a) IN
  /\ pend[a].st = "run" /\ IsRLock(op.k)
  /\ IF Sp(a) = 0 \/ ~FdOk(P(a), op.fd) THEN Done(a, NoShm(a)) /\ UNCHANGED <<lk, offs, fls>>
     ELSE Enqueue(a, IF IsRead(op.k) THEN "r" ELSE "w", <<a, pend[a].i, 0>>, "wait", "done")
  /\ UNCHANGED rcs /\ RUnch

MyReq(a) == CHOOSE e \in lk : e.a = a /\ ~e.g

RwWait(a) ==
  LET op == Op(a)
      e == MyReq(a) IN
  /\ pend[a].st = "wait"
  /\ \/ /\ (ConflictSet(e) = {} /\ GhostConf(e) = {}) \/ Released2(e)
        /\ lk' = (lk \ {e}) \cup {[e EXCEPT !.g = TRUE]}
        /\ IF IsObjLock(op.k) THEN Goto(a, "oadd") ELSE Done(a, 0)
     \/ /\ (ConflictSet(e) /= {} \/ GhostConf(e) /= {}) /\ IsTry(op)
        /\ pend' = [pend EXCEPT ![a].st = "dq", ![a].res = EBUSY] /\ UNCHANGED lk
     \/ /\ (ConflictSet(e) /= {} \/ GhostConf(e) /= {}) /\ Waits(a) /\ ~pend[a].u
        /\ pend' = [pend EXCEPT ![a].u = TRUE] /\ UNCHANGED lk
     \/ /\ ConflictSet(e) /= {} \/ GhostConf(e) /= {} \/ pend[a].u
        /\ Waits(a) /\ now >= pend[a].dl
        /\ pend' = [pend EXCEPT ![a].st = "dq", ![a].res = ETIMEDOUT] /\ UNCHANGED lk
  /\ UNCHANGED <<offs, fls, rcs>> /\ RUnch

\* a failed request gives back its locker, range and file one by one
RwFail(a) ==
  LET op == Op(a)
      sp == Sp(a)
      f == FileOf(P(a), op.fd)
      xs == ObjOf(sp, f, op.o, op.l) IN
  \/ /\ pend[a].st = "dq"
     /\ lk' = lk \ {MyReq(a)}
     /\ Goto(a, "co")
     /\ UNCHANGED <<offs, fls, rcs>> /\ RUnch
  \/ /\ pend[a].st = "co"
     /\ offs' = IF Mode(a).free = 0 THEN offs ELSE {x \in offs : x \notin xs \/ LkOfObj(lk, x) /= {}}
     /\ Goto(a, "cf")
     /\ UNCHANGED <<lk, fls, rcs>> /\ RUnch
  \/ /\ pend[a].st = "cf"
     /\ offs' = offs \ FreedOffs([free |-> IF Mode(a).free = 1 THEN 1 ELSE 0], lk, sp, f, {})
     /\ fls' = fls \ FreedFls(Mode(a), lk, sp, f)
     /\ Done(a, IF IsObjLock(op.k) THEN OAns(op.k, 1) ELSE pend[a].res)
     /\ UNCHANGED <<lk, rcs>> /\ RUnch

\* the locks which the caller holds through this descriptor on this range
Held(a, fd, o, l) ==
  LET c == {e \in lk : e.a = a /\ e.g /\ e.sp = Sp(a) /\ e.fd = fd /\ e.f = FileOf(P(a), fd) /\ Overlap(e.o, e.l, o, l)}
      x == {e \in c : e.o = o /\ e.l = l}
  IN IF x /= {} THEN {CHOOSE e \in x : TRUE} ELSE c
DropLk(a, e) ==
  LET S == lk \ {e}
      xs == {x \in offs : x.sp = e.sp /\ x.f = e.f /\ <<x.o, x.l>> = e.ob} IN
  /\ lk' = S
  /\ offs' = offs \ FreedOffs(Mode(a), S, e.sp, e.f, xs)
  /\ fls' = fls \ FreedFls(Mode(a), S, e.sp, e.f)

RwUnlock(a) ==
  LET op == Op(a) IN
  /\ pend[a].st = "run" /\ op.k = "u"
  /\ IF Sp(a) = 0 \/ ~FdOk(P(a), op.fd) THEN Done(a, NoShm(a)) /\ UNCHANGED <<lk, offs, fls>>
     ELSE LET h == Held(a, op.fd, op.o, op.l) IN
          IF h = {} THEN Done(a, EINVAL) /\ UNCHANGED <<lk, offs, fls>>
          ELSE \E e \in h : DropLk(a, e) /\ Done(a, 0)
  /\ UNCHANGED rcs /\ RUnch

IsLockedOp(a) ==
  LET op == Op(a) IN
  /\ pend[a].st = "run" /\ op.k = "il"
  /\ IF Sp(a) = 0 THEN Done(a, IF Allow(Mode(a)) THEN 0 ELSE 1)
     ELSE IF ~FdOk(P(a), op.fd) THEN Done(a, 0)
     ELSE LET f == FileOf(P(a), op.fd)
              s == {e \in lk : e.sp = Sp(a) /\ e.f = f /\ Overlap(e.o, e.l, op.o, op.l)}
              held == {e \in s : e.g /\ Valid(e)} IN
          \/ held /= {} /\ Done(a, 1)
          \/ held = {} /\ s /= {} /\ Done(a, 1)
          \/ held = {} /\ Done(a, 0)
          \/ held = {} /\ (\E d \in Dmg(Sp(a), {"rw"}) : d.f = f) /\ Done(a, 1)
  /\ UNCHANGED <<lk, offs, fls, rcs>> /\ RUnch

(* ---------------------------------------------------------------------- *)
(* Recursive lock objects(C18)                                            *)
(* ---------------------------------------------------------------------- *)
ObjEnt(a, n) == {r \in rcs : r.a = a /\ r.obj = n}
Group(R, a, fd, o, l) == {r \in R : r.a = a /\ r.fd = fd /\ Overlap(r.o, r.l, o, l)}
\* object n of a does not hold its range any longer
ObjDrop(a, n, st, res) ==
  LET r == CHOOSE x \in ObjEnt(a, n) : TRUE
      R == rcs \ {r}
      h == Held(a, r.fd, r.o, r.l) IN
  /\ rcs' = R
  /\ IF Group(R, a, r.fd, r.o, r.l) = {} /\ h /= {} THEN DropLk(a, CHOOSE e \in h : TRUE) ELSE UNCHANGED <<lk, offs, fls>>
  /\ pend' = [pend EXCEPT ![a].st = st, ![a].res = res]

\* ReadLock and WriteLock of an object which is locked already leave the range alone
\* when it is locked strongly enough, or when others of the thread rely on it
ObjKeeps(a) ==
  LET op == Op(a)
      r == CHOOSE x \in ObjEnt(a, op.obj) : TRUE
      h == Held(a, r.fd, r.o, r.l)
      w == \E e \in h : e.m = "w" IN
  \/ op.k = "oR" /\ (~w \/ Group(rcs \ {r}, a, r.fd, r.o, r.l) /= {})
  \/ op.k = "oW" /\ w
ObjOp(a) ==
  LET op == Op(a) IN
  \/ /\ pend[a].st = "run" /\ op.k \in {"ou", "od"}
     /\ IF ObjEnt(a, op.obj) = {} THEN Done(a, 0) /\ UNCHANGED <<lk, offs, fls, rcs>>
        ELSE ObjDrop(a, op.obj, "done", 0)
     /\ RUnch
  \/ /\ pend[a].st = "run" /\ IsObjLock(op.k)
     /\ IF ObjEnt(a, op.obj) = {} THEN Goto(a, "o1") /\ UNCHANGED <<lk, offs, fls, rcs>>
        ELSE IF ObjKeeps(a) THEN Done(a, 0) /\ UNCHANGED <<lk, offs, fls, rcs>>
        ELSE ObjDrop(a, op.obj, "o1", 0)
     /\ RUnch
  \/ /\ pend[a].st = "o1"
     /\ IF Sp(a) = 0 \/ ~FdOk(P(a), op.fd)
        THEN Done(a, IF Allow(Mode(a)) THEN 0 ELSE OAns(op.k, 1)) /\ UNCHANGED <<lk, offs, fls>>
        ELSE LET h == Held(a, op.fd, op.o, op.l) IN
             IF h = {} THEN Enqueue(a, IF IsORead(op.k) THEN "r" ELSE "w", <<a, pend[a].i, 1>>, "wait", "cf")
             ELSE IF IsORead(op.k) \/ (CHOOSE e \in h : TRUE).m = "w" THEN Goto(a, "oadd") /\ UNCHANGED <<lk, offs, fls>>
             \* upgrade: the read lock is given back, then the write lock is taken
             ELSE DropLk(a, CHOOSE e \in h : TRUE) /\ Goto(a, "o1")
     /\ UNCHANGED rcs /\ RUnch
  \/ /\ pend[a].st = "oadd"
     /\ rcs' = rcs \cup {[a |-> a, obj |-> op.obj, fd |-> op.fd, o |-> op.o, l |-> op.l]}
     /\ Done(a, 0)
     /\ UNCHANGED <<lk, offs, fls>> /\ RUnch

(* ---------------------------------------------------------------------- *)
(* Named conditions(C11 - C13)                                            *)
(* ---------------------------------------------------------------------- *)
CUnch == UNCHANGED <<live, att, spc, lk, offs, fls, rcs, fdm, mode, dmg, fsd>>
IsWait(k) == k \in {"cw", "cT"}
CKey(a) == <<Sp(a), Key(Op(a).c)>>
MKey(a) == <<Sp(a), Key(Op(a).n)>>
WIdx(s, a) == CHOOSE j \in 1..Len(s) : s[j].a = a /\ s[j].i = pend[a].i
WDel(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))

CondWait(a) ==
  LET op == Op(a)
      sp == Sp(a)
      st == pend[a].st IN
  /\ IsWait(op.k)
  /\ \/ /\ st = "run"
        /\ IF op.c = NULLNAME THEN Done(a, EINVAL)
           ELSE IF sp = 0 THEN Done(a, NoShm(a))
           ELSE IF op.n = NULLNAME \/ MKey(a) \notin DOMAIN mtx THEN Done(a, EINVAL)
           ELSE IF mtx[MKey(a)].own /= a THEN Done(a, EPERM)
           ELSE Goto(a, "k1")
        /\ UNCHANGED <<mtx, cnd>>
     \/ /\ st = "k1"         \* the condition is made by the first wait
        /\ \/ /\ CKey(a) \in DOMAIN cnd /\ Goto(a, "k2") /\ UNCHANGED cnd
           \/ /\ CKey(a) \notin DOMAIN cnd /\ NCnd(sp) < Caps(sp)[5]
              /\ cnd' = Put(cnd, CKey(a), << >>) /\ Goto(a, "k2")
           \/ /\ CKey(a) \notin DOMAIN cnd /\ NCnd(sp) + LCnd(sp) >= Caps(sp)[5]
              /\ Done(a, ENOLCK) /\ UNCHANGED cnd
        /\ UNCHANGED mtx
     \/ /\ st = "k2"         \* the wait begins
        /\ \/ /\ NWtr(sp) < Caps(sp)[6]
              /\ cnd' = [cnd EXCEPT ![CKey(a)] = Append(@, [a |-> a, i |-> pend[a].i, st |-> "W"])]
              /\ Goto(a, "k3")
           \/ /\ NWtr(sp) + LCnd(sp) >= Caps(sp)[6]
              /\ Done(a, ENOLCK) /\ UNCHANGED cnd
        /\ UNCHANGED mtx
     \/ /\ st = "k3"         \* the mutex is released
        /\ Release1(MKey(a)) /\ Goto(a, "k4") /\ UNCHANGED cnd
     \/ /\ st = "k4"         \* a signal or the timeout
        /\ LET s == cnd[CKey(a)]
               j == WIdx(s, a) IN
           \/ /\ s[j].st = "U"
              /\ pend' = [pend EXCEPT ![a].st = "k5", ![a].res = 0] /\ UNCHANGED cnd
           \/ /\ s[j].st = "W" /\ op.k = "cT" /\ pend[a].dl >= 0 /\ now >= pend[a].dl
              /\ cnd' = [cnd EXCEPT ![CKey(a)][j].st = "T"]
              /\ pend' = [pend EXCEPT ![a].st = "k5", ![a].res = ETIMEDOUT]
        /\ UNCHANGED mtx
     \/ /\ st = "k5"         \* the mutex is taken again in both cases
        /\ mtx[MKey(a)].own \in {0, a}
        /\ mtx' = [mtx EXCEPT ![MKey(a)] = [own |-> a, cnt |-> mtx[MKey(a)].cnt + 1]]
        /\ Goto(a, "k6") /\ UNCHANGED cnd
     \/ /\ st = "k6"
        /\ cnd' = [cnd EXCEPT ![CKey(a)] = WDel(@, WIdx(@, a))]
        /\ pend' = [pend EXCEPT ![a].st = "done"]
        /\ UNCHANGED mtx
  /\ CUnch

\* the waiters which a signal skips because they are dead
Signal(a) ==
  LET op == Op(a)
      s == cnd[CKey(a)]
      rb == Mode(a).robust /= 0
      ws == {j \in 1..Len(s) : s[j].st = "W" /\ (~rb \/ Alive(s[j].a))}
      j0 == IF ws = {} THEN Len(s) + 1 ELSE CHOOSE j \in ws : \A h \in ws : j <= h
      s1 == [j \in 1..Len(s) |-> IF j = j0 THEN [s[j] EXCEPT !.st = "U"] ELSE s[j]]
      Keep(w) == ~(rb /\ w.st = "W" /\ ~Alive(w.a))
  IN cnd' = [cnd EXCEPT ![CKey(a)] = SelectSeq(SubSeq(s1, 1, IF j0 > Len(s) THEN Len(s) ELSE j0), Keep) \o SubSeq(s1, j0 + 1, Len(s))]

\* a broadcast wakes everyone who waits when it starts, one by one(it may die on the way)
Waiting(s) == {[a |-> s[j].a, i |-> s[j].i] : j \in {h \in 1..Len(s) : s[h].st = "W"}}
CondUp(a) ==
  LET op == Op(a)
      st == pend[a].st IN
  /\ op.k \in {"cs", "cb"}
  /\ \/ /\ st = "run"
        /\ IF op.c = NULLNAME THEN Done(a, EINVAL) /\ UNCHANGED cnd
           ELSE IF Sp(a) = 0 THEN Done(a, NoShm(a)) /\ UNCHANGED cnd
           ELSE IF CKey(a) \notin DOMAIN cnd THEN Done(a, EINVAL) /\ UNCHANGED cnd
           ELSE IF op.k = "cs" THEN Signal(a) /\ Done(a, 0)
           ELSE IF Waiting(cnd[CKey(a)]) = {} THEN Done(a, 0) /\ UNCHANGED cnd
           ELSE pend' = [pend EXCEPT ![a].st = "b1", ![a].res = Waiting(cnd[CKey(a)])] /\ UNCHANGED cnd
     \/ /\ st = "b1"
        /\ LET s == cnd[CKey(a)]
               left == pend[a].res \cap Waiting(s) IN
           IF left = {} THEN Done(a, 0) /\ UNCHANGED cnd
           ELSE \E w \in left :
                /\ cnd' = [cnd EXCEPT ![CKey(a)] = [j \in DOMAIN s |-> IF s[j].a = w.a /\ s[j].i = w.i THEN [s[j] EXCEPT !.st = "U"] ELSE s[j]]]
                /\ pend' = [pend EXCEPT ![a].res = left \ {w}]
  /\ UNCHANGED mtx /\ CUnch

(* ---------------------------------------------------------------------- *)
(* Recovery of what the dead have left(C03, C08, C13, C19)                *)
(* ---------------------------------------------------------------------- *)
\* A call which has begun in the high mode may still recover after the mode was changed, but must not be relied on.
Robust(sp) == \/ \E p \in Procs : att[p] = sp /\ mode[p].robust /= 0
              \/ \E a \in live : pend[a].st /= "idle" /\ pend[a].hi /\ Sp(a) = sp
RecMutex(k) ==
  /\ mtx[k].own /= 0 /\ ~Alive(mtx[k].own) /\ Robust(k[1])
  /\ mtx' = [mtx EXCEPT ![k] = [own |-> 0, cnt |-> 0]]
  /\ UNCHANGED <<t, live, pend, att, spc, cnd, lk, offs, fls, rcs, fdm, mode, dmg, fsd, now>>
RecLocker(e) ==
  /\ ~Valid(e) /\ Robust(e.sp)
  /\ ~(e.a \in live /\ ~e.g)            \* a waiting thread is not disturbed
  /\ lk' = lk \ {e}
  /\ UNCHANGED <<t, live, pend, att, spc, mtx, cnd, offs, fls, rcs, fdm, mode, dmg, fsd, now>>
\* ranges and files which are not used by anyone are collected after a death
RecObj ==
  \/ \E x \in offs : /\ LkOfObj(lk, x) = {} /\ Robust(x.sp) /\ (Actors \ live) /= {}
                     /\ offs' = offs \ {x} /\ UNCHANGED fls
                     /\ UNCHANGED <<t, live, pend, att, spc, mtx, cnd, lk, rcs, fdm, mode, dmg, fsd, now>>
  \/ \E x \in fls : /\ {y \in offs : y.sp = x.sp /\ y.f = x.f} = {} /\ Robust(x.sp) /\ (Actors \ live) /= {}
                    /\ fls' = fls \ {x} /\ UNCHANGED offs
                    /\ UNCHANGED <<t, live, pend, att, spc, mtx, cnd, lk, rcs, fdm, mode, dmg, fsd, now>>
RecWaiter(k) ==
  /\ Robust(k[1])
  /\ \E j \in 1..Len(cnd[k]) : ~Alive(cnd[k][j].a) /\ cnd' = [cnd EXCEPT ![k] = WDel(@, j)]
  /\ UNCHANGED <<t, live, pend, att, spc, mtx, lk, offs, fls, rcs, fdm, mode, dmg, fsd, now>>
Recover ==
  \/ \E k \in DOMAIN mtx : RecMutex(k)
  \/ \E e \in lk : RecLocker(e)
  \/ \E k \in DOMAIN cnd : RecWaiter(k)
  \/ C.gc /\ RecObj

\* Nothing of the dead is left(what the background recovery guarantees, C19)
Settled(sp) ==
  /\ \A k \in KeysIn(mtx, sp) : mtx[k].own = 0 \/ Alive(mtx[k].own)
  /\ \A e \in lk : e.sp = sp => Valid(e)

(* ---------------------------------------------------------------------- *)
(* Bulk probes: how much of a resource can be used at once(C09, C17)      *)
(* ---------------------------------------------------------------------- *)
\* They are called while nobody else calls anything.  The requests are made one by one until one fails, then all
\* of them are given back.  Leaks(of the dead) make the result uncertain: lf, lo, ll, ... are subtracted.
MinOf(S, d) == IF S = {} THEN d ELSE CHOOSE j \in S : \A h \in S : j <= h
\* the first of requests 1..n which can not be added, when only "room" of the requests "add" can
StopAt(add, n, room) ==
  IF Cardinality(add) <= room THEN n + 1
  ELSE IF room <= 0 THEN MinOf(add, n + 1)
  ELSE IF add = 1..n THEN room + 1
  ELSE CHOOSE j \in add : Cardinality({h \in add : h <= j}) = room + 1
BulkReqs(a) == LET op == Op(a) IN
  TLCEval(CASE op.k = "bo" -> [j \in 1..op.v |-> [f |-> FileOf(P(a), op.fd), o |-> op.o + 10 * (j - 1), m |-> "w"]]
    [] op.k = "bl" -> [j \in 1..op.v |-> [f |-> FileOf(P(a), op.fd), o |-> op.o, m |-> "r"]]
    [] OTHER -> [j \in 1..op.v |-> [f |-> op.names[j], o |-> 0, m |-> "w"]])
\* lf, lo, ll: what is leaked
SimRw(a, q, lf, lo, ll) ==
  LET sp == Sp(a)
      k == Op(a).k
      n == Len(q)
      cp == Caps(sp)
      newf == TLCEval({j \in 1..n : (k = "bf" \/ j = 1) /\ [sp |-> sp, f |-> q[j].f] \notin fls})
      newo == TLCEval({j \in 1..n : (k /= "bl" \/ j = 1) /\ ObjOf(sp, q[j].f, q[j].o, 10) = {}})
      sf == StopAt(newf, n, cp[1] - NFile(sp) - lf)
      so == StopAt(newo, n, cp[2] - NOff(sp) - lo)
      sl == Max2(cp[3] - NLkr(sp) - ll, 0) + 1
      sc == MinOf({j \in 1..n : \E e \in lk : e.g /\ e.sp = sp /\ e.f = q[j].f /\ Overlap(e.o, e.l, q[j].o, 10) /\ (e.m = "w" \/ q[j].m = "w")}
               \cup {j \in 1..n : \E d \in dmg : d.cl = "g" /\ d.sp = sp /\ d.f = q[j].f /\ Overlap(d.ob[1], d.ob[2], q[j].o, 10) /\ (d.m = "w" \/ q[j].m = "w")}, n + 1)
      st == MinOf({sf, so, sl, sc, n + 1}, 0)
      uf == IF st <= n /\ st /= sf THEN st ELSE st - 1          \* requests which got a file
      uo == IF st <= n /\ st /= sf /\ st /= so THEN st ELSE st - 1
  IN [n |-> st - 1, tf |-> uf, to |-> uo,
      fs |-> fls \cup {[sp |-> sp, f |-> q[j].f] : j \in newf \cap 1..uf},
      os |-> offs \cup {[sp |-> sp, f |-> q[j].f, o |-> q[j].o, l |-> 10] : j \in newo \cap 1..uo}]
BulkRw(a) ==
  LET sp == Sp(a)
      q == BulkReqs(a)
      hi == SimRw(a, q, 0, 0, 0)
      lo == IF Dmg(sp, {"rw"}) = {} THEN hi ELSE SimRw(a, q, LFile(sp), LOff(sp), LLkr(sp))
      fr == Mode(a).free IN
  \E r \in lo.n..hi.n :
    LET x == IF r = hi.n THEN hi ELSE SimRw(a, SubSeq(q, 1, r), 0, 0, 0)
        tf == {[sp |-> sp, f |-> q[j].f] : j \in 1..x.tf}
        to == UNION {{y \in x.os : y.sp = sp /\ y.f = q[j].f /\ Overlap(y.o, y.l, q[j].o, 10)} : j \in 1..(IF Op(a).k = "bl" /\ x.to > 1 THEN 1 ELSE x.to)}
        ef == IF fr = 1 THEN {y \in tf : LkOfFile(lk, sp, y.f) = {}} ELSE {}
        eo == IF fr = 0 THEN {} ELSE {y \in to : LkOfObj(lk, y) = {}} IN
    /\ fls' = x.fs \ ef
    /\ offs' = IF ef = {} THEN x.os \ eo ELSE {y \in x.os \ eo : [sp |-> y.sp, f |-> y.f] \notin ef}
    /\ Done(a, r)
  /\ UNCHANGED <<mtx, cnd>>

\* names of mutexes(tried one by one) and of conditions
\* ks: the names(they differ), dom: the names in use, f: the usable ones of them, room: how many can be added
SimName(ks, dom, f, room) ==
  LET n == Len(ks)
      add == {j \in 1..n : ks[j] \notin dom}
      bad == {j \in 1..n : ks[j] \in dom /\ ks[j] \notin f}
      stop == StopAt(add, n, room)
      first == MinOf(bad, n + 1)
  IN (IF first < stop THEN first ELSE stop) - 1
KeySeq(a) == LET op == Op(a) sp == Sp(a) IN TLCEval([j \in 1..Len(op.names) |-> <<sp, Key(op.names[j])>>])
Added(a, n) == {<<Sp(a), Key(Op(a).names[j])>> : j \in 1..n}
BulkM(a) ==
  LET op == Op(a)
      sp == Sp(a)
      fr == {k \in DOMAIN mtx : mtx[k].own \in {0, a}} IN
  \E r \in SimName(KeySeq(a), DOMAIN mtx, fr, Caps(sp)[4] - NMtx(sp) - LMtx(sp))..SimName(KeySeq(a), DOMAIN mtx, fr, Caps(sp)[4] - NMtx(sp)) :
    /\ mtx' = [x \in DOMAIN mtx \cup Added(a, r) |-> IF x \in DOMAIN mtx THEN mtx[x] ELSE [own |-> 0, cnt |-> 0]]
    /\ Done(a, r) /\ UNCHANGED <<cnd, offs, fls>>
BulkC(a) ==
  LET op == Op(a)
      sp == Sp(a)
      q == <<sp, Key(op.c)>> IN
  \/ /\ q \notin DOMAIN mtx /\ NMtx(sp) + LMtx(sp) >= Caps(sp)[4]
     /\ Done(a, -1) /\ UNCHANGED <<mtx, cnd, offs, fls>>
  \/ /\ q \in DOMAIN mtx \/ NMtx(sp) < Caps(sp)[4]
     /\ q \in DOMAIN mtx => mtx[q].own \in {0, a}
     /\ mtx' = IF q \in DOMAIN mtx THEN mtx ELSE Put(mtx, q, [own |-> 0, cnt |-> 0])
     /\ \E r \in SimName(KeySeq(a), DOMAIN cnd, DOMAIN cnd, Caps(sp)[5] - NCnd(sp) - LCnd(sp))..SimName(KeySeq(a), DOMAIN cnd, DOMAIN cnd, Caps(sp)[5] - NCnd(sp)) :
        \/ /\ NWtr(sp) < Caps(sp)[6]
           /\ cnd' = [x \in DOMAIN cnd \cup Added(a, r) |-> IF x \in DOMAIN cnd THEN cnd[x] ELSE << >>]
           /\ Done(a, r)
        \/ /\ NWtr(sp) + LCnd(sp) >= Caps(sp)[6]       \* only the condition is made
           /\ cnd' = [x \in DOMAIN cnd \cup Added(a, IF r = 0 THEN 0 ELSE 1) |-> IF x \in DOMAIN cnd THEN cnd[x] ELSE << >>]
           /\ Done(a, 0)
     /\ UNCHANGED <<offs, fls>>
Bulk(a) ==
  LET op == Op(a)
      sp == Sp(a) IN
  /\ pend[a].st = "run" /\ op.k \in {"bm", "bo", "bl", "bc", "bf"}
  /\ IF sp = 0 THEN Done(a, IF Allow(Mode(a)) THEN op.v ELSE 0) /\ UNCHANGED <<mtx, cnd, offs, fls>>
     ELSE CASE op.k = "bm" -> BulkM(a)
            [] op.k = "bc" -> BulkC(a)
            [] OTHER -> BulkRw(a)
  /\ UNCHANGED <<live, att, spc, lk, rcs, fdm, mode, dmg, fsd>>

(* ---------------------------------------------------------------------- *)
(* Steps                                                                  *)
(* ---------------------------------------------------------------------- *)
Internal(a) ==
  /\ a \in live /\ pend[a].st \notin {"idle", "done"}
  /\ \/ FirstUse(a) \/ Enter(a) \/ InitOp(a) \/ SetOp(a) \/ ForkOp(a) \/ FdOp(a)
     \/ MutexLookup(a) \/ MutexTry(a) \/ MutexUnlock(a)
     \/ RwStart(a) \/ RwWait(a) \/ RwFail(a) \/ RwUnlock(a) \/ IsLockedOp(a)
     \/ ObjOp(a)
     \/ CondWait(a) \/ CondUp(a)
     \/ Bulk(a)
  /\ UNCHANGED <<t, now>>

Call(a, i) ==
  LET op == C.acts[a][i]
      p == P(a) IN
  /\ a \in live /\ pend[a].st = "idle"
  /\ SetP(a, [st |-> IF ~IsApiOp(op.k) \/ (mode[p].init /\ (att[p] /= 0 \/ ~Retry(mode[p]))) THEN "run"
                     ELSE IF mode[p].init THEN "ent" ELSE "call",
              i |-> i,
              dl |-> IF IsTimed(op.k) /\ op.us /= -1 THEN now + (IF op.us < 0 THEN 0 ELSE op.us) ELSE -1,
              res |-> 0, m |-> "", u |-> FALSE, hi |-> mode[p].robust = 2])
  /\ UNCHANGED <<t, live, att, spc, mtx, cnd, lk, offs, fls, rcs, fdm, mode, dmg, fsd, now>>

Ret(a, r) ==
  /\ a \in live /\ pend[a].st = "done" /\ pend[a].res = r
  /\ SetP(a, Idle)
  /\ UNCHANGED <<t, live, att, spc, mtx, cnd, lk, offs, fls, rcs, fdm, mode, dmg, fsd, now>>

OpClass(k) == IF IsMLock(k) \/ k \in {"mu", "bm"} THEN "m" ELSE IF k \in {"cw", "cT", "cs", "cb", "bc"} THEN "c" ELSE "rw"
Damage(S) == {[id |-> a, sp |-> Sp(a), cl |-> OpClass(Op(a).k),
               f |-> IF OpClass(Op(a).k) = "rw" /\ "fd" \in DOMAIN Op(a) /\ FdOk(P(a), Op(a).fd) THEN FileOf(P(a), Op(a).fd) ELSE "",
               n |-> NOff(Sp(a)) + NLkr(Sp(a)), ob |-> <<0, 0>>, m |-> ""] : a \in {b \in S : pend[b].st /= "idle" /\ Sp(b) /= 0 /\ IsLockOp(Op(b).k)}}

KfGhost(a, e) == [id |-> a, sp |-> e.sp, cl |-> "g", f |-> e.f, n |-> 0, ob |-> e.ob, m |-> e.m]
KfOf(a) ==
  LET k == Op(a).k
      st == pend[a].st IN
  IF k \in {"u", "ou", "od"} /\ st /= "call" THEN
    LET fd == IF k = "u" THEN {Op(a).fd} ELSE {r.fd : r \in {x \in rcs : x.a = a}} \cup {e.fd : e \in {x \in lk : x.a = a}} IN
    {[id |-> a, sp |-> Sp(a), cl |-> "x", f |-> FileOf(P(a), d), n |-> 0, ob |-> <<0, 0>>, m |-> ""] : d \in {y \in fd : FdOk(P(a), y)}}
  ELSE IF st = "wait" THEN
    LET e == MyReq(a) IN IF ConflictSet(e) = {} THEN {KfGhost(a, e)} ELSE {KfGhost(a, x) : x \in {y \in ConflictSet(e) : ~Valid(y)}}
  ELSE IF st \in {"done", "oadd"} /\ (IsRLock(k) \/ IsObjLock(k)) THEN {KfGhost(a, e) : e \in {x \in lk : x.a = a /\ x.g}}
  ELSE {}
KfDmg(S) == IF C.kf THEN SUBSET UNION {KfOf(a) : a \in {b \in S : pend[b].st /= "idle" /\ Sp(b) /= 0}} ELSE {{}}

\* The process ends or is killed
Die(p) ==
  LET S == ActorsOf(p) \cap live IN
  /\ \E K \in KfDmg(S) :
       /\ dmg' = dmg \cup Damage(S) \cup K
       /\ lk' = lk \ {e \in lk : ~Valid(e) /\ \E d \in K : d.cl = "g" /\ e.g /\ KfGhost(d.id, e) = d /\ e.a /= d.id}
  /\ live' = live \ S
  /\ pend' = [a \in Actors |-> IF a \in S THEN Idle ELSE pend[a]]
  /\ att' = [att EXCEPT ![p] = 0]
  /\ fdm' = [x \in {k \in DOMAIN fdm : k[1] /= p} |-> fdm[x]]
  /\ UNCHANGED <<t, spc, mtx, cnd, offs, fls, rcs, mode, fsd, now>>

\* The thread ends(between its calls)
ThreadEnd(a) ==
  /\ a \in live /\ pend[a].st = "idle"
  /\ live' = live \ {a}
  /\ UNCHANGED <<t, pend, att, spc, mtx, cnd, lk, offs, fls, rcs, fdm, mode, dmg, fsd, now>>

Tick(n) ==
  /\ now' = n
  /\ UNCHANGED <<t, live, pend, att, spc, mtx, cnd, lk, offs, fls, rcs, fdm, mode, dmg, fsd>>

(* ---------------------------------------------------------------------- *)
(* Who may be blocked                                                     *)
(* ---------------------------------------------------------------------- *)
High(a) == pend[a].hi /\ Mode(a).robust = 2
TimeLeft(a) == pend[a].dl < 0 \/ now < pend[a].dl
BlockedOn(a, k) ==
  LET x == mtx[k] IN x.own \notin {0, a} /\ (High(a) => Alive(x.own))
Blocked(a) ==
  LET op == Op(a)
      st == pend[a].st IN
  \/ /\ st = "try" /\ op.k = "ml" /\ BlockedOn(a, MKey(a))
  \/ /\ st = "try" /\ op.k = "mT" /\ TimeLeft(a) /\ mtx[MKey(a)].own \notin {0, a}
  \/ /\ st = "wait" /\ (op.k \in {"rl", "wl"} \/ IsObjLock(op.k))
     /\ \/ \E e \in ConflictSet(MyReq(a)) : High(a) => Valid(e) \/ (e.a = a /\ e.fd = op.fd)     \* its own locks are not looked at
        \/ GhostConf(MyReq(a)) /= {}
  \/ /\ st = "wait" /\ IsTimed(op.k) /\ TimeLeft(a)
     /\ ConflictSet(MyReq(a)) /= {} \/ GhostConf(MyReq(a)) /= {}
  \/ /\ st = "k4" /\ TimeLeft(a) /\ LET s == cnd[CKey(a)] IN s[WIdx(s, a)].st = "W"
  \/ /\ st = "k5" /\ BlockedOn(a, MKey(a))
AllBlocked == \A a \in live : pend[a].st = "idle" \/ Blocked(a)

(* ---------------------------------------------------------------------- *)
(* Initial state                                                          *)
(* ---------------------------------------------------------------------- *)
InitState ==
  /\ live = {a \in Actors : ~C.forked[a]}
  /\ pend = [a \in Actors |-> Idle]
  /\ att = [p \in 0..C.np |-> IF C.fresh THEN 0 ELSE IF p = 0 THEN 1 ELSE IF \E a \in Actors : C.po[a] = p /\ ~C.forked[a] THEN 1 ELSE 0]
  /\ spc = IF C.fresh THEN << >> ELSE <<[file |-> "s0", v |-> 0, caps |-> C.caps, perm |-> 438]>>
  /\ mtx = << >> /\ cnd = << >>
  /\ lk = {} /\ offs = {} /\ fls = {} /\ rcs = {}
  /\ fdm = [x \in {<<e.p, e.fd>> : e \in C.fds} |-> (CHOOSE e \in C.fds : e.p = x[1] /\ e.fd = x[2]).f]
  /\ mode = [p \in 1..C.np |-> IF C.fresh THEN [init |-> FALSE, robust |-> 2, nomap |-> 0, free |-> 1, file |-> "", caps |-> DefCaps, flt |-> ""]
                               ELSE [init |-> TRUE, robust |-> C.robust, nomap |-> C.nomap, free |-> C.free, file |-> "s0", caps |-> C.caps, flt |-> ""]]
  /\ dmg = {} /\ fsd = << >> /\ now = 0
=============================================================================
