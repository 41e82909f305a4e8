--------------------------- MODULE FullockTrace ---------------------------
(***************************************************************************)
(* Conformance: histories recorded from the real code(harness/explore.cc)  *)
(* are behaviours of Fullock.  A history is accepted when internal steps   *)
(* can be put between its events so that every event is allowed.           *)
(*                                                                         *)
(* The histories of each program are merged into a tree(common prefixes    *)
(* are checked only once): node n is the event e(n), its history is the    *)
(* path from the root.  All leaves must be reached.                        *)
(***************************************************************************)
EXTENDS Fullock, Json, IOUtils, SequencesExt

VARIABLE nd

Data == JsonDeserialize(IOEnv.TRACEFILE)
RangeOf(s) == {s[j] : j \in 1..Len(s)}
Progs == [j \in 1..Len(Data.progs) |-> [Data.progs[j] EXCEPT !.fds = RangeOf(@)] @@ [kf |-> Data.kf]]
Nodes == Data.nodes          \* [e: event, c: children, u: parent(0: root), l: number of leaves below]
NN == Len(Nodes)
TraceCfg(n) == Progs[n]

tvars == <<vars, nd>>

\* roots of the programs are the first nodes
TInit == /\ t \in 1..Len(Progs) /\ nd = t /\ InitState

\* registers: 1: number of unreached leaves, 10 + n: unreached leaves below node n, 10 + NN + n: node n was reached
RECURSIVE Up(_)
Up(n) == IF n = 0 THEN TRUE ELSE TLCSet(10 + n, TLCGet(10 + n) - 1) /\ Up(Nodes[n].u)
Reach1(n) == IF TLCGet(10 + NN + n) THEN TRUE
             ELSE /\ TLCSet(10 + NN + n, TRUE)
                  /\ IF Nodes[n].c = << >> THEN TLCSet(1, TLCGet(1) - 1) /\ Up(n) ELSE TRUE

\* kinds of events: 1 CALL, 2 RET, 3 DEAD, 4 TX, 5 Q, 6 TICK, 7 END, 8 BAD, 10 SETTLED
Consume ==
  \E j \in 1..Len(Nodes[nd].c) :
  LET n == Nodes[nd].c[j]
      e == Nodes[n].e
      k == e[1] IN
  /\ TLCGet(10 + n) > 0
  /\ \/ k = 1 /\ Call(e[2], e[3] + 1)
     \/ k = 2 /\ Ret(e[2], e[4])
     \/ k = 3 /\ Die(e[2])
     \/ k = 4 /\ ThreadEnd(e[2])
     \/ k = 5 /\ AllBlocked /\ UNCHANGED vars
     \/ k = 6 /\ Tick(e[4])
     \/ k = 7 /\ UNCHANGED vars
     \/ k = 10 /\ (\A p \in Procs : att[p] /= 0 => Settled(att[p])) /\ UNCHANGED vars
  /\ nd' = n
  /\ Reach1(n)

\* Internal steps first(they are explored last), the events last(they are explored first)
TNext ==
  /\ TLCGet(10 + nd) > 0
  /\ \/ Recover /\ UNCHANGED nd
     \/ \E a \in Actors : Internal(a) /\ UNCHANGED nd
     \/ Consume

TSpec == TInit /\ [][TNext]_tvars

ASSUME /\ TLCSet(1, Data.leaves)
       /\ \A n \in 1..NN : TLCSet(10 + n, Nodes[n].l) /\ TLCSet(10 + NN + n, n <= Len(Progs))

\* the first event of a history which can not be explained
Report ==
  /\ PrintT(<<"UNREACHED", TLCGet(1), "OF", Data.leaves>>)
  /\ \A n \in 1..NN : TLCGet(10 + NN + n) \/ ~TLCGet(10 + NN + Nodes[n].u) \/ PrintT(<<"REJECTED", n>>)
=============================================================================
