#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the long lines stay reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe,hook_needed=None)))
L="lib/"
def m(name,where): return dict(name=name,where=L+where)
prop("C01","Named mutex mutual exclusion",
 "At any moment at most one live thread, in any process attached to the same lock space, owns a given named mutex: while one owns it no other thread's lock, trylock or timedlock on that name succeeds. A free mutex is always acquirable: a blocked locker never stays blocked once the owner has released it.",
 ["schedules","programs"],"every interleaving of lock/trylock/timedlock/unlock calls on any set of names by any number of threads and processes",
 "The mutex tests run one sequential script and a few mt/mp loops that never check the critical section's exclusivity; they sample a handful of the interleavings of the individual compare-and-swaps.",
 [L+"flckbaselist.tcc",L+"flcklistnmtx.cc",L+"flckshm.cc"],
 [m("compare-and-swap of the owner id into the lock word; lock/trylock/timedlock/unlock primitives","flckbaselist.tcc"),m("name lookup/creation under the list's spin id","flckshm.cc")],
 ["return values of fullock_mutex_lock/trylock/timedlock/unlock"])
prop("C02","Named mutex ownership and recursion",
 "A thread that already owns a named mutex can lock it again without blocking, and the mutex becomes free only when the owner has unlocked it as many times as it locked it. An unlock by any other thread fails with EPERM and changes nothing; unlocking a free mutex is harmless and unlocking a name that was never locked is EINVAL.",
 ["programs","schedules"],"every sequence of lock/trylock/timedlock/unlock calls by owners and non-owners, at every recursion depth, concurrent with other threads",
 "No test relocks a mutex it owns or unlocks one it does not own; recursion depth and the owner/non-owner race are unbounded.",
 [L+"flckbaselist.tcc",L+"flcklistnmtx.cc"],
 [m("recursion counter next to the owner word; unlock primitive","flckbaselist.tcc")],
 ["return values of the fullock_mutex_* calls"])
prop("C03","A dead owner's mutex is recovered, a live owner's never",
 "In high-robust mode, when a process or thread dies at any point - holding a named mutex, or inside any mutex call - a thread blocking on that mutex eventually acquires it, and every other mutex operation keeps working. A mutex owned by a live thread is never taken away from it by that recovery.",
 ["crash_points","schedules"],"death (SIGKILL, thread end, zombie or reaped) at every shared-memory access of every mutex operation, against every interleaving of the survivors",
 "The automatic-recover tests only let an owner exit cleanly while holding the lock (and are not stable here); none kills a process inside a call.",
 [L+"flcklistnmtx.cc",L+"flckbaselist.tcc",L+"flckutil.cc",L+"flckshm.cc"],
 [m("dead-owner scan after a bounded number of failed attempts; forced unlock","flcklistnmtx.cc"),m("takeover of the list spin id from a dead holder","flckbaselist.tcc"),m("thread/process liveness check through /proc","flckutil.cc")],
 ["return values of fullock_mutex_* in surviving processes"])
prop("C04","Try and timed acquisition",
 "A try acquisition never blocks and fails with EBUSY only if the lock really was held in a conflicting way during the call; a timed acquisition reports ETIMEDOUT never before its timeout has elapsed, only if it found the lock unavailable, and promptly once it has, whatever is done to the wall clock. A failed acquisition leaves no trace: it blocks nobody, consumes nothing and is not owned by the caller.",
 ["schedules","inputs","programs"],"every timeout value and clock reading (including sub-second and second boundaries), every interleaving with holders, for mutexes and reader/writer locks",
 "Tests use one 1 ms timeout each and check only that the call fails; nothing measures when it fails, tries under contention, or what is left behind.",
 [L+"flckbaselist.tcc",L+"flckutil.h",L+"flcklistofflock.cc",L+"flcklistfilelock.cc"],
 [m("timed/try primitives and timespec arithmetic","flckbaselist.tcc"),m("removal of the queued locker and its containers after a failure","flcklistofflock.cc")],
 ["return value and (virtual) time of return of every try*/timed* call"])
prop("C05","Reader/writer exclusion on overlapping file ranges",
 "Two locks on overlapping byte ranges of the same file are never held at the same time unless both are read locks, whichever threads, processes, descriptors or offsets they were taken through.",
 ["schedules","programs","inputs"],"every interleaving of rdlock/wrlock/try/timed/unlock calls over every set of files and byte ranges, under each free-unit mode",
 "The rwlock tests lock one whole range from a few loops; they neither cover interleavings inside a call nor ranges that overlap without being equal.",
 [L+"flcklistofflock.cc",L+"flcklistofflock.h",L+"flcklistfilelock.cc",L+"flckshm.cc",L+"flckbaselist.tcc"],
 [m("per-range lock word with reader count / writer mark","flckbaselist.tcc"),m("overlap comparison choosing the range object","flcklistofflock.h"),m("allocation and release of file and range objects under the file list's spin id","flcklistfilelock.cc")],
 ["return values of fullock_rwlock_*"])
prop("C06","Independence and progress of reader/writer locks",
 "Read locks on the same range are shared, and locks on disjoint ranges or different files never delay or fail each other. A blocked locker gets its lock once every conflicting holder has released, in any order of releases.",
 ["schedules","programs","inputs"],"every interleaving and every placement of ranges and files",
 "Tests never hold independent locks concurrently while checking the other can proceed, and cannot show the absence of a lost grant over all schedules.",
 [L+"flckbaselist.tcc",L+"flcklistofflock.cc",L+"flcklistofflock.h",L+"flcklistfilelock.h"],
 [m("reader count arithmetic, retry loops","flckbaselist.tcc"),m("range/file comparison","flcklistofflock.h")],
 ["return values of fullock_rwlock_*; a call that never returns"])
prop("C07","Reader/writer unlock releases exactly the caller's lock",
 "Unlocking a range through a descriptor releases exactly one lock that the calling thread holds through that descriptor on that range and leaves every other holder's lock in force. If the caller holds none there - never locked, already unlocked, taken by another thread or through another descriptor - it fails with EINVAL and changes nothing.",
 ["programs","schedules"],"every sequence of lock/unlock calls by holders and non-holders across threads, processes and descriptors",
 "Tests only unlock what they just locked; no test unlocks from the wrong thread/descriptor or twice, with other holders present.",
 [L+"flcklistofflock.cc",L+"flcklistlocker.h",L+"flckbaselist.tcc"],
 [m("locker entry keyed by thread and descriptor","flcklistlocker.h"),m("unlock path: locker search, lock word decrement, removal","flcklistofflock.cc")],
 ["return values of fullock_rwlock_unlock and of the other holders' operations"])
prop("C08","Abandoned reader/writer locks are released, live ones never",
 "In high-robust mode a thread blocked on a range eventually acquires it when the conflicting holder's process or thread has ended, or its descriptor has been closed, without unlocking. A lock whose holder thread is alive with its descriptor open is never released by that recovery, and lockers of other ranges and files are not disturbed by a death at any point.",
 ["crash_points","schedules","fault_sequences"],"death of a process or thread, or close of a descriptor, between any two operations and at every shared-memory access inside an operation, under every interleaving of the survivors",
 "The recover tests cover one clean exit or close per type with one waiter and are not among the stable tests; nothing crashes inside a call or checks that live holders keep their locks.",
 [L+"flcklistofflock.cc",L+"flcklistlocker.cc",L+"flckutil.cc",L+"flckpidcache.h"],
 [m("dead-locker scan of a range by a blocked locker","flcklistofflock.cc"),m("liveness of (process, thread, descriptor) via /proc with a cache","flckutil.cc")],
 ["return values of fullock_rwlock_* in surviving threads"])
prop("C09","Lock resources are conserved",
 "An operation is refused with ENOLCK only when the configured number of the resource it needs (files, ranges, lockers, mutex names, condition names, waiters) is really in use, and as many can be used at once as were configured. Every release, timeout, failed attempt or refusal gives back what it took, so no sequence of operations ever wears the lock space out; a refused operation leaves everything else unchanged.",
 ["programs","configurations","schedules"],"every history of operations under every capacity configuration and free-unit mode",
 "The over-area-count tests fill one resource once; leaks over long mixed histories, failure paths and concurrent exhaustion are out of their reach.",
 [L+"flcklistfilelock.cc",L+"flcklistofflock.cc",L+"flcklistncond.cc",L+"flckshm.cc",L+"flckbaselist.tcc"],
 [m("free lists popped and pushed by compare-and-swap","flckbaselist.tcc"),m("release of range/file objects when no locker is left","flckshm.cc")],
 ["return values 0/ENOLCK of lock and wait calls"])
prop("C10","islocked tells the truth about a range",
 "fullock_rwlock_islocked answers true whenever some live thread holds a lock overlapping the asked range of that file throughout the call, and false whenever nobody holds or is acquiring a lock overlapping it. Locks on other ranges or other files, and past or refused operations, never influence the answer, and asking changes nothing.",
 ["programs","schedules","inputs"],"every history and every asked range, concurrent with lock and unlock calls",
 "No test asks about a range other than the locked one, after refusals, or concurrently.",
 [L+"flckshm.cc",L+"flcklistfilelock.cc",L+"flcklistofflock.h"],
 [m("query walking the file's range objects","flckshm.cc"),m("protect marks and locker lists","flcklistfilelock.cc")],
 ["return value of fullock_rwlock_islocked"])
prop("C11","Condition signals are neither lost nor multiplied",
 "A signal on a named condition wakes exactly one thread waiting on it, the one that has waited longest, and a broadcast wakes every thread waiting on it at that moment; if nobody waits they do nothing and are not remembered. No waiter returns success without a signal or broadcast issued after its wait began, and a wake-up never goes to a different condition.",
 ["schedules","programs"],"every interleaving of wait, timed wait, signal and broadcast over any number of conditions, threads and processes",
 "The cond tests run loops with sleeps and check only that they finish; order, exact counts and the window between queueing and sleeping are not observed.",
 [L+"flcklistncond.cc",L+"flcklistwaiter.cc",L+"flckbaselist.tcc"],
 [m("waiter queue and status word set by the signaller","flcklistncond.cc"),m("wait loop on the status word","flcklistwaiter.cc")],
 ["which fullock_cond_wait/timedwait calls return and with what value"])
prop("C12","A condition wait gives up and regains the mutex",
 "A condition wait called with the mutex held releases the mutex and starts waiting in one step with respect to threads that take that mutex before signalling. When it returns 0 or ETIMEDOUT the caller owns the mutex again, exactly once and exclusively, however long another thread kept it; a caller that does not own the mutex, or names an unknown one, gets an error and no state changes. ETIMEDOUT is reported only after the timeout, and promptly.",
 ["schedules","programs","inputs"],"every interleaving of waiters, signallers, broadcasters and other users of the mutex, every timeout",
 "Tests never check ownership after a wait returns, nor hold the mutex past a waiter's timeout.",
 [L+"flcklistwaiter.cc",L+"flcklistncond.cc",L+"flckbaselist.tcc"],
 [m("enqueue, mutex release, wait, mutex reacquisition sequence","flcklistwaiter.cc")],
 ["return values of fullock_cond_* and of mutex calls around them"])
prop("C13","Conditions survive the death of waiters and signallers",
 "In robust mode the death of a process or thread at any point of a wait, signal or broadcast never blocks or misleads the others: the mutex it held or was about to retake becomes available, a later signal is delivered to a live waiter rather than to the dead one, and other waiters keep waiting or are woken as before.",
 ["crash_points","schedules","fault_sequences"],"SIGKILL at every shared-memory access of cond operations and between operations, under interleavings of the survivors",
 "One multi-process test kills a waiter and only reports it; no test kills inside an operation.",
 [L+"flcklistncond.cc",L+"flcklistwaiter.cc",L+"flckshm.cc",L+"flckbaselist.tcc"],
 [m("dead waiter detection","flcklistwaiter.cc"),m("takeover of the condition list's spin id","flckbaselist.tcc")],
 ["return values of fullock_cond_*/mutex calls in survivors"])
prop("C14","All attached processes share one initialised lock space",
 "Processes that attach to the same file, however their start-ups, exits and crashes interleave, all operate on one and the same lock space: it is (re)initialised only when no other process is attached, never under one that is, and nobody uses it half-initialised. With nobody attached the next process starts from a clean space regardless of what was left in the file.",
 ["schedules","crash_points","histories"],"every interleaving of concurrent first starts, later starts, re-initialisations, normal exits and kills at any point of start-up",
 "Tests start processes one after the other from a parent that is already attached; start-up races and kills during start-up never occur.",
 [L+"flckshminit.cc",L+"flckutil.cc",L+"flckshm.cc"],
 [m("exclusive creation, write/read file lock protocol on the lock-space file","flckshminit.cc")],
 ["whether locks taken by one process are seen by another; return values after start-up"])
prop("C15","fork keeps lock identities and the lock space intact",
 "After fork the child is a lock owner of its own: it does not own its parent's mutexes and locks, cannot release them and is excluded by them, its own locks exclude the parent and everybody else, and each of the two can die or exit without freeing the locks of the other. The child keeps the lock space attached for as long as it lives, even when its parent has gone and new processes start.",
 ["programs","schedules","crash_points"],"every placement of fork among lock operations, any depth of forking, any order of exits and new starts",
 "The fork test forks once, takes no lock across the fork and does not let the parent go first.",
 [L+"flckutil.cc",L+"flckutil.h",L+"flckshm.cc",L+"flckshminit.cc",L+"flckthread.cc"],
 [m("owner id built from process and (cached) thread id","flckutil.cc"),m("fork handlers","flckshm.cc"),m("file lock marking attachment","flckshminit.cc")],
 ["return values of lock calls in parent, child and third processes"])
prop("C16","Behaviour without a lock space follows the configured mode",
 "When no lock space could be attached, every lock call answers according to the configured mode - allow: success without locking and never reported locked; deny: ENOLCK and always reported locked - and never crashes or blocks. In the retry modes a call first tries to attach, and once that has succeeded real locking is in force for every following call.",
 ["configurations","histories","inputs"],"every no-map mode, set by environment or call, switched at any time, with the lock space becoming attachable at any point of any call sequence",
 "No stable test runs without a lock space or in a retry mode.",
 [L+"flckshm.cc",L+"fullock.cc"],
 [m("attach check at the start of every call","flckshm.cc")],
 ["return values of every fullock_* call while unattached"])
prop("C17","Configuration is validated and applied",
 "fullock_reinitialize_ex and the environment variables accept exactly the documented ranges: an acceptable request gives a lock space at the named path with exactly those capacities (defaults for those left at 0, whatever was configured before), and a rejected one leaves the process attached to its current lock space, unchanged. Mode setters take effect for subsequent calls and no input crashes the process.",
 ["inputs","configurations","histories"],"every combination of capacities, paths, file names, environment values and sequences of (re)initialisations",
 "The environment test is not stable here and covers one value per variable; boundary values, rejected requests and sequences are not tested.",
 [L+"flckshm.cc",L+"flckutil.cc",L+"fullock.cc",L+"flckshminit.cc"],
 [m("parameter checks, defaults and environment loading","flckshm.cc"),m("path normalisation","flckutil.cc")],
 ["return value of fullock_reinitialize_ex; number of locks/names/waiters usable afterwards; size and path of the lock-space file"])
prop("C18","Recursive reader/writer lock objects never self-deadlock",
 "With recursive lock objects a thread that already holds a range through one object can lock the same range (named by the same descriptor) again for reading or writing through the same or another object without blocking on itself, in any nesting and release order. The range stays locked (for writing, once a write lock was taken) until the thread's last object on it is released, is released then, and excludes other threads meanwhile exactly as a plain lock would; only while it changes between reading and writing may another thread come in between. The copies of the objects which a forked child has hold nothing for it, and it can lock the range by objects of its own like any other thread.",
 ["programs","schedules"],"every sequence of lock/relock/upgrade/unlock/destroy operations on any number of objects per thread, concurrent with other threads and processes",
 "No stable test uses the recursive class at all.",
 [L+"rwlockrcsv.cc",L+"rwlockrcsv.h"],
 [m("per-process stack of masters and pending objects","rwlockrcsv.cc")],
 ["results of the object's Lock/ReadLock/WriteLock/Unlock and of plain rwlock probes by other threads"])
prop("C19","Background recovery after process death",
 "In the low and high robust modes (the surviving process attached in one of them), after a process ends or is killed while holding mutexes or reader/writer locks, they become available - also to try and timed callers and without any blocked waiter - within a short time as long as some other attached process is alive. Locks of live processes are not touched by it.",
 ["crash_points","histories","schedules"],"any number of deaths, by exit or kill, at any time, any set of locks held, survivors idle or busy",
 "The automatic-recover tests are not stable on the unchanged tree and try one clean exit per lock type.",
 [L+"flckthread.cc",L+"flckshm.cc",L+"flckutil.cc"],
 [m("worker thread watching the lock-space file for closes","flckthread.cc"),m("scan of all locks for dead holders","flckshm.cc")],
 ["fullock_mutex_trylock / fullock_rwlock_trywrlock results in surviving processes after a death"])
prop("C20","A lock's identity is its name or its file",
 "Two mutex (or condition) names denote the same object exactly when their first 63 characters are equal, and names of mutexes and conditions never collide with each other. Two reader/writer locks concern the same file exactly when their descriptors refer to the same device and inode - through any descriptor, path, hard link, dup or process - and all descriptor-less locks form one space separate from every file.",
 ["inputs","programs"],"every name (any length and byte content) and every way of reaching a file",
 "Tests use a few fixed short names and one file opened one way.",
 [L+"flcklistnmtx.h",L+"flcklistncond.h",L+"flcklistfilelock.h",L+"flckutil.cc",L+"flckutil.h"],
 [m("hash and bounded name comparison","flcklistnmtx.h"),m("device/inode lookup and comparison","flcklistfilelock.h")],
 ["whether a lock through one identity blocks a try through another"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80
        f.write(json.dumps(p)+"\n")
print(len(P))
