From d4252a303b2270556408ea8516457bf11c2e01bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:55 +0000
Subject: [PATCH 01/31] fix: do not subtract the borrowed second twice in
 SUB_TIMESPEC

Timed locks and waits whose end time has a smaller nanosecond part than
their start time expired up to a second too late.
---
 lib/flckutil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.h b/lib/flckutil.h
index 452a439..cf106e1 100644
--- a/lib/flckutil.h
+++ b/lib/flckutil.h
@@ -204,7 +204,7 @@ inline void SUB_TIMESPEC(const struct timespec* start, const struct timespec* en
 			(result)->tv_nsec	= 0;
 			return;
 		}
-		(result)->tv_sec	= (end)->tv_sec - 1 - (start)->tv_sec - 1;
+		(result)->tv_sec	= (end)->tv_sec - 1 - (start)->tv_sec;
 		(result)->tv_nsec	= (end)->tv_nsec + (1000 * 1000 * 1000) - (start)->tv_nsec;
 	}else{
 		(result)->tv_sec	= (end)->tv_sec - (start)->tv_sec;
-- 
2.43.0


From 6b75d363fbeb89cf70078674e9e9940953a9cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:55 +0000
Subject: [PATCH 02/31] fix: one unlock of a recursively locked mutex must not
 release it

fl_unlock_mutex kept looping after counting down, so that one unlock call
gave up every level of a recursive lock.
---
 lib/flckbaselist.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/flckbaselist.tcc b/lib/flckbaselist.tcc
index 4633c7e..fde7549 100644
--- a/lib/flckbaselist.tcc
+++ b/lib/flckbaselist.tcc
@@ -393,6 +393,9 @@ namespace fullock
 					}
 					// why? but do recover
 					__sync_fetch_and_add(plockcnt, 1);						// not check result
+				}else{
+					// still locked recursively by this owner
+					break;
 				}
 			}
 		}while(-1 <= sched_yield());
-- 
2.43.0


From 7b1bd8fe751e69c6d10d23c65abb03b2a0c50eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:55 +0000
Subject: [PATCH 03/31] fix: condition timed wait always returns with the mutex

The mutex was taken back with the wait's timeout, so the wait could return
without owning it while another thread kept it.
---
 lib/flcklistwaiter.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/flcklistwaiter.cc b/lib/flcklistwaiter.cc
index ceeee57..a73c353 100644
--- a/lib/flcklistwaiter.cc
+++ b/lib/flcklistwaiter.cc
@@ -92,8 +92,12 @@ int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 		}
 
 		// do lock named mutex
+		//
+		// [NOTE]
+		// timeout is for waiting the signal, the mutex must be always got back.
+		//
 		int	subresult;
-		if(0 != (subresult = tgnmtxobj.lock(timeout_usec))){
+		if(0 != (subresult = tgnmtxobj.lock(FLCK_NO_TIMEOUT))){
 			ERR_FLCKPRN("Could not lock named mutex object(error code=%d) for cond.", subresult);
 			// not need to recover on this case.
 			if(0 == result){
-- 
2.43.0


From f42c1e6487ad73c902194b5bbde5894c6b3c0581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:55 +0000
Subject: [PATCH 04/31] fix: tryrdlock must not fail because of another reader

A reader changing the count at the same time made tryrdlock return EBUSY
although nobody held or wanted the write lock.
---
 lib/flckbaselist.tcc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/flckbaselist.tcc b/lib/flckbaselist.tcc
index fde7549..3d3e97b 100644
--- a/lib/flckbaselist.tcc
+++ b/lib/flckbaselist.tcc
@@ -161,14 +161,16 @@ namespace fullock
 
 	inline int fl_tryrdlock_rwlock(flck_rwlock_t* plockval)
 	{
-		flck_rwlock_t	beforeval	= *plockval;
-		flck_rwlock_t	newval		= beforeval + 1;
-		if(FLCK_RWLOCK_UNLOCK > beforeval){
-			return EBUSY;
-		}
-		if(beforeval != __sync_val_compare_and_swap(plockval, beforeval, newval)){
-			return EBUSY;
-		}
+		flck_rwlock_t	beforeval;
+		flck_rwlock_t	newval;
+		do{
+			beforeval	= *plockval;
+			newval		= beforeval + 1;
+			if(FLCK_RWLOCK_UNLOCK > beforeval){
+				return EBUSY;
+			}
+			// retry if the value is changed by another reader(or unlocking)
+		}while(beforeval != __sync_val_compare_and_swap(plockval, beforeval, newval));
 		return 0;
 	}
 
-- 
2.43.0


From fd8768e61bdfbda421e754dd9726cf3573ce189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:55 +0000
Subject: [PATCH 05/31] fix: clear the cached thread id in a forked child

The child took its parent's thread id for its own, so every other process
regarded the child's locks as those of a dead thread and took them over.
---
 lib/flckutil.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 8c46cc5..0116a35 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -576,6 +576,9 @@ class FlTidCache
 				Initialized = false;
 			}else{
 				Initialized = true;
+				if(0 != (result = pthread_atfork(NULL, NULL, FlTidCache::ClearInChild))){
+					ERR_FLCKPRN("Could not set handler for forking, error code=%d.", result);
+				}
 			}
 		}
 
@@ -589,6 +592,16 @@ class FlTidCache
 			}
 		}
 
+		//
+		// The thread id cached by parent process is not the one of the thread in child process
+		//
+		static void ClearInChild(void)
+		{
+			if(GetObject().Initialized){
+				pthread_setspecific(GetObject().TidKey, NULL);
+			}
+		}
+
 		//
 		// Access function to avoid static object initialization order problem
 		//
-- 
2.43.0


From 23d5e84bd79ac74dff1a977e0328bc544ef818f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:26 +0000
Subject: [PATCH 06/31] fix: do not pop from an empty list for a path over the
 root

GetRealPath checked the wrong list, so that a path like "/.." was undefined behavior.
---
 lib/flckutil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 0116a35..5fc274c 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -158,7 +158,7 @@ bool GetRealPath(const char* pPath, string& strreal)
 		if((*iter) == "."){
 			// nothing to do
 		}else if((*iter) == ".."){
-			if(rawpathleaf.empty()){
+			if(pathleaf.empty()){
 				WAN_FLCKPRN("Path is wrong(over the root).");
 				return false;
 			}
-- 
2.43.0


From a126ea3ba8167e05f49c71b90ece65a45a573ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:26 +0000
Subject: [PATCH 07/31] fix: check and default the waiter and cond counts when
 reinitializing

The waiter count was validated only if the locker count was specified, and the
cond and waiter counts of a former reinitializing were kept as default.
---
 lib/flckshm.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 2674213..545201e 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -298,7 +298,7 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 		(FLCK_INITCNT_DEFAULT != lockercnt		&& (lockercnt < FLCK_FLCKLOCKERCNT_MIN	|| FLCK_FLCKLOCKERCNT_MAX < lockercnt))	||
 		(FLCK_INITCNT_DEFAULT != nmtxcnt		&& (nmtxcnt < FLCK_FLCKNMTXCNT_MIN		|| FLCK_FLCKNMTXCNT_MAX < nmtxcnt))		||
 		(FLCK_INITCNT_DEFAULT != ncondcnt		&& (ncondcnt < FLCK_FLCKNCONDCNT_MIN	|| FLCK_FLCKNCONDCNT_MAX < ncondcnt))	||
-		(FLCK_INITCNT_DEFAULT != lockercnt		&& (waitercnt < FLCK_FLCKWAITERCNT_MIN	|| FLCK_FLCKWAITERCNT_MAX < waitercnt))	)
+		(FLCK_INITCNT_DEFAULT != waitercnt		&& (waitercnt < FLCK_FLCKWAITERCNT_MIN	|| FLCK_FLCKWAITERCNT_MAX < waitercnt))	)
 	{
 		ERR_FLCKPRN("Parameters are wrong: filelock cnt(%zu), offsetlock cnt(%zu), locker cnt(%zu), named mutex cnt(%zu), named cond cnt(%zu), waiter cnt(%zu)", filelockcnt, offlockcnt, lockercnt, nmtxcnt, ncondcnt, waitercnt);
 		return false;
@@ -358,6 +358,8 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 	FlShm::OffLockAreaCount		= FLCK_FLCKOFFETCNT_DEFAULT;
 	FlShm::LockerAreaCount		= FLCK_FLCKLOCKERCNT_DEFAULT;
 	FlShm::NMtxAreaCount		= FLCK_FLCKNMTXCNT_DEFAULT;
+	FlShm::NCondAreaCount		= FLCK_FLCKNCONDCNT_DEFAULT;
+	FlShm::WaiterAreaCount		= FLCK_FLCKWAITERCNT_DEFAULT;
 
 	// Load environment manually
 	// cppcheck-suppress unmatchedSuppression
-- 
2.43.0


From df4e603b578361360ab4403a032c2fe9b18a216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:26 +0000
Subject: [PATCH 08/31] fix: islocked must look at the specified range only

FlShm::IsLocked ignored its offset and length, and answered for the whole file.
---
 lib/flcklistfilelock.cc | 25 +++++++++++++++++++++++++
 lib/flcklistfilelock.h  |  1 +
 lib/flckshm.cc          |  2 +-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/lib/flcklistfilelock.cc b/lib/flcklistfilelock.cc
index 76b8a00..9d2a834 100644
--- a/lib/flcklistfilelock.cc
+++ b/lib/flcklistfilelock.cc
@@ -16,6 +16,7 @@
  */
 
 #include <errno.h>
+#include <string.h>
 #include <sys/types.h>
 #include <unistd.h>
 
@@ -213,6 +214,30 @@ bool FlListFileLock::is_locked(void) const
 	return false;
 }
 
+//
+// Need to lock list before calling this.
+//
+bool FlListFileLock::is_locked(off_t offset, size_t length) const
+{
+	if(!pcurrent){
+		return false;
+	}
+	FLOFFLOCK	base;
+	memset(&base, 0, sizeof(FLOFFLOCK));
+	base.offset	= offset;
+	base.length	= length;
+
+	// check offset objects overlapping the range
+	FlListOffLock	tmpobj;
+	for(PFLOFFLOCK pabscur = to_abs(pcurrent->offset_lock_list); pabscur; pabscur = to_abs(pabscur->next)){
+		tmpobj.set(pabscur);
+		if(0 == fl_compare_list_base(&base, pabscur) && tmpobj.is_locked()){
+			return true;
+		}
+	}
+	return false;
+}
+
 bool FlListFileLock::free_offset_lock_list(void)
 {
 	if(!pcurrent){
diff --git a/lib/flcklistfilelock.h b/lib/flcklistfilelock.h
index 0d9dfa9..7574051 100644
--- a/lib/flcklistfilelock.h
+++ b/lib/flcklistfilelock.h
@@ -69,6 +69,7 @@ class FlListFileLock : public fllistbasefilelock
 		}
 
 		bool is_locked(void) const;
+		bool is_locked(off_t offset, size_t length) const;
 		inline void set_protect(void) { if(pcurrent){ pcurrent->protect = true; } }
 		bool free_offset_lock_list(void);
 
diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 545201e..7d1e42e 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -866,7 +866,7 @@ bool FlShm::IsLocked(int fd, off_t offset, size_t length)
 		return false;
 	}
 
-	bool	result = tglistobj.is_locked();
+	bool	result = tglistobj.is_locked(offset, length);
 	fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);			// unlock lockid
 
 	return result;
-- 
2.43.0


From 1505676ed5d248b7b5d26078c6331e4cace99141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:26 +0000
Subject: [PATCH 09/31] fix: do not leak file and offset objects

The protect flag set before a refused(ENOLCK) locking was never cleared, so that
the object was never freed. And unlocking the last lock of a file put back the
file object without the offset objects remaining in it.
---
 lib/flcklistfilelock.cc | 1 +
 lib/flcklistofflock.cc  | 1 +
 lib/flckshm.cc          | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/lib/flcklistfilelock.cc b/lib/flcklistfilelock.cc
index 9d2a834..8cc4f80 100644
--- a/lib/flcklistfilelock.cc
+++ b/lib/flcklistfilelock.cc
@@ -105,6 +105,7 @@ int FlListFileLock::rawlock(FLCKLOCKTYPE LockType, flckpid_t flckpid, int fd, of
 			// Not found, so get new offset lock and insert it.
 			if(!tglistobj.retrieve_list(FlShm::pFlHead->offset_lock_free)){
 				ERR_FLCKPRN("Could not get free offset lock structure.");
+				pcurrent->protect = false;												// clear protect flag(not to keep this object)
 				fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 				return ENOLCK;					// ENOLCK
 			}
diff --git a/lib/flcklistofflock.cc b/lib/flcklistofflock.cc
index bca9619..54106f0 100644
--- a/lib/flcklistofflock.cc
+++ b/lib/flcklistofflock.cc
@@ -117,6 +117,7 @@ int FlListOffLock::rawlock(FLCKLOCKTYPE LockType, dev_t devid, ino_t inoid, flck
 		// Always get new locker object.
 		if(!tglistobj.retrieve_list(FlShm::pFlHead->locker_free)){
 			ERR_FLCKPRN("Could not get free locker structure.");
+			pcurrent->protect = false;												// clear protect flag(not to keep this object)
 			fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
 			return ENOLCK;					// ENOLCK
 		}
diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 7d1e42e..be8a3e8 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -770,6 +770,9 @@ int FlShm::RawLock(FLCKLOCKTYPE LockType, int fd, off_t offset, size_t length, t
 		// check free
 		if(FlShm::IsFreeUnitFd()){
 			if(!tglistobj.is_locked()){
+				// free all
+				tglistobj.free_offset_lock_list();
+
 				// retrieve target list
 				if(tglistobj.cutoff_list(FlShm::pFlHead->file_lock_list)){
 					// return object to free list
-- 
2.43.0


From b25fa35df89ac1a66773ccc5ed712d8e5a03e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:26 +0000
Subject: [PATCH 10/31] fix: recovering of a failed recursive write lock must
 not deadlock

FLRwlRcsv::RawWriteLock re-locked the pending objects while it kept the lock of
the global stack which re-locking needs.
---
 lib/rwlockrcsv.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index e5141a3..e0e17b0 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -443,8 +443,14 @@ bool FLRwlRcsv::RawWriteLock(bool& is_mutex_locked)
 				break;
 			}
 		}
+		// unlock mutex for global stack, because re-locking locks it
+		FLRwlRcsv::StackUnlock();
+		is_mutex_locked = false;
+
 		// re-lock pending list(and put into global stack)
-		for(flrwlrcsv_vec_t::iterator iter = PendingStack.begin(); iter != PendingStack.end(); ++iter){
+		flrwlrcsv_vec_t	tmpPendingStack;
+		tmpPendingStack.swap(PendingStack);
+		for(flrwlrcsv_vec_t::iterator iter = tmpPendingStack.begin(); iter != tmpPendingStack.end(); ++iter){
 			(*iter)->has_locker	= false;
 			(*iter)->is_locked	= false;
 			(*iter)->pMaster	= NULL;
@@ -453,7 +459,6 @@ bool FLRwlRcsv::RawWriteLock(bool& is_mutex_locked)
 				ERR_FLCKPRN("Failed to re-lock for recovering.");
 			}
 		}
-		PendingStack.clear();
 		has_locker	= false;
 		is_locked	= false;
 
-- 
2.43.0


From 23a095f0218be5c9e9c71d0ee99239fdce693678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:26 +0000
Subject: [PATCH 11/31] fix: a signal must not be consumed by a dead waiter in
 robust mode

---
 lib/flcklistncond.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/flcklistncond.cc b/lib/flcklistncond.cc
index 372236e..2263507 100644
--- a/lib/flcklistncond.cc
+++ b/lib/flcklistncond.cc
@@ -88,9 +88,22 @@ int FlListNCond::rawlock(FLCKLOCKTYPE LockType, bool is_broadcast, PFLNAMEDMUTEX
 		}else{	// SIGNAL
 			// get end of waiter list
 			FlListWaiter	tglistobj;
-			if(!tglistobj.rfind(FLCK_NCOND_WAIT, pcurrent->waiter_list)){
-				WAN_FLCKPRN("Could not get end of waiter list, maybe no waiter.");
-				return 0;					// Success
+			while(true){
+				if(!tglistobj.rfind(FLCK_NCOND_WAIT, pcurrent->waiter_list)){
+					WAN_FLCKPRN("Could not get end of waiter list, maybe no waiter.");
+					return 0;				// Success
+				}
+				if(!FlShm::IsRobust() || !tglistobj.check_dead_lock(NULL, flckpid)){
+					break;
+				}
+				// the waiter is dead, so the signal must not be sent to it.
+				if(!tglistobj.cutoff_list(pcurrent->waiter_list)){
+					ERR_FLCKPRN("Failed to retrieve dead waiter from list, but continue...");
+					break;
+				}
+				if(!tglistobj.insert_list(FlShm::pFlHead->waiter_free)){
+					ERR_FLCKPRN("Failed to insert waiter to free list, but continue...");
+				}
 			}
 
 			// wake up waiter
-- 
2.43.0


From c67d9914cbec442bb9216f076100743d3b8457e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:58 +0000
Subject: [PATCH 12/31] fix: a zombie process or thread does not run any more

The locks of a dead process were not recovered until its parent reaped it.
---
 lib/flckutil.cc | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 5fc274c..cad9bd4 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -50,6 +50,7 @@ typedef std::vector<std::string>				strlist_t;
 #define	FLCK_WORK_DIRECTORY_PERMS				(S_IXUSR | S_IRUSR | S_IWUSR | S_IXGRP | S_IRGRP | S_IWGRP | S_IXOTH | S_IROTH | S_IWOTH)
 #define	FLCK_PROC_FD_PATH_FORM					"/proc/%d/fd/%d"
 #define	FLCK_PROC_PATH_FORM						"/proc/%d/task/%d"
+#define	FLCK_PROC_STAT_PATH_FORM				"/proc/%d/task/%d/stat"
 
 //---------------------------------------------------------
 // Macros
@@ -236,6 +237,31 @@ bool MakeWorkDirectory(const char* pDirPath)
 	return true;
 }
 
+// [NOTE]
+// The thread(process) which has exited keeps its directory in /proc until it is reaped.
+//
+static bool IsZombieThread(pid_t pid, tid_t tid)
+{
+	char	szPath[PATH_MAX];
+	int		fd;
+	sprintf(szPath, FLCK_PROC_STAT_PATH_FORM, pid, tid);
+	if(FLCK_INVALID_HANDLE == (fd = open(szPath, O_RDONLY | O_CLOEXEC))){
+		return (ENOENT == errno || ESRCH == errno);
+	}
+	char	szStat[512];
+	ssize_t	length	= read(fd, szStat, sizeof(szStat) - 1);
+	int		errnum	= errno;
+	close(fd);
+	if(length <= 0){
+		return (-1 == length && ESRCH == errnum);
+	}
+	szStat[length]	= '\0';
+
+	// format is "tid (comm) state ..."
+	const char*	ptr	= strrchr(szStat, ')');
+	return (ptr && ' ' == ptr[1] && ('Z' == ptr[2] || 'X' == ptr[2] || 'x' == ptr[2]));
+}
+
 // [NOTE]
 // stat(fstat) function call to /proc system takes average 100-150ns.
 // FindThreadProcess and GetFileDevNode functions for the load reduction
@@ -256,7 +282,7 @@ bool FindThreadProcess(pid_t pid, tid_t tid, fl_pid_cache_map_t* pcache)
 	if(-1 == stat(szPath, &st)){
 		is_run = false;
 	}else{
-		is_run = true;
+		is_run = !IsZombieThread(pid, tid);
 	}
 
 	if(pcache){
-- 
2.43.0


From 79284b46db551a8124150f1196f9d66cb1798497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:58 +0000
Subject: [PATCH 13/31] fix: release the rwlock of a thread which has exited

Only the existence of the file descriptor of the process was checked, so that the
lock of a thread which exited without unlocking was never released while its
process lives.
---
 lib/flckutil.cc | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index cad9bd4..5d98568 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -333,31 +333,20 @@ bool GetFileDevNode(pid_t pid, tid_t tid, int fd, dev_t& devid, ino_t& inodeid,
 		// When fd is FLCK_RWLOCK_NO_FD, it means rwlock with no-fd.
 		// On no fd mode, check only pid/tid.
 		//
-		char		szPath[PATH_MAX];
-		struct stat	st;
-		sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
-		if(-1 == stat(szPath, &st)){
-			devid	= FLCK_INVALID_ID;
-			inodeid	= FLCK_INVALID_ID;
-			result	= errno;
-		}else{
-			devid	= FLCK_EACCESS_ID;
-			inodeid	= FLCK_EACCESS_ID;
-		}
+		devid	= FLCK_EACCESS_ID;
+		inodeid	= FLCK_EACCESS_ID;
 	}else{
 		char	szPath[PATH_MAX];
 		sprintf(szPath, FLCK_PROC_FD_PATH_FORM, pid, fd);
-		if(EACCES == (result = GetFileDevNode(szPath, devid, inodeid))){
-			// Need to check thread(process) running.
-			//
-			struct stat	st;
-			sprintf(szPath, FLCK_PROC_PATH_FORM, pid, tid);
-			if(-1 == stat(szPath, &st)){
-				devid	= FLCK_INVALID_ID;
-				inodeid	= FLCK_INVALID_ID;
-				result	= errno;
-			}
-		}
+		result = GetFileDevNode(szPath, devid, inodeid);
+	}
+	// Need to check thread(process) running, because the file is opened by the process even if only
+	// the thread exited.
+	//
+	if((0 == result || EACCES == result) && !FindThreadProcess(pid, tid, NULL)){
+		devid	= FLCK_INVALID_ID;
+		inodeid	= FLCK_INVALID_ID;
+		result	= ENOENT;
 	}
 	if(pcache){
 		if(0 == result || EACCES == result){
-- 
2.43.0


From 4c57cae151354788c60e1bbf6dc6caf7b1a041fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:51 +0000
Subject: [PATCH 14/31] fix: starting processes at once must not fail nor break
 the lock space

The process which created the file gave up if another one had locked it first.
And if the process initializing the file was killed, another starting process
could attach the file which was not initialized. Then only one process starts
at a time.
---
 lib/flckshminit.cc | 127 ++++++++++++++++++++-------------------------
 1 file changed, 56 insertions(+), 71 deletions(-)

diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 1e6129b..c9477dc 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -41,6 +41,7 @@ using namespace fullock;
 // Symbols
 //---------------------------------------------------------
 #define	FLCK_SHM_PERMS				(S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH)
+#define	FLCK_SHM_START_OFFSET				1L			// offset of the lock for starting(offset 0 is locked while attaching)
 
 //---------------------------------------------------------
 // FlShm : Initialize Methods
@@ -121,82 +122,66 @@ bool FlShm::InitializeShm(void)
 	// set umask
 	mode_t	old_umask = umask(FlShm::ShmFileUmask);
 
-	// test by creating
-	if(FLCK_INVALID_HANDLE == (FlShm::ShmFd = open(FlShm::ShmPath().c_str(), O_RDWR | O_CREAT | O_EXCL, FLCK_SHM_PERMS))){
-		if(EEXIST != errno){
-			ERR_FLCKPRN("Failed to open(create) %s(errno=%d).", FlShm::ShmPath().c_str(), errno);
-			umask(old_umask);
-			return false;
-		}
-		// already file exists
-		if(FLCK_INVALID_HANDLE == (FlShm::ShmFd = open(FlShm::ShmPath().c_str(), O_RDWR, FLCK_SHM_PERMS))){
-			ERR_FLCKPRN("Failed to open %s(errno=%d).", FlShm::ShmPath().c_str(), errno);
-			umask(old_umask);
-			return false;
-		}
-		umask(old_umask);
-
-		// check lock & locking
-		struct timespec	sleeptime = {0L, 10 * 1000 * 1000};		// 10ms
-		bool			isSuccess = false;
-		for(int cnt = 0; cnt < 100; cnt++){						// total 1s
-			// try to lock write mode
-			if(FileWriteLock(FlShm::ShmFd, 0L)){
-				// re-initialize file
-				if(!FlShm::InitializeShmFile()){
-					ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-					break;
-				}
-				// Change lock mode to read mode
-				if(!FileReadLock(FlShm::ShmFd, 0L)){
-					ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
-					break;
-				}
-				isSuccess = true;
+	// open(create if there is no file)
+	FlShm::ShmFd = open(FlShm::ShmPath().c_str(), O_RDWR | O_CREAT, FLCK_SHM_PERMS);
+	umask(old_umask);
+	if(FLCK_INVALID_HANDLE == FlShm::ShmFd){
+		ERR_FLCKPRN("Failed to open(create) %s(errno=%d).", FlShm::ShmPath().c_str(), errno);
+		return false;
+	}
+
+	// [NOTE]
+	// Only one process starts at a time. It means that the write mode lock(offset 0) is never seen by another
+	// starting process, and that a process which gets the read mode lock always finds an initialized file even
+	// if a process is killed during initializing.
+	//
+	if(!FileWriteLock(FlShm::ShmFd, FLCK_SHM_START_OFFSET, true)){
+		ERR_FLCKPRN("Could not lock for starting to %s, give up...", FlShm::ShmPath().c_str());
+		FLCK_CLOSE(FlShm::ShmFd);
+		return false;
+	}
+
+	// check lock & locking
+	struct timespec	sleeptime = {0L, 10 * 1000 * 1000};		// 10ms
+	bool			isSuccess = false;
+	for(int cnt = 0; cnt < 100; cnt++){						// total 1s
+		// try to lock write mode
+		if(FileWriteLock(FlShm::ShmFd, 0L)){
+			// re-initialize file
+			if(!FlShm::InitializeShmFile()){
+				ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
 				break;
+			}
+			// Change lock mode to read mode
+			if(!FileReadLock(FlShm::ShmFd, 0L)){
+				ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
+				break;
+			}
+			isSuccess = true;
+			break;
 
-			}else{
-				// try to lock read mode
-				if(FileReadLock(FlShm::ShmFd, 0L)){
-					// attach
-					if(!FlShm::Attach()){
-						ERR_FLCKPRN("Failed to mmap shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-					}else{
-						isSuccess = true;
-					}
-					break;
+		}else{
+			// try to lock read mode
+			if(FileReadLock(FlShm::ShmFd, 0L)){
+				// attach
+				if(!FlShm::Attach()){
+					ERR_FLCKPRN("Failed to mmap shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
+				}else{
+					isSuccess = true;
 				}
-				MSG_FLCKPRN("Failed to lock read mode to %s, so retry...", FlShm::ShmPath().c_str());
+				break;
 			}
-			nanosleep(&sleeptime, NULL);
-		}
-		if(!isSuccess){
-			ERR_FLCKPRN("Could not lock both read and write mode to %s, give up...", FlShm::ShmPath().c_str());
-			FlShm::Detach();
-			return false;
-		}
-
-	}else{
-		umask(old_umask);
-
-		// lock write mode ASSAP
-		if(!FileWriteLock(FlShm::ShmFd, 0L)){
-			ERR_FLCKPRN("Could not lock write mode to %s, give up...", FlShm::ShmPath().c_str());
-			FLCK_CLOSE(FlShm::ShmFd);
-			return false;
-		}
-		// initialize file
-		if(!FlShm::InitializeShmFile()){
-			ERR_FLCKPRN("Failed to initialize shmfile(%s) and mmap(fd=%d).", FlShm::ShmPath().c_str(), FlShm::ShmFd);
-			FlShm::Detach();
-			return false;
-		}
-		// Change lock mode to read mode
-		if(!FileReadLock(FlShm::ShmFd, 0L)){
-			ERR_FLCKPRN("Could not lock read mode to %s, give up...", FlShm::ShmPath().c_str());
-			FlShm::Detach();
-			return false;
+			MSG_FLCKPRN("Failed to lock read mode to %s, so retry...", FlShm::ShmPath().c_str());
 		}
+		nanosleep(&sleeptime, NULL);
+	}
+	if(!isSuccess){
+		ERR_FLCKPRN("Could not lock both read and write mode to %s, give up...", FlShm::ShmPath().c_str());
+		FlShm::Detach();
+		return false;
+	}
+	if(!FileUnlock(FlShm::ShmFd, FLCK_SHM_START_OFFSET)){
+		ERR_FLCKPRN("Failed to unlock for starting to %s, but continue...", FlShm::ShmPath().c_str());
 	}
 
 	// run epoll thread
-- 
2.43.0


From ec0c24c98900223a885639f13c5d54e39b737689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 15/31] fix: a forked child process keeps the lock space
 attached

The lock of the shm file was lost in the child process, so that the lock space was
initialized under it by a new process after its parent had exited.
---
 lib/flckshminit.cc | 12 +++++++-----
 lib/flckutil.cc    | 15 ++++++++++++++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index c9477dc..9eea3da 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -104,10 +104,12 @@ bool FlShm::Detach(void)
 		}
 	}
 
-	// close fd & unlock
-	if(FLCK_INVALID_HANDLE != FlShm::ShmFd && !FileUnlock(FlShm::ShmFd, 0L)){
-		ERR_FLCKPRN("Failed to unlock fd(%d), offset=0, but continue...", FlShm::ShmFd);
-	}
+	// close fd
+	//
+	// [NOTE]
+	// Do not unlock explicitly, because the lock may be shared with the process forked from(by) this. It is
+	// unlocked when it is closed by all of them.
+	//
 	FLCK_CLOSE(FlShm::ShmFd);
 
 	return true;
@@ -123,7 +125,7 @@ bool FlShm::InitializeShm(void)
 	mode_t	old_umask = umask(FlShm::ShmFileUmask);
 
 	// open(create if there is no file)
-	FlShm::ShmFd = open(FlShm::ShmPath().c_str(), O_RDWR | O_CREAT, FLCK_SHM_PERMS);
+	FlShm::ShmFd = open(FlShm::ShmPath().c_str(), O_RDWR | O_CREAT | O_CLOEXEC, FLCK_SHM_PERMS);
 	umask(old_umask);
 	if(FLCK_INVALID_HANDLE == FlShm::ShmFd){
 		ERR_FLCKPRN("Failed to open(create) %s(errno=%d).", FlShm::ShmPath().c_str(), errno);
diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 5d98568..e2e9081 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -383,6 +383,18 @@ bool GetFileDevNode(int fd, dev_t& devid, ino_t& inodeid)
 //---------------------------------------------------------
 // File Lock Utilities
 //---------------------------------------------------------
+// [NOTE]
+// Use the lock of open file description if it is supported. It is kept in the child process after forking
+// even if the parent process exits, and it is not lost by closing another fd for the same file.
+//
+#ifdef	F_OFD_SETLK
+#define	FLCK_F_SETLK							F_OFD_SETLK
+#define	FLCK_F_SETLKW							F_OFD_SETLKW
+#else
+#define	FLCK_F_SETLK							F_SETLK
+#define	FLCK_F_SETLKW							F_SETLKW
+#endif
+
 static bool RawFileLock(int fd, short type, off_t offset, bool block)
 {
 	if(FLCK_INVALID_HANDLE == fd){
@@ -391,13 +403,14 @@ static bool RawFileLock(int fd, short type, off_t offset, bool block)
 	}
 
 	struct flock	fl;
+	memset(&fl, 0, sizeof(struct flock));
 	fl.l_type	= type;
 	fl.l_whence	= SEEK_SET;
 	fl.l_start	= offset;
 	fl.l_len	= 1L;
 
 	while(true){
-		if(0 == fcntl(fd, block ? F_SETLKW : F_SETLK, &fl)){
+		if(0 == fcntl(fd, block ? FLCK_F_SETLKW : FLCK_F_SETLK, &fl)){
 			//MSG_FLCKPRN("Monitor file is Locked %s mode: offset=%jd, %s", LOCKTYPE_STR(type), static_cast<intmax_t>(offset), block ? "blocked" : "non blocked");
 			return true;
 		}
-- 
2.43.0


From 12d6d8c41aec36bcda32c4137dc0d4468601d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 16/31] fix: the death of a forking process is noticed by
 others

The child process shared the opened shm file with its parent, so that no close event
occurred at the death of the parent and its locks were not recovered by worker threads.
And the handler for forking was set again whenever reinitializing.
---
 lib/flckshm.cc     |  7 +++++++
 lib/flckshm.h      |  1 +
 lib/flckshminit.cc | 43 ++++++++++++++++++++++++++++++++++++++-----
 3 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index be8a3e8..d583a1f 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -632,6 +632,13 @@ bool FlShm::CheckCondDeadLock(fl_pid_cache_map_t* pcache_map, flckpid_t flckpid,
 //
 void FlShm::PreforkHandler(void)
 {
+	// The file opened by the parent process is shared after forking, then it is not closed(close event does not
+	// occur) when the parent process exits. So the child process needs to have its own one.
+	//
+	if(FLCK_INVALID_HANDLE != FlShm::ShmFd && !FlShm::ReopenShmFile()){
+		WAN_FLCKPRN("Could not reopen shm file in child process(%d), but continue with the one of parent process.", getpid());
+	}
+
 	if(FlShm::pCheckPidThread){
 		if(!FlShm::pCheckPidThread->ReInitializeThread()){
 			ERR_FLCKPRN("Call Prefork handler and try to reinitialize thread for child process(%d), but FAILED TO RUN THREAD", getpid());
diff --git a/lib/flckshm.h b/lib/flckshm.h
index bd5b067..e90fbcd 100644
--- a/lib/flckshm.h
+++ b/lib/flckshm.h
@@ -117,6 +117,7 @@ class FlShm
 		static bool InitializeObject(bool is_load_env);
 		static bool InitializeShm(void);
 		static bool InitializeShmFile(void);
+		static bool ReopenShmFile(void);
 		static bool Destroy(void);
 
 		static PFLFILELOCK MakeListFileLock(PFLFILELOCK ptr, size_t count);
diff --git a/lib/flckshminit.cc b/lib/flckshminit.cc
index 9eea3da..399575b 100644
--- a/lib/flckshminit.cc
+++ b/lib/flckshminit.cc
@@ -18,6 +18,7 @@
 #include <assert.h>
 #include <sys/types.h>
 #include <sys/stat.h>
+#include <sys/mman.h>
 #include <fcntl.h>
 #include <unistd.h>
 #include <errno.h>
@@ -202,19 +203,51 @@ bool FlShm::InitializeShm(void)
 			return false;
 		}
 
-		// [NOTE]
-		// When the program which loads this fullock library is forked, we need to start worker thread
-		// in child process.
-		// Thus we set a handler at forking, and it initializes and runs thread in child process.
-		//
+	}
+
+	// [NOTE]
+	// When the program which loads this fullock library is forked, we need to reopen shm file and to start
+	// worker thread in child process.
+	// Thus we set a handler(only once) at forking, and it initializes and runs thread in child process.
+	//
+	static bool	isSetHandler = false;
+	if(!isSetHandler){
 		int	result = pthread_atfork(NULL, NULL, PreforkHandler);
 		if(0 != result){
 			ERR_FLCKPRN("Failed to set handler for forking(errno=%d), but continue...", result);
+		}else{
+			isSetHandler = true;
 		}
 	}
 	return true;
 }
 
+//
+// Replace the file opened by parent process with the one opened by this process.
+//
+bool FlShm::ReopenShmFile(void)
+{
+	int	newfd = open(FlShm::ShmPath().c_str(), O_RDWR | O_CLOEXEC);
+	if(FLCK_INVALID_HANDLE == newfd){
+		return false;
+	}
+
+	// check the same file, lock read mode, and replace mapping and fd
+	struct stat	oldst;
+	struct stat	newst;
+	bool		isSuccess = false;
+	if(	0 == fstat(FlShm::ShmFd, &oldst) && 0 == fstat(newfd, &newst) && oldst.st_dev == newst.st_dev && oldst.st_ino == newst.st_ino	&&
+		FileReadLock(newfd, 0L)																											&&
+		MAP_FAILED != mmap(FlShm::pShmBase, FlShm::pFlHead->flength, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, newfd, 0)			&&
+		-1 != dup3(newfd, FlShm::ShmFd, O_CLOEXEC)																						)
+	{
+		isSuccess = true;
+	}
+	close(newfd);
+
+	return isSuccess;
+}
+
 bool FlShm::InitializeShmFile(void)
 {
 	if(FLCK_INVALID_HANDLE == FlShm::ShmFd){
-- 
2.43.0


From 096dbabe1678e05a6a8a9d9f4ef40eee5f0caa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:41 +0000
Subject: [PATCH 17/31] fix: the worker thread must not miss a dead process

The close event occurs while the exiting process is still visible in /proc, and a
process which exits before the watch is set causes no event.
---
 lib/flckthread.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/flckthread.cc b/lib/flckthread.cc
index 2d48913..ccf8235 100644
--- a/lib/flckthread.cc
+++ b/lib/flckthread.cc
@@ -32,6 +32,11 @@
 
 using namespace std;
 
+//---------------------------------------------------------
+// Symbols
+//---------------------------------------------------------
+#define	FLCK_RECHECK_COUNT			10							// count of checking after CLOSE event occurred
+
 //---------------------------------------------------------
 // Structure
 //---------------------------------------------------------
@@ -219,6 +224,7 @@ void* FlckThread::WorkerProc(void* param)
 	// do loop
 	struct timespec		sleepms = {(intervalms / 1000), (intervalms % 1000) * 1000 * 1000};
 	struct epoll_event  events[FLCK_WAIT_EVENT_MAX];
+	int					recheckcnt = FLCK_RECHECK_COUNT;					// rest count of checking(check at first, because a process could exit before watching)
 	while(FlckThread::FLCK_THCNTL_EXIT > *pThFlag){
 		pthread_testcancel();												// check cancel
 
@@ -249,6 +255,9 @@ void* FlckThread::WorkerProc(void* param)
 						if(!LocalFlShm.CheckProcessDead()){
 							WAN_FLCKPRN("Failed to check process dead in FlShm object, but continue...");
 						}
+						// [NOTE]
+						// The event occurs before the exiting process disappears, so need to check again after that.
+						recheckcnt = FLCK_RECHECK_COUNT;
 					}
 				}
 
@@ -260,7 +269,14 @@ void* FlckThread::WorkerProc(void* param)
 				// signal occurred.
 
 			}else{	// 0 == eventcnt
-				// timeouted, nothing to do
+				// timeouted
+				if(0 < recheckcnt){
+					--recheckcnt;
+					FlShm	LocalFlShm;
+					if(!LocalFlShm.CheckProcessDead()){
+						WAN_FLCKPRN("Failed to check process dead in FlShm object, but continue...");
+					}
+				}
 			}
 		}
 	}
-- 
2.43.0


From fbfc5648973a4df7fc4321cd9d29c4453705ad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:35 +0000
Subject: [PATCH 18/31] fix: reinitializing must not fail when it is the first
 call of the process

The singleton object was made in the middle of reinitializing and attached the
default shm file, then reinitializing failed because of already initialized.
---
 lib/flckshm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index d583a1f..09171e5 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -326,6 +326,9 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 		}
 	}
 
+	// Make singleton object before destroying, otherwise it is made(and attaches) in the following.
+	FlShm::InitializeSingleton(NULL);
+
 	// Destroy this
 	if(!FlShm::Destroy()){
 		ERR_FLCKPRN("Failed to destroy now fullock object.");
-- 
2.43.0


From 6db893ae2c5417af53b8a93dd7dd7823f0f54bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:37 +0000
Subject: [PATCH 19/31] fix: a mode set before the first locking must not be
 overwritten

The environments were loaded at the first locking, then they replaced the modes which
were already set by the program.
---
 lib/flckshm.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 09171e5..0646086 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -416,6 +416,8 @@ bool FlShm::ReInitializeObject(const char* dirname, const char* filename, size_t
 //
 FlShm::ROBUSTMODE FlShm::SetRobustMode(FlShm::ROBUSTMODE newval)
 {
+	FlShm::InitializeSingleton(NULL);			// load environments before setting
+
 	ROBUSTMODE	oldval	= FlShm::RobustMode;
 	FlShm::RobustMode	= newval;
 
@@ -429,6 +431,8 @@ FlShm::ROBUSTMODE FlShm::SetRobustMode(FlShm::ROBUSTMODE newval)
 
 FlShm::NOMAPMODE FlShm::SetNomapMode(FlShm::NOMAPMODE newval)
 {
+	FlShm::InitializeSingleton(NULL);			// load environments before setting
+
 	NOMAPMODE	oldval	= FlShm::NomapMode;
 	FlShm::NomapMode	= newval;
 	return oldval;
@@ -436,6 +440,8 @@ FlShm::NOMAPMODE FlShm::SetNomapMode(FlShm::NOMAPMODE newval)
 
 FlShm::FREEUNITMODE FlShm::SetFreeUnitMode(FlShm::FREEUNITMODE newval)
 {
+	FlShm::InitializeSingleton(NULL);			// load environments before setting
+
 	FREEUNITMODE	oldval	= FlShm::FreeUnitMode;
 	FlShm::FreeUnitMode		= newval;
 	return oldval;
@@ -443,6 +449,8 @@ FlShm::FREEUNITMODE FlShm::SetFreeUnitMode(FlShm::FREEUNITMODE newval)
 
 int FlShm::SetRobustLoopCnt(int newval)
 {
+	FlShm::InitializeSingleton(NULL);			// load environments before setting
+
 	if(FlShm::ROBUST_HIGH != FlShm::RobustMode){
 		return -1;
 	}
-- 
2.43.0


From 768291f3b72b300af2729105985d5f582b12cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:33 +0000
Subject: [PATCH 20/31] fix: a condition wait without owning the mutex must
 fail

A thread which does not own the mutex was put into the waiter list, so it could take the signal
for another waiter before failing. And it waited when nobody owned the mutex.
---
 lib/flckshm.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 0646086..15a2e22 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -938,7 +938,7 @@ int FlShm::RawLock(FLCKLOCKTYPE LockType, const char* pcondname, const char* pmu
 		//
 		// [NOTE]
 		// When calling cond wait, must already make(have) named mutex.
-		// So check only existing it here.
+		// So check existing and having it here.
 		//
 		fl_lock_lockid(&FlShm::pFlHead->named_mutex_lockid, flckpid);			// lock mutex lockid for top manually.(keep to lock)
 
@@ -949,9 +949,14 @@ int FlShm::RawLock(FLCKLOCKTYPE LockType, const char* pcondname, const char* pmu
 			fl_unlock_lockid(&FlShm::pFlHead->named_mutex_lockid, flckpid);		// unlock mutex lockid
 			return EINVAL;						// EINVAL
 		}
-		fl_unlock_lockid(&FlShm::pFlHead->named_mutex_lockid, flckpid);			// unlock mutex lockid
-
 		PFLNAMEDMUTEX	abs_nmtx = tglistmtxobj.get();
+		if(flckpid != abs_nmtx->lockval){
+			// the caller does not own it, so must not wait(and must not take the signal for another waiter).
+			ERR_FLCKPRN("Named mutex(%s) for named cond(%s) is not locked by this thread.", pmutexname, pcondname);
+			fl_unlock_lockid(&FlShm::pFlHead->named_mutex_lockid, flckpid);		// unlock mutex lockid
+			return EPERM;						// EPERM
+		}
+		fl_unlock_lockid(&FlShm::pFlHead->named_mutex_lockid, flckpid);			// unlock mutex lockid
 
 		// COND
 		fl_lock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);			// lock lockid for top manually.(keep to lock)
-- 
2.43.0


From 6516c755f23e58e156a2e2bbc554594612cbab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 21/31] fix: do not overflow in checking overlap of ranges

offset + length overflows for a large length, then two overlapping ranges were not found as overlapping.
---
 lib/flcklistofflock.h | 13 +++++--------
 lib/rwlockrcsv.cc     |  4 ++--
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/lib/flcklistofflock.h b/lib/flcklistofflock.h
index d12ed8f..9d33b56 100644
--- a/lib/flcklistofflock.h
+++ b/lib/flcklistofflock.h
@@ -107,12 +107,12 @@ class FlListOffLock : public fllistbaseofflock
 inline int fl_compare_list_base(const PFLOFFLOCK psrc1, const PFLOFFLOCK psrc2)
 {
 	int	result = 0;
+	// [NOTE]
+	// Do not add length to offset, because it overflows when the length is large value.
+	//
 	if(psrc1->offset < psrc2->offset){
 		// check overlap
-		if((psrc1->offset + psrc1->length) >= (psrc2->offset + psrc2->length)){
-			// psrc2 is inside the base
-			result = 0;
-		}else if((psrc1->offset + psrc1->length) > static_cast<size_t>(psrc2->offset)){
+		if(static_cast<size_t>(psrc2->offset - psrc1->offset) < psrc1->length){
 			// psrc2 start is inside the base
 			result = 0;
 		}else{
@@ -121,10 +121,7 @@ inline int fl_compare_list_base(const PFLOFFLOCK psrc1, const PFLOFFLOCK psrc2)
 		}
 	}else if(psrc1->offset > psrc2->offset){
 		// check overlap
-		if((psrc1->offset + psrc1->length) <= (psrc2->offset + psrc2->length)){
-			// the base is inside psrc2
-			result = 0;
-		}else if(static_cast<size_t>(psrc1->offset) < (psrc2->offset + psrc2->length)){
+		if(static_cast<size_t>(psrc1->offset - psrc2->offset) < psrc2->length){
 			// the base start is inside psrc2
 			result = 0;
 		}else{
diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index e0e17b0..a834f25 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -117,11 +117,11 @@ bool FLRwlRcsv::compare(const FLRwlRcsv& other) const
 {
 	if(lock_tid == other.lock_tid && lock_fd == other.lock_fd){
 		if(lock_offset <= other.lock_offset){
-			if(other.lock_offset < (lock_offset + static_cast<off_t>(lock_length))){
+			if(static_cast<size_t>(other.lock_offset - lock_offset) < lock_length){
 				return true;
 			}
 		}else{
-			if(lock_offset < (other.lock_offset + static_cast<off_t>(other.lock_length))){
+			if(static_cast<size_t>(lock_offset - other.lock_offset) < other.lock_length){
 				return true;
 			}
 		}
-- 
2.43.0


From d46a44fcb065fbf17afa92473853ad945ef5316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 22/31] fix: a timeouted condition waiter must not take signals

A waiter which has already timeouted is in the waiter list until it has got
its mutex back. The signal sent in the meantime was consumed by it, then the
next waiter was not waked up.
---
 lib/flcklistwaiter.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/flcklistwaiter.cc b/lib/flcklistwaiter.cc
index a73c353..2f09eb0 100644
--- a/lib/flcklistwaiter.cc
+++ b/lib/flcklistwaiter.cc
@@ -89,6 +89,17 @@ int FlListWaiter::rawlock(FLCKLOCKTYPE LockType, time_t timeout_usec)
 		}else{
 			struct timespec	timeout = {(timeout_usec / (1000 * 1000)), ((timeout_usec % (1000 * 1000)) * 1000)};
 			result = fl_timedwait_cond(&(pcurrent->lockstatus), FLCK_NCOND_UP, &timeout);
+			if(ETIMEDOUT == result){
+				// This waiter must not be found by signals after timeouted, because it does not need those.
+				flckpid_t	flckpid = get_flckpid();
+				fl_lock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);			// lock lockid
+				if(FLCK_NCOND_UP == pcurrent->lockstatus){
+					result = 0;						// received signal before leaving
+				}else{
+					fl_force_set_cond(&(pcurrent->lockstatus), FLCK_NCOND_UP);
+				}
+				fl_unlock_lockid(&FlShm::pFlHead->named_cond_lockid, flckpid);			// unlock lockid
+			}
 		}
 
 		// do lock named mutex
-- 
2.43.0


From 478f8684412eb1ee77935b12439a5abed3e8f5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:24 +0000
Subject: [PATCH 23/31] fix: check the fd of the thread, not of the main thread
 of the process

The fd directory of a process whose main thread has exited is empty, so that the rwlocks
of the other threads of it were treated as ones of dead threads and were removed.
---
 lib/flckutil.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index e2e9081..9208593 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -48,7 +48,7 @@ typedef std::vector<std::string>				strlist_t;
 // Symbols
 //---------------------------------------------------------
 #define	FLCK_WORK_DIRECTORY_PERMS				(S_IXUSR | S_IRUSR | S_IWUSR | S_IXGRP | S_IRGRP | S_IWGRP | S_IXOTH | S_IROTH | S_IWOTH)
-#define	FLCK_PROC_FD_PATH_FORM					"/proc/%d/fd/%d"
+#define	FLCK_PROC_FD_PATH_FORM					"/proc/%d/task/%d/fd/%d"
 #define	FLCK_PROC_PATH_FORM						"/proc/%d/task/%d"
 #define	FLCK_PROC_STAT_PATH_FORM				"/proc/%d/task/%d/stat"
 
@@ -337,7 +337,7 @@ bool GetFileDevNode(pid_t pid, tid_t tid, int fd, dev_t& devid, ino_t& inodeid,
 		inodeid	= FLCK_EACCESS_ID;
 	}else{
 		char	szPath[PATH_MAX];
-		sprintf(szPath, FLCK_PROC_FD_PATH_FORM, pid, fd);
+		sprintf(szPath, FLCK_PROC_FD_PATH_FORM, pid, tid, fd);
 		result = GetFileDevNode(szPath, devid, inodeid);
 	}
 	// Need to check thread(process) running, because the file is opened by the process even if only
-- 
2.43.0


From 4ef4f0d623ee7ed3165ed54c62c6cfec37331f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:40 +0000
Subject: [PATCH 24/31] fix: attach by one thread at a time in the retry modes

The other thread which called at the same time failed, or used the shared memory which was
not mapped yet.
---
 lib/flckshm.cc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 15a2e22..114c0ec 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -26,6 +26,7 @@
 #include <sys/stat.h>
 #include <unistd.h>
 #include <errno.h>
+#include <pthread.h>
 
 #include "flckcommon.h"
 #include "flckshm.h"
@@ -665,17 +666,24 @@ void FlShm::PreforkHandler(void)
 //---------------------------------------------------------
 bool FlShm::CheckAttach(void)
 {
-	if(FLCK_INVALID_HANDLE != FlShm::ShmFd){
-		return true;
+	if(NOMAP_ALLOW_RETRY != FlShm::NomapMode && NOMAP_DENY_RETRY != FlShm::NomapMode){
+		return (FLCK_INVALID_HANDLE != FlShm::ShmFd);
 	}
-	if(NOMAP_ALLOW_RETRY == FlShm::NomapMode || NOMAP_DENY_RETRY == FlShm::NomapMode){
-		if(FlShm::InitializeShm()){
-			// Success to initialize
-			return true;
-		}
+
+	// [NOTE]
+	// Another thread may be initializing now, then must wait for it because the fd is set before mapping.
+	//
+	static pthread_mutex_t	attach_mutex = PTHREAD_MUTEX_INITIALIZER;
+
+	pthread_mutex_lock(&attach_mutex);
+	bool	result = true;
+	if(FLCK_INVALID_HANDLE == FlShm::ShmFd && !FlShm::InitializeShm()){
 		ERR_FLCKPRN("Failed to initialize.");
+		result = false;
 	}
-	return false;
+	pthread_mutex_unlock(&attach_mutex);
+
+	return result;
 }
 
 int FlShm::RawLock(FLCKLOCKTYPE LockType, const char* pname, time_t timeout_usec)
-- 
2.43.0


From 408150bfd6aca336ebc84f3cc484a14c0b57740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:23 +0000
Subject: [PATCH 25/31] fix: timedrdlock must not time out because of another
 reader

---
 lib/flckbaselist.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/flckbaselist.tcc b/lib/flckbaselist.tcc
index 3d3e97b..23b7f63 100644
--- a/lib/flckbaselist.tcc
+++ b/lib/flckbaselist.tcc
@@ -191,6 +191,8 @@ namespace fullock
 				if(beforeval == __sync_val_compare_and_swap(plockval, beforeval, newval)){
 					break;
 				}
+				// the value is changed by another, so retry before checking timeout
+				continue;
 			}
 
 			struct timespec	endtime;
-- 
2.43.0


From ded61046bc1e4b5866833cd2c2a1ed2960d65515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:29 +0000
Subject: [PATCH 26/31] fix: an unusable FLCKFILENAME must not leave the
 process without a lock space

---
 lib/flckshm.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index 114c0ec..ad3644a 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -1234,8 +1234,9 @@ bool FlShm::LoadEnv(void)
 	}else{
 		string	filepath = pEnvVal;
 		filepath = trim(filepath);
-		if(string::npos != filepath.find('/')){
+		if(filepath.empty() || string::npos != filepath.find('/')){
 			ERR_FLCKPRN("%s ENV has invalid file name(%s).", FlShm::FLCKFILENAME, pEnvVal);
+			FlShm::ShmFileName() = DEFAULT_SHM_FILENAME;
 		}else{
 			FlShm::ShmFileName() = filepath;
 			MSG_FLCKPRN("Set shmfile name(%s) by ENV(%s=%s).", FlShm::ShmFileName().c_str(), FlShm::FLCKFILENAME, pEnvVal);
-- 
2.43.0


From d5bf1970b243e3cb6f16051a8b0b3a9d80881ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:29 +0000
Subject: [PATCH 27/31] fix: checking a thread must not be a cancellation point

---
 lib/flckutil.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/flckutil.cc b/lib/flckutil.cc
index 9208593..59d2cc0 100644
--- a/lib/flckutil.cc
+++ b/lib/flckutil.cc
@@ -244,14 +244,22 @@ static bool IsZombieThread(pid_t pid, tid_t tid)
 {
 	char	szPath[PATH_MAX];
 	int		fd;
+	int		old_cancel_state;
 	sprintf(szPath, FLCK_PROC_STAT_PATH_FORM, pid, tid);
+
+	// The caller may keep the lockid, so that must not be canceled here.
+	pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old_cancel_state);
+
 	if(FLCK_INVALID_HANDLE == (fd = open(szPath, O_RDONLY | O_CLOEXEC))){
-		return (ENOENT == errno || ESRCH == errno);
+		int	openerr = errno;
+		pthread_setcancelstate(old_cancel_state, NULL);
+		return (ENOENT == openerr || ESRCH == openerr);
 	}
 	char	szStat[512];
 	ssize_t	length	= read(fd, szStat, sizeof(szStat) - 1);
 	int		errnum	= errno;
 	close(fd);
+	pthread_setcancelstate(old_cancel_state, NULL);
 	if(length <= 0){
 		return (-1 == length && ESRCH == errnum);
 	}
-- 
2.43.0


From bbc9bbabf5c31ca660142192f08c6648b6001f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:29 +0000
Subject: [PATCH 28/31] fix: do not fork while another thread keeps the stack
 of recursive locks

---
 lib/rwlockrcsv.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index a834f25..2550d0a 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -15,6 +15,8 @@
  *
  */
 
+#include <pthread.h>
+
 #include "rwlockrcsv.h"
 #include "flckutil.h"
 #include "flckdbg.h"
@@ -34,7 +36,16 @@ class FLRwlRcsvHelper
 		flrwlrcsv_vec_t	FLRwlStack;
 
 	protected:
-		FLRwlRcsvHelper(void) : LockVal(FLCK_NOSHARED_MUTEX_VAL_UNLOCKED) {}
+		FLRwlRcsvHelper(void) : LockVal(FLCK_NOSHARED_MUTEX_VAL_UNLOCKED)
+		{
+			// [NOTE]
+			// Another thread may be locking when the process is forked, it does not exist in the child process.
+			//
+			int	result = pthread_atfork(FLRwlRcsvHelper::Lock, FLRwlRcsvHelper::Unlock, FLRwlRcsvHelper::Unlock);
+			if(0 != result){
+				ERR_FLCKPRN("Could not set handler for forking, error code=%d.", result);
+			}
+		}
 		virtual ~FLRwlRcsvHelper(void) {}
 
 		static FLRwlRcsvHelper& GetFlShm(void)
-- 
2.43.0


From af481a664a59e6cb39e46fb33deacd92b49e15db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:29 +0000
Subject: [PATCH 29/31] fix: a recursive lock object which could not unlock
 must not stay in the stack

---
 lib/rwlockrcsv.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/rwlockrcsv.cc b/lib/rwlockrcsv.cc
index 2550d0a..74c6ca0 100644
--- a/lib/rwlockrcsv.cc
+++ b/lib/rwlockrcsv.cc
@@ -117,7 +117,17 @@ FLRwlRcsv::FLRwlRcsv(int fd, off_t offset, size_t length, bool is_read) : lock_t
 FLRwlRcsv::~FLRwlRcsv(void)
 {
 	bool	is_mutex_locked = false;
-	RawUnlock(is_mutex_locked);
+	if(!RawUnlock(is_mutex_locked)){
+		// could not unlock(ex. the lock of the parent process), but must not leave own in global stack
+		for(flrwlrcsv_vec_t::iterator iter = FLRwlRcsv::Stack().begin(); iter != FLRwlRcsv::Stack().end(); ++iter){
+			// cppcheck-suppress unmatchedSuppression
+			// cppcheck-suppress useStlAlgorithm
+			if(this == (*iter)){
+				FLRwlRcsv::Stack().erase(iter);
+				break;
+			}
+		}
+	}
 
 	if(is_mutex_locked){
 		FLRwlRcsv::StackUnlock();
-- 
2.43.0


From 7b70f73d9c6f0f8249fb56661e0e1c64720ef593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:29 +0000
Subject: [PATCH 30/31] fix: do not fork while another thread attaches the lock
 space

---
 lib/flckshm.cc | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/lib/flckshm.cc b/lib/flckshm.cc
index ad3644a..1a85b4a 100644
--- a/lib/flckshm.cc
+++ b/lib/flckshm.cc
@@ -664,6 +664,30 @@ void FlShm::PreforkHandler(void)
 //---------------------------------------------------------
 // FlShm : Lock
 //---------------------------------------------------------
+static pthread_mutex_t	attach_mutex		= PTHREAD_MUTEX_INITIALIZER;
+static pthread_once_t	attach_fork_once	= PTHREAD_ONCE_INIT;
+
+static void LockAttach(void)
+{
+	pthread_mutex_lock(&attach_mutex);
+}
+
+static void UnlockAttach(void)
+{
+	pthread_mutex_unlock(&attach_mutex);
+}
+
+// [NOTE]
+// Must not fork while another thread is attaching, because it does not exist in the child process.
+//
+static void SetAttachForkHandler(void)
+{
+	int	result = pthread_atfork(LockAttach, UnlockAttach, UnlockAttach);
+	if(0 != result){
+		ERR_FLCKPRN("Failed to set handler for forking(errno=%d), but continue...", result);
+	}
+}
+
 bool FlShm::CheckAttach(void)
 {
 	if(NOMAP_ALLOW_RETRY != FlShm::NomapMode && NOMAP_DENY_RETRY != FlShm::NomapMode){
@@ -673,15 +697,15 @@ bool FlShm::CheckAttach(void)
 	// [NOTE]
 	// Another thread may be initializing now, then must wait for it because the fd is set before mapping.
 	//
-	static pthread_mutex_t	attach_mutex = PTHREAD_MUTEX_INITIALIZER;
+	pthread_once(&attach_fork_once, SetAttachForkHandler);
 
-	pthread_mutex_lock(&attach_mutex);
+	LockAttach();
 	bool	result = true;
 	if(FLCK_INVALID_HANDLE == FlShm::ShmFd && !FlShm::InitializeShm()){
 		ERR_FLCKPRN("Failed to initialize.");
 		result = false;
 	}
-	pthread_mutex_unlock(&attach_mutex);
+	UnlockAttach();
 
 	return result;
 }
-- 
2.43.0


From b2f2a5cb3051da27b3939b3c6ab5dd4685297e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:19 +0000
Subject: [PATCH 31/31] fix: recover after the death of a process even if the
 shared file can not be watched

The worker thread ended silently if epoll or inotify could not be used(ex. limits of
instances), then nothing was recovered(or attaching failed, depending on timing). It
continues with checking periodically.
---
 lib/flckthread.cc | 53 ++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/lib/flckthread.cc b/lib/flckthread.cc
index ccf8235..996d2ef 100644
--- a/lib/flckthread.cc
+++ b/lib/flckthread.cc
@@ -190,34 +190,28 @@ void* FlckThread::WorkerProc(void* param)
 	pthread_setcancelstate(old_cancel_state, NULL);							// set allowing cancel
 	pthread_testcancel();													// check cancel
 
-	// create event fd
+	// start to watch file
+	// [NOTE]
+	// The resources for watching could be exhausted. Even in that case, the dead process must be found.
+	// Then this thread continues with checking it periodically.
+	//
+	bool				is_watching	= false;
+	struct epoll_event	epoolev;
+	memset(&epoolev, 0, sizeof(struct epoll_event));
+	epoolev.events		= EPOLLIN | EPOLLET;
 	if(FLCK_INVALID_HANDLE == (FlckThread::EventFd = epoll_create1(EPOLL_CLOEXEC))){
 		ERR_FLCKPRN("Failed to create epoll, error %d", errno);
-		pthread_testcancel();
-		pthread_exit(NULL);
-	}
-	// create inotify
-	if(FLCK_INVALID_HANDLE == (FlckThread::InotifyFd = inotify_init1(IN_NONBLOCK | IN_CLOEXEC))){
+	}else if(FLCK_INVALID_HANDLE == (FlckThread::InotifyFd = inotify_init1(IN_NONBLOCK | IN_CLOEXEC))){
 		ERR_FLCKPRN("Failed to create inotify, error %d", errno);
-		pthread_testcancel();												// check cancel
-		pthread_exit(NULL);
-	}
-	// add file to inotify
-	if(FLCK_INVALID_HANDLE == (FlckThread::WatchFd = inotify_add_watch(FlckThread::InotifyFd, pfilepath, IN_CLOSE))){
+	}else if(FLCK_INVALID_HANDLE == (FlckThread::WatchFd = inotify_add_watch(FlckThread::InotifyFd, pfilepath, IN_CLOSE))){
 		ERR_FLCKPRN("Could not add to watch file %s (errno=%d)", pfilepath, errno);
-		pthread_testcancel();												// check cancel
-		pthread_exit(NULL);
-	}
-
-	// add event
-	struct epoll_event	epoolev;
-	memset(&epoolev, 0, sizeof(struct epoll_event));
-	epoolev.data.fd		= FlckThread::InotifyFd;
-	epoolev.events		= EPOLLIN | EPOLLET;
-	if(-1 == epoll_ctl(FlckThread::EventFd, EPOLL_CTL_ADD, FlckThread::InotifyFd, &epoolev)){
-		ERR_FLCKPRN("Failed to add inotifyfd(%d)-watchfd(%d) to event fd(%d), error=%d", FlckThread::InotifyFd, FlckThread::WatchFd, FlckThread::EventFd, errno);
-		pthread_testcancel();												// check cancel
-		pthread_exit(NULL);
+	}else{
+		epoolev.data.fd	= FlckThread::InotifyFd;
+		if(-1 == epoll_ctl(FlckThread::EventFd, EPOLL_CTL_ADD, FlckThread::InotifyFd, &epoolev)){
+			ERR_FLCKPRN("Failed to add inotifyfd(%d)-watchfd(%d) to event fd(%d), error=%d", FlckThread::InotifyFd, FlckThread::WatchFd, FlckThread::EventFd, errno);
+		}else{
+			is_watching	= true;
+		}
 	}
 	pthread_testcancel();													// check cancel
 
@@ -232,6 +226,17 @@ void* FlckThread::WorkerProc(void* param)
 			// stop(sleep)
 			nanosleep(&sleepms, NULL);
 
+		}else if(FlckThread::FLCK_THCNTL_RUN == *pThFlag && !is_watching){
+			// could not watch file, so check periodically
+			nanosleep(&sleepms, NULL);
+			if(0 >= --recheckcnt){
+				recheckcnt = FLCK_RECHECK_COUNT;
+				FlShm	LocalFlShm;
+				if(!LocalFlShm.CheckProcessDead()){
+					WAN_FLCKPRN("Failed to check process dead in FlShm object, but continue...");
+				}
+			}
+
 		}else if(FlckThread::FLCK_THCNTL_RUN == *pThFlag){
 			// wait event
 			int	eventcnt;
-- 
2.43.0

