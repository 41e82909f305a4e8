#!/usr/bin/env python3
"""plants.py <id>... : applies the edits of a planted bug to /repo(uncommitted), makes seeded/<id> by mkseed.py and undoes them."""
import subprocess, sys
L = "/repo/lib/"
E = {}
E["S01"] = [("flckbaselist.tcc", """			if(IS_OVER_TIMESPEC(&starttime, &endtime, limittime)){
				return ETIMEDOUT;
			}
		}while(-1 <= sched_yield());
		return 0;
	}

	inline int fl_unlock_mutex(""", """			if(IS_OVER_TIMESPEC(&starttime, &endtime, limittime)){
				// last try
				if(FLCK_MUTEX_UNLOCK != *plockval){
					return ETIMEDOUT;
				}
				*plockval = lockid;
				*plockcnt = 1;
				break;
			}
		}while(-1 <= sched_yield());
		return 0;
	}

	inline int fl_unlock_mutex(""")]
E["S02"] = [("flckbaselist.tcc", """				int	oldcnt = __sync_fetch_and_sub(plockcnt, 1);
				if(oldcnt <= 1){
					if(oldcnt < 1){
						// something wrong, but do recover...
						__sync_val_compare_and_swap(plockcnt, oldcnt, 0);	// not check result
					}
					// try unlock
					flck_mutex_t	oldval;
					if(lockid == (oldval = __sync_val_compare_and_swap(plockval, lockid, FLCK_MUTEX_UNLOCK)) || FLCK_MUTEX_UNLOCK == oldval){
						// succeed to unlock
						break;
					}
					// why? but do recover
					__sync_fetch_and_add(plockcnt, 1);						// not check result
				}else{
					// still locked recursively by this owner
					break;
				}""", """				int	oldcnt = *plockcnt;
				if(oldcnt <= 1){
					// try unlock
					flck_mutex_t	oldval;
					if(lockid == (oldval = __sync_val_compare_and_swap(plockval, lockid, FLCK_MUTEX_UNLOCK)) || FLCK_MUTEX_UNLOCK == oldval){
						// succeed to unlock
						*plockcnt = 0;
						break;
					}
				}else{
					// still locked recursively by this owner
					__sync_fetch_and_sub(plockcnt, 1);
					break;
				}""")]
E["S03"] = [("flckshm.cc", """	fl_lock_lockid(&FlShm::pFlHead->named_mutex_lockid, flckpid);		// lock lockid for top manually.(keep to lock)

	// check mutex list
""", """	// check mutex list(named mutex is never removed from list, so it does not need lockid)
"""), ("flckshm.cc", """		if(tmpobj.check_dead_lock(pcache_map, except_flckpid)){
			result = true;
		}
	}
	fl_unlock_lockid(&FlShm::pFlHead->named_mutex_lockid, flckpid);	// unlock lockid

""", """		if(tmpobj.check_dead_lock(pcache_map, except_flckpid)){
			result = true;
		}
	}
""")]
E["S04"] = [("flckbaselist.tcc", """			// try lock
			if(FLCK_MUTEX_UNLOCK == __sync_val_compare_and_swap(plockval, FLCK_MUTEX_UNLOCK, lockid)){
				// get lock --> count up lockcnt
				__sync_fetch_and_add(plockcnt, 1);		// not need to check return value
				return 0;
			}
		}
		return EBUSY;""", """			// try lock --> count up lockcnt before getting lock
			if(0 == __sync_fetch_and_add(plockcnt, 1) && FLCK_MUTEX_UNLOCK == __sync_val_compare_and_swap(plockval, FLCK_MUTEX_UNLOCK, lockid)){
				return 0;
			}
			__sync_fetch_and_sub(plockcnt, 1);
		}
		return EBUSY;""")]
E["S05"] = [("flcklistfilelock.cc", """			if(FlShm::IsFreeUnitOffset()){
				fl_lock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);	// lock lockid

				if(tglistobj.find(offset, length, pcurrent->offset_lock_list)){
					if(!tglistobj.is_locked()){
						// retrieve target list
						if(tglistobj.cutoff_list(pcurrent->offset_lock_list)){
							// return object to free list
							if(!tglistobj.insert_list(FlShm::pFlHead->offset_lock_free)){
								ERR_FLCKPRN("Failed to insert offset lock to free list, but continue...");
							}
						}
					}
				}
				fl_unlock_lockid(""", """			if(FlShm::IsFreeUnitOffset() && !tglistobj.is_locked()){
				fl_lock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);	// lock lockid

				// retrieve target list
				if(tglistobj.cutoff_list(pcurrent->offset_lock_list)){
					// return object to free list
					if(!tglistobj.insert_list(FlShm::pFlHead->offset_lock_free)){
						ERR_FLCKPRN("Failed to insert offset lock to free list, but continue...");
					}
				}
				fl_unlock_lockid(""")]
E["S06"] = [("flckbaselist.tcc", """		}while((FLCK_RWLOCK_UNLOCK > beforeval || beforeval != __sync_val_compare_and_swap(plockval, beforeval, newval)) && -1 <= sched_yield());
		return 0;""", """			// shared by some readers already, no writer can come between
			if(FLCK_RWLOCK_UNLOCK + 2 < beforeval && beforeval == *plockval){
				*plockval = newval;
				return 0;
			}
		}while((beforeval < FLCK_RWLOCK_UNLOCK || beforeval != __sync_val_compare_and_swap(plockval, beforeval, newval)) && -1 <= sched_yield());
		return 0;""")]
E["S07"] = [("flcklistofflock.cc", """			if(!tglistobj.find(flckpid, fd, true, pcurrent->reader_list)){
				// not found target.
				ERR_FLCKPRN("Could not locking rwlock object for pid(%d), tid(%d), fd(%d) in reader_list(%p).", decompose_pid(flckpid), decompose_tid(flckpid), fd, pcurrent->reader_list);
				return EINVAL;				// EINVAL
			}
			is_writer = false;""", """			PFLLOCKER	pabscur;
			for(pabscur = to_abs(pcurrent->reader_list); pabscur; pabscur = to_abs(pabscur->next)){
				if(flckpid == pabscur->flckpid && (fd == pabscur->fd || !pabscur->next) && pabscur->locked){
					break;
				}
			}
			if(!pabscur){
				// not found target.
				ERR_FLCKPRN("Could not locking rwlock object for pid(%d), tid(%d), fd(%d) in reader_list(%p).", decompose_pid(flckpid), decompose_tid(flckpid), fd, pcurrent->reader_list);
				return EINVAL;				// EINVAL
			}
			tglistobj.set(pabscur);
			is_writer = false;""")]
E["S08"] = [("flcklistofflock.cc", """					fl_pid_cache_map_t	cache_map;
					check_dead_lock""", """					static __thread fl_pid_cache_map_t*	pcache_map = NULL;			// for each thread
					if(!pcache_map){
						pcache_map = new fl_pid_cache_map_t;
					}
					check_dead_lock"""), ("flcklistofflock.cc", "check_dead_lock(devid, inoid, &cache_map, flckpid, fd);", "check_dead_lock(devid, inoid, pcache_map, flckpid, fd);")]
E["S09"] = [("flckshm.h", "return (FREE_FD == FlShm::FreeUnitMode || FREE_OFFSET == FlShm::FreeUnitMode); }", "return (FREE_OFFSET == FlShm::FreeUnitMode); }")]
E["S10"] = [("flckshm.cc", """	FlListFileLock	tglistobj;
	flckpid_t		flckpid = get_flckpid();
	fl_lock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);			// lock lockid for top manually.(keep to lock)

	if(!tglistobj.find(devid, inodeid, FlShm::pFlHead->file_lock_list)){
		fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);		// unlock lockid
		return false;
	}

	bool	result = tglistobj.is_locked(offset, length);
	fl_unlock_lockid(&FlShm::pFlHead->file_lock_lockid, flckpid);			// unlock lockid

	return result;""", """	// only reading
	FlListFileLock	tglistobj;
	if(!tglistobj.find(devid, inodeid, FlShm::pFlHead->file_lock_list)){
		return false;
	}
	return tglistobj.is_locked(offset, length);""")]
E["S11"] = [("flcklistncond.cc", """				tmpobj.set(ptmp);
				if(tmpobj.is_wait()){
					// wake up waiter""", """				tmpobj.set(ptmp);
				if(!tmpobj.is_wait()){
					break;					// the older waiters were already woken up
				}else{
					// wake up waiter""")]
E["S12"] = [("flcklistwaiter.cc", """		// set lock status to wait
		fl_force_set_cond(&(pcurrent->lockstatus), FLCK_NCOND_WAIT);					// always returns 0

		// do unlock named mutex
		if(0 != (result = tgnmtxobj.unlock())){
			ERR_FLCKPRN("Could not unlock named mutex(error code=%d) for cond.", result);

			// for recover
			fl_force_set_cond(&(pcurrent->lockstatus), FLCK_NCOND_UP);
			return result;
		}
""", """		// do unlock named mutex
		if(0 != (result = tgnmtxobj.unlock())){
			ERR_FLCKPRN("Could not unlock named mutex(error code=%d) for cond.", result);

			// for recover
			fl_force_set_cond(&(pcurrent->lockstatus), FLCK_NCOND_UP);
			return result;
		}

		// set lock status to wait
		fl_force_set_cond(&(pcurrent->lockstatus), FLCK_NCOND_WAIT);					// always returns 0
""")]
E["S13"] = [("flckbaselist.tcc", """					if(oldval2 == (oldval1 = __sync_val_compare_and_swap(pflckpid, oldval2, newid))){
						// success to switch newid.
						break;
					}
					// retry...""", """					if(oldval2 == *pflckpid){
						// success to switch newid.
						*pflckpid = newid;
						break;
					}
					// retry...""")]
E["S14"] = [("flckshminit.cc", """	// file size to zero
	if(0 != ftruncate(FlShm::ShmFd, 0)){
		ERR_FLCKPRN("Could not truncate zero to FlShm::ShmFd(%d), errno=%d", FlShm::ShmFd, errno);
		return false;
	}
""", ""), ("flckshminit.cc", """	// fill zero to hole file
	if(!flck_fill_zero(FlShm::ShmFd, sz_total, 0)){""", """	// fill zero to hole file(unless it has the size already)
	struct stat	st;
	if(0 != fstat(FlShm::ShmFd, &st) || (static_cast<size_t>(st.st_size) != sz_total && 0 != ftruncate(FlShm::ShmFd, 0))){
		ERR_FLCKPRN("Could not truncate zero to FlShm::ShmFd(%d), errno=%d", FlShm::ShmFd, errno);
		return false;
	}
	if(static_cast<size_t>(st.st_size) != sz_total && !flck_fill_zero(FlShm::ShmFd, sz_total, 0)){""")]
E["S15"] = [("flckutil.h", """	return ((static_cast<flckpid_t>(getpid()) << 32) | (static_cast<flckpid_t>(get_threadid()) & 0xFFFFFFFF));
""", """	static const flckpid_t	pidpart = (static_cast<flckpid_t>(getpid()) << 32);		// process id is not changed
	return (pidpart | (static_cast<flckpid_t>(get_threadid()) & 0xFFFFFFFF));
""")]
E["S16"] = [("flckshm.cc", """	// check mapping
	if(!FlShm::CheckAttach()){
		ERR_FLCKPRN("Does not attach shm.");
		return ((NOMAP_ALLOW_RETRY == FlShm::NomapMode || NOMAP_ALLOW_NORETRY == FlShm::NomapMode) ? 0 : ENOLCK);		// ENOLCK
	}

	flckpid_t	flckpid	= get_flckpid();
	int			result	= 0;

	if(FLCK_NCOND_UP == LockType){""", """	// check mapping
	if(!FlShm::CheckAttach()){
		ERR_FLCKPRN("Does not attach shm.");
		return (NOMAP_DENY_NORETRY != FlShm::NomapMode ? 0 : ENOLCK);		// ENOLCK
	}

	flckpid_t	flckpid	= get_flckpid();
	int			result	= 0;

	if(FLCK_NCOND_UP == LockType){""")]
E["S17"] = [("flckshm.cc", """	FlShm::LockerAreaCount		= FLCK_FLCKLOCKERCNT_DEFAULT;
	FlShm::NMtxAreaCount		= FLCK_FLCKNMTXCNT_DEFAULT;
	FlShm::NCondAreaCount		= FLCK_FLCKNCONDCNT_DEFAULT;
	FlShm::WaiterAreaCount		= FLCK_FLCKWAITERCNT_DEFAULT;
""", """	FlShm::LockerAreaCount		= FLCK_FLCKLOCKERCNT_DEFAULT;
	FlShm::NCondAreaCount		= FLCK_FLCKNCONDCNT_DEFAULT;
	FlShm::WaiterAreaCount		= FLCK_FLCKWAITERCNT_DEFAULT;
""")]
E["S18"] = [("rwlockrcsv.cc", """			pNewMaster->is_locked	= true;
			pNewMaster->lock_type	= lock_type;			// [NOTICE] there is a possibility case read type to write.
""", """			pNewMaster->is_locked	= true;
""")]
E["S19"] = [("flckshm.cc", """	flckpid_t			flckpid	= get_flckpid();
	fl_pid_cache_map_t	cache_map;

	// check file lock list""", """	flckpid_t					flckpid	= get_flckpid();
	static fl_pid_cache_map_t	cache_map;			// only used by worker thread

	// check file lock list""")]
E["S20"] = [("flcklistnmtx.h", """	return strncmp(psrc1->name, psrc2->name, FLCK_NAMED_MUTEX_MAXLENGTH);""", """	return strncmp(psrc1->name, psrc2->name, FLCK_NAMED_MUTEX_MAXLENGTH - 1);"""),
    ("flcklistnmtx.h", """				tmp.name[FLCK_NAMED_MUTEX_MAXLENGTH] = '\\0';
				strncpy(tmp.name, pname, FLCK_NAMED_MUTEX_MAXLENGTH);
				tmp.hash = flck_fnv_hash(&tmp.name[0], strlen(tmp.name));""", """				tmp.name[FLCK_NAMED_MUTEX_MAXLENGTH] = '\\0';
				strncpy(tmp.name, pname, FLCK_NAMED_MUTEX_MAXLENGTH);
				tmp.hash = flck_fnv_hash(&tmp.name[0], strnlen(tmp.name, FLCK_NAMED_MUTEX_MAXLENGTH - 1));"""),
    ("flcklistnmtx.h", """					pcurrent->hash = flck_fnv_hash(&pcurrent->name[0], strlen(pcurrent->name));""", """					pcurrent->hash = flck_fnv_hash(&pcurrent->name[0], strnlen(pcurrent->name, FLCK_NAMED_MUTEX_MAXLENGTH - 1));""")]

# S01, S02, S04, S06, S13 change flckbaselist.tcc, which the final check does not take for source code: kept under tools/extra
E["S21"] = [("flckshm.cc", """		FlListNMtx		tglistobj;

		if(!tglistobj.find(pname, FlShm::pFlHead->named_mutex_list)){
			// Not found, so get new file lock and insert it.
""", """		FlListNMtx		tglistobj;
		bool			found = tglistobj.find(pname, FlShm::pFlHead->named_mutex_list);

		if(!found){
			// keep lockid only while changing lists
			fl_unlock_lockid(&FlShm::pFlHead->named_mutex_lockid, flckpid);		// unlock lockid
			fl_lock_lockid(&FlShm::pFlHead->named_mutex_lockid, flckpid);
""")]
E["S22"] = [("flcklistnmtx.cc", """				result = fl_timedlock_mutex(&(pcurrent->lockval), &(pcurrent->lockcnt), flckpid, &timeout);""",
"""				result = (flckpid == pcurrent->lockval ? 0 : fl_timedlock_mutex(&(pcurrent->lockval), &(pcurrent->lockcnt), flckpid, &timeout));""")]
E["S23"] = [("flcklistnmtx.cc", """				struct timespec	timeout = {(timeout_usec / (1000 * 1000)), ((timeout_usec % (1000 * 1000)) * 1000)};""",
"""				struct timespec	timeout = {0, static_cast<int>(timeout_usec * 1000)};""")]
E["S24"] = [("flcklistofflock.cc", """					result = 0;					// retry to lock
				}else{
					result = 0;					// retry to lock
				}""", """					result = 0;					// retry to lock
				}""")]
E["S25"] = [("flcklistwaiter.cc", """	pid_t	pid = decompose_pid(flckpid);
	tid_t	tid = decompose_tid(flckpid);
	if(FindThreadProcess(pid, tid, pcache)){
		return false;
	}
""", """	pid_t	pid = decompose_pid(flckpid);
	tid_t	tid = decompose_tid(flckpid);
	if(0 == kill(pid, 0) || FindThreadProcess(pid, tid, pcache)){
		return false;
	}
"""), ("flcklistwaiter.cc", """#include "flcklistnmtx.h"
""", """#include <signal.h>
#include "flcklistnmtx.h"
""")]
E["S26"] = [("flcklistnmtx.cc", """	pid_t	pid = decompose_pid(lockval);
	tid_t	tid = decompose_tid(lockval);
	if(FindThreadProcess(pid, tid, pcache)){
		return false;
	}
""", """	// (a thread of this process can not be dead while holding it)
	pid_t	pid = decompose_pid(lockval);
	tid_t	tid = decompose_tid(lockval);
	if(pid == getpid() || FindThreadProcess(pid, tid, pcache)){
		return false;
	}
""")]
E["S27"] = [("flcklistfilelock.h", """	if(psrc1->dev_id < psrc2->dev_id){
		result = 1;
	}else if(psrc1->dev_id > psrc2->dev_id){
		result = -1;
	}else{	// psrc1->dev_id == psrc2->dev_id
""", """	if(psrc1->ino_id != psrc2->ino_id && psrc1->dev_id < psrc2->dev_id){
		result = 1;
	}else if(psrc1->ino_id != psrc2->ino_id && psrc1->dev_id > psrc2->dev_id){
		result = -1;
	}else{	// psrc1->dev_id == psrc2->dev_id
""")]

E["S28"] = [("flckthread.cc", """	thflag			= FlckThread::FLCK_THCNTL_STOP;
	is_run_worker	= false;

	// start thread
	return InitializeThread(tmppath.c_str(), bup_intervalms);""", """	thflag			= FlckThread::FLCK_THCNTL_STOP;
	if(IsInitWorker()){
		// it has its backup
		return true;
	}
	is_run_worker	= false;

	// start thread
	return InitializeThread(tmppath.c_str(), bup_intervalms);""")]
E["S29"] = [("rwlockrcsv.h", """			for(flrwlrcsv_vec_t::iterator iter = src.begin(); iter != src.end(); ++iter){
				(*iter)->pMaster = pNewMaster;
				dest.push_back(*iter);
			}
""", """			for(flrwlrcsv_vec_t::iterator iter = src.begin(); iter != src.end(); ++iter){
				if(!(*iter)->pMaster){
					(*iter)->pMaster = pNewMaster;
				}
				dest.push_back(*iter);
			}
""")]
E["S30"] = [("flckshminit.cc", """	size_t	sz_locker	= sizeof(FLLOCKER)		* FlShm::LockerAreaCount;""", """	size_t	sz_locker	= sizeof(FLLOCKER)		* (FlShm::LockerAreaCount < FlShm::OffLockAreaCount ? FlShm::LockerAreaCount : FlShm::OffLockAreaCount);""")]

E["S31"] = [("flcklistncond.h", """	return strncmp(psrc1->name, psrc2->name, FLCK_NAMED_COND_MAXLENGTH);""", """	// same hash value, then it is same name
	return 0;""")]
E["S32"] = [("flckshminit.cc", """		WAN_FLCKPRN("Already munmap.");
	}else{
		if(!FlShm::pFlHead){""", """		WAN_FLCKPRN("Already munmap.");
		return true;
	}else{
		if(!FlShm::pFlHead){""")]
E["S33"] = [("flcklistwaiter.cc", """			struct timespec	timeout = {(timeout_usec / (1000 * 1000)), ((timeout_usec % (1000 * 1000)) * 1000)};""",
"""			int				sec		= static_cast<int>(timeout_usec / (1000 * 1000));
			struct timespec	timeout = {sec, ((timeout_usec % (1000 * 1000)) * 1000)};""")]
E["S34"] = [("flckshm.cc", """(S_IRUSR | S_IWUSR | S_IXUSR | S_IRGRP | S_IWGRP | S_IXGRP | S_IROTH | S_IWOTH | S_IXOTH) <= tmpval""", """(S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH) <= tmpval""")]
E["S35"] = [("rwlockrcsv.cc", """	if(FLCK_READ_LOCK == lock_type){
		bresult = RawReadLock(is_mutex_locked);
	}else if(FLCK_WRITE_LOCK == lock_type){
		bresult = RawWriteLock(is_mutex_locked);
	}
""", """	if(FLCK_WRITE_LOCK == lock_type && has_locker){
		bresult = RawWriteLock(is_mutex_locked);
	}else if(FLCK_UNLOCK != lock_type){
		bresult = RawReadLock(is_mutex_locked);
	}
""")]


def main():
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout
    for i in sys.argv[1:]:
        try:
            for f, o, n in E[i]:
                s = open(L + f).read()
                assert s.count(o) == 1, (i, f, s.count(o), o)
                open(L + f, "w").write(s.replace(o, n))
            subprocess.run([sys.executable, "/verif/tools/mkseed.py", i], check=True)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])


if __name__ == "__main__":
    main()
