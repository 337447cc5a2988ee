TITLE = "Threads never deadlock on the server's locks and never leave one locked"
STATEMENT = """No thread waits forever for a lock: every lock taken is released on every way out of the code that took it, locks are
always taken in one consistent order, and no thread takes a non-recursive lock it already holds. A lock is also never released by code
that does not hold it, nor does a scope that unlocks at its end outlive the object that contains the lock."""
OVER = ["schedules", "fault_sequences"]
QUANT = "every interleaving of threads, and every error exit of the code between taking and releasing a lock"
WHY = """A deadlock needs two threads to take two locks in opposite order in the same few microseconds; a leaked lock needs the error
path that skips the release. The tests drive neither."""
FILES = ["src/core/tsdb.cpp", "src/core/mmap.cpp", "src/core/ts.cpp", "src/core/query.cpp", "src/utils/lock.cpp", "src/utils/memmgr.cpp"]
MECH = [("scoped guards", "src/core/*.cpp"), ("explicit lock/unlock of reader/writer locks", "src/core/tsdb.cpp, include/utils.h")]
OBSERVE = ["every lock and unlock operation, every pair of locks held together"]
TECH = "interprocedural lockset dataflow: lock-order graph cycles, release on all exits, self-deadlock, typestate of each lock"
NOTE = """All lock sites and call chains of the program as compiled. One acquisition order inside compaction is a known deadlock
(listed in KNOWN_FINDINGS.txt); any other inversion is reported. Locks of different objects of one class are distinguished only where the
analysis can tell the objects apart."""
