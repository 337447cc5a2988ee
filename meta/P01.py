TITLE = "Shared state is never accessed by two threads without its lock"
STATEMENT = """While the server runs with any number of worker threads, every piece of state that threads share (the registries
of metrics, series and partitions, file lists and mappings, series buffers, configuration, rollup bookkeeping, the log file and the
recycled-object pools) is read and written only while the lock that protects it is held, or through an atomic. A value looked up
under a lock and then inserted under it again is looked up afresh before it is inserted."""
OVER = ["schedules"]
QUANT = "every interleaving of the listener, worker, timer and shutdown threads"
WHY = """The tests run a few requests on mostly idle threads; a race needs two threads at two particular instructions, and a run that
happens not to hit the window passes. The lock discipline holds or fails for each access site, whatever the schedule."""
FILES = ["src/core/ts.cpp", "src/core/tsdb.cpp", "src/core/mmap.cpp", "src/core/rollup.cpp", "src/utils/memmgr.cpp", "src/utils/config.cpp", "src/utils/logger.cpp"]
STATE = [("shared registries", "maps and lists of metrics, series, partitions, files", "include/tsdb.h, include/ts.h, include/rollup.h")]
MECH = [("mutexes and reader/writer locks named by each class", "include/*.h"), ("lock_guard scopes around every access", "src/core/*.cpp")]
OBSERVE = ["every read or write of a guarded field in the resolved program"]
TECH = "whole-program lockset dataflow over the call graph, against a table of which lock guards which field"
NOTE = """Decides for every access site of the guarded fields whether the guarding lock is held on every path and every call chain from a
thread entry. Trusts the guard table and six listed exemptions (with reasons in rules/p01.py); fields outside the table are not decided."""
