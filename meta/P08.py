TITLE = "A clean shutdown files all data before the append log is removed"
STATEMENT = """On a clean shutdown the servers are stopped first, then the timer, then every page held in memory by any series is filed and
every partition's settings and files are written and closed, then the rollup data is saved, and only after all that is the append log
removed. A page held in memory is never discarded or replaced unless it was filed, is empty, or is known to be on disk already. The current
rollup of each series is saved at shutdown and files are closed so that nothing they buffer is lost."""
OVER = ["histories", "crash_points", "inputs"]
QUANT = "every path through the shutdown sequence, including failures in the middle, and every way a page in memory goes away"
WHY = """The tests stop the server in the ordinary way and look at a few values afterwards; a step in the wrong order or a page dropped on a
rare path does not show."""
FILES = ["src/main.cpp", "src/core/tsdb.cpp", "src/core/ts.cpp", "src/core/page.cpp", "src/core/mmap.cpp", "src/agg/rollup.cpp", "src/utils/append.cpp", "src/utils/meta.cpp"]
STATE = [("pages in memory", "the current and the out-of-order page of each series", "include/ts.h"), ("append log", "wal/append.log", "src/utils/append.cpp")]
MECH = [("ordered shutdown", "src/main.cpp (shutdown)"), ("closing of all series and partitions", "src/core/tsdb.cpp (Tsdb::shutdown)")]
OBSERVE = ["order of the shutdown steps", "pages filed before being deleted"]
TECH = "must-pass-through and ordering analysis on inlined control-flow graphs; guarded-deletion rule for pages in memory"
NOTE = """Decides the order and completeness of the steps on every path. Whether the operating system keeps what it was given is not claimed."""
