TITLE = "Rollup files are referenced while in use, and every reference is released once"
STATEMENT = """A rollup data file handed out for writing, querying or recompression is referenced exactly once while the table of rollup files is
locked, and the count is only changed under the file's own lock. Every reference is released or handed on exactly once on every path: when a
series moves to another month, when a query has read the file or finds it empty, and when a rollup is done with it; a file is not used after
that. A file is closed and deleted, or swapped for its recompressed version, only when nobody else references it."""
OVER = ["schedules", "histories"]
QUANT = "every schedule of writes, queries, rotation and rollup over all rollup files of a month or year"
WHY = """A file closed while in use fails only if rotation runs at the wrong moment an hour later; a leaked reference keeps recompression from ever
taking place."""
FILES = ["src/agg/rollup.cpp", "include/rollup.h", "src/core/mmap.cpp", "include/mmap.h", "src/core/tsdb.cpp"]
STATE = [("rollup data file", "its reference count", "include/mmap.h"), ("tables of rollup files", "monthly and annual files by bucket", "src/agg/rollup.cpp")]
MECH = [("look up and reference", "src/agg/rollup.cpp"), ("close when idle", "src/core/mmap.cpp, src/agg/rollup.cpp (rotate)"), ("swap recompressed files", "src/agg/rollup.cpp")]
OBSERVE = ["every call that takes, releases or hands on a reference, on all paths"]
TECH = "acquire/release pairing on all paths of the inlined control-flow graphs; lock sets at every change of the count"
NOTE = """Decides every normal path; a reference held while an exception passes is not followed. The reference kept by a series that is
never written again lasts until shutdown."""
