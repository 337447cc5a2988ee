TITLE = "Partitions are referenced while in use, and every reference is released once"
STATEMENT = """A partition looked up by time, or collected for a query, rotation or rollup, is referenced exactly once while the list of partitions
is locked, and is never used after the list is unlocked without a reference, nor after its reference was released. Every reference is released
or handed on to a page in memory exactly once on every path: a page releases it when it moves to another partition or goes away, a query when it
ends. A partition is removed from the list and deleted, or replaced by compaction, only when nobody else references it."""
OVER = ["schedules", "histories"]
QUANT = "every schedule of writes, queries, rotation, retention, compaction and rollup, and every early exit of each"
WHY = """A missing reference matters only if a partition is purged in a short window; a leaked one keeps it from ever being archived, compacted
or purged, hours or days later."""
FILES = ["src/core/tsdb.cpp", "include/tsdb.h", "src/core/page.cpp", "src/core/query.cpp", "src/core/ts.cpp"]
STATE = [("partition", "its reference count", "include/tsdb.h"), ("list of partitions", "the partitions in order of time", "src/core/tsdb.cpp")]
MECH = [("look up and reference", "src/core/tsdb.cpp (inst, insts)"), ("hand over to a page", "src/core/page.cpp"), ("retention", "src/core/tsdb.cpp (purge_oldest)")]
OBSERVE = ["every call that takes, releases or hands on a reference, on all paths"]
TECH = "acquire/release pairing on all paths of the inlined control-flow graphs, with a fixpoint over parameters that take references over"
NOTE = """Decides every normal path; a reference held while an exception passes is not followed."""
