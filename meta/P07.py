TITLE = "A check point is reported as persisted only after the data before it was flushed"
STATEMENT = """Each time check points are persisted, the set persisted is a snapshot taken before the partitions are collected, and every
partition that is not archived has had its metrics and index flushed in between; a rotation cut short by shutdown persists nothing. Clients
are only told of check points that were written completely to a check point file, older files are removed only afterwards, and the newest
file is loaded at start. Data points that precede a check point in a request are stored before the check point is accepted."""
OVER = ["histories", "schedules", "crash_points"]
QUANT = "every order of data points, check points, rotations and shutdown, and every failure to write the file"
WHY = """A check point reported too early only matters when the process dies between two steps of a rotation, which the tests do not do."""
FILES = ["src/core/cp.cpp", "include/cp.h", "src/core/tsdb.cpp"]
STATE = [("check points", "received, snapshot and persisted check points per leader and channel", "include/cp.h")]
MECH = [("snapshot, flush, persist", "src/core/tsdb.cpp (rotate, shutdown)"), ("publish after writing", "src/core/cp.cpp")]
OBSERVE = ["order of snapshot, flush and publication on every path"]
TECH = "path analysis over the inlined control-flow graphs of everything that persists check points; who-may-read/write of the check point sets"
NOTE = """Decides the order on every path. Pages that are still in memory are not flushed by a rotation; they are covered by the append log
and not part of this property."""
