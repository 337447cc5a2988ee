TITLE = "Metrics and series keep a unique identity across restarts"
STATEMENT = """Every new metric and series gets an id no other has (one atomic step of a counter that every restored id pushes above itself), is
entered where it is looked up and in its metric's list, and is recorded in the registry with that id under the ordered tags it is looked up
by; nothing is created without having been looked for since the lock was taken. The registry files are only appended to; a metric is on file
before its series, a new file gets the one line that readers skip, and closing or flushing covers both files. At start metrics and then all
series lines are read to the end, each item taken from where it is written, before the files are opened for appending."""
OVER = ["crash_points", "histories", "schedules"]
QUANT = "every mix of metrics, series and measurements, created by any threads, over any number of restarts and crashes"
WHY = """A wrong id or key shows only after a restart, when data of two series is mixed or a series is not found; the tests restart with a handful of series."""
FILES = ["src/utils/meta.cpp", "src/core/ts.cpp", "src/core/tsdb.cpp"]
STATE = [("registry", "files metrics and ts in the data directory", "src/utils/meta.cpp"), ("id counters", "next id of metrics and of series", "src/core/ts.cpp"),
         ("lookup maps", "metrics by name, series by tags", "include/tsdb.h")]
MECH = [("record and restore", "src/utils/meta.cpp (MetaFile)"), ("lookup or creation", "src/core/tsdb.cpp (Mapping::get_ts, Mapping::get_measurement, Tsdb::get_or_add_mapping)")]
OBSERVE = ["writes of ids and counters", "lines written against items read", "what happens to each object created"]
TECH = "value-origin tracing, must-pass-through path analysis and writer/reader format agreement over the resolved control-flow graphs"
NOTE = """Decides ids, keys, line formats and order of steps; whether ordering the tags is itself right and what a half-written last line becomes is not claimed."""
