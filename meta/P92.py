TITLE = "Memory, open files and answer times stay bounded under load"
STATEMENT = "With any number of series, connections and queries the server's memory, its number of open files and the time it takes to answer stay below limits that follow from its settings."
OVER = ["inputs", "schedules"]
QUANT = "every load"
WHY = "Tests use a handful of series for seconds."
FILES = ["src/utils/memmgr.cpp", "src/core/tcp.cpp", "src/core/query.cpp"]
MECH = [("pools", "src/utils/memmgr.cpp"), ("connections", "src/core/tcp.cpp"), ("task queues", "src/core/task.cpp")]
OBSERVE = ["memory and descriptors in use", "time to answer"]
NA = """The quantities are runtime quantities (number of series, of points in a range, of clients) for which the program has no static bound to check against. That what was
taken is given back on every path is decided under P12, P13, P14 and P25, and that buffers are not overrun under P19 and P23."""
