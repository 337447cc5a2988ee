TITLE = "A point is stored in the partition of its time, and queries find it there"
STATEMENT = """Partitions are whole days (UTC), in order of time and named by start and end; a point goes only into a page of the partition that contains its time, which is found if it exists and made if not, and the recorded time range of a page covers its points.
A query gets every partition its range touches, starts no later than the first page it needs, skips a page or ends the chain only if the ranges (and the absence of out-of-order points) allow it, and also reads both pages still in memory.
Exactly the points read whose time is in the range asked for are taken over."""
OVER = ["inputs", "histories"]
QUANT = "every order of the times involved (ends of ranges included); every path through choosing a partition, adding a point, collecting partitions and pages"
WHY = """A comparison off by one, a partition out of place or a page skipped loses points silently: they are stored, but no query returns them."""
FILES = ["include/range.h", "src/utils/range.cpp", "src/utils/utils.cpp", "src/core/tsdb.cpp", "include/tsdb.h", "src/core/ts.cpp", "src/core/page.cpp", "src/core/query.cpp"]
STATE = [("list of partitions", "in order of time", "src/core/tsdb.cpp"), ("range of a partition", "start and end of a day", "include/tsdb.h"), ("page not filed yet", "its partition and the range of its points", "include/page.h")]
MECH = [("ranges", "include/range.h"), ("choosing and making a partition", "src/core/tsdb.cpp (search, inst, create, get_range, restore_tsdb)"), ("collecting partitions", "src/core/tsdb.cpp (insts)"),
        ("adding a point", "src/core/ts.cpp (add_data_point, add_ooo_data_point), src/core/page.cpp"), ("reading", "src/core/tsdb.cpp (query_for_data), src/core/ts.cpp, src/core/query.cpp")]
OBSERVE = ["results of the range tests for every order of the times", "conditions under which a partition, page or point is passed over", "partition a page belongs to when a point is added"]
TECH = "evaluation of comparison functions over all order types of their arguments; must-pass path rules on resolved control flow graphs with the conditions they establish; agreement of writer and reader conditions"
NOTE = """The end of a query's range belongs to the query within a partition, but a partition that starts exactly there is not read. Rolled-up data, compaction and the value of a point are other properties' business."""
