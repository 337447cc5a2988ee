TITLE = "Rolled up data counts each point once and is used only where it holds"
STATEMENT = """Every point stored is counted once, with its value, in the count, minimum, maximum and sum of its own hour, or its series is marked in the point's partition; an entry is written for every hour in turn, also for hours without points, so that its place in the month's file tells its hour, and readers place it by that alone.
Count, minimum, maximum and sum are never mixed up, lost or dropped when entries are written, read, put together into days, saved at shutdown or restored, and every hour with points of every file of a month goes into its day.
Rolled up data of a partition is used only when neither the partition nor the series is marked or has crashed, and daily data only once the month is over and was rolled up completely."""
OVER = ["inputs", "histories"]
QUANT = "every sequence of points in and out of order, every restart, every month rolled up and every range asked for; every path through the functions that count, write, read and gate rolled up data"
WHY = """Rolled up data answers long-range queries in place of the points: an hour shifted by one place or a point counted twice is wrong in every such answer, and cannot be seen from the answer."""
FILES = ["src/agg/rollup.cpp", "include/rollup.h", "src/core/mmap.cpp", "include/mmap.h", "src/core/tsdb.cpp", "src/core/query.cpp", "src/core/ts.cpp"]
STATE = [("current hour", "RollupManager::m_cnt, m_min, m_max, m_sum, m_tstamp", "include/rollup.h"), ("entries", "struct rollup_entry, rollup_entry_ext, rollup_append_entry", "include/mmap.h"),
         ("modes of a partition", "Tsdb::m_mode", "include/tsdb.h")]
MECH = [("counting", "RollupManager::add_data_point, flush"), ("reading", "RollupDataFile::query_entry, query_for_level2_rollup, query_level1_*"),
        ("days", "RollupDataFile::add_data_points, Tsdb::rollup"), ("use", "Tsdb::can_use_rollup, set_out_of_order2; QuerySuperTask::query_rollup_*")]
OBSERVE = ["what each path does to the current hour and which hours it writes", "every copy and merge of an entry, field by field", "conditions under which rolled up data is passed over or used"]
TECH = "path enumeration with definitions propagated to terms, must-pass path rules, agreement of like-named fields and parameters, evaluation of the gating conditions over all modes"
NOTE = """How an entry is encoded is judged by the properties on encodings. How raw data takes the place of rolled up data in an answer is judged only as far as the query property does. Days written twice after a failed roll-up, and points in memory when a month is rolled up after a restart, are out of scope."""
