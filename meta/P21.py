TITLE = "Downsampling, aggregation and rates use each point once, in its place"
STATEMENT = """A downsampler or aggregator asked for by name computes that function; a downsampler puts each point in the interval its time lies in, once, begins each interval with just its first point, gives out every interval that has points, at its own time, and fills empty intervals only as asked for.
An aggregator starts afresh for each time, puts together exactly the points of that time, and the times come out in order with none left out; rolled up data is combined the same way as the points it stands for, from the value kept for that function.
Lengths of intervals agree with their units, and rates are taken between neighbouring points, per second, with each option taken from its own position."""
OVER = ["inputs", "histories"]
QUANT = "every sequence of points in time order, every query with any downsampler, aggregator, interval unit, fill policy or rate options; every path through the functions that combine points"
WHY = """A point counted twice, or put in the next interval, gives graphs that look right and are not; nobody notices until numbers are compared."""
FILES = ["src/agg/down.cpp", "include/down.h", "src/agg/aggregate.cpp", "include/aggregate.h", "src/agg/rate.cpp", "src/agg/rollup.cpp", "src/core/query.cpp"]
STATE = [("interval being collected", "m_last_tstamp and the sums, counts and values of a downsampler", "include/down.h"), ("values of the current time", "members of an aggregator", "include/aggregate.h")]
MECH = [("downsamplers", "src/agg/down.cpp (add_data_point, add_last_point, fill_to, fill_if_needed, initialize, create)"), ("aggregators", "src/agg/aggregate.cpp (create, merge) and include/aggregate.h"),
        ("rates", "src/agg/rate.cpp, src/core/query.cpp"), ("rolled up values", "src/agg/rollup.cpp (query)")]
OBSERVE = ["for every path through a combining function: what is compared, what becomes of sums and counts, what is given out", "literal a function is asked for by, and the class made for it"]
TECH = "path enumeration with forward substitution (each path's conditions and effects as terms over its start), compared with what each function is to do; constant evaluation of unit tables; must-pass path rules for the merge"
NOTE = """How standard deviations and percentiles are computed from their values, and rounding, are not judged. Points are assumed to come in the order of their times. Which points reach a downsampler is another property's business."""
