TITLE = "A query uses every matching series and every point of its range, once"
STATEMENT = """Every series of the metric whose tags match all tags asked for takes part in a query, and no other; explicit tags also require the same number of tags, and each kind of filter is matched against the text between its brackets.
Of each series exactly the points from the start to the end of the range, both included, are taken, once each, from every page and buffer that may have some, in the order of time, and of several values for one time the one written last wins.
What was found is put together for every series and every partition, and each series is counted in exactly one group, whose tags asked for grouping it shares."""
OVER = ["inputs", "histories"]
QUANT = "every set of stored series, every query with any tags, filters, range and grouping; every path through the functions that choose series, read pages and buffers and merge their points"
WHY = """A series or point left out of an answer, or counted twice, is not noticed by whoever asked: the graph looks plausible and is wrong."""
FILES = ["src/core/query.cpp", "include/query.h", "src/core/tsdb.cpp", "src/core/ts.cpp", "src/utils/tag.cpp", "include/range.h"]
STATE = [("series of a metric", "list behind Mapping::get_ts_head()", "src/core/tsdb.cpp"), ("tags of a series", "keys and values in turn, Tag_v2::m_tags", "src/utils/tag.cpp"),
         ("points of a task", "QueryTask::m_data, m_dps, m_downsampler", "include/query.h"), ("groups", "QueryResults::m_qtv", "include/query.h")]
MECH = [("choosing series", "Mapping::query_for_ts, set_tag_count; TagMatcher::init, match; Tag_v2::match"), ("reading", "Tsdb::query_for_data, TimeSeries::query_for_data"),
        ("merging", "QueryTask::merge_data, query_with_ooo, query_without_ooo; QuerySuperTask::query_raw, perform"), ("grouping", "Query::create_query_results")]
OBSERVE = ["for every path round a loop over series, containers, points or partitions: what is taken, what is passed over and on which condition", "conditions and results of the comparators and matchers"]
TECH = "must-pass path rules on the control flow graph with sign sets for the outcome of range comparisons; path enumeration of matchers; evaluation of the merge comparator over the orderings of its operands"
NOTE = """Regular expressions themselves and the place of a series' first page are not judged here. The numbers computed from the points are another property's business. Rolled up data is judged only for being replaced by raw data completely."""
