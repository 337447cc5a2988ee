TITLE = "A query is taken as it was asked, and its answer is complete and well formed"
STATEMENT = ("In both ways a query can be sent, start and end (now, if not given), time zone, resolution, metric, aggregator, downsampler, rate options, explicit tags and the use of rolled up data are taken from the parameter or word of that name, a request without a start, query or metric is refused, relative times are counted back from now, and formatted times are taken from the zone asked for. "
             "Every query of a request is carried out with the range, resolution and zone of the request, and if any of them fails the request is answered with an error; otherwise the answer lists every result that has points, each with its metric, tags and every point's own time and value, as well formed JSON, and one that does not fit its buffer is refused, not cut off. "
             "Lookups of names give only names of the kind asked for that begin as asked, and lookups of series start at the index asked for; neither gives more than asked for, and both are refused if the answer does not fit.")
OVER = ["inputs", "programs", "fault_sequences"]
QUANT = "every path through the two ways a query is read, its execution, the building of the answer, and the two lookups; every parameter looked up in a request"
WHY = """A query answered for another range, zone or unit than asked for, or with points silently left out, is wrong without anyone being able to see it."""
FILES = ["src/core/query.cpp", "src/core/tsdb.cpp", "src/utils/utils.cpp", "include/query.h"]
STATE = [("query", "Query::m_metric, m_aggregate, m_downsample, m_tz, m_ms, m_rollup, m_explicit_tags, m_time_range, m_rate_calculator", "include/query.h"), ("failure", "Query::m_errno, QuerySuperTask::m_errno", "include/query.h"), ("points", "QueryResults::m_dps", "include/query.h")]
MECH = [("reading", "Query::Query (two), QueryExecutor::http_get_api_query_handler, http_post_api_query_handler"), ("times", "parse_ts"), ("execution", "Query::execute, QuerySuperTask::perform"),
        ("answer", "QueryExecutor::prepare_response, QueryResults::to_json, add_dps"), ("lookups", "Tsdb::http_get_api_suggest_handler, QueryExecutor::http_get_api_search_lookup_handler")]
OBSERVE = ["which look-up of a parameter reaches each use of its value", "what is known on every path to a use, an answer or an assignment", "what each path of reading a time returns", "formats and their arguments"]
TECH = "reaching definitions from look-ups to uses, must-pass path rules with the conditions known on each edge, path enumeration of the reading of times, agreement of formats with their arguments"
NOTE = """How tags are read from a query is left out. The sign of a zone's difference is the one the existing tests expect. A time in seconds is accepted where milliseconds are used, as it is told by its size."""
