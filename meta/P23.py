TITLE = "Text put together in a buffer stays within it and is ended"
STATEMENT = ("Each formatted print into a buffer is given the size that is left from where it puts its text, and after text whose length is not fixed the position is compared with the size before more text is put, or a character looked at or set, there. "
             "Text copied up to a limit is ended within its buffer, and text copied whole goes to a buffer with room for it and its end. "
             "A buffer in which an object describes itself is as large as that object asks for.")
OVER = ["inputs", "configurations"]
QUANT = "every text of any length from requests, stored names and configuration; every path through every function that prints into a buffer of a given size or copies text into an array"
WHY = "responses and meta data are put together piece by piece from names of any length; a piece printed after the buffer is full gets a negative size, taken as a huge one, and overwrites whatever lies behind"
FILES = ["src/core/query.cpp", "src/core/http.cpp", "src/core/tsdb.cpp", "src/core/cp.cpp", "src/core/dp.cpp", "src/core/part.cpp", "src/core/tcp.cpp", "src/admin.cpp", "src/agg/down.cpp", "src/utils/json.cpp", "src/utils/kv.cpp", "src/utils/tag.cpp", "src/utils/meta.cpp", "src/utils/stats.cpp", "src/utils/config.cpp", "include/page.h", "include/range.h", "include/part.h"]
STATE = [("response buffer", "HttpResponse::buffer and its size", "include/http.h"), ("network buffers", "MemoryManager::alloc_network_buffer() and the matching size", "src/core/memmgr.cpp"), ("arrays", "local and member character arrays", "src/")]
MECH = [("answers", "QueryResults::to_json, search lookup, JsonParser::to_json, KeyValuePair::to_json"), ("reports", "Stats::collect_stats, Config::c_str, CheckPointManager::get_persisted"), ("meta data", "MetaFile::add_ts, add_measurement, TagOwner::get_ordered_tags"), ("descriptions", "c_str and c_size of Serializable")]
OBSERVE = ["for every print: address and size as linear forms, and how far the position is known to be below the size on every path", "for every copy into an array: the limit, the end put, the size of the array"]
TECH = "data-flow analysis over the control-flow graph: agreement of linear forms and propagation of upper bounds of positions"
NOTE = "prints without a size and appending copies are not covered, nor is text put in front of a response; constant pieces are taken to fit an empty buffer"
