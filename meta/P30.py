TITLE = "What is not there is not used"
STATEMENT = ("A pointer that a branch has found to be null is not followed on that branch, nor given to a function that follows it without looking, until it is set again; the same holds of a position in a container that was found to be the end. "
             "What a lookup in a container gives, and the result of a function of the program or library that answers with null when there is nothing, is followed only behind a test that it is there, unless the call asked for what is missing to be made or it was put there just before.")
OVER = ["inputs", "programs", "fault_sequences"]
QUANT = "every branch of the program that tells whether a pointer is null or a position is the end; every lookup, and every call that may answer with null, whose result is kept in a variable"
WHY = """Files, metrics, headers and settings are looked up all over the program, and a name that is not known or a file that is gone must lead to an error or an empty answer, not to a crash that takes the server down."""
FILES = ["src/core/tsdb.cpp", "src/core/query.cpp", "src/core/http.cpp", "src/core/mmap.cpp", "src/utils/meta.cpp", "src/utils/append.cpp", "src/utils/tag.cpp"]
STATE = [("metrics", "g_metric_map", "src/core/tsdb.cpp"), ("files", "Metric::m_header_files, m_data_files", "include/tsdb.h"), ("handlers", "HttpServer::m_get_handlers, m_put_handlers, m_post_handlers", "include/http.h")]
MECH = [("lookups", "find and lower_bound in maps, Metric::get_header_file_no_lock, get_data_file_no_lock, Tsdb::search, TagOwner::find_by_key"), ("tests", "comparisons with null and with end, also kept in variables or made by helpers")]
OBSERVE = ["what each branch says of a pointer or position", "which paths lead from there to where it is followed", "which functions may answer with null", "which functions follow a parameter without looking"]
TECH = "path search from branch edges and calls to dereferences over the control flow graph of every function, with summaries of which functions may return null and which follow their parameters untested"
NOTE = """Members and elements of arrays are taken to be unchanged until the next call or assignment. Memory allocation is taken to succeed or throw. Results used at once as arguments of other functions of the program are left to those functions."""
