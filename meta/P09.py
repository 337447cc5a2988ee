TITLE = "The append log is replaced atomically and replayed completely"
STATEMENT = """A new append log is written to a separate file with both pages in memory of every series and put in place by renaming only after it
and the registry of series are flushed; the log is otherwise removed only at the end of a clean shutdown. At start, before requests are
served, the complete log (or else the unfinished one) is replayed whole: each payload is read with the size it was written with, entries of
unknown series are skipped, all others are handed to their series, and the partitions concerned are marked as crashed. Each field of an
entry (ids, start time, position, version and out-of-order flags, page indices) is read back as what it was written as."""
OVER = ["crash_points", "histories", "inputs"]
QUANT = "every point at which the process may die, every mix of pages in memory, and every damaged or unreadable log"
WHY = """Recovery runs only after a crash at the right moment; the tests crash the server once with a few series of one kind."""
FILES = ["src/utils/append.cpp", "src/core/ts.cpp", "src/core/page.cpp", "src/comp/comp.cpp", "src/utils/meta.cpp", "src/main.cpp"]
STATE = [("append log", "wal/append.log and the unfinished append.tmp", "src/utils/append.cpp"), ("log entry", "header written before each page", "include/page.h")]
MECH = [("write and rename", "src/utils/append.cpp (AppendLog::flush_all)"), ("replay", "src/utils/append.cpp (AppendLog::restore)")]
OBSERVE = ["order of writing, flushing and renaming", "fields written against fields read", "payload sizes"]
TECH = "ordering and must-pass-through path analysis; writer/reader agreement by value tracing through locals, constructors and inlined helpers"
NOTE = """Decides the order of file operations and the agreement between writer and reader. What the file system makes of it after a power failure is not claimed."""
