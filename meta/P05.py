TITLE = "A page is on file before anything refers to it, and every page is reachable"
STATEMENT = """When a page of data points is filed, its bytes are handed to the operating system before any page header, page chain or
index entry refers to them, and its header is complete before anything refers to the header. Every filed page is made reachable, from the
series' index entry if it is the first page and from the previous page otherwise, without overwriting a reference to earlier pages and
with both halves of each reference (file and slot) written together. The time range recorded for the file is widened, never narrowed, to
cover the new page."""
OVER = ["crash_points", "histories"]
QUANT = "every point at which the process may die or a reader may look while a page is being filed, and every sequence of pages"
WHY = """Tests look at files after everything has been written and flushed; the order of the individual writes is invisible to them, and
the chain and middle-of-partition index need many pages of one series to matter."""
FILES = ["src/core/tsdb.cpp", "src/core/mmap.cpp", "include/page.h"]
STATE = [("page chain", "next file / next header links and the index entry of each series", "include/page.h, include/mmap.h")]
MECH = [("append, then header slot, then header, then links", "src/core/tsdb.cpp (append_page, set_indices)"),
        ("flush after each appended page", "src/core/mmap.cpp (DataFile)")]
OBSERVE = ["order of file writes in the page filing path"]
TECH = "must-pass-through path analysis on the inlined control-flow graph; pairing of reference halves; field-copy exhaustiveness"
NOTE = """Decides the order and completeness of the program's own writes on every path of page filing. The order in which the operating
system writes mapped pages back after a power failure is not claimed."""
