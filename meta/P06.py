TITLE = "Memory-mapped files are only accessed inside their mapped part"
STATEMENT = """No access to a memory-mapped index, header or data file goes beyond the part that is mapped: before an entry or page is
touched the mapping is checked to reach that far, and grown or remapped (and its address read again) if it does not, and a page that is
still missing is reported as an error. The recorded address and length of a mapping change together, only when mapping succeeded, and a
writable mapping is synchronised before it is removed and forgotten afterwards. New index entries start out empty, and a header file never
hands out a slot it has no room for."""
OVER = ["histories", "schedules"]
QUANT = "every number of series and pages, and every interleaving of readers with a writer that grows the files"
WHY = """Going one entry past the end needs a series id exactly at the boundary (a multiple of 4096), and a stale mapping needs a read that
raced an append; tests use few series and few pages."""
FILES = ["src/core/mmap.cpp", "include/mmap.h", "include/page.h", "src/core/tsdb.cpp"]
STATE = [("mapping", "address and length of each mapped file", "include/mmap.h")]
MECH = [("length checks and growth in the index file", "src/core/mmap.cpp (IndexFile)"), ("two-step page check and remap under the write lock", "src/core/mmap.cpp (DataFile), src/core/tsdb.cpp")]
OBSERVE = ["every dereference of an address inside a mapping"]
TECH = "guard-on-every-path analysis with symbolic (linear) bounds; stale-pointer dataflow; pairing of address and length updates"
NOTE = """Every access to index entries and data-file pages through the mapping classes. Contents of files (indices stored by this program)
are trusted; rollup files' bit readers are not covered here."""
