TITLE = "Files, sockets and directories opened are closed, once"
STATEMENT = """On every normal path a descriptor, stream or directory handle the server opens is closed exactly once, kept by an object that closes it when it
is closed or destroyed, or passed on; a descriptor moved to a higher number leaves only the new one open. After closing it is not used again and
no member still names it, and a member naming an open handle is not set to another one. A connection given back has had its socket closed."""
OVER = ["histories", "inputs"]
QUANT = "every sequence of opening, reopening, rotating and closing of files; every failure of an opening step; every connection accepted"
WHY = """A leaked descriptor shows only after days, when nothing more can be opened; a descriptor closed twice closes some other thread's file or connection."""
FILES = ["src/core/mmap.cpp", "src/core/tcp.cpp", "src/utils/fd.cpp", "src/utils/logger.cpp", "src/utils/meta.cpp", "src/utils/append.cpp", "src/core/cp.cpp",
         "src/core/part.cpp", "src/core/udp.cpp", "src/utils/utils.cpp"]
STATE = [("descriptor of a mapped file", "-1 when closed", "include/mmap.h"), ("stream of a data file", "null when closed", "include/mmap.h"),
         ("sockets, epoll instance and pipe of a listener", "-1 when closed", "include/tcp.h")]
MECH = [("open and close of data files", "src/core/mmap.cpp"), ("moving descriptors", "src/utils/fd.cpp (dup_fd)"), ("connections", "src/core/tcp.cpp (new_conn0, close_conn, disconnect)")]
OBSERVE = ["handles opened and where they end up on each path", "uses after closing", "members closed with their owners", "members overwritten or reset while open"]
TECH = "ownership and typestate analysis with function summaries and flag-sensitive path search over the resolved control-flow graphs"
NOTE = """Handles lost while an exception unwinds and memory mappings are out of scope, as is the descriptor left when a stream cannot be made of it."""
