TITLE = "Network buffers go back once, to the pool they came from"
STATEMENT = """There are two pools of network buffers, large and small. A buffer handed out is off its pool's list, has that pool's size, and is used with
that size; the list is touched only under the pool's own lock. On every normal path a buffer is given back exactly once to the pool it came from
(or kept by a connection, response or string buffer that gives it back when it is recycled or destroyed), nothing refers to it afterwards, and an
answered HTTP request leaves no response buffer with the connection."""
OVER = ["histories", "schedules", "inputs"]
QUANT = "every sequence of requests on a connection, requests arriving in parts, responses that cannot be sent, threads sharing the pools"
WHY = """A lost buffer costs memory only under failing clients; a buffer given back twice or to the wrong pool corrupts some other connection later."""
FILES = ["src/core/memmgr.cpp", "src/core/http.cpp", "src/core/tcp.cpp", "include/tcp.h", "src/utils/strbuf.cpp", "src/core/part.cpp"]
STATE = [("pools", "two linked lists of buffers, each with a lock and a buffer size", "include/memmgr.h"),
         ("buffer of a connection", "part of a request received so far", "include/tcp.h"), ("buffer of a response", "with the size that tells its pool", "include/http.h")]
MECH = [("hand-out and take-back", "src/core/memmgr.cpp (alloc_network_buffer, free_network_buffer and the small ones)"), ("receive and respond", "src/core/http.cpp, src/core/tcp.cpp")]
OBSERVE = ["lists and locks", "pool of origin against pool of return", "uses after return", "paths on which a buffer is lost", "sizes used with buffers"]
TECH = "ownership and typestate analysis with function summaries, value-origin tracing and flag-sensitive path search over the resolved control-flow graphs"
NOTE = """Buffers lost while an exception unwinds are out of scope; bounds of individual writes are not decided here."""
