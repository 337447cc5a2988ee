TITLE = "Each HTTP request gets one answer, framed as the client expects"
STATEMENT = """A request is parsed only within what was received, starts from a clean state, goes to the handler registered for its method and path only once all its content is there, and is answered exactly once, under its own id;
a failed one gets an error status, and one refused for its size or length ends the connection. Every answer has a known status, the length of its body and an empty line before the body, and is sent from its first to its last byte.
A header received in part is put back as it was before it is parsed again."""
OVER = ["inputs", "histories", "fault_sequences"]
QUANT = "every way a request can be cut into parts; every handler and every way out of it, exceptions included; every answer; every line of the header that is looked at"
WHY = """A length that is off by one, an answer sent twice or left out makes a client on a kept connection take the next answer for this one, or wait forever. Data put behind a full buffer overwrites other memory."""
FILES = ["src/core/http.cpp", "include/http.h", "src/admin.cpp", "src/core/query.cpp", "src/core/tsdb.cpp"]
STATE = [("request of a connection", "what was parsed so far", "include/http.h"), ("response of a connection", "answer being sent, with its size", "include/http.h"),
         ("buffer and offset of a connection", "a request received in part", "include/tcp.h"), ("tables of handlers", "what serves a method and path", "src/core/http.cpp")]
MECH = [("receiving, in one go or in parts", "src/core/http.cpp (recv_http_data, recv_http_data_cont)"), ("parsing and undoing it", "src/core/http.cpp (parse_header, undo_header)"),
        ("dispatch", "src/core/http.cpp (process_request)"), ("responses", "src/core/http.cpp (HttpResponse::init, send_response)")]
OBSERVE = ["answers sent on each path", "bytes received, and the limit of the buffer", "request fields set by each header line", "format and arguments of each header written", "status given to each answer"]
TECH = "must-pass and at-most-once path rules on resolved control flow graphs; linear forms for sizes and offsets; agreement of header format and offsets; table agreement of routes, status codes and header fields"
NOTE = """What the body says is not judged, nor requests sent before the previous one was answered, nor the time an answer takes. That an answer not sent at once is sent later is left to the task queued for it."""
