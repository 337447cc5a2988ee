TITLE = "A connection is kept while work on it is pending, and then closed"
STATEMENT = """Every piece of work handed out for a connection is counted before it is handed out and counted off exactly once when it ends, later work goes to the worker that has the earlier one, and a connection is given back, taken out of both tables and its socket closed only when no work is left; a connection looked up by its socket is used only if there is one.
A connection whose peer is gone, or that could not be closed because of pending work, is marked, and the last piece of work asks for it to be closed; a new connection starts without that mark and is watched for data.
An event is passed over only when waiting work will still read its data, what arrived is read until nothing is left or the buffer is full, and what workers ask of a listener through its pipe is what the listener does."""
OVER = ["schedules", "inputs", "histories"]
QUANT = "every interleaving of events, work and hang-ups on a connection as far as it is decided by the counts and flags; every path through the listeners and the work done on connections"
WHY = """A connection given back too early is reused for another client while a worker still writes to it; one never counted off stays open for ever; an event passed over leaves a client waiting."""
FILES = ["src/core/tcp.cpp", "include/tcp.h", "src/core/http.cpp", "include/http.h"]
STATE = [("work pending on a connection", "TcpConnection::pending_tasks, worker_id", "include/tcp.h"), ("flags of a connection", "TcpConnection::state", "include/tcp.h"), ("tables", "TcpListener::m_conn_map, m_all_conn_map", "include/tcp.h")]
MECH = [("handing out", "TcpListener::listener1, resubmit"), ("work", "TcpServer::recv_tcp_data, HttpServer::recv_http_data, recv_http_data_cont, resend_response"),
        ("closing", "TcpListener::close_conn, disconnect, TcpConnection::close"), ("new connections", "TcpListener::new_conn2, get_or_create_conn")]
OBSERVE = ["where work is counted up and down", "conditions on the count under which a connection is freed, closed or passed over", "flags set and cleared around watching and closing", "letters written to and read from the listeners' pipes"]
TECH = "must-pass path rules over the resolved program, evaluation of the guarding conditions over the possible counts, path enumeration of the closing function, agreement of what is written to a pipe with what its reader does"
NOTE = """The order in which two threads see a count change is not modelled; that the count is atomic is. Splitting the bytes of a pipe into lines is not judged here."""
