TITLE = "Every data point received is stored, or the request reports failure"
STATEMENT = """A request with data points is read to its end; each point parsed is added, and if any could not be parsed or added the request is not answered with success.
Adding a point, or each point of a line, reports success only if its series put it into a page; it goes to the series of its own field and with a time, and takes over no tags, time or values left by an earlier line.
Of what arrives over a plain connection whole lines are processed, and the beginning of an unfinished line is kept for the rest of it."""
OVER = ["inputs", "histories"]
QUANT = "every request body (number, order and kind of lines; blank, comment and checkpoint lines in any place); every path of the put and write handlers and of the functions that add points; every way a line is cut across receives"
WHY = """A client that got a success answer does not send its points again: a point dropped silently between the socket and the page is lost for good, and one stored under another field or time falsifies both."""
FILES = ["src/core/tsdb.cpp", "src/core/ts.cpp", "src/core/dp.cpp", "src/core/tcp.cpp"]
STATE = [("points parsed", "data point or list of points filled by the parsers", "src/core/tsdb.cpp"), ("success of the request", "flag or counter that decides the status answered", "src/core/tsdb.cpp"),
         ("unfinished line", "buffer and length kept with the connection", "src/core/tcp.cpp")]
MECH = [("put and write handlers", "src/core/tsdb.cpp (http_api_put_handler_json, http_api_put_handler_plain, http_api_write_handler)"), ("adding", "Tsdb, Mapping, Measurement and TimeSeries add_data_point(s)"), ("receiving", "src/core/tcp.cpp (recv_tcp_data)")]
OBSERVE = ["status that can be answered after an add or a parse failed", "edges that leave the loop over the lines", "values that a line leaves for the next one", "positions and lengths of what is processed and what is kept"]
TECH = "must-pass path rules over the control flow graph, with constant propagation of truth values from one call's result (what can still be answered if it failed)"
NOTE = """Lines that are not commands are skipped by design. Results of points sent over UDP are reported to nobody. What happens to a point once its page has it is the business of the properties on pages, indexes and checkpoints."""
