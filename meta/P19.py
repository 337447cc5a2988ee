TITLE = "Malformed input text is never read or written past its end"
STATEMENT = """What was received is ended with a zero before it is parsed.
The functions that take text apart (data points in plain, JSON and line form, JSON maps and arrays, tags, tokens, escaped URLs) never look at, write, return or hand on a place behind the end of the text, whatever the text is, and never use the result of a search that found nothing.
Text that breaks off early is rejected or taken as it is, not continued with what lies behind it in memory."""
OVER = ["inputs", "fault_sequences"]
QUANT = "every input text (cut off anywhere, any character in any place); every path through the functions that walk over text"
WHY = """Input comes from the network unchecked: one scan that misses the end of a cut-off line reads left-overs of other requests as data, or crashes the server."""
FILES = ["src/core/dp.cpp", "src/core/tsdb.cpp", "src/utils/json.cpp", "src/utils/tag.cpp", "src/utils/utils.cpp", "src/core/http.cpp", "src/core/tcp.cpp", "src/core/query.cpp"]
STATE = [("text being parsed", "request body in a network buffer, or a line of a file", "src/core/http.cpp"), ("position in the text", "pointer moved by the parser", "src/core/dp.cpp")]
MECH = [("data points", "src/core/dp.cpp (from_plain, from_json, next_*)"), ("line protocol", "src/core/tsdb.cpp (parse_line, parse_line_safe, the put and write handlers)"), ("JSON", "src/utils/json.cpp"),
        ("tags, tokens, URLs", "src/utils/tag.cpp, src/utils/utils.cpp")]
OBSERVE = ["for every pointer into text, how many characters from it on are known not to be the end, at every place it is used", "zero put behind what was received"]
TECH = "forward dataflow analysis of text cursors (known distance to the terminator, learnt from the tests on characters), with functions analysed by contract and in the context of their callers; must-pass path rules"
NOTE = """Moving backwards past the start is not tracked. Header parsing, which works with marks put behind the received bytes, and text built in buffers of fixed size are other properties' business."""
