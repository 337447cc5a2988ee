TITLE = "Settings are read as given, in their units, and the right source of them wins"
STATEMENT = """A setting on the command line wins over the same setting in the file, the file over the default, and the number of rollup buckets kept with the data over all of them, also after the file is read again; what is kept with the data is read before it is written, and all of it is written, with the version, and data of no or a too old version is refused.
Every setting is read as one kind of value (number, size, time, yes or no, text) with one default, a given value that is not of that kind is refused at the start, and a setting without default is read only where it was found to be given.
Sizes and times are converted from the unit written behind them to the one asked for, the data directory and the log directory are the ones set, before those under the home directory, before the current one, and the append log lies in the data directory."""
OVER = ["inputs", "histories"]
QUANT = "every call that reads or sets a setting, with its name, kind and default; every path through reading, checking, looking up and keeping settings; all pairs of time units"
WHY = """A setting read as the wrong kind, in the wrong unit or from the wrong place deletes data too early, looks for it in the wrong directory or reads it with the wrong layout."""
FILES = ["src/utils/config.cpp", "include/config.h", "src/utils/utils.cpp", "src/main.cpp", "src/admin.cpp", "src/core/tsdb.cpp", "src/core/mmap.cpp", "src/agg/rollup.cpp"]
STATE = [("settings", "Config::m_properties", "include/config.h"), ("command line", "Config::m_overrides", "include/config.h"), ("value", "Property::m_value", "include/config.h")]
MECH = [("reading", "Config::load, init, persist, set_value_no_lock, add_override"), ("checking", "Config::verify"), ("looking up", "Config::get_bool, get_int, get_float, get_bytes, get_time, get_str, exists"),
        ("units", "to_time_unit, convert_time, get_bytes_factor, Property::as_time, as_bytes"), ("places", "Config::get_data_dir, get_log_dir, get_wal_dir")]
OBSERVE = ["name, kind and default at each place a setting is read", "lists of settings to be checked, and which characters are refused", "order of sources when settings are read", "factor of each conversion", "order in which places are looked for"]
TECH = "agreement of all uses of a name over the resolved program, must-pass path rules over the reading and looking up of settings, constant propagation through the unit tables and character tests"
NOTE = """Which of the two parts of a line is the name and which the value is not visible in the program form used here, and so left out. Ranges of values (zero or negative counts) are not looked at."""
