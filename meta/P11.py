TITLE = "Data is always handled with the settings it was written with"
STATEMENT = """A partition's page size, page count, compressor, metric buckets, timestamp resolution and flags are recorded when it is created, rolled up and
closed at shutdown, and for an existing partition read back, under the same names and in the same form, before its files are loaded; neither
configuration nor command line replaces them, they never change in use, and its data is laid out and decoded with them. When data may be added
to a rolled-up partition the roll-up is withdrawn on file. Rollup files likewise keep their own recorded bucket count, precision and compressor;
the settings file holds every setting and later lines replace earlier ones."""
OVER = ["configurations", "histories", "crash_points"]
QUANT = "every configuration the server is restarted with, every set of flags of a partition, crashes after any added line"
WHY = """Tests use one configuration for the life of a data directory; a lost or overridden setting only shows when the configuration changes between runs."""
FILES = ["src/core/tsdb.cpp", "src/utils/config.cpp", "src/agg/rollup.cpp", "src/core/mmap.cpp", "src/core/page.cpp"]
STATE = [("settings file", "file config in the directory of a partition, of a month or year of rollup data, and of all data", "src/utils/config.cpp"),
         ("settings in memory", "page size, page count, compressor, buckets, resolution, flags", "include/tsdb.h")]
MECH = [("record and restore", "src/core/tsdb.cpp (Tsdb::write_config, Tsdb::restore_config, Tsdb::create)"), ("file format", "src/utils/config.cpp (Config::persist, append, load)"),
        ("rollup settings", "src/agg/rollup.cpp (RollupManager::get_rollup_config)")]
OBSERVE = ["names and forms written against those read", "when the settings file is written", "origin of page size and compressor at each use"]
TECH = "writer/reader agreement tables, value-origin tracing and must-pass-through path analysis over the resolved control-flow graphs"
NOTE = """Decides names, forms, order and origin; that the text form of a number is read back unchanged is assumed, and compaction is left aside."""
