TITLE = "Data is taken off the disk, archived or closed only when its time has come"
STATEMENT = ("Retention removes only the oldest partition, only while more than the configured number of days (at least one) are held, and only if that partition is archived, unused and no longer listed; other directories are removed only if they are leftovers of compaction or recompression, and old data is put away only with the new in its place, else put back. "
             "Whether a partition is written, read only or archived follows from its age against the two thresholds, only old, idle and not yet compacted partitions are compacted, and files are closed (and partitions archived) only after they have not been used for the time allowed, the time of use being kept at each opening. "
             "Of rotated files the newest are kept in the number asked for, only directories named by two times are taken for partitions at the start, and a full disk shuts the server down.")
OVER = ["histories", "crash_points"]
QUANT = "every path through retention, compaction, recompression, archiving, file rotation and restore; every place a directory is removed, renamed or a file closed for not being used"
WHY = """What is removed or replaced too early is lost for good, and a file closed while in use loses what is written to it next."""
FILES = ["src/core/tsdb.cpp", "src/core/mmap.cpp", "src/core/ts.cpp", "src/agg/rollup.cpp", "src/utils/utils.cpp", "src/utils/logger.cpp", "src/admin.cpp", "include/tsdb.h", "include/range.h"]
STATE = [("partitions", "Tsdb::m_tsdbs", "include/tsdb.h"), ("mode", "Tsdb::m_mode", "include/tsdb.h"), ("users", "Tsdb::m_ref_count", "include/tsdb.h"), ("last use", "IndexFile/HeaderFile/RollupDataFile::m_last_access, DataFile::m_last_read, m_last_write", "include/mmap.h")]
MECH = [("retention", "Tsdb::rotate, purge_oldest"), ("compaction", "Tsdb::compact, compact2"), ("recompression", "RollupManager::swap_recompressed_files"), ("archiving", "Tsdb::mode_of, unload_if_idle, Metric::rotate, TimeSeries::archive, RollupManager::rotate"),
        ("closing", "close_if_idle, ensure_open of the four kinds of files"), ("files", "rotate_files, Logger::rotate"), ("start", "Tsdb::restore_tsdb"), ("disk", "Admin::shutdown_if_disk_full")]
OBSERVE = ["what is known on every path to a removal, renaming or closing", "where the name removed comes from", "what each path of the mode computation answers", "which argument is the present and which the time allowed"]
TECH = "must-pass path rules over removals, renames and closings with the conditions known on each edge, path enumeration of the mode computation, origin tracking of names and times"
NOTE = """A backup of compacted data left by an earlier run is removed one level only, on purpose. How a crash between the two renames of a swap is repaired at the next start is not looked at."""
