TITLE = "Rollup records are read back as they were written"
STATEMENT = """A rollup record is read back with every field taken from the bytes it was written to, in the same width, byte order, sign and scale, written wide enough to
hold it; its length is the one returned, and a reader neither looks past the bytes it was given nor asks for more than the record has. Files of each version are read in the format and
with the precision they were written with, and fields are never exchanged. In recompressed files the differences read are added up to what they were taken from."""
OVER = ["inputs", "configurations"]
QUANT = "every series id, count, minimum, maximum, sum and day; every version of the record format; every split of a file into buffers"
WHY = """The rollup files are the only place old aggregates live. A width that is one bit short or a flag read differently corrupts every record after it,
and only for values large enough to need it, which the tests do not write."""
FILES = ["src/core/compress.cpp", "include/compress.h", "src/core/mmap.cpp"]
STATE = [("flag byte of a record", "tells width of each field", "src/core/compress.cpp"), ("version of the record format of a file", "1, 2 or 3", "include/mmap.h"),
         ("precision of a file", "factor values are scaled by", "include/mmap.h")]
MECH = [("record writers and readers", "src/core/compress.cpp (RollupCompressor_v1)"), ("choice of the format", "src/core/mmap.cpp (RollupDataFile)"),
        ("streams of differences", "src/core/mmap.cpp (recompress, query_level1_compressor_v3)")]
OBSERVE = ["bytes of the record each field is written to and read from, for each value of the flags", "range of a value where it is written", "length returned", "sizes asked for before reading",
           "format used for each version"]
TECH = "abstract interpretation of the codecs in a domain of byte provenance and value ranges; writer/reader table agreement; linear-form comparison of the difference streams"
NOTE = """Rounding to the precision is not judged, nor is whether the bit-level codec below the recompressed stream is right. A day number is taken to be below 512."""
