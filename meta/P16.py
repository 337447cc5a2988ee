TITLE = "Points compressed into a page are the points read back from it"
STATEMENT = """Reading a page takes every time and value from the bits it was written to, whatever branch the writer took, ends with the state the writer ended with, and counts repetitions as written;
bits are moved at the place asked for within the page. A point that does not fit leaves the page and the state as they were and is refused. A page is restored at the position saved with it,
by the compressor of its version, and starts without state of the page before."""
OVER = ["inputs", "histories", "configurations"]
QUANT = "every time and value; every branch of the encoders; every point of a page, the first ones and the general one; every version; every position of the bits in a byte"
WHY = """Every stored point passes through these bits. A width, sign or threshold that is off by one corrupts the rest of the page, and only for steps large enough to take that branch."""
FILES = ["src/core/compress.cpp", "include/compress.h", "src/utils/bitset.cpp", "include/bitset.h", "src/core/page.cpp"]
STATE = [("previous time, step, value of the compressor", "what differences are taken from", "include/compress.h"), ("repetition counter", "points equal to the step before, not written yet", "include/compress.h"),
         ("cursor and start of the bit set", "where the next bit goes", "include/bitset.h"), ("check point of the bit set", "place to go back to", "include/bitset.h"),
         ("cursor and start in the page header", "position a page is restored at", "src/core/page.cpp")]
MECH = [("encoders and decoders of numbers", "src/core/compress.cpp (compress4, uncompress_f4, compress4a, uncompress_i4a)"), ("encoders and decoders of points", "src/core/compress.cpp (Compressor_v2, v3, v4)"),
        ("bit copying", "src/utils/bitset.cpp"), ("saving and restoring of a page", "src/core/page.cpp")]
OBSERVE = ["for each bit written, the bit of the value it comes from, and where the reader puts it", "range of a value on each branch", "state of writer and reader after each point",
           "state at the point where the page turns out to be full", "position saved and restored"]
TECH = "abstract interpretation of writers and readers in a domain of bit provenance, linear forms and value ranges; agreement of writer and reader branch by branch; path rules for the check point"
NOTE = """Rounding to the configured precision is not judged, nor the two compressors that do not write bits. The points of a page are taken to lie within 2^31 time units of its start.
A length of 64 stored as 0 by the second version is not judged."""
