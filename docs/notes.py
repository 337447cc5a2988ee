"""Per property: what was left out, and what was corrected in the check because it had raised a false alarm."""
SCOPE = {
 "P08": "Work still queued for the worker threads when the server is told to stop is not part of what is filed (see P26).",
 "P14": "Left out: a descriptor lost because `fdopen` fails, a mapping replaced without `munmap`, a connection accepted while the server stops, and `closedir` of nothing.",
 "P16": "The second compressor's 'no value' marker is left out.",
 "P24": "Left out: the last, still open bucket; days of the second level written twice after a failed recompression; not-a-number values.",
 "P25": "Left out: reading a connection's state after its last count went away (pooled memory stays valid), and how the lines between two server threads are split.",
 "P26": "Work still queued at shutdown may be dropped. The queues have one producer and one consumer, as used.",
 "P27": "Left out: which part of a line is the name and which the value (not visible in the program form), and ranges of values.",
 "P28": "Left out: how a crash between the two renames of a swap is repaired; the backup of an earlier compaction, which is removed one level only.",
 "P29": "Left out: how tags are read from a query; `-inf` is put out as `Inf`; the sign of a zone's difference is the one the existing tests expect (`UTC+1` is east), although it is the other way round for named zones.",
 "P30": "Left out: results handed at once to other functions of the program, null kept in members between calls, elements of vectors, allocation that fails.",
}
ALARMS = {
 "P01": "Aliases of a member kept in a local reference, and values learnt under a lock that was released in between, were told apart wrongly.",
 "P02": "A function that takes the lock only in one mode of a flag was taken to hold it always.",
 "P03": "A null test of one of several partitions ended the search for all; a helper that hands a reference on was taken to keep it.",
 "P04": "The file variable of the loop was mixed with the one of the enclosing scope.",
 "P06": "A call tested by its bare result (`if (fstat(..))`) branches at the call itself; such branches were not seen.",
 "P10": "Registrations on paths that cannot be taken any more were counted.",
 "P11": "An estimate of a size was taken for the size written.",
 "P12": "An object replaced in its slot before being given back, and fields of `std::pair`, were reported.",
 "P13": "A buffer reaching a place by two ways, one of them with it already given back, needed the definitions that reach the place.",
 "P14": "Closing through an alias, `new_fd == fd`, a descriptor taken over by a stream, a connection created and given back at once, and a member only its thread uses.",
 "P15": "Case labels, types of results, zero tests of the count only, float literals as text, variables carried but never updated.",
 "P16": "A range test moved to a helper; state limits of writer and reader; differences of zero up to a multiple.",
 "P17": "A literal's length from a global; helpers outside the class; parts of a sender counted as answers; an offset with default and override; a handler whose name is off the pattern.",
 "P18": "Conditions kept in variables, chained assignment of zero, a unit conversion by evaluation, a position decremented before or after the element is taken.",
 "P19": "An assignment inside a condition as null test; characters kept in locals and arrays; helpers judged without their caller; the order of the parts of a condition.",
 "P20": "Intermediate answers overwritten later; a drop counted although failure is answered; counters by `+=`; a search by `memrchr` instead of a loop.",
 "P21": "A null task skipped; a first value by `max` with the lowest; positions in a vector; the table of units as a chain of tests; a divisor by `?:`.",
 "P22": "Helpers of other classes expanded by mistake; a default then overridden; a range test as two comparisons; a loop left by a flag.",
 "P23": "Functions that parse (data, length) taken for ones that print; room given back by `size++`; clamps by `min` and `?:`.",
 "P24": "Contradictory comparisons on one path; an empty loop over tasks; a helper called only from the flush; a restore loop left early.",
 "P25": "Case labels as characters of literals; loops through the outer listener loop; commands dispatched by a helper; both tables cleared by a helper.",
 "P26": "Impossible paths through the wrap of an index; an inner loop over a batch; work's data kept by reference; `++x >= count`; listeners stopped in descending order.",
 "P27": "Lists checked in one loop; getters with default and override; the property looked up through a shared pointer made elsewhere; a fall-through in the table of units.",
 "P28": "The age kept in a local or tested by a helper; the number of days copied; the directory removed by a helper; the oldest partition taken off by a helper.",
 "P29": "Conditions kept in variables, values chosen by `?:`, helpers shared by the two ways to read a query, results taken over one by one, and the room left in a buffer taken for the end of a loop.",
 "P30": "Assignments used as conditions (`while (x = next())`), `closedir` of null (harmless in the library), shared pointers assigned anew, calls told to create what is missing, something looked up again after it was put in, the test made by a helper or by `count`.",
}
