TITLE = "Pooled objects are handed out clean and given back exactly once"
STATEMENT = """Every object taken from the pools of reusable objects is of the class its user takes it for, is unlinked and carries nothing of its earlier use;
it is put back once, after being recycled, on the list of its own kind under that list's lock. An object is not used after it was put back, and a
container whose elements were put back is emptied or not used again. An object taken from a pool is put back, kept or passed on along every normal
path, and what an object keeps is put back when the object itself is recycled or the field is set anew."""
OVER = ["histories", "schedules", "inputs"]
QUANT = "every kind of pooled object, every sequence of uses of one object, every order of threads taking and returning objects"
WHY = """A leftover or a second return only shows when the object is reused by another request, often much later and under load."""
FILES = ["src/core/memmgr.cpp", "include/recycle.h", "src/core/query.cpp", "src/utils/json.cpp", "src/utils/tag.cpp", "src/agg/down.cpp", "src/agg/aggregate.cpp", "src/core/compress.cpp"]
STATE = [("free lists", "one linked list of unused objects and one lock per kind", "include/memmgr.h"),
         ("pooled objects", "query tasks and results, data point containers, connections, tags, JSON values, downsamplers, aggregators, compressors", "include/recycle.h")]
MECH = [("hand-out and take-back", "src/core/memmgr.cpp (MemoryManager::alloc_recyclable, free_recyclable, free_recyclables)"), ("init and recycle", "methods of each pooled class")]
OBSERVE = ["class created for each kind against casts of its users", "order of steps in hand-out and take-back", "uses after give-back", "paths on which an object is dropped", "fields left from the previous use"]
TECH = "ownership and typestate analysis with function summaries, path search over the resolved control-flow graphs, kind/class agreement tables"
NOTE = """Objects lost while an exception unwinds are out of scope; network buffers are a property of their own."""
