TITLE = "Aggregates and rates are numerically accurate"
STATEMENT = "Sums, averages, deviations, percentiles and rates over any number of points differ from the exact result by no more than a few units in the last place, however the points are split over pages, partitions and rollup buckets."
OVER = ["inputs"]
QUANT = "every multiset of values and every split of it"
WHY = "Tests compare a few results on small, well-behaved values."
FILES = ["src/agg/aggregate.cpp", "src/agg/downsample.cpp", "src/agg/rollup.cpp"]
MECH = [("adding up", "src/agg/aggregate.cpp"), ("rolled up sums", "src/agg/rollup.cpp")]
OBSERVE = ["results of queries"]
NA = """How far rounding drifts depends on the values added and on their order, at run time; no static argument in reach bounds it for all inputs. What can be
decided from the source (which points enter a result, with which operation, divisor and initial value) is decided under P21, P22 and P24."""
