#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
S = "src/lpaggreg/sources/"; H = "src/lpaggreg/headers/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(obs), "hook_needed": None}})

IN, HI, CO, PR = "inputs", "histories", "configurations", "programs"

prop("C01", "Ordered partitions tile the sequence",
  "The parts of every ordered partition, whether returned for a parameter, listed by a sweep or built from cuts, are non-empty intervals in increasing order that cover every index of the sequence exactly once. Each part carries the quality its interval has in the matrix of qualities and a size equal to its number of indices. The quality of the partition is the sum of those of its parts and its parameter is the one asked for. The cuts it reports describe exactly these parts.",
  [IN, HI], "every quality matrix (computed, normalised or given), every length, every parameter in [0,1], every list of valid cuts",
  "The 8 ordered tests compare a few partitions of two data sets of 20 and 5 instants; coverage must hold for each matrix and parameter.",
  [S+"opartition.cpp", S+"opartitioner.cpp", S+"partition.cpp"],
  [("OPartition::computeParts follows cut[i]", S+"opartition.cpp"), ("OPartition::computeQuality", S+"opartition.cpp")],
  [("cuts", "end of the part that starts at i", H+"opartition.h")],
  ["OPartition::getParts", "OPartition::getQuality", "OPartition::getParameter"])

prop("C02", "Hierarchical partitions cover every leaf exactly once",
  "The parts of every hierarchical partition, whether returned for a parameter, listed by a sweep or built from aggregation flags, are nodes of the hierarchy such that every leaf is below (or is) exactly one of them. Each part carries the quality its node has in the given qualities and a size equal to its number of leaves. The quality of the partition is the sum of those of its parts and its parameter is the one asked for. The aggregation flags it reports describe exactly these parts, under the hierarchy it was made for.",
  [IN, HI], "every hierarchy (any depth, arity, numbering of the inner nodes, unbalanced, a single node), every vector of qualities, every parameter",
  "The hierarchical test uses one balanced three-level tree numbered level by level.",
  [S+"hpartition.cpp", S+"hpartitioner.cpp", S+"hvalues.cpp"],
  [("HPartition::computeSubPart", S+"hpartition.cpp"), ("HPartition::computeQuality", S+"hpartition.cpp")],
  [("aggregated", "whether the node is one part", H+"hpartition.h")],
  ["HPartition::getParts", "HPartition::getQuality"])

prop("C03", "Spatio-temporal partitions cover every cell exactly once",
  "The parts of every two-dimensional partition, whether returned for a parameter, listed by a sweep or built from cuts, are products of a node and an interval such that every pair (leaf, instant) is in exactly one of them. Each part carries the quality of its node and interval, and sizes equal to its number of leaves, of instants, and to their product. The quality of the partition is the sum of those of its parts and its parameter is the one asked for. The cuts it reports describe exactly these parts, under the hierarchy it was made for.",
  [IN, HI], "every hierarchy and number of instants, every set of matrices, every parameter, every consistent set of cuts",
  "One test with one tree and one data set; it compares lists of parts for that set only.",
  [S+"dpartition.cpp", S+"dpartitioner.cpp"],
  [("DPartition::computeSubPart", S+"dpartition.cpp"), ("DPartition::computeQuality", S+"dpartition.cpp")],
  [("cuts", "per node and interval: -1 children, < end time cut, = end one part", H+"dpartition.h")],
  ["DPartition::getParts", "DPartition::getQuality"])

prop("C04", "The best ordered partition is optimal",
  "For every parameter p in [0,1], the ordered partition returned for p maximises p*gain-(1-p)*loss over all partitions of the sequence into intervals. Among the partitions that reach the maximum it has the greatest gain.",
  [IN], "every matrix of qualities, every length, every p in [0,1] (including exact ties and p=0, p=1)",
  "There are 2^(n-1) partitions of n indices for each matrix and p; the tests compare the result with recorded ones.",
  [S+"opartitioner.cpp", S+"tradeoff.cpp", S+"quality.cpp"],
  [("OPartitioner::computeBestPartition dynamic programme", S+"opartitioner.cpp"), ("Tradeoff order (value, gain, loss)", S+"tradeoff.cpp")],
  [], ["OPartitioner::computeBestPartition"])

prop("C05", "The best hierarchical partition is optimal",
  "For every parameter p in [0,1], the hierarchical partition returned for p maximises p*gain-(1-p)*loss over all partitions of the leaves into nodes of the hierarchy. Among the partitions that reach the maximum it has the greatest gain.",
  [IN], "every hierarchy and every numbering of its nodes, every vector of qualities, every p in [0,1] (including exact ties)",
  "The number of partitions grows exponentially with the tree; the test records results of one tree.",
  [S+"hpartitioner.cpp", S+"tradeoff.cpp", S+"hvalues.cpp"],
  [("HPartitioner::computeBestPartition, leaves to root along the path", S+"hpartitioner.cpp"), ("Tradeoff order", S+"tradeoff.cpp")],
  [], ["HPartitioner::computeBestPartition"])

prop("C06", "The best spatio-temporal partition is optimal",
  "For every parameter p in [0,1], the two-dimensional partition returned for p maximises p*gain-(1-p)*loss over all partitions of the cells (leaf, instant) into products of a node and an interval. Among the partitions that reach the maximum it has the greatest gain.",
  [IN], "every hierarchy, number of instants, set of matrices and p in [0,1] (including exact ties)",
  "One test records the results on one data set; the number of partitions is exponential in both dimensions.",
  [S+"dpartitioner.cpp", S+"dpartition.cpp", S+"tradeoff.cpp"],
  [("DPartitioner::computeBestPartition over nodes, intervals and cuts", S+"dpartitioner.cpp")],
  [], ["DPartitioner::computeBestPartition"])

prop("C07", "Ordered qualities follow their definition",
  "After computation, the gain of an interval is, summed over all the value series, S*log2(S) minus the sum of v*log2(v), where v are the values of the interval, S is their sum and a null value counts 0; the loss is the sum over the series of S*log2(number of instants), minus the gain. Single instants have null gain and loss.",
  [IN, CO], "every non-negative value array of every dimension (1 to 4), sizes and scale, built either way",
  "The tests compare the qualities of two data sets.",
  [S+"oqualities.cpp", S+"complexity.cpp", S+"ovaluesn.cpp"],
  [("OQualities::computeQualities prefix recurrence", S+"oqualities.cpp"), ("entropyReduction / divergence", S+"complexity.cpp")],
  [], ["OQualities::getQualities"])

prop("C08", "Hierarchical qualities follow their definition",
  "After computation, the gain of a node is, summed over all the value series, S*log2(S) minus the sum of v*log2(v), where v are the values of the leaves below it, S is their sum and a null value counts 0; the loss is the sum over the series of S*log2(number of leaves), minus the gain. Leaves have null gain and loss.",
  [IN, CO], "every hierarchy (depth, arity, numbering, unbalanced, single node) and every non-negative value array of every dimension (1 to 4)",
  "One tree and one data set are tested.",
  [S+"hqualities.cpp", S+"complexity.cpp", S+"hvaluesn.cpp", S+"hvalues.cpp"],
  [("HQualities::computeQualities along the path", S+"hqualities.cpp")],
  [], ["HQualities::getQualities"])

prop("C09", "Spatio-temporal qualities follow their definition",
  "After computation, the gain of a node and an interval is, summed over all the value series, S*log2(S) minus the sum of v*log2(v), where v are the values of its leaves at its instants, S is their sum and a null value counts 0; the loss is the sum over the series of S*log2(number of cells), minus the gain. Single cells have null gain and loss.",
  [IN, CO], "every hierarchy, number of instants and non-negative value array of every dimension (2 to 4)",
  "One tree, one data set.",
  [S+"dqualities.cpp", S+"complexity.cpp", S+"dvaluesn.cpp"],
  [("DQualities::computeQualities over the path and the triangle", S+"dqualities.cpp")],
  [], ["DQualities::getQualities"])

prop("C10", "Normalisation is relative to the total quality",
  "Normalising divides every gain by the gain of the whole (all instants, root node) and every loss by the loss of the whole, as they were before, wherever the root is numbered. A null gain or loss of the whole (or one that is null up to rounding) gives 0 everywhere in that component, and no result is infinite or not a number. Normalising a second time changes nothing.",
  [IN, HI], "every kind, every matrix computed or given, null totals included",
  "The tests normalise two regular data sets whose root has the last number.",
  [S+"oqualities.cpp", S+"hqualities.cpp", S+"dqualities.cpp", S+"quality.cpp"],
  [("normalize() with a copy of the total", S+"hqualities.cpp")],
  [], ["getQualities after normalize"])

prop("C11", "The sweep's lists are well formed and faithful",
  "After a sweep over [min,max], the listed parameters are strictly increasing, start with min and stay within [min,max], and the listed partitions, their qualities and the flat list of tuples are keyed by exactly these parameters, in order. Each listed partition is the one computed for that parameter alone, with its qualities, and tuples repeat its parts. Consecutive listed partitions differ.",
  [IN, HI], "every kind, matrix, threshold, sub-range of [0,1], also when the same object is swept again",
  "The tests check the parameter lists of a few sweeps with one threshold.",
  [S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp", S+"partitioner.cpp"],
  [("computeBestPartitions and removal of equal neighbours", S+"opartitioner.cpp")],
  [("pList, partitions, partitionsTuples, qualityList", "the results of the last sweep", H+"partitioner.h")],
  ["getPList", "getPartitions", "getPartitionsTuples", "getQualityList"])

prop("C12", "The sweep misses no optimum wider than its threshold",
  "A sweep over [min,max] with any threshold in (0,1) terminates, and for every q in [min,max] the partition listed for the greatest parameter not above q maximises the trade-off at q, unless another parameter is listed in (q, q+threshold].",
  [IN, CO], "every kind, matrix, threshold (down to below the precision of a float) and range, every q",
  "The parameters are a continuum and the tests compare listed values only.",
  [S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp"],
  [("addBestQualities bisection", S+"opartitioner.cpp")],
  [], ["getPartitions", "getPList"])

prop("C13", "Gain and loss grow with the parameter",
  "For two parameters p<q the best partition for q has at least the gain and at least the loss of the best partition for p. The same holds along the list of a sweep.",
  [IN, HI], "every kind, every matrix with non-negative entries, every pair of parameters",
  "Ordered pairs of a continuum; the tests check no relation between parameters.",
  [S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp", S+"tradeoff.cpp"],
  [("optimality plus the tie-break order of Tradeoff", S+"tradeoff.cpp")],
  [], ["computeBestPartition", "getQualityList"])

prop("C14", "Selected parameters and area under the curve",
  "After a sweep, the minimum and maximum strategies return the first and the last listed parameter, and the optimum strategy returns the greatest listed parameter whose (gain-1)^2+loss^2 is minimal over the list. The area under the curve is 1 minus the sum over consecutive listed parameters of the increase of gain times the mean of the two losses.",
  [IN, HI], "every kind, matrix and sweep (one or many listed parameters, qualities of any magnitude, ties)",
  "No test calls these functions.",
  [S+"partitioner.cpp"],
  [("Partitioner::getP, computePOpt, computeAUC", S+"partitioner.cpp")],
  [("pList, qualityList", "results of the last sweep", H+"partitioner.h")],
  ["getP", "computeAUC"])

prop("C15", "Hierarchy metadata describes the tree that was given",
  "For every hierarchy given as the parent of each node (leaves numbered first, -1 for the root), the metadata report that root, for each node its number of leaves and exactly its children, and a processing order that contains every node once, first the leaves, every node after its children, and the root last.",
  [IN], "every tree shape (unbalanced, chains, wide, single node) and numbering of the inner nodes",
  "The tests use one balanced tree numbered level by level.",
  [S+"hvalues.cpp", H+"hvalues.h"],
  [("HValuesMetaData::setPath", S+"hvalues.cpp")],
  [("path, size, children, root", "derived structure", H+"hvalues.h")],
  ["HValuesMetaData getters"])

prop("C16", "Aggregates are the sums and means of their own parts",
  "Aggregating values over a partition gives one aggregate per part, in the order of the parts. For every value series, its sum is the sum of the values of the cells of that part and its mean is that sum divided by the number of cells of the part.",
  [IN, CO], "every kind and dimension (9 or more classes), hierarchy, partition and value array",
  "No test covers aggregations.",
  [S+"oaggregationn.cpp", S+"haggregationn.cpp", S+"daggregationn.cpp"],
  [("compute and subSum", S+"haggregationn.cpp")],
  [], ["getAggregates, getSum, getMean, getPart"])

prop("C17", "Value stores return what was put in them",
  "A value store built from nested arrays, or built from sizes (all zero) and filled by its setter, reports the sizes it was built with and returns at every coordinate the last value put there; setting one coordinate changes no other. The flat series index enumerates the coordinates of the value dimensions once each, the last dimension varying fastest.",
  [IN, HI], "every kind and dimension, unequal sizes in every position, every sequence of writes",
  "The tests only use the array constructors and regular sizes.",
  [S+"ovaluesn.cpp", S+"hvaluesn.cpp", S+"dvaluesn.cpp"],
  [("operator(), operator[], toI/toJ/toK", S+"ovaluesn.cpp")],
  [], ["operator()", "operator[]", "getI/getJ/getK/getOsize/getVsize"])

prop("C18", "Results depend only on the data, not on the history",
  "The result of computing qualities depends only on the present values, and the result of a partition or a sweep only on the present qualities, the hierarchy and its arguments, whatever was called before on the same or other objects. Computing partitions, sweeps, aggregates or comparisons modifies no values and no qualities, changing values modifies no qualities until they are computed again and no aggregates made before, and qualities computed again do not disturb the partitioners and partitions made before.",
  [HI, IN], "every sequence of constructions, writes, computations, normalisations, partitions and sweeps",
  "The tests run one fixed sequence of calls on fresh objects.",
  [S+"oqualities.cpp", S+"hqualities.cpp", S+"dqualities.cpp", S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp"],
  [("computeQualities allocates a new matrix; partitioners share it read-only; Tradeoff::set copies", S+"tradeoff.cpp")],
  [("qualities", "matrix shared by qualities, partitioners and partitions", H+"oqualities.h")],
  ["digests of the matrices and results before and after each call"])

prop("C19", "The three analyses agree where they overlap",
  "A two-dimensional analysis with one instant gives the qualities and the same best trade-off as the hierarchical one, and with a single leaf below a root or alone those of the ordered one, for the same data. Reversing the instants, renumbering inner nodes or reordering value series transports qualities and leaves the best trade-off value unchanged, and multiplying all the values by a constant multiplies all the gains and losses by it.",
  [IN, PR], "every data set; pairs of runs",
  "A relation between runs of different classes; no test compares two classes.",
  [S+"oqualities.cpp", S+"hqualities.cpp", S+"dqualities.cpp", S+"dpartitioner.cpp", S+"hpartitioner.cpp", S+"opartitioner.cpp"],
  [("the three implementations of the same definitions", S+"dqualities.cpp")],
  [], ["getQualities", "computeBestPartition"])

prop("C20", "Qualities and trade-offs are ordered and combined consistently",
  "Adding, subtracting, multiplying and dividing qualities and trade-offs, in place or not, act component by component (gain, loss and value), also when an operand is the target itself, and modify no operand but the target; a trade-off set from a quality and p has the value p*gain-(1-p)*loss and keeps a copy of the quality. Trade-offs compare by value, then by greater gain, then by smaller loss, and the six comparison operators are consistent with that one total order. Qualities are equal exactly when gain and loss are, up to a relative precision of 1e-13.",
  [IN, PR], "all pairs and triples of qualities and trade-offs",
  "No test calls these operators, and an order is a law over all triples.",
  [S+"quality.cpp", S+"tradeoff.cpp"],
  [("operators", S+"tradeoff.cpp")],
  [], ["operators"])

prop("C21", "The triangular matrix stores every interval separately",
  "A triangular matrix of size n has n(n+1)/2 elements, initially the given or default value; what is written at (i,j), i<=j, is read back at (i,j) until it is overwritten, and no other position changes. The linear index enumerates every position exactly once.",
  [IN, HI], "every size, element type and sequence of writes",
  "The tests use the matrix through other classes at two sizes.",
  [S+"uppertriangularmatrix.cpp"],
  [("index (j-i)*n-(j-i)(j-i-1)/2+i", S+"uppertriangularmatrix.cpp")],
  [], ["operator()", "operator[]", "getElements", "getSize"])

prop("C22", "Partitions are equal exactly when their parts are",
  "Two partitions over the same hierarchy (two ordered partitions of any length) compare equal exactly when they consist of the same parts (node, interval and size), whatever their parameters and qualities and however they were described, and unequal otherwise; the same holds for two parts. Comparing is symmetric and modifies nothing.",
  [IN], "all pairs of partitions of every kind over one hierarchy, also of different data or length",
  "The tests never compare partitions directly.",
  [S+"opartition.cpp", S+"hpartition.cpp", S+"dpartition.cpp"],
  [("operator==, operator!=", S+"dpartition.cpp")],
  [], ["operator==, operator!="])

prop("C23", "Results outlive what they were made from",
  "Destroying value stores, qualities, partitioners or partitions takes nothing away from the objects made from them: qualities can be computed and normalised, partitions, sweeps and aggregates computed, and parts, partitions and aggregates read and compared after the user has destroyed the objects they came from, and give what they would have given otherwise.",
  [HI], "every sequence of constructions and destructions, for every kind",
  "The tests destroy everything at the end only; a use after destruction often goes unnoticed until memory is reused.",
  [S+"oqualities.cpp", S+"opartitioner.cpp", S+"hpartition.cpp", S+"dpartition.cpp", S+"oaggregationn.cpp", H+"hpartitioner.h"],
  [("shared ownership of values, metadata, qualities and parts", H+"opartitioner.h")],
  [("qualities, metaData, values, parts", "shared with the object they were made from", H+"dpartition.h")],
  ["every getter, after the destruction of the source"])

prop("C24", "Copies are independent",
  "A copy of a value store, of a partitioner or of a partition has the contents of the original when it was made: the same values, the same swept parameters, partitions and qualities, the same parts. From then on, writing to the one or computing with it leaves the other as it was, and so does destroying it.",
  [HI], "every kind, every sequence of calls on the original and the copy after copying",
  "No test copies an object.",
  [H+"ovaluesn.h", H+"dvaluesn.h", H+"partitioner.h", H+"partition.h", S+"opartitioner.cpp", S+"dpartition.cpp"],
  [("values held by value; swept lists held by value; parts shared but never changed", H+"partitioner.h")],
  [("values", "the array of a store", H+"ovaluesn.h"), ("pList, partitions, partitionsTuples, qualityList", "the results of the last sweep", H+"partitioner.h")],
  ["getters of the original and the copy after each call on the other"])

prop("C25", "Independent analyses may run at the same time",
  "Analyses made in different threads of one process, from the values to the partitions, sweeps and aggregates, give exactly what each of them gives alone, in every interleaving. This holds when they have no object in common, and when they only read the same values or qualities, which no thread changes meanwhile. No memory that one of them writes is accessed by another without an order between the two.",
  ["schedules", IN], "every interleaving of the calls of several analyses of any kind, with nothing in common or with values and qualities in common",
  "The tests are sequential.",
  [S+"oqualities.cpp", S+"hqualities.cpp", S+"dqualities.cpp", S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp", S+"partitioner.cpp", S+"quality.cpp", S+"dpartition.cpp", S+"oaggregationn.cpp"],
  [("scratch memory is automatic, nothing is static or filled lazily", S+"dpartitioner.cpp"), ("getters return copies or references to what does not change", H+"qualities.h")],
  [("values, qualities", "may be shared, read only", H+"opartitioner.h")],
  ["digests of the results of every call, alone and at the same time", "ThreadSanitizer's reports"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
