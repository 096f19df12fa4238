IN = "Inputs beyond the bounds in the evidence file are not covered; trusts the reference definitions in harness/src and the compiler. "
claim("C01", "exhaustive enumeration of insertion histories on the real builder, lock-step with a map model", "Every insertion history up to the depth bound over small id and score sets (several key types), compared with a map model after the build. " + IN)
claim("C02", "exhaustive enumeration of small rankings, insertion orders and tie structures on the real store", "Every assignment of scores (with ties, signed zeros, infinities, NaN) to small document sets in every insertion order, and structured large lists. " + IN)
claim("C03", "exhaustive enumeration of rankings x judgments x cutoffs on the real code against definitions", "Every ranking of graded/unjudged documents up to the length bound with every set of unranked judgments and every cutoff. " + IN)
claim("C04", "exhaustive enumeration of rankings x judgments x cutoffs on the real code against definitions", "As C03, for AP, RR and Bpref. " + IN)
claim("C05", "exhaustive enumeration of rankings x judgments x cutoffs on the real code against definitions", "As C03, for DCG and NDCG, plus every grade around powers of two. " + IN)
claim("C06", "exhaustive enumeration of rankings and of all their neighbours (swaps, truncations, extensions) on the real code", "Relations between scores of neighbouring rankings, independent of the definitions. " + IN)
claim("C07", "exhaustive enumeration of rankings and of all their equivalent realisations on the real code", "Every small ranking realised with other scores, ids, key types, insertion orders, grades and neighbouring queries. " + IN)
claim("C08", "exhaustive enumeration of query-set pairs on the real code against a set model", "All pairs of judged and ranked query sets over five ids, a missing query at every position, aggregation over many sizes. " + IN)
claim("C09", "exhaustive enumeration of short texts and single edits against the documented grammar", "All texts up to the length bound, all single-character edits of valid names, every metric with a dense set of cutoffs. " + IN)
claim("C10", "exhaustive enumeration of short files and line edits on the real parsers against the documented line grammar", "Every file of up to the bounded number of lines over a menu of well-formed and malformed lines, every number spelling up to the length bound. " + IN)
claim("C11", "exhaustive enumeration of small TREC files run through the real elinor-convert binary, read back with an independent JSON parser", "Every id, score and file layout of the menus; known read-back rounding defects of serde_json are listed one by one. " + IN)
claim("C12", "exhaustive enumeration of tuples of small maps in every insertion order on the real code against a key-set model", "All key-set combinations over the bounded alphabet, several key types. " + IN)
claim("C13", "exhaustive enumeration of small integer samples on the real code against textbook formulas", "Every multiset of differences up to the length bound, in several representations, with every level of the menu; distribution tails are computed independently (incomplete beta). " + IN)
claim("C14", "exhaustive exploration of all random draw sequences of the real bootstrap through a controlled generator", "Every draw sequence of the generator is explored by a controlled rand, weighted by its probability, and the exact expected p-value is compared with the enumeration of all n^n resamples. Draws too wide to enumerate fall back to seeded runs. " + IN)
claim("C15", "exhaustive exploration of all random draw sequences of the real randomized Tukey test through a controlled generator", "As C14, against the enumeration of all (m!)^n permutations. " + IN)
claim("C16", "exhaustive enumeration of configurations and call histories of the randomised testers on the real code", "Every state, repetition count and builder order of the menus, repeated and interleaved. " + IN)
claim("C17", "exhaustive enumeration of small integer score matrices on the real code against textbook formulas", "Every matrix over the value alphabet up to the shape bound. " + IN)
claim("C18", "exhaustive enumeration of small integer score matrices on the real code against textbook formulas", "As C17. " + IN)
claim("C19", "exhaustive enumeration of input files, metric lists, ids and file faults on the real elinor-evaluate binary against the library", "Every case of the menus runs the real binary; printed lines and the CSV (read by an independent CSV reader) are compared with the library. " + IN)
claim("C20", "exhaustive enumeration of row orders, column sets, ids and small score tables on the real elinor-compare binary against the library", "Every printed cell is compared with the library for pairs matched by id; randomised p-values within eight standard deviations of an independent resampling. " + IN)
claim("C21", "exhaustive enumeration of write, read, open and size-limit faults on the real binaries", "Every byte at which files stop growing and every failing or short system call of each command line of the menu; a run may report success only with the complete output. " + IN, "fault_enumeration")
claim("C22", "exhaustive enumeration of call histories, nested calls and preemption-bounded thread schedules of the real library against each call made alone in a fresh process", "All ordered pairs of calls in fresh processes, triples of the core, every point at which the library hands control to caller code (key comparisons, iterators, random draws) interrupted by other calls, and every 1- and 2-preemption schedule of two threads at those points. Interleavings inside stretches that call back nothing are not explored; the library has no shared mutable state outside those stretches to observe today. " + IN)
claim("C23", "exhaustive enumeration of small score tables with all permutations of systems and topics, shifts and scalings on the real code", "Every table over the alphabet is transformed in every way of the menu and the results compared; randomised tests by their exact distributions over all draws. " + IN)
claim("C24", "exhaustive enumeration of degenerate and boundary inputs of every entry point of the real library, with overflow checks on", "Panics, refusals and every reported number are examined; known panics of the ANOVA family are listed. " + IN)
claim("C25", "exhaustive enumeration of small TREC files, line orders and ids run through the real three commands against the library on the same records", "Every command runs on what its predecessor wrote; the last one's output is compared cell by cell with the library applied to independently read records. " + IN)
claim("C26", "exhaustive enumeration of preemption-bounded interleavings of the file accesses of two and three real commands, and of all kill points, under a controlled scheduler", "Every access to a file waits for the scheduler (preloaded library); directories are compared before and after, results with those of each command alone. What a command does between two accesses is taken as atomic; file names are those of the menu. " + IN)
