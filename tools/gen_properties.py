#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in a script so the statements stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "A relevance store holds exactly the accepted records",
 "For every sequence of insertions, a record is accepted if and only if its (query, document) pair has not been accepted before in that builder; a repeated pair is refused with a duplicate-entry error and leaves the first score and everything else unchanged. The built store then answers every lookup with exactly the accepted content: score of a pair, per-query map, ranked list, set of query ids, number of queries, number of query-document pairs, and exported records (borrowed or consuming) all agree, and unknown queries or documents yield nothing. Building a store from exported records gives back the same store, and building from records fails on the first duplicate.",
 ["histories", "inputs"], "every finite sequence of insertions over any ids, with duplicates and interleaved queries, and every lookup afterwards",
 "The tests build a handful of fixed stores; duplicate handling and agreement between the map, the sorted list and the counts are only seen on one or two histories.",
 ["src/relevance.rs"], [("duplicate check before insert", "src/relevance.rs RelevanceStoreBuilder::add_record"), ("map and sorted list built from one source", "src/relevance.rs RelevanceStoreBuilder::build")],
 ["RelevanceStore::get_score", "get_map", "get_sorted", "records", "into_records", "n_queries", "n_docs", "query_ids"],
 [dict(name="map", meaning="per query: sorted list and doc->score map", where="src/relevance.rs RelevanceStore")])

prop("C02", "Documents are ranked by score descending, ties by document id ascending",
 "For every store, each query's ranked list contains each of its documents exactly once, in order of decreasing score, and documents with equal scores in increasing order of document id. Scores are compared as numbers (negative zero equals zero, infinities are the extremes), and a NaN score ranks above every number. The list does not depend on the order in which the records were inserted nor on the records of other queries.",
 ["histories", "inputs"], "every set of (document, score) pairs of any size, every insertion order, every id type with a total order",
 "Tests check two or three short lists without special floating-point values and in one insertion order.",
 ["src/relevance.rs", "src/lib.rs"], [("sort by (score desc, id asc)", "src/relevance.rs RelevanceStoreBuilder::build"), ("total order on scores", "src/lib.rs PredScore = OrderedFloat<f64>")],
 ["RelevanceStore::get_sorted", "records", "into_records"])

prop("C03", "Set-based metrics equal their textbook definitions",
 "For every query, with Rel the documents judged with grade at least 1 and Res the first k ranked documents (all of them when k is 0): hits is |Res∩Rel|; success is 1 if hits>0 else 0; precision is hits/k, or hits/(number ranked) when k is 0; recall is hits/|Rel|; f1 is the harmonic mean of that precision and recall; r_precision is the precision at k=|Rel|. Unjudged documents count as not relevant, precision's denominator stays k even when fewer documents are ranked, and a metric whose denominator is zero (no relevant documents, nothing retrieved) is 0.",
 ["inputs"], "every judgment set, every ranking (any mix of judged and unjudged documents, any length) and every cutoff k",
 "One fixed ranking per metric with a few k, plus aggregate agreement with trec_eval to three decimals on one data set; boundary shapes (k beyond the ranking, no relevant documents, more relevant than retrieved) are not combined.",
 ["src/metrics/hits.rs", "src/metrics/success.rs", "src/metrics/precision.rs", "src/metrics/recall.rs", "src/metrics/f1.rs", "src/metrics/r_precision.rs", "src/metrics.rs"],
 [("per-metric formulas", "src/metrics/*.rs"), ("RELEVANT_LEVEL", "src/metrics.rs")], ["metrics::compute_metric", "evaluate().scores()"])

prop("C04", "AP, RR and Bpref equal their textbook definitions",
 "For every query: AP@k is the sum, over the relevant documents ranked in the first k, of the precision at their rank, divided by the total number of relevant documents; RR@k is the reciprocal of the rank of the first relevant document within the first k, or 0; Bpref is (1/R) times the sum over ranked relevant documents r of 1 - min(R,N_r)/min(R,N), where R and N are the numbers of judged relevant and judged non-relevant documents and N_r the number of judged non-relevant documents ranked above r (a term with N_r = 0 is 1, also when N = 0). Unjudged documents never count as judged non-relevant, k = 0 means the whole ranking, and each metric is 0 when there is no relevant document.",
 ["inputs"], "every judgment set (including none relevant and none non-relevant), every ranking with judged and unjudged documents, every cutoff",
 "One fixed ranking per metric; Bpref with incomplete judgments, more non-relevant than relevant documents or no non-relevant ones is not covered.",
 ["src/metrics/average_precision.rs", "src/metrics/reciprocal_rank.rs", "src/metrics/bpref.rs", "src/metrics.rs"],
 [("formulas", "src/metrics/average_precision.rs, reciprocal_rank.rs, bpref.rs")], ["metrics::compute_metric", "evaluate().scores()"])

prop("C05", "DCG and NDCG equal their definitions in both weightings",
 "For every query, DCG@k is the sum over the first k ranked documents (all when k is 0) of gain(grade)/log2(rank+1), where gain is the grade (Järvelin) or 2^grade - 1 (Burges) and unjudged documents have gain 0. NDCG@k divides that by the DCG@k of the ideal ranking of all judged documents by decreasing grade, and is 1 when the ideal DCG is 0. Both hold for every grade whose gain is representable.",
 ["inputs"], "every assignment of grades (0, small, beyond 8, 16 and 31 bits, repeated), every ranking, every cutoff including larger than the ranking and larger than the judgment set",
 "One fixed example with grades 0-2; the ideal ranking truncated by k, more judged than ranked documents and large grades are not combined.",
 ["src/metrics/ndcg.rs", "src/metrics.rs"], [("weighted_score, compute_dcg, compute_ndcg", "src/metrics/ndcg.rs")], ["metrics::compute_metric", "evaluate().scores()"])

prop("C06", "Metrics look only at the top k, stay in range and reward better rankings",
 "For every metric with a cutoff: only the first k ranked documents influence the score (documents below rank k can be changed, removed or added freely), and k = 0 gives the score of k = the number of ranked documents (for NDCG, whose ideal ranking then covers all judged documents, of any k covering both the ranked and the judged documents). Every metric except hits and the two DCGs lies in [0,1] for every input. Swapping two adjacent ranked documents so that the higher-graded judged one comes first never lowers any metric, a ranking that puts all judged documents first in order of decreasing grade has NDCG@k = 1 for every k, and one that puts all relevant documents first has AP = Bpref = R-precision = RR = 1.",
 ["inputs"], "every pair of related inputs (ranking and its truncation, extension or adjacent swap), every metric, every k",
 "The tests compare single rankings with constants and never relate two evaluations.",
 ["src/metrics.rs", "src/metrics/ndcg.rs", "src/metrics/bpref.rs", "src/metrics/average_precision.rs", "src/metrics/precision.rs"],
 [("take(k) with k=0 meaning all", "src/metrics/*.rs")], ["metrics::compute_metric"])

prop("C07", "A query's score depends only on its own judgments and ranking",
 "For every metric, the score of a query is unchanged when the predicted scores are replaced by any others that induce the same ranking, when records are inserted in another order, when ids are renamed consistently in an order-preserving way or use another key type, and when other queries are added, removed or changed in either store. Binary metrics are also unchanged when grades are replaced by others with the same relevant/non-relevant split (grade 1 and above is relevant).",
 ["inputs", "histories"], "every pair of inputs related by such a transformation, for every metric and cutoff",
 "Tests use a single query, or compare one multi-query data set with fixed numbers.",
 ["src/metrics.rs", "src/metrics/*.rs", "src/relevance.rs"], [("per-query computation from that query's map and sorted list", "src/metrics.rs compute_metric")], ["metrics::compute_metric", "evaluate"])

prop("C08", "Evaluation covers exactly the ranked queries and aggregates them correctly",
 "evaluate returns one score for every query of the predicted store and for no other, and fails with a missing-entry error if and only if some predicted query has no judgments; judged queries that were not ranked do not count. The reported mean, variance and standard deviation are the arithmetic mean, the population variance (divisor n) and its square root of exactly those scores, and the reported metric is the one requested. The same scores are returned by the direct metric computation.",
 ["inputs"], "every pair of query sets (subset, superset, overlapping, disjoint, equal) with at least one ranked query, every metric, any scores",
 "The tests evaluate two queries with equal query sets; one error case is checked for one metric.",
 ["src/lib.rs", "src/metrics.rs"], [("subset check and aggregation", "src/metrics.rs compute_metric, src/lib.rs evaluate")], ["evaluate", "Evaluation::scores/mean/variance/std_dev/metric"])

prop("C09", "Metric names parse and print consistently",
 "Every metric prints as its documented name, followed by @k exactly when it has a non-zero cutoff, and parsing that text gives back the same metric. A text parses if and only if it is a documented metric name optionally followed by @ and a decimal number that fits the cutoff type; any other text (other case, spaces, signs, empty or missing number, trailing or leading text, non-ASCII characters, a number too large) is an invalid-format error, never a panic or another metric.",
 ["inputs"], "every metric with every cutoff, and every text",
 "Tests parse each name once with k = 0 and k = 3 or so; the space of rejected texts is untested.",
 ["src/metrics.rs"], [("Display and FromStr of Metric", "src/metrics.rs")], ["Metric::from_str", "Metric::to_string"])

prop("C10", "TREC qrels and runs parse to exactly the records they contain",
 "For every sequence of lines, parsing succeeds if and only if every line has at least 4 (qrels) or 5 (run) whitespace-separated columns, its score column is a valid 32-bit integer (qrels) or floating-point number (run), and no (query, document) pair repeats; malformed lines give an invalid-format error and repeated pairs a duplicate-entry error, and no line is skipped. The resulting store contains exactly one record per line: query from column 1, document from column 3, score from column 4 of qrels with negative values read as 0, or from column 5 of runs read at full double precision; the other columns, including the rank, have no influence.",
 ["inputs"], "every sequence of lines over any column contents, separators and column counts",
 "One small well-formed example per format.",
 ["src/trec.rs"], [("parse_true_rels_in_trec, parse_pred_rels_in_trec", "src/trec.rs")], ["trec::parse_true_rels_in_trec", "trec::parse_pred_rels_in_trec"])

prop("C11", "Converting TREC to JSONL loses nothing",
 "Whenever elinor-convert succeeds on a qrels or run file, its JSONL output holds exactly the records of that file, one valid JSON object per line, and reading it back record by record yields the same store: the same ids, grades and scores, and the same ranking. This holds for files of any size, for pipes as well as regular files, and when the output has the name of the input. It fails (non-zero exit) whenever the library refuses the file or a record cannot be represented. Serialising and deserialising library records as JSON likewise returns equal records.",
 ["inputs"], "every TREC file: ids with quotes, backslashes, control or non-ASCII characters, any grade, any finite or non-finite score",
 "CI converts one data set and only looks at the exit code and three decimals of the averages.",
 ["elinor-cli/src/bin/convert.rs", "elinor-cli/src/lib.rs", "elinor-cli/src/bin/evaluate.rs", "src/relevance.rs", "src/trec.rs"],
 [("parse, export records, serde_json", "elinor-cli/src/bin/convert.rs"), ("Record serde derive", "src/relevance.rs")], ["elinor-convert output file", "serde_json of Record"])

prop("C12", "Score maps are paired by key",
 "pairs_from_maps and tuples_from_maps return, in increasing key order, one tuple per key whose j-th component is the j-th map's score for that key. They succeed if and only if all maps have the same set of keys, and otherwise report an invalid argument. They never pair scores of different keys and never panic, whatever the number of maps.",
 ["inputs"], "every list of score maps (any number of maps, any key sets, any insertion order)",
 "Two fixed examples and two error cases.",
 ["src/statistical_tests.rs"], [("length and key comparison", "src/statistical_tests.rs tuples_from_maps")], ["pairs_from_maps", "tuples_from_maps"])

prop("C13", "The paired t-test reports the textbook statistics",
 "For paired scores with differences d_1..d_n (first minus second, n >= 2, not all equal) the test reports n, the mean of d, the unbiased variance of d (divisor n-1), effect size mean/sqrt(variance), t = mean/sqrt(variance/n), the two-sided p-value P(|T| >= |t|) of Student's t with n-1 degrees of freedom, and for each significance level a in (0,1] a margin of error m with P(|T| >= m/sqrt(variance/n)) = a and the interval mean ± m. Fewer than two pairs, or a level outside (0,1] or NaN, is an invalid argument, and all-equal differences are reported as uncomputable.",
 ["inputs"], "every list of paired scores, every significance level",
 "One 20-topic sample checked to a few digits and one error case.",
 ["src/statistical_tests/student_t_test.rs"], [("compute_t_stat, StudentsT distribution", "src/statistical_tests/student_t_test.rs")], ["StudentTTest accessors"])

prop("C14", "The bootstrap p-value follows Efron's shifted-mean bootstrap exactly",
 "For paired differences d_1..d_n, the bootstrap p-value is the fraction of resamples whose |t*| is at least the observed |t|, where each resample draws n values independently and uniformly, with replacement, from the differences shifted to mean zero, t* is its one-sample t statistic, and a resample without variance does not count as at least a non-zero t. So, over the generator's choices, the expected p-value is exactly the proportion of the n^n equally likely resamples that qualify, resamples are independent of each other, and the p-value is a multiple of 1/n_resamples. Fewer than two pairs is an invalid argument, all-equal differences are uncomputable, and the number of resamples and topics used is reported.",
 ["schedules", "inputs"], "every list of paired scores and every sequence of random draws",
 "The tests check that the p-value is in [0,1] or near a published value for one sample and one seed; no test looks at which resamples are drawn.",
 ["src/statistical_tests/bootstrap_test.rs", "src/statistical_tests/student_t_test.rs"], [("shift, resample, count", "src/statistical_tests/bootstrap_test.rs BootstrapTester::test")], ["BootstrapTest::p_value", "n_resamples", "n_topics"])

prop("C15", "The randomized Tukey HSD p-values follow the permutation distribution exactly",
 "For n topics and m systems, the p-value of systems i and j is the fraction of iterations in which the largest difference between permuted system means is at least |mean_i - mean_j| (equality up to rounding counts), where every iteration permutes the scores of every topic independently and uniformly over all m! orders. So its expectation over the generator's choices is exactly the proportion among the (m!)^n equally likely permutations; for two systems this is Fisher's randomization test. The matrix is symmetric with ones on the diagonal and multiples of 1/n_iters elsewhere, and inputs without topics or with a topic of the wrong length are invalid arguments.",
 ["schedules", "inputs"], "every score matrix with at least one topic, every sequence of random draws",
 "The tests compare one data set and seed with published values to about two digits.",
 ["src/statistical_tests/randomized_tukey_hsd_test.rs"], [("per-topic shuffle, max-min of means, count", "src/statistical_tests/randomized_tukey_hsd_test.rs RandomizedTukeyHsdTester::test")], ["RandomizedTukeyHsdTest::p_values"])

prop("C16", "A randomised test is reproduced by the random state it reports",
 "For the bootstrap and the randomized Tukey HSD test, a run with a given random state reports that state and is a function of the data, the number of repetitions and the state alone: repeating it, in any order with other calls, gives the identical p-values. A run without a state reports the state it drew, and running again with the reported state gives the identical result. Repetition counts below one act as one, are reported as used, and the defaults are 10000; setting one option leaves the other unchanged.",
 ["schedules", "inputs", "histories"], "every random state (including 0 and the largest), every drawn seed, every number of repetitions, every order of builder calls",
 "Tests fix one state and never rerun or use the drawn one.",
 ["src/statistical_tests/bootstrap_test.rs", "src/statistical_tests/randomized_tukey_hsd_test.rs"], [("random_state.map_or_else(thread_rng, seed)", "both testers"), ("max(1) clamp", "with_n_resamples, with_n_iters")], ["random_state()", "p_value()", "p_values()", "n_resamples()", "n_iters()"])

prop("C17", "Two-way ANOVA without replication reports the textbook table",
 "For an n-topic by m-system matrix (n, m >= 2) it reports n, m, the system means and topic means, and the between-system, between-topic and residual sums of squares with degrees of freedom m-1, n-1 and (m-1)(n-1), the corresponding mean squares, F statistics against the residual mean square, and the upper-tail F probabilities; the three sums of squares add up to the total sum of squares. The margin of error at level a is the t quantile at 1-a/2 with (m-1)(n-1) degrees of freedom times sqrt(V_E/n). A wrong-length topic, fewer than two topics or systems, and a level outside (0,1] or NaN are invalid arguments, and a zero residual is uncomputable.",
 ["inputs"], "every score matrix of any shape, every significance level",
 "One published 20x3 example checked to a few digits.",
 ["src/statistical_tests/two_way_anova_without_replication.rs"], [("from_tupled_samples", "src/statistical_tests/two_way_anova_without_replication.rs")], ["TwoWayAnovaWithoutReplication accessors"])

prop("C18", "Tukey HSD effect sizes are mean differences over the residual deviation",
 "For every score matrix, the effect size of systems i and j is (mean_i - mean_j)/sqrt(V_E), with V_E the residual mean square of the two-way ANOVA of the same matrix. The matrix is therefore antisymmetric with zeros on the diagonal and additive (ES_ij + ES_jk = ES_ik), and the reported numbers of systems and topics are those of the input. Inputs that the ANOVA refuses are refused with the same kind of error.",
 ["inputs"], "every score matrix of any shape",
 "One published 20x3 example.",
 ["src/statistical_tests/tukey_hsd_test.rs", "src/statistical_tests/two_way_anova_without_replication.rs"], [("effect_sizes", "src/statistical_tests/tukey_hsd_test.rs")], ["TukeyHsdTest::effect_sizes", "n_systems", "n_topics"])

prop("C19", "elinor-evaluate prints and saves exactly the library's results",
 "For every pair of JSONL files and list of metrics, elinor-evaluate prints the numbers of queries and of records in both files, the number of relevant judgments and, for each requested metric in order (or the documented default list when none is requested), its name and mean to four decimals. The CSV (tab-separated on request) has a query_id column followed by one column per metric in the same order, headed by the metric's name, with one row per ranked query in increasing id order holding the library's scores at full precision, however unusual the ids, and whether the files are regular ones or pipes. Inputs the library refuses lead to a non-zero exit and no success output.",
 ["inputs", "configurations"], "every pair of judgment and run files, metric list and option combination",
 "CI runs it once and compares averages to three decimals; per-query output, ordering, separators and unusual ids are not looked at.",
 ["elinor-cli/src/bin/evaluate.rs", "elinor-cli/src/lib.rs"], [("main", "elinor-cli/src/bin/evaluate.rs")], ["stdout", "output CSV", "exit code"])

prop("C20", "elinor-compare pairs systems by topic and prints the right statistics",
 "For every set of per-topic CSV files with the same topics in any row order and any column order, elinor-compare matches scores by exact topic id, uses the metrics common to all files in the first file's order, and prints to four decimals the library's results for those pairs: for one file the means; for two the means, the paired t-test of first minus second, the bootstrap p-value and the randomization p-value with the requested numbers of repetitions; for three or more the system means with margins, the ANOVA table, the effect sizes and the randomized Tukey HSD p-values, each for the systems in argument order. Pretty and raw modes show the same values; whether a file is a regular one or a pipe makes no difference. Files whose first column headers differ, whose topics differ or repeat, or without a common metric, are refused with a non-zero exit.",
 ["inputs", "configurations"], "every list of score files: permuted rows and columns, numeric-looking ids, differing metric sets, any number of systems, both print modes",
 "CI runs it on three files that are already aligned and looks only at the exit code.",
 ["elinor-cli/src/bin/compare.rs"], [("join on the topic column", "elinor-cli/src/bin/compare.rs compare_two_systems, compare_multiple_systems"), ("common metrics", "extract_common_metrics")], ["stdout", "exit code"])

prop("C21", "A command that exits with success has written its complete output",
 "Whatever write to its output file or to standard output fails, and at whatever byte the device stops accepting data, elinor-convert, elinor-evaluate and elinor-compare exit with status 0 only if the complete output (the same bytes as without the fault) has been written. A missing or unreadable input or an uncreatable output also gives a non-zero exit.",
 ["fault_sequences", "crash_points", "inputs"], "every byte offset at which writing starts to fail, for each output channel of each command, and several output sizes around the buffering boundaries",
 "No test injects a write failure.",
 ["elinor-cli/src/bin/convert.rs", "elinor-cli/src/bin/evaluate.rs", "elinor-cli/src/bin/compare.rs"], [("? on every write, buffered writer flushed", "elinor-cli/src/bin/convert.rs"), ("println! panics on failed stdout", "evaluate.rs, compare.rs")], ["exit status", "output bytes"])

prop("C22", "No call changes the outcome of another call",
 "Every library call is a function of its arguments (and, for randomised tests, the random state): for every order in which calls of different kinds are made, on the same or different threads and on shared or separate inputs, each call returns exactly what it returns when made alone, and its inputs are unchanged. Builders and testers can be reused or copied, and earlier results keep their values.",
 ["histories", "schedules"], "every sequence of calls drawn from all entry points, and every order of whole calls on several threads",
 "Each test makes its calls once, in one order, in a fresh process state.",
 ["src/lib.rs", "src/metrics.rs", "src/relevance.rs", "src/trec.rs", "src/statistical_tests/*.rs"], [("no global or cached state", "whole library")], ["all public results"])

prop("C23", "Comparisons treat systems and topics symmetrically",
 "Reordering the topics changes no statistic of the t-test, the ANOVA, the effect sizes or the exact distribution of the two randomised tests. Swapping the two systems of a paired test negates mean, effect size and t, mirrors the confidence interval, and keeps variance, p-values and margin of error; permuting the systems of the multi-system tests permutes means, effect sizes and p-value matrices accordingly and keeps everything else. Adding the same constant to all scores of a topic changes no difference-based result, and multiplying all scores by a positive constant changes no p-value, t, F or effect size.",
 ["inputs", "schedules"], "every score matrix and every permutation of its topics and systems, every shift and scale",
 "The tests never evaluate two related inputs.",
 ["src/statistical_tests/student_t_test.rs", "src/statistical_tests/bootstrap_test.rs", "src/statistical_tests/randomized_tukey_hsd_test.rs", "src/statistical_tests/tukey_hsd_test.rs", "src/statistical_tests/two_way_anova_without_replication.rs"], [("formulas symmetric in topics and equivariant in systems", "src/statistical_tests/*.rs")], ["all accessors of the five tests"])

prop("C24", "Every input gets a meaningful result or an error, never a panic or NaN",
 "For every public entry point and every input with finite scores (of moderate size) and at least one ranked query where evaluation is concerned, the call returns either a result in which no reported number is NaN, or the documented error kind for that input; it never panics, overflows or hangs. In particular every metric is a number for queries without relevant, without non-relevant or without any judged retrieved document and for every cutoff up to the largest, and every statistical test either reports p-values in [0,1], non-negative variances and margins, or refuses the input (too few topics or systems, wrong lengths, no variation, invalid level) as an error.",
 ["inputs"], "every degenerate and boundary input of every entry point",
 "Tests exercise one or two error cases per function and no degenerate data.",
 ["src/lib.rs", "src/metrics.rs", "src/metrics/*.rs", "src/trec.rs", "src/statistical_tests.rs", "src/statistical_tests/*.rs"], [("guards on denominators and argument validation", "throughout")], ["all public results", "absence of panics"])

prop("C25", "Converting, evaluating and comparing TREC files gives the library's results",
 "For every well-formed qrels file and one or more run files that rank the same queries, running elinor-convert on each file, elinor-evaluate on the judgments and each run, and elinor-compare on the resulting CSV files exits with success at every step (unless the library refuses to test the scores) and prints what the library computes from the records of those TREC files: the means and, for two or more systems, the statistics of the per-query scores paired by query, whatever the order of the lines, the ids, the separator, the metrics and the numbers of queries and systems. A malformed or repeated line stops the chain at elinor-convert, a ranked query without judgments at elinor-evaluate, and a query that only some systems rank at elinor-compare, each with a non-zero exit.",
 ["inputs", "configurations"], "every set of TREC files, order of their lines, ids, metric list and option combination",
 "Each command is run in CI on the output of one sample only; what one command writes for unusual files and the next one reads is never tested together.",
 ["elinor-cli/src/bin/convert.rs", "elinor-cli/src/bin/evaluate.rs", "elinor-cli/src/bin/compare.rs", "elinor-cli/src/lib.rs", "src/lib.rs", "src/relevance.rs", "src/trec.rs"], [("JSONL written by elinor-convert and read by elinor-evaluate", "elinor-cli/src/bin/convert.rs, evaluate.rs"), ("CSV written by elinor-evaluate and read by elinor-compare", "elinor-cli/src/bin/evaluate.rs, compare.rs")], ["stdout of elinor-evaluate and elinor-compare", "exit codes"])

prop("C26", "A command touches only its output, works beside others, and can be restarted",
 "Whether it succeeds or fails, a command leaves its input files and all other files, whatever their names, exactly as they are: elinor-convert and elinor-evaluate create or change at most the named output file, elinor-compare (and elinor-evaluate without an output option) none, and nothing else is left behind. Commands that run at the same time and do not write what another one uses end, print and write the same as each alone, in every interleaving of their file accesses. A command killed at any point leaves its inputs and all other existing files as they were, and starting it again gives the complete result.",
 ["schedules", "crash_points", "inputs"], "every interleaving of the file accesses of concurrent commands and every point at which a command may be killed",
 "CI runs one command after the other in an otherwise empty place and never looks at other files.",
 ["elinor-cli/src/bin/convert.rs", "elinor-cli/src/bin/evaluate.rs", "elinor-cli/src/bin/compare.rs", "elinor-cli/src/lib.rs"], [("inputs are opened for reading only, the output file is the only one created", "elinor-cli/src/lib.rs load_lines, File::create in convert.rs and evaluate.rs")], ["files before and after", "stdout", "exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
