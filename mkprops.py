import json
T="tensorflow_transform/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":[T+f for f in files],"mechanism":[{"name":n,"where":T+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":T+w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Mean and variance do not depend on how the data is batched or merged",
 "For every finite dataset of numeric values (with or without per-value weights, per feature column or over all elements, dense, sparse or ragged) and every way of cutting it into batches and merging the partial statistics in any order, the count, mean, variance, weighted mean and weighted variance (for a positive total weight) reported equal those of the whole dataset. Batches or partial results that contain no values change nothing, and a dataset with no values gives mean 0 and variance 0. The batch statistics themselves equal count, arithmetic mean and population variance of the values present in the batch.",
 ["inputs","schedules"],"all datasets, all partitions of a dataset into batches, all merge trees and merge orders",
 "Tests merge a handful of fixed batches in one order; the guarantee is over all partitions and all merge trees a distributed runner may choose.",
 ["analyzers.py","tf_utils.py"],
 [("WeightedMeanAndVarCombiner (create/add/merge/extract)","analyzers.py"),("_combine_mean_and_var_accumulators","analyzers.py"),("_pad_arrays_to_match","analyzers.py"),("reduce_batch_count_mean_and_var","tf_utils.py"),("reduce_batch_weighted_count_mean_and_var","tf_utils.py")],
 [("_WeightedMeanAndVarAccumulator","count, mean, variance, weight, weighted mean of the part seen","analyzers.py")])
p("C02","Sum, minimum, maximum and count are independent of batching",
 "For every dataset and every split into batches merged in any order, the sum, minimum, maximum, size and count analyzers return the value computed over the whole dataset, element-wise or over all values. Empty batches and partial results that have seen no data are neutral, whatever the tensor's shape, dtype or representation (dense, sparse, ragged). A NaN in the data is never silently dropped from a running total.",
 ["inputs","schedules"],"all datasets, dtypes, partitions and merge orders",
 "Tests use a few fixed batches and one merge order; they cannot range over partitions, empties and extreme values.",
 ["analyzers.py","tf_utils.py"],
 [("NumPyCombiner","analyzers.py"),("_min_and_max / sum / size","analyzers.py"),("reduce_batch_minimum_and_maximum","tf_utils.py"),("reduce_batch_count","tf_utils.py")],
 [("NumPyCombiner accumulator","one partial value per output, or the default before data is seen","analyzers.py")])
p("C03","Covariance and PCA statistics are independent of batching",
 "For every set of vectors and every split into batches merged in any order, the covariance matrix reported equals the population covariance E[xx'] - E[x]E[x]' of the whole set, and is symmetric. The PCA matrix reported has the requested number of columns, which are orthonormal eigenvectors of that covariance in order of decreasing variance. Empty partial results are neutral.",
 ["inputs","schedules"],"all finite vector sets, all partitions and merge orders",
 "Tests use fixed small matrices and a fixed partition.",
 ["analyzers.py"],[("CovarianceCombiner","analyzers.py"),("PCACombiner","analyzers.py")])
p("C04","Robust (L-moment) scaling statistics combine correctly and the map is monotone",
 "The batch L-moments used by Gaussian scaling equal the sample L-moments (orders 1 to 4) of the values present, independent of the order of the values and of batch padding, and partial L-moments merge as the pair-weighted averages their sample counts prescribe, with empty parts neutral. The Tukey location, scale and tail parameters fitted from them stay in their valid range (scale positive, tail parameters non-negative and below one). The resulting Gaussianizing transform is the inverse of the Tukey HH transform and strictly preserves the order of values.",
 ["inputs","schedules"],"all value multisets, all partitions and merge orders; all parameters in the valid range; all real arguments",
 "Tests sample a few distributions; order statistics and piecewise transforms have corner cases (ties, fewer than four values, zero tails) that need all inputs.",
 ["analyzers.py","tf_utils.py","gaussianization.py"],
 [("_LMomentsCombiner","analyzers.py"),("_condition_l_moments_*/reduce_batch_count_l_moments","tf_utils.py"),("compute_tukey_hh_params, tukey_hh, inverse_tukey_hh, lambert_w","gaussianization.py")])
p("C05","Vocabulary holds exactly the qualifying tokens, in the promised order",
 "For every multiset of (count, token) pairs, the vocabulary written consists of the reserved tokens first, then exactly the tokens whose count reaches the frequency threshold, cut to the top k, with no token listed twice and no reserved token repeated. Tokens are ordered by descending count and then by descending token (or in the hashed order when fingerprint shuffling is asked for), so the result does not depend on the order in which counts arrive. An empty result is replaced by a usable placeholder, and the filtered and unfiltered vocabulary sizes reported agree with the lists.",
 ["inputs","schedules","configurations"],"all token multisets, arrival orders, thresholds, top-k values, reserved tokens and shuffle options",
 "Tests fix a few small corpora and one arrival order; ties, thresholds at the boundary and arbitrary arrival orders need all inputs.",
 ["beam/analyzer_impls.py","analyzers.py","tf_utils.py"],
 [("_OrderElementsFn","beam/analyzer_impls.py"),("_ApplyThresholdsAndTopK","beam/analyzer_impls.py"),("_VocabularyPruneImpl / _VocabularyOrderAndWriteImpl","beam/analyzer_impls.py"),("_get_top_k_and_frequency_threshold","analyzers.py"),("reduce_batch_weighted_counts","tf_utils.py")])
p("C06","Label-aware vocabulary scores equal (adjusted) mutual information",
 "The relevance score of every token equals the sum over label values of n_xy log2(n n_xy / (n_x n_y)), computed from the token's weighted co-occurrence n_xy with each label against the global label distribution of all records; label values whose co-occurrence differs from its expectation by less than min_diff_from_avg contribute nothing, and a token present in every record scores zero. Without that regularisation the unadjusted score is never negative beyond rounding and is zero for a token independent of the label; the adjusted score subtracts the expected mutual information under random permutation. Co-occurrence statistics merge to the same values however the data is partitioned.",
 ["inputs","schedules"],"all contingency tables (weighted or not), all label cardinalities, all partitions and merge orders",
 "Tests check a few tables; degenerate probabilities (0, 1, missing labels) and arbitrary merges need all inputs.",
 ["beam/analyzer_impls.py","info_theory.py","analyzers.py","tf_utils.py"],
 [("_calculate_mutual_information_for_feature_value","beam/analyzer_impls.py"),("_clip_probability","beam/analyzer_impls.py"),("calculate_partial_mutual_information / calculate_partial_expected_mutual_information","info_theory.py"),("_make_count_and_weights_means_accumulator","beam/analyzer_impls.py"),("_WeightedMeanCombiner merge path","analyzers.py")])
p("C07","Applying a vocabulary gives each token its line number, others in-range ids",
 "Applying a vocabulary maps every token in it to its position in the file (minus nothing, starting at zero) and every other token to the configured default value, or, with out-of-vocabulary buckets, to one of the ids directly after the vocabulary, chosen by the token alone. The value range recorded in the output schema always contains every id that can be produced. Shape and sparsity of the input are kept.",
 ["inputs","configurations"],"all tokens, vocabularies, default values and out-of-vocabulary bucket counts",
 "Tests pick a few tokens and configurations; the range recorded in the schema must bound ids for all tokens and all settings.",
 ["mappers.py","tf_utils.py"],
 [("_apply_vocabulary_internal / apply_vocabulary","mappers.py"),("_make_construct_vocabulary_table_function","mappers.py"),("hash_strings","mappers.py")])
p("C08","Bucketization assigns every value to the bucket that contains it",
 "For every value and every sorted list of boundaries, the assigned bucket index is the number of boundaries less than or equal to the value, so it lies between 0 and the number of boundaries and never decreases as the value grows, for dense, sparse and ragged input alike. Interpolated bucketization maps every value, including values beyond the outer boundaries, infinities and (when mapped) NaN, into [0, 1], monotonically, and maps each boundary to its evenly spaced position. Histogram and density estimates count each value in exactly one bucket.",
 ["inputs"],"all values (including infinities), all sorted boundary lists, all tensor representations",
 "Tests sample values away from boundaries; equality with a boundary, single or repeated boundaries and non-finite values need all inputs.",
 ["mappers.py","tf_utils.py","analyzers.py"],
 [("assign_buckets","tf_utils.py"),("apply_buckets","mappers.py"),("apply_buckets_with_interpolation","mappers.py"),("reorder_histogram / histogram","tf_utils.py")])
p("C09","Per-key statistics never mix keys",
 "In keyed analysis and keyed mapping every result for a key is computed from, and applied to, exactly the values that carry that key: splitting a batch by key and recombining outputs pairs each value with its own key, keys are reported in one deterministic sorted order shared by all outputs, and repeated keys in a batch are aggregated once. Keyed bucketization looks up each value against its own key's boundaries only, with the bucket index the same as if that key had been bucketized alone. A key never seen in analysis gets the documented missing-key value, never another key's value.",
 ["inputs","schedules"],"all key/value batches (dense, sparse, ragged), all sets of keys, all boundary sets per key",
 "Tests use two or three keys with well-separated values; mixing shows only with particular key sets, offsets and ties.",
 ["beam/analyzer_impls.py","tf_utils.py","mappers.py"],
 [("_split_inputs_by_key / _merge_outputs_by_key","beam/analyzer_impls.py"),("_make_strictly_increasing_boundaries_rows / _join_boundary_rows","beam/analyzer_impls.py"),("_apply_buckets_with_keys","mappers.py"),("map_per_key_reductions / lookup_key / reduce_batch_count_mean_and_var_per_key","tf_utils.py")])
p("C10","Scaling mappers are the documented affine maps, finite and in range",
 "Min-max scaling maps each value x to (x - min) / (max - min) * (output_max - output_min) + output_min, so analysed data lands in [output_min, output_max], with order preserved; when min equals max the result is still finite and lies in the output range, for every value. Z-score scaling maps x to (x - mean) / standard deviation, and to 0 or the plain difference (never NaN or infinity) when the variance is 0. Output range arguments that are not increasing are rejected, integer input is scaled in floating point, and sparse structure and missing values are preserved.",
 ["inputs","configurations"],"all finite values, statistics, output ranges, dtypes and representations, per element and per key",
 "Tests check a few fixed arrays; degenerate statistics and extreme values need all inputs.",
 ["mappers.py"],[("_scale_by_min_max_internal","mappers.py"),("_scale_to_z_score_internal","mappers.py"),("_scale_to_gaussian_internal","mappers.py")])
p("C11","Text features (n-grams, bag of words, tf-idf, counts) follow their definitions",
 "For every batch of token lists, n-grams are exactly the contiguous token runs of the requested lengths, in order, joined by the separator and kept in their row; bag of words lists each distinct n-gram of a row once; word counts equal the number of tokens per row. TF-IDF (of ids taken modulo the vocabulary size) emits one entry per distinct vocabulary term of a row with weight (occurrences of the term in the row / tokens in the row) times the idf log((corpus size + 1) / (1 + documents containing the term)) + 1 (without smoothing log(corpus size / documents) + 1), and term ids and weights stay aligned. De-duplication keeps exactly the distinct values of each row.",
 ["inputs","configurations"],"all batches of token lists including empty rows, all n-gram ranges, vocabulary sizes and smoothing options",
 "Tests use two or three short documents; empty rows, repeats across rows and arbitrary ranges need all inputs.",
 ["mappers.py","tf_utils.py"],
 [("tfidf, _to_term_document_frequency, _count_docs_with_term, _to_tfidf","mappers.py"),("ngrams / bag_of_words / word_count / deduplicate_tensor_per_row / segment_indices","mappers.py"),("document_frequency_to_idf","tf_utils.py")])
p("C12","CSV encoding is unambiguous and faithful",
 "Encoding an instance to CSV and reading the line back with a standard CSV reader gives, column by column and in schema order, the values of the instance, for every text content (delimiters, quotes, line breaks, non-ASCII) and every number, falsy values included; the values of a multivalent column are read back by splitting the field at the secondary delimiter with the same quoting. A sparse feature occupies one value and one index column. Several values in a column that is not multivalent, a wrong number of values for a fixed-length feature, a missing feature or text that cannot be encoded is an error and writes nothing. The line depends only on the instance, not on earlier calls (also failed ones), and the same coder after pickling writes the same line.",
 ["inputs","configurations","histories"],"all instances, schemas, delimiters, and sequences of encode calls on one coder",
 "Tests encode a dozen fixed instances; quoting and validation must hold for all contents and for reuse of the coder.",
 ["coders/csv_coder.py"],[("CsvCoder.encode","coders/csv_coder.py"),("_FixedLenFeatureHandler / _VarLenFeatureHandler","coders/csv_coder.py"),("_WriterWrapper","coders/csv_coder.py")])
p("C13","tf.Example encoding round-trips every instance and leaks nothing between calls",
 "Encoding an instance as a tf.Example and parsing it with the same feature specification gives back the instance for every fixed-length, variable-length, sparse and ragged feature, dtype and value. The result depends only on the instance being encoded, never on instances encoded earlier with the same coder, and absent variable-length values leave the feature empty. Instances whose values do not match the declared shape are rejected with an error that names the feature.",
 ["inputs","configurations","histories"],"all schemas and instances, all sequences of encode calls on one coder",
 "Tests encode single instances; state carried between calls and unusual shapes or ragged nestings need all histories and inputs.",
 ["coders/example_proto_coder.py"],[("ExampleProtoCoder.encode","coders/example_proto_coder.py"),("_FixedLenFeatureHandler / _VarLenFeatureHandler / _RaggedFeatureHandler","coders/example_proto_coder.py")])
p("C14","Feature specifications and metadata survive the schema round trip",
 "Converting a feature specification (fixed-length with known shape, variable-length, sparse and ragged features, with optional value ranges) to a schema and back yields the same specification (in the normal form with lists for keys and shapes, an explicit value key and 64-bit row splits) and the same ranges, and writing a dataset's metadata to disk and reading it back yields an equal schema, whatever was written before. Two features never collide or disappear, and the features that a ragged or sparse feature is assembled from are not reported as features of their own. The range reported for a feature is that of its own source, also for sequences and ranges shared at schema level. An unsupported dtype, default value, partition or range object is rejected, never silently changed.",
 ["inputs","configurations"],"all feature specifications with names, shapes, dtypes, partitions and domains",
 "Tests cover a list of fixed specs; name, shape, domain and combination space is unbounded.",
 ["tf_metadata/schema_utils.py","tf_metadata/metadata_io.py","tf_metadata/dataset_metadata.py"],
 [("schema_from_feature_spec","tf_metadata/schema_utils.py"),("schema_as_feature_spec","tf_metadata/schema_utils.py"),("write_metadata / read_metadata","tf_metadata/metadata_io.py")])
p("C15","Analysis cache entries are lossless and never confused with one another",
 "Every partial analysis result written to the cache decodes to an equal value, for every vocabulary key and count, weighted accumulator, keyed accumulator and numeric accumulator. Distinct dataset keys and distinct cache keys are stored at distinct locations, whatever characters they contain, and the same key always maps to the same location. Writing to a cache directory never overwrites or drops entries written earlier under other keys, and reading returns exactly the values written for each key, with the dataset's recorded size.",
 ["inputs","histories"],"all accumulator values, dataset keys and cache keys; all sequences of cache writes and reads on one directory",
 "Tests write one or two fixed entries; injectivity, binary framing and accumulating manifests need all keys, values and histories.",
 ["analyzer_nodes.py","beam/analyzer_cache.py","beam/analyzer_impls.py"],
 [("cache coders (JSON, vocabulary, key/value, keyed combiner)","analyzer_nodes.py"),("DatasetKey / _make_valid_cache_component / make_cache_entry_key","beam/analyzer_cache.py"),("WriteAnalysisCacheToFS / ReadAnalysisCacheFromFS / _ManifestFile","beam/analyzer_cache.py")])
p("C16","The analysis plan runs every analyzer once, in dependency order, cached or not",
 "Walking an analysis graph visits every operation reachable from the outputs exactly once, only after all operations it depends on, and hands it exactly their outputs; a cyclic graph, or a step returning the wrong number of outputs, is rejected. The plan built for several datasets with a cache computes each analyzer from exactly one contribution per dataset, read from the cache when a valid entry exists and computed from that dataset's data otherwise, and lists for reading exactly the datasets that are not fully cached. An entry counts as valid for an analyzer only if it was left by the same accumulation, with the same parameters, of the same computation over the same inputs of that dataset. Analyzers whose inputs depend on other analyzers are run in a later phase than those they depend on.",
 ["programs","configurations","histories"],"all acyclic analysis graphs, sets of datasets and cache states",
 "Tests fix about a dozen graphs and cache states; the guarantee is over all graphs and all partially filled caches.",
 ["nodes.py","beam/analysis_graph_builder.py"],
 [("Traverser","nodes.py"),("ValueNode / OperationNode validation","nodes.py"),("_OptimizeVisitor / _OptimizationView","beam/analysis_graph_builder.py"),("build / get_analysis_dataset_keys / _ReadyVisitor","beam/analysis_graph_builder.py")])
p("C17","Fusing accumulations changes nothing but the number of stages",
 "Combining several accumulations into one fused stage gives every accumulation the same results as running it alone: each receives exactly its own inputs, merges only with its own partial results and delivers its own outputs, in every batch order and merge tree. The rewritten graph has the same outputs as the original, fuses only accumulations whose inputs are available at the same point and whose keyed/unkeyed kind agrees, and leaves all other operations in place. Empty inputs and empty partial results behave as in the unfused form.",
 ["programs","schedules","inputs"],"all analysis graphs, all accumulation sets, all batchings and merge orders",
 "Tests compare printed graphs for a few fixed preprocessing functions and never range over merges.",
 ["beam/analyzer_impls.py","beam/combiner_packing_util.py"],
 [("_CombinerWrapper / _PackedCombinerWrapper","beam/analyzer_impls.py"),("perform_combiner_packing_optimization and visitors","beam/combiner_packing_util.py"),("_InitialAccumulateCombineImpl / _MergeAccumulatorsCombineImpl","beam/analyzer_impls.py")])
p("C18","Nested pipeline contexts inherit unset options and restore on exit",
 "Inside nested contexts every option resolves to the innermost explicitly set value, else the value of the nearest enclosing context that set it, else the documented default, independently for each option. Leaving a context, normally or by an exception, restores exactly the options in force before it. Options set in one thread never leak into another, and a temporary directory is required only where one is used and is unique per request.",
 ["histories","configurations","schedules"],"all nestings and sequences of entering and leaving contexts, all option combinations (including falsy explicit values)",
 "Tests check one nesting of a few options.",
 ["beam/context.py"],[("Context.__enter__ / __exit__ / get_* ","beam/context.py")],
 [("_StateStack","stack of option frames, per thread","beam/context.py")])
p("C19","Batch and instance forms of data convert without loss",
 "Converting a batch of data from tensors to columnar record batches and on to per-row instances keeps every row's values, row order and row count, for fixed-length, variable-length, sparse (any rank) and ragged features and every dtype, and pairs each row with its own pass-through values. Missing rows become empty values, not neighbours' values. Malformed variable-length sparse values (rows out of order, or values of a row that do not count up from zero) are rejected rather than re-shaped when rows are produced. Slicing a large batch keeps every row once and in order, and pass-through values that cannot be matched with rows are rejected.",
 ["inputs"],"all batches, features and dtypes, including empty rows and empty batches",
 "Tests convert a list of fixed batches; row boundaries and emptiness patterns are unbounded.",
 ["impl_helper.py"],[("record_batch_to_instance_dicts","impl_helper.py"),("make_tensor_to_arrow_converter / convert_to_arrow","impl_helper.py"),("validate_varlen_sparse_value","impl_helper.py"),("get_type_specs_from_feature_specs","impl_helper.py")])
p("C20","Reported input dependencies are exactly the inputs that can affect a result",
 "The inputs reported as needed for analysis are exactly the inputs some analyzer reads, directly or through other analyzers, and those reported for transformation are exactly the inputs the outputs are computed from, through tensors, control dependencies, lookup-table initialisation and nested functions. A tensor is deemed ready to compute exactly when everything it depends on is available. Two computations get the same cache fingerprint path only when they perform the same operations on the same inputs. When a preprocessing function is traced again, an analyzer that reads other inputs than it did in the first trace is rejected.",
 ["programs"],"all preprocessing graphs",
 "Tests list fixed preprocessing functions; dependency tracing must be right for all graphs.",
 ["graph_tools.py","inspect_preprocessing_fn.py"],
 [("_GraphAnalyzer","graph_tools.py"),("get_dependent_inputs / retrieve_sources / InitializableGraphAnalyzer","graph_tools.py"),("describe_path_as_analyzer_cache_hash","graph_tools.py"),("get_analyze_input_columns / get_transform_input_columns","inspect_preprocessing_fn.py")])
p("C21","The output schema describes exactly the tensors produced",
 "The schema inferred for transformed data contains one feature per output tensor with its dtype, its shape without the batch dimension and its representation (dense, variable-length, sparse of the right rank and size, ragged with the right row partitions). Integer ranges and annotations recorded for a tensor appear on that feature and on no other, with the evaluated minimum and maximum. Tensors that cannot be described (unsupported dtype, scalar, unknown inner dimension once analysis is complete) are rejected.",
 ["programs","inputs"],"all sets of output tensors, shapes, dtypes, ranges and annotations",
 "Tests use fixed outputs and one annotated tensor at a time.",
 ["schema_inference.py"],[("infer_feature_schema / infer_feature_schema_v2 / _infer_feature_schema_common","schema_inference.py"),("_feature_spec_from_batched_tensors","schema_inference.py"),("set_tensor_schema_override / _get_tensor_ranges","schema_inference.py")])
p("C22","Approximate quantiles stay within the configured rank error",
 "For every dataset, weights and merge order, each quantile boundary reported has a rank within the configured error of the requested rank (up to the weight of one value), is one of the values, and boundaries are sorted; NaN values and values with NaN or non-positive weights do not count. The number of buckets requested is honoured up to ties. Per-feature quantiles of a multi-column input do not influence one another.",
 ["inputs","schedules"],"all datasets, weights, partitions, epsilons",
 "Tests check a few distributions.",
 ["analyzers.py"],[("QuantilesCombiner","analyzers.py")])
p("C23","A saved transform computes the same values as the analysed pipeline",
 "Loading a saved transform and applying it to raw data gives the same outputs as the pipeline that wrote it, for every input, in TF1 and TF2 form, eagerly, inside a function or in a graph, also after its directory has been moved: vocabularies and other assets are carried along. Applied to only some of the inputs it gives exactly the outputs that need no others, with the same values; inputs it does not have are rejected. Several saved transforms loaded in one process or one session do not influence one another.",
 ["programs","inputs"],"all preprocessing functions and inputs",
 "Tests save and reload a few fixed graphs.",
 ["saved/saved_transform_io.py","saved/saved_transform_io_v2.py","output_wrapper.py"],[("saved transform save/load","saved/saved_transform_io_v2.py"),("TFTransformOutput","output_wrapper.py")])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
