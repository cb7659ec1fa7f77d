RM = "runtime monitoring: the real code runs under generated hostile workloads while "

prop("C01", "od_counts", "Detection counts are a one-to-one accounting of boxes",
     "For every detection dataset, label, IoU threshold and score threshold, each ground truth of the label is counted exactly once as true positive or false negative and each prediction of the label with a positive score at or above the threshold exactly once as true positive or false positive, a ground truth being credited to at most one prediction: among the predictions whose best-overlapping ground truth it is, the highest-scoring one with enough overlap. "
     "A prediction with several labels stands, if it overlaps ground truths of some of them, for those labels only, and otherwise for each. "
     "Precision, recall and F1 are the ratios of those counts (0 where undefined). Thresholds are inclusive, and an overlap equal to the threshold counts.",
     ["inputs", "configurations"], "all detection datasets (any number of datums, labels, overlaps, duplicates, score ties), all IoU and score thresholds, all chunk sizes and both storage kinds",
     "The tests evaluate a few hand-made scenes at fixed thresholds; the claim is over every arrangement of boxes and every threshold, including ones equal to a score or an overlap and scenes where detections compete.",
     [OD + "computation.py", OD + "evaluator.py"],
     [("rank_pairs: ranking and best-match selection", OD + "computation.py"), ("compute_counts", OD + "computation.py"), ("Evaluator.compute_precision_recall", OD + "evaluator.py")],
     ["Evaluator.compute_precision_recall"],
     RM + "an independent exact-arithmetic accountant of matches and conservation-law monitors judge every count",
     "Every Counts, Precision, Recall and F1 value of thousands of random scenes is compared with a reference accounting, up to 200,000 predictions and 300 labels in the directed cases.")

prop("C02", "od_iou", "IoU of every supported shape is the true area ratio",
     "The overlap used to match two bounding boxes, polygons or bitmasks equals the area of their intersection divided by the area of their union, within floating-point accuracy, is 0 when they do not overlap, is symmetric, and is 1 for identical shapes. "
     "It does not depend on the size, position or winding of the shapes.",
     ["inputs"], "all pairs of axis-aligned boxes, convex and concave polygons (with holes), and bitmasks, at all scales and offsets",
     "The tests compare a few dozen shapes with constants; the claim is over all shapes, scales and relative positions, including touching, nested and sliver overlaps.",
     [OD + "computation.py", OD + "annotation.py", OD + "loader.py"],
     [("compute_bbox_iou, compute_polygon_iou, compute_bitmask_iou", OD + "computation.py"), ("Loader.add_bounding_boxes / add_polygons / add_bitmasks", OD + "loader.py")],
     ["Evaluator.compute_precision_recall at bracketing thresholds", "compute_bbox_iou, compute_polygon_iou, compute_bitmask_iou"],
     RM + "the observed IoU is bracketed by thresholds placed around the exact rational area ratio",
     "IoU is observed through the public evaluator (a match appears at a threshold just below the exact ratio and disappears just above); shapes below 1e-4 area excluded.")

prop("C03", "od_ap", "AP, AR and the precision-recall curve follow the 101-point definition",
     "For every dataset, the precision-recall curve at point k holds the highest precision reached at recall k/100 or more when predictions of the label are ranked by score, together with the highest score at which that recall is reached, AP is the mean of its 101 points, AR is the mean recall over the IoU thresholds, and the averaged and mean variants are the plain means over thresholds and over labels. "
     "The result does not depend on how ranked predictions are split into chunks or files.",
     ["inputs", "configurations"], "all datasets (up to several hundred ground truths per label, so that every recall point and exact fractions occur), thresholds, chunk sizes",
     "The tests check small scenes whose recall takes a handful of values, all in one chunk; the definition quantifies over rankings of any length, over 101 recall points and over every chunking.",
     [OD + "computation.py", OD + "evaluator.py", OD + "metric.py", OD + "utilities.py"],
     [("rank_table, calculate_ranking_boundaries, compute_counts, compute_average_recall, compute_average_precision", OD + "computation.py"), ("Evaluator.compute_precision_recall", OD + "evaluator.py"), ("unpack_precision_recall_into_metric_lists", OD + "utilities.py")],
     ["Evaluator.compute_precision_recall"],
     RM + "an exact-arithmetic reimplementation of the curve judges every point",
     "All 101 points, AP, AR and means compared with exact rational arithmetic; rankings with ties of different outcome are skipped because their order is unspecified.")

prop("C04", "od_confusion", "Detection confusion matrix and examples partition the annotations",
     "At each IoU and score threshold, every ground truth appears exactly once, either paired with one prediction in the cell of their two labels or as unmatched, and every prediction with a sufficient score appears exactly once, the pairs being those of one greedy one-to-one assignment of overlapping boxes within a datum, by higher score and then higher overlap whatever their labels, of which those with sufficient score and overlap count. "
     "The plain matrix, the matrix with examples and the per-datum examples report the same pairing, naming the real ids, boxes' datum and labels involved.",
     ["inputs", "configurations"], "all detection datasets and threshold pairs, both storage kinds, any chunking",
     "The tests check a few scenes where pairing is not contested; the claim is over every contested arrangement and about agreement of three separately computed reports.",
     [OD + "computation.py", OD + "evaluator.py", OD + "utilities.py"],
     [("compute_pair_classifications, mask_pairs_greedily", OD + "computation.py"), ("Evaluator.compute_confusion_matrix, compute_confusion_matrix_with_examples, compute_examples", OD + "evaluator.py")],
     ["Evaluator.compute_confusion_matrix", "Evaluator.compute_confusion_matrix_with_examples", "Evaluator.compute_examples"],
     RM + "a reference greedy pairing and conservation/agreement monitors judge the three reports",
     "Cells, unmatched counts and example ids compared with a reference; exact ties in score and overlap judged on conservation only.")

prop("C05", "od_filter", "Filtering detections equals evaluating only what the filter keeps",
     "For every boolean filter over datum, ground truth and prediction fields, alone, combined or repeated, all detection metrics of the filtered evaluator, and of calls given a datum filter, equal those of a dataset from which the excluded annotations had been left out, with the original set of labels kept. "
     "The evaluator that was filtered is unchanged, and filtering everything away is refused.",
     ["inputs", "histories", "configurations"], "all datasets with metadata, all filter expressions and sequences of filters, both storage kinds",
     "The tests use a few expressions on one dataset; the claim is over every expression, sequence and storage configuration, including removal of the annotation that had won a match.",
     [OD + "evaluator.py", OD + "computation.py", OD + "utilities.py", OD + "shared.py"],
     [("Evaluator.filter re-ranks the surviving pairs", OD + "evaluator.py"), ("datums argument of the compute methods", OD + "evaluator.py")],
     ["Evaluator.filter", "Evaluator.compute_*"],
     RM + "a reference evaluation of the surviving annotations judges every metric after each filter",
     "Random filters and chains compared with a reference over the surviving annotations.")

prop("C06", "cls_counts", "Classification counts are a per-datum accounting at each threshold",
     "For every classification dataset, label, score threshold and hardmax setting, the true and false positives, false and true negatives are those obtained datum by datum from the labels the datum selects (positive score at or above the threshold; with hardmax only its highest-scoring label), independent of the other thresholds in the call and their order. "
     "Precision, recall, F1 are the ratios of those counts and accuracy is the share of considered datums whose ground truth label is selected.",
     ["inputs", "configurations"], "all classification datasets (complete or partial predictions, ties, labels on one side only), threshold lists in any order, hardmax on and off, datum filters, all storage configurations",
     "The tests check a few tables at rising thresholds; the claim is over every dataset and every list of thresholds.",
     [CL + "computation.py", CL + "evaluator.py", CL + "utilities.py"],
     [("compute_counts, compute_precision, compute_recall, compute_f1_score, compute_accuracy", CL + "computation.py"), ("Evaluator.compute_precision_recall", CL + "evaluator.py")],
     ["Evaluator.compute_precision_recall"],
     RM + "a per-datum reference accountant judges every value",
     "Every value compared; a ground truth label that is not among a datum's predictions counts as a false negative only where another label is selected (pinned by the existing tests).")

prop("C07", "cls_rocauc", "ROCAUC is the probability of ranking a positive above a negative",
     "For every classification dataset and label, ROCAUC equals the probability that a randomly chosen prediction of the label on a datum of that label scores higher than one on another datum, ties counting one half, a datum of the label without a prediction of it losing every comparison, and 0 when either kind is missing; the mean is over all labels. "
     "It does not depend on how the data is divided into chunks or files.",
     ["inputs", "configurations"], "all datasets with tied, zero and distinct scores, all chunkings down to one row",
     "The tests compare a few datasets held in one chunk; the claim is over every pattern of ties and every way of cutting the curve.",
     [CL + "computation.py", CL + "evaluator.py", CL + "loader.py", CL + "utilities.py"],
     [("Builder._create_rocauc_intermediate and finalize: sorted intermediate and cumulative curve", CL + "evaluator.py"), ("compute_rocauc", CL + "computation.py"), ("external sort of the curve", CA + "compute.py")],
     ["Evaluator.compute_rocauc"],
     RM + "a pairwise exact-arithmetic probability judges every area",
     "Areas compared with the pairwise definition in exact arithmetic over thousands of datasets and chunkings.")

prop("C08", "cls_confusion", "Classification confusion matrix and examples account for every datum",
     "At each score threshold and hardmax setting, each selected label of a datum adds one to the cell of the datum's ground truth and that label, and a datum that selects nothing is an unmatched ground truth of its label; the matrix with examples lists exactly the datums and scores behind each cell, and the per-datum examples list the same true positives, false positives and false negatives. "
     "The three reports agree with each other for every list of thresholds in any order.",
     ["inputs", "configurations"], "all classification datasets, threshold lists, hardmax settings, datum filters and storage configurations",
     "The tests check a few datasets and rising thresholds; the claim is over all of them and about agreement of separately computed reports.",
     [CL + "computation.py", CL + "evaluator.py", CL + "utilities.py"],
     [("compute_pair_classifications, compute_confusion_matrix", CL + "computation.py"), ("Evaluator.compute_confusion_matrix, compute_confusion_matrix_with_examples, compute_examples", CL + "evaluator.py")],
     ["Evaluator.compute_confusion_matrix", "Evaluator.compute_confusion_matrix_with_examples", "Evaluator.compute_examples"],
     RM + "a per-datum reference judges every cell and example",
     "Every cell, example and unmatched count compared with a per-datum reference.")

prop("C09", "cls_filter", "Filtering classifications equals evaluating only what the filter keeps",
     "For every boolean filter over datum metadata, uids, ground truth labels and prediction labels and scores, alone, combined or repeated, all classification metrics (ROCAUC included) of the filtered evaluator are those of the ground truth-prediction pairs that satisfy it, over the original set of labels. "
     "The evaluator that was filtered is unchanged, and filtering everything away is refused.",
     ["inputs", "histories", "configurations"], "all datasets with metadata, filter expressions and sequences, both storage kinds",
     "The tests use a few expressions on one dataset; the claim is over every expression, chain and storage configuration.",
     [CL + "evaluator.py", CL + "utilities.py", CL + "shared.py"],
     [("Evaluator.filter rebuilds the cache and the ROC curve", CL + "evaluator.py")],
     ["Evaluator.filter", "Evaluator.compute_*"],
     RM + "a reference over the surviving pairs judges every metric after each filter",
     "Random filters and chains compared with a reference; the highest-scoring label is the one decided when the datum was added.")

prop("C10", "seg_metrics", "Segmentation metrics are exact pixel ratios",
     "For every segmentation dataset, precision, recall, F1, IoU, accuracy, mean IoU and the confusion matrix ratios equal those obtained by counting pixels over all datums, background included, with no pixel lost or counted twice for any image size, number of labels or number of masks per label. "
     "A datum filter restricts the count to the pixels of the datums it keeps.",
     ["inputs", "configurations"], "all sets of disjoint masks, image shapes (up to tens of millions of pixels), labels on one side only, empty masks, datum filters, storage configurations",
     "The tests check a few small images; the claim is over every mask layout and size.",
     [SE + "computation.py", SE + "evaluator.py", SE + "loader.py", SE + "utilities.py"],
     [("compute_intermediates, compute_metrics", SE + "computation.py"), ("Loader.add_data", SE + "loader.py"), ("Evaluator.compute_precision_recall_iou", SE + "evaluator.py")],
     ["Evaluator.compute_precision_recall_iou", "Evaluator.get_info"],
     RM + "a per-pixel reference judges every metric",
     "Every metric compared with a per-pixel reference.")

prop("C11", "seg_overlap", "Overlapping masks are resolved so that each pixel belongs to one mask",
     "Whenever masks of one side of a segmentation overlap, however many and however deeply, each pixel is assigned to the first mask that covers it and removed from the others, other pixels are unchanged, a warning is given when and only when there is overlap, and the metrics are those of the resolved masks. "
     "Masks that do not overlap, and the arrays handed in, are not altered, whether they are shared between masks, read-only or views.",
     ["inputs"], "all sequences of boolean masks on either side, including three and more masks on one pixel, each mask a Bitmask object of its own",
     "The tests overlap two or three fixed masks; the claim is over every arrangement, including masks that only overlap what was already removed.",
     [SE + "annotation.py"], [("Segmentation._validate_bitmasks: overlap resolution", SE + "annotation.py")],
     ["Segmentation", "Evaluator.compute_precision_recall_iou"],
     RM + "a first-mask-wins pixel reference judges masks, warnings and metrics",
     "Masks after construction, warnings and metrics compared with a per-pixel reference.")

prop("C12", "seg_filter", "Filtering segmentations turns removed masks into background",
     "For every boolean filter over datum, ground truth and prediction fields, alone, combined or repeated, the pixels of removed masks count as background, no pixel of a kept datum is lost, and every metric equals that of the remaining masks over the original set of labels. "
     "The evaluator that was filtered is unchanged, and filtering everything away is refused.",
     ["inputs", "histories", "configurations"], "all datasets with metadata, filter expressions and sequences, both storage kinds",
     "The tests use a few expressions on one dataset; the claim is over every expression, chain and storage configuration.",
     [SE + "evaluator.py", SE + "shared.py", SE + "utilities.py"], [("Evaluator.filter relabels removed masks as background", SE + "evaluator.py")],
     ["Evaluator.filter", "Evaluator.compute_precision_recall_iou", "Evaluator.get_info"],
     RM + "a per-pixel reference of the surviving masks judges metrics and pixel totals after each filter",
     "Random filters and chains compared with a per-pixel reference.")

prop("C13", "storage", "Results do not depend on storage, chunk sizes or reloading",
     "For every dataset of the three tasks, all metrics, matrices, examples, filters and summaries are the same whether data is kept in memory or on disk, for every batch size, rows per file, compression and merge size, and after the evaluator is reloaded from disk by another process, from the path it was written to or from where its directory was moved. "
     "Once finalizing has returned, everything needed is on disk even if the process dies at once.",
     ["configurations", "crash_points", "inputs"], "all datasets x storage configurations, including chunk sizes of one, reload in a fresh process, abrupt process end right after finalize",
     "The tests use default sizes that put everything in one chunk; the claim is over every chunking and over process boundaries.",
     [CA + "ephemeral.py", CA + "persistent.py", CA + "compute.py", OD + "loader.py", CL + "loader.py", SE + "loader.py", OD + "evaluator.py", CL + "evaluator.py", SE + "evaluator.py"],
     [("MemoryCacheWriter/Reader", CA + "ephemeral.py"), ("FileCacheWriter/Reader", CA + "persistent.py"), ("Builder.finalize, Evaluator.load", OD + "evaluator.py")],
     ["all Evaluator methods"],
     RM + "a differential monitor compares all results across storage configurations, reloads and killed writers",
     "Differential: each configuration against the in-memory default; crash point is immediately after finalize returns.")

prop("C14", "cache_history", "A cache returns exactly the rows written, in order",
     "After any sequence of row, column, batch and table writes, flushes and reads on a memory or file cache, with any batch and file size, reading tables or arrays returns exactly the rows written, each once, in the order written and with the values given, restricted to the requested columns and filter, and counting rows and tables agrees. "
     "Reloading a file cache gives the same. The rows of one call stay in one file, and no file holds more rows than rows_per_file, batch_size and the rows of one call together.",
     ["histories", "inputs", "configurations"], "all sequences of write, flush and read operations, all row contents of the schema, all batch and file sizes",
     "The tests write one table or a few rows; the claim is over every history, in particular mixed write kinds and partially filled buffers.",
     [CA + "ephemeral.py", CA + "persistent.py"],
     [("MemoryCacheWriter", CA + "ephemeral.py"), ("FileCacheWriter buffering and file rollover", CA + "persistent.py"), ("iterate_tables, iterate_arrays, iterate_tables_with_arrays", CA + "persistent.py")],
     ["write_rows, write_columns, write_batch, write_table, flush, iterate_*, count_rows, FileCacheReader.load"],
     RM + "a list model of the history judges every read (offline checker of the operation log)",
     "Every read of every random history compared with a list model.")

prop("C15", "ext_sort", "Sorting a cache is a permutation in the requested order",
     "Sorting any cache by any numeric columns and directions into a memory or file cache, with any merge, batch and file sizes, yields exactly the source rows (restricted to the requested columns), ordered by those columns, leaves the source unchanged and leaves no temporary files. "
     "This holds for any number of source files, including none of the rows or many equal keys.",
     ["inputs", "configurations"], "all tables, sort keys, directions, numbers of files and chunk sizes, all source/target storage pairs",
     "The tests sort a few tables from one or two files; the claim is over every split of the rows into files and batches.",
     [CA + "compute.py"], [("sort: local sort and k-way merge with a heap", CA + "compute.py")],
     ["valor_lite.cache.sort"],
     RM + "a permutation and order checker judges the output of every sort",
     "Output compared as a multiset with the input and checked for order; numeric, non-null keys.")

prop("C16", "containment", "Caches touch only their own directory and never overwrite silently",
     "Whatever a cache's path is called, creating, building, filtering, loading and deleting it leave every file outside its own directory byte-identical, deleting removes the cache and nothing that is not part of it, and creating over an existing cache is refused without changing it unless deletion of the old one was asked for. "
     "Temporary files are gone when an operation ends.",
     ["inputs", "histories", "configurations"], "all path names (glob characters, unicode, nested, hidden), neighbouring files and caches, sequences of create, refuse, delete, build, filter and load",
     "The tests use plain temporary directory names and no neighbours; the claim is over every name and neighbourhood.",
     [CA + "persistent.py", OD + "loader.py", OD + "evaluator.py", CL + "loader.py", CL + "evaluator.py", SE + "loader.py", SE + "evaluator.py"],
     [("FileCacheWriter.create, FileCacheReader.load, delete", CA + "persistent.py"), ("Builder.persistent, Builder.finalize, Evaluator.filter: path handling and temporary caches", OD + "evaluator.py")],
     ["file system around the cache directory (audit hook and tree digests)"],
     RM + "an audit-hook file-system monitor and before/after tree digests judge every operation, inside scratch directories",
     "Python-level file system calls are watched through an audit hook and trees compared by digest; native calls are seen through their effects.")

prop("C17", "pagination", "Paging through examples is a partition of the full listing",
     "For every dataset, page size and offset, a page of per-datum examples is exactly the examples of the datums at those positions of the full listing, so that consecutive pages cover each datum once, none are skipped or repeated, with and without a datum filter and in every storage configuration. "
     "A limit of zero or an offset beyond the end gives nothing.",
     ["inputs", "configurations"], "all datasets, limits, offsets, filters and file layouts",
     "The tests page through one small dataset in one chunk; the claim is over every page geometry and every layout of datums in files.",
     [OD + "evaluator.py", CL + "evaluator.py", OD + "utilities.py", CL + "utilities.py"],
     [("paginate_index", CA + "compute.py"), ("limit and offset of compute_examples and compute_confusion_matrix_with_examples", OD + "evaluator.py")],
     ["Evaluator.compute_examples(limit=, offset=)"],
     RM + "a slice-of-the-listing checker judges every page of random walks",
     "Every page of random walks compared with the slice of the unpaged listing.")

prop("C18", "thresholds", "Each threshold's result is independent of the other thresholds asked",
     "For object detection and classification, every metric reported for a threshold in a call with any list of IoU and score thresholds, in any order and with repeats, equals the metric of a call with that threshold alone. "
     "Averages over thresholds depend on the set asked and not on its order.",
     ["inputs", "configurations"], "all datasets and all threshold lists",
     "The tests pass one rising list; the claim relates every list to its single thresholds.",
     [OD + "evaluator.py", OD + "computation.py", CL + "evaluator.py", CL + "computation.py"],
     [("threshold loops of the compute functions", OD + "computation.py"), ("threshold loops of the compute functions", CL + "computation.py")],
     ["Evaluator.compute_precision_recall", "Evaluator.compute_confusion_matrix", "Evaluator.compute_confusion_matrix_with_examples", "Evaluator.compute_examples"],
     RM + "a metamorphic monitor compares list calls with single-threshold calls",
     "Metamorphic comparison on random datasets and threshold lists.")

prop("C19", "invariance", "Evaluation does not depend on order or naming of the data",
     "For the three tasks, reordering datums or annotations, adding them in different portions, renaming labels or uids consistently, moving or scaling all boxes by the same amount, or permuting pixels leaves every metric unchanged apart from the names, and scaling all scores by a positive factor leaves ranking metrics (AP, ROCAUC) unchanged. "
     "This is claimed for data without ties in score or overlap, whose order is unspecified.",
     ["inputs", "configurations"], "all datasets without ties, all permutations, renamings and rescalings",
     "The tests evaluate each dataset in one order and with one set of names; the claim relates all of them.",
     [OD + "loader.py", OD + "evaluator.py", OD + "computation.py", CL + "loader.py", CL + "evaluator.py", SE + "loader.py", SE + "evaluator.py"],
     [("label and datum numbering in the loaders", OD + "loader.py"), ("ranking by score and overlap", OD + "computation.py")],
     ["all Evaluator methods"],
     RM + "a metamorphic monitor compares results before and after each transformation",
     "Metamorphic comparison on random datasets; ties excluded.")

prop("C20", "readonly", "Computing is repeatable, side-effect free and thread-safe",
     "For every evaluator, computing anything any number of times, in any order, from several threads at once, and after filters were derived from it or its results were modified by the caller, gives the same answers, and changes neither the cache files nor the objects and lists passed in. "
     "Loaders filled at the same time do not mix their data, and keep it when the caller changes the objects afterwards.",
     ["schedules", "histories", "configurations"], "all interleavings and sequences of reading calls on one evaluator, all datasets and storage kinds",
     "The tests call each method once, from one thread; the claim is over every history and schedule.",
     [OD + "evaluator.py", CL + "evaluator.py", SE + "evaluator.py", CA + "ephemeral.py", CA + "persistent.py", OD + "loader.py"],
     [("readers hold no cursor state", CA + "persistent.py"), ("compute methods allocate their own accumulators", OD + "evaluator.py")],
     ["all Evaluator methods from several threads", "cache directory digests"],
     RM + "a history monitor compares every answer of repeated, interleaved and concurrent calls (injected thread switches) with the first, and digests files and inputs",
     "Interleavings are sampled by the interpreter scheduler with microsecond switch interval; not enumerated.")

prop("C21", "info_counts", "The dataset summary matches what was added",
     "For every dataset of the three tasks and every datum, ground truth and prediction filter, the reported numbers of datums, labels, annotations and pixels equal a direct count of what was added and satisfies the filter, and the metadata fields are those declared. "
     "Reloading from disk or filtering gives the summary of the data it then holds.",
     ["inputs", "configurations"], "all datasets, filters, storage configurations",
     "The tests check the summary of a few datasets without filters in one chunk; the claim is over all.",
     [OD + "shared.py", OD + "evaluator.py", CL + "shared.py", CL + "evaluator.py", SE + "shared.py", SE + "evaluator.py"],
     [("extract_counts", OD + "shared.py"), ("extract_counts", CL + "shared.py"), ("extract_counts", SE + "shared.py"), ("encode/decode_metadata_fields", OD + "shared.py")],
     ["Evaluator.get_info"],
     RM + "a direct count over the generated data judges every summary",
     "Every summary compared with a direct count.")

prop("C22", "lifecycle", "Invalid input is refused and leaves no trace",
     "Every documented misuse (missing or surplus scores, wrong label counts, wrong mask type or shape, empty shapes or predictions, metadata of another type than declared, reserved metadata names, no thresholds, nothing to finalize, finalizing twice, filtering a disk cache without a path, loading what does not exist) is refused with an error, and what is computed afterwards is as if the refused step had not happened. "
     "Valid steps around it are unaffected.",
     ["inputs", "histories"], "all invalid inputs of the documented kinds, mixed anywhere into valid histories",
     "The tests check single refusals; that refused steps leave no trace in later results is a claim about histories.",
     [OD + "annotation.py", OD + "loader.py", OD + "evaluator.py", CL + "annotation.py", CL + "loader.py", CL + "evaluator.py", SE + "annotation.py", SE + "loader.py", SE + "evaluator.py", OD + "shared.py"],
     [("annotation validators (__post_init__)", OD + "annotation.py"), ("generate_*_schema reserved names", OD + "shared.py"), ("EmptyCacheError", S + "exceptions.py")],
     ["constructors, Loader.add_*, Loader.finalize, Evaluator.filter, Evaluator.load"],
     RM + "a history monitor injects invalid steps and compares later results with a history without them",
     "Refusals checked by error type; results compared with an undisturbed history.")

prop("C23", "text_metrics", "LLM-guided metrics equal their formula over the LLM's verdicts",
     "For every query, response, contexts and valid set of LLM answers, each LLM-guided metric equals its documented formula over the verdicts (share of 'yes', best F1 over ground truths, mean precision at the useful positions, best recall over ground truths, the coherence score), including for empty lists, duplicates and several ground truths, however the LLM dresses its JSON in prose or fences. "
     "Computing all metrics together gives the same values as one by one, and metrics carry the evaluator's name and retries.",
     ["inputs"], "all texts, list lengths and verdict assignments",
     "The tests replay a few canned answers; the claim is over every transcript.",
     [TX + "computation.py", TX + "manager.py", TX + "llm/generation.py", TX + "llm/utilities.py"],
     [("calculate_*", TX + "computation.py"), ("generate_*", TX + "llm/generation.py"), ("trim_and_load_json", TX + "llm/utilities.py")],
     ["Evaluator.compute_*"],
     RM + "a scripted, content-addressed LLM with a reference formula judges every metric",
     "Every metric compared with the documented formula over random transcripts; assumes the LLM answers in prompt order.")

prop("C24", "text_faults", "Malformed LLM answers are retried, bounded and reported, never scored",
     "Whatever malformed answers the LLM gives, and whenever, a metric is computed from valid answers only: an invalid answer leads to a retry, at most the configured number of times, after which an error metric naming the cause is returned; other exceptions reach the caller at once and unchanged. "
     "LLM-guided metrics without a client, and context metrics without context, are refused; concurrent computations and other metrics of the same call are unaffected.",
     ["fault_sequences", "inputs", "schedules"], "all sequences of malformed answers and client exceptions, retry settings, metrics, and concurrent use",
     "The tests feed a few malformed answers to single functions; the claim is over every fault, at every call, under every retry budget.",
     [TX + "manager.py", TX + "llm/validators.py", TX + "llm/utilities.py", TX + "llm/generation.py"],
     [("llm_guided_metric retry loop", TX + "manager.py"), ("validate_statements, validate_verdicts", TX + "llm/validators.py"), ("trim_and_load_json, find_first_signed_integer", TX + "llm/utilities.py")],
     ["Evaluator.compute_*, number and content of client calls"],
     RM + "fault injection into a scripted LLM with a retry automaton counting calls per request",
     "Thousands of fault schedules; calls counted per distinct request.")

prop("C25", "text_prompts", "Every prompt carries exactly the inputs it is about, under their roles",
     "Every request to the evaluating LLM starts with the configured system prompt and contains the texts and lists the question is about, complete, unaltered, in order, each in the section of its role, and no other part of the input. "
     "This holds for any text, including braces, quotes, newlines and text that imitates the prompt.",
     ["inputs"], "all texts and lists, all metrics",
     "The tests compare whole prompts for one input; the claim is over every input text.",
     [TX + "llm/instructions.py", TX + "llm/generation.py", TX + "computation.py", TX + "manager.py"],
     [("format_*_instruction", TX + "llm/instructions.py"), ("generate_*", TX + "llm/generation.py")],
     ["messages received by the client"],
     RM + "a trace checker examines every prompt recorded at the client",
     "Every recorded prompt checked for presence, order, integrity and section of unique tokens and texts.")

prop("C26", "text_ngrams", "BLEU and ROUGE equal their definitions against the best references",
     "For every response, list of references and weights, sentence BLEU equals the brevity penalty times the weighted geometric mean of the clipped n-gram precisions over all references, ignoring full stops, and each requested ROUGE type is the F-measure against the best reference with the requested stemming. "
     "Both need context but no LLM, and report their parameters.",
     ["inputs"], "all texts, numbers of references, n-gram weights and ROUGE types",
     "The tests check a few sentences; the claim is over every text and weight vector.",
     [TX + "computation.py", TX + "manager.py"], [("calculate_sentence_bleu, calculate_rouge_scores", TX + "computation.py")],
     ["Evaluator.compute_sentence_bleu", "Evaluator.compute_rouge"],
     RM + "an independent BLEU implementation and the rouge_score package judge every score",
     "ROUGE's downloadable metric is replaced by a local stand-in (no network).")

prop("C27", "text_clients", "LLM client wrappers send, account and refuse faithfully",
     "For every history of calls, the OpenAI and Mistral wrappers send exactly the messages, model, key and seed they were given, refuse malformed messages before sending anything, return the response text ('' when there is none), raise on cut-off, filtered or non-text responses, and pass SDK errors through. "
     "OpenAI token totals equal the sum over all answered calls, refused responses included.",
     ["histories", "inputs", "fault_sequences"], "all call histories, message lists and service responses",
     "The tests make single calls; the running totals and refusals are claims about histories.",
     [TX + "llm/integrations.py", TX + "manager.py"], [("_validate_messages, OpenAIWrapper, MistralWrapper", TX + "llm/integrations.py"), ("Evaluator.openai, Evaluator.mistral", TX + "manager.py")],
     ["SDK client calls and wrapper state"],
     RM + "recording stand-ins for the SDK clients and an account model judge every call",
     "SDK classes replaced by recording stand-ins that return real response objects.")

prop("C28", "wellformed", "Every result is complete, in range and serialisable, on any dataset",
     "For every dataset, however degenerate (nothing on one side, no overlap, all scores 0 or 1, one label or hundreds), every computation succeeds and returns each documented metric exactly once per label and threshold asked, with finite ratios between 0 and 1, non-negative integer counts, curves of 101 non-increasing precisions and confusion matrices over all labels. "
     "Every metric can be written as JSON. Computations do not need memory for all pairs of predictions of different datums, nor for all pairs of masks at once.",
     ["inputs", "configurations"], "all datasets of the three tasks, thresholds, storage configurations",
     "The tests cover a few edge cases; the claim is over every dataset.",
     [OD + "utilities.py", OD + "computation.py", OD + "metric.py", CL + "utilities.py", CL + "computation.py", CL + "metric.py", SE + "utilities.py", SE + "computation.py", SE + "metric.py", S + "schemas.py"],
     [("unpack_* into metric lists", OD + "utilities.py"), ("division guards", OD + "computation.py"), ("BaseMetric.to_dict", S + "schemas.py")],
     ["all Evaluator.compute_* results"],
     RM + "a result-schema monitor checks completeness, ranges and JSON form of every metric",
     "Schema and range monitor over random and degenerate datasets.")

prop("C29", "metadata", "Metadata of every type is stored exactly and filters select by it exactly",
     "For metadata of any declared scalar type on datums, ground truths and predictions, every comparison selects exactly the datums and annotations whose value satisfies it, where an absent value satisfies no comparison: as an argument, through filter(), repeatedly, in memory, on disk and after reloading. "
     "Metadata fields named like one of the evaluator's own columns are refused.",
     ["inputs", "configurations", "histories"], "all scalar types, values and absent values, comparisons and their combinations, storage configurations, chains of filters and reloads",
     "The tests filter by one or two integer or text fields of a few values; the claim is over every type and value, including values that differ in their last bit or nanosecond.",
     [OD + "loader.py", OD + "shared.py", OD + "evaluator.py", CL + "loader.py", CL + "shared.py", CL + "evaluator.py", SE + "loader.py", SE + "shared.py", SE + "evaluator.py", CA + "persistent.py", CA + "ephemeral.py"],
     [("metadata columns of the cached rows", OD + "loader.py"), ("generate_*_schema, encode_metadata_fields, decode_metadata_fields", OD + "shared.py"), ("filter", CL + "evaluator.py")],
     ["Evaluator.get_info", "Evaluator.filter", "Evaluator.compute_examples"],
     RM + "a three-valued model evaluates each filter on the Python values and judges every selection",
     "Typed metadata with neighbouring and absent values, probed through arguments, filter() chains and reloads.")
