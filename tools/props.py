prop("C01", "Epoch orders, partitions and shards cover every sequence exactly once",
"""For every dataset, sequence ordering, number of sequences, partition_epoch and number of shards, the sub-epochs of one full epoch,
united over all shards, contain every sequence exactly once (exactly repeat_epoch times with repeat_epoch; nothing is lost or
duplicated), and shards are disjoint. Each ordering obeys its documented rule (default/reverse/sorted/sorted_reverse/random/laplace/
sort_bin_shuffle/custom callable), sub-epochs differ in size by at most one for random orderings, and the order is a deterministic function of options and epoch.
With a sequence list/filter file, exactly the listed sequences are delivered.""",
["configurations", "inputs"],
"all (dataset class, ordering, n, partition_epoch, shards, repeat_epoch, epoch) up to the bounds",
"The tests check a handful of orderings and sizes on one dataset; size/partition/shard remainders and ordering/seed interplay form a product space.",
["returnn/datasets/basic.py", "returnn/datasets/cached2.py", "returnn/datasets/hdf.py", "returnn/datasets/meta.py"],
[("Dataset.get_seq_order_for_epoch", "returnn/datasets/basic.py"), ("Dataset._apply_partition_epoch / seq filters / sharding", "returnn/datasets/basic.py")],
"exhaustive enumeration of configurations and epochs on the real dataset classes against a counting/order oracle",
"Every configuration within the bounds is executed on the real code. Trusts numpy and the small oracle; sizes above the bound are not covered.")

prop("C02", "Dataset content per epoch does not depend on the call history",
"""What a dataset delivers after initialising an epoch (sequences, their order, data, tags) depends only on its options and
that epoch (or the explicitly given seq order/list), never on which epochs, partial reads, explicit seq lists or orders, metadata queries, finish_epoch, deep copies or
pickle round trips came before. This makes training resumable and reproducible from any epoch.""",
["histories"],
"all histories up to the depth bound over the documented dataset operations, for all dataset kinds",
"Tests initialise a dataset once and read it through; the state carried between epochs is only reachable by operation sequences.",
["returnn/datasets/basic.py", "returnn/datasets/cached2.py", "returnn/datasets/meta.py", "returnn/datasets/hdf.py", "returnn/datasets/lm.py", "returnn/datasets/text_dict.py", "returnn/datasets/multi_epoch.py", "returnn/datasets/variable.py", "returnn/datasets/postprocessing.py"],
[("init_seq_order of all datasets", "returnn/datasets/*.py"), ("__reduce__/__getnewargs__", "returnn/datasets/basic.py")],
"exhaustive enumeration of operation histories on the real dataset objects, differential against a fresh instance",
"All histories within the depth bound are executed on the real code; longer histories and other option combinations are not covered.")

prop("C03", "Loading pattern and metadata queries never change or contradict dataset data",
"""The data, sequence length, tag and epoch-relative index of every sequence are the same no matter in which windows the
sequences are loaded and what is queried in between, and it is exactly what was stored under that tag. All metadata (num_seqs, estimated size, sequence tags, total sequences, available data keys, dims,
dtypes, sparsity, is_less_than_num_seqs, have_seqs, completion fraction, all tags, current order) agrees with the data actually delivered.""",
["histories", "inputs"],
"all monotone load-window sequences over n sequences x dataset kinds x cache sizes",
"Tests read datasets one sequence at a time; batching with look-ahead loads overlapping windows, which exercises caches differently.",
["returnn/datasets/basic.py", "returnn/datasets/cached2.py", "returnn/datasets/cached.py", "returnn/datasets/hdf.py"],
[("CachedDataset2._load_seqs", "returnn/datasets/cached2.py"), ("CachedDataset", "returnn/datasets/cached.py")],
"exhaustive enumeration of load-window traces on the real datasets against the one-by-one reading",
"All window traces within the bounds. The background preload thread of the byte-limited HDF cache is replaced by a synchronous stand-in.")

prop("C04", "Batch construction loses, duplicates or misplaces no frame and respects limits",
"""For every tuple of sequence lengths and every batching option (batch_size, max_seqs, chunking with step and min size, min/max sequence
length, max padding, context window), the batches cover exactly the admissible frames exactly once (chunk overlap as configured), in order, every batch respects its
limits, and is closed only because the next sequence would not fit. The batch arrays fed to the model contain exactly these frames at the stated positions with the stated lengths.
A batch generator supports peek/advance/reset without changing the delivered batches.""",
["inputs", "configurations", "histories"],
"all length tuples and option combinations within bounds; all operation sequences of the batch generator up to a depth",
"Tests check single examples; off-by-one errors appear only for specific length/limit combinations.",
["returnn/datasets/basic.py", "returnn/engine/batch.py", "returnn/tf/data_pipeline.py"],
[("Dataset.generate_batches/_generate_batches/iterate_seqs", "returnn/datasets/basic.py"), ("Batch/BatchSetGenerator", "returnn/engine/batch.py"), ("FeedDictDataProvider", "returnn/tf/data_pipeline.py")],
"exhaustive enumeration of length tuples x options on the real batching code against a frame-level oracle",
"All combinations within the bounds are executed on the real code.")

prop("C05", "PyTorch data pipeline loses, duplicates, truncates or mixes up nothing",
"""For every tuple of sequence lengths and every pipeline option (fixed or callable batch_size/max_seqs, chunking, bucketing, length
filters, batch shuffling, multiprocess workers), the PyTorch data pipeline delivers exactly the admissible sequences/chunks of the epoch exactly once, with
unchanged data, tags and indices, batches within their limits, and collation pads only beyond the stated lengths.
Iterating again or after partial consumption, or via map-style access, gives the same.""",
["inputs", "configurations", "histories"],
"all length tuples, option combinations and shuffle seeds within bounds, all partial-consumption points",
"Tests cover single examples of each stage.",
["returnn/torch/data/pipeline.py", "returnn/torch/data/returnn_dataset_wrapper.py", "returnn/torch/data/queued_data_iter.py"],
[("ChunkingIterDataPipe, BatchingIterDataPipe, BucketOrderedBatching, LenFilterDataPipe, ShufflingDataPipe, collate_batch", "returnn/torch/data/pipeline.py"), ("ReturnnDatasetIterDataPipe / MapDataPipe", "returnn/torch/data/returnn_dataset_wrapper.py")],
"exhaustive enumeration of length tuples x pipeline options on the real pipeline stages against a sequence-level oracle",
"All combinations within the bounds are executed on the real code; worker processes run freely (their schedule is not controlled).")

prop("C12", "FileCache always delivers the complete current file, and keeps files in use",
"""For every interleaving of several processes that use the same file cache directory, every point at which one of them is killed, and
transient disk-full errors: get_file returns a path with the complete current content of the source file (also when the source changed since it was
cached, or the cache holds an incomplete copy or no info file), a file is never visible under its final name with partial content, every process gets its file (no lost lock, no deadlock,
a killed process only delays the others), and get_file succeeds if one of its retries has space. Files in use are kept up to date (mtime) by the background thread for as long as they are in use and are not
removed by the cleanup of other processes, whereas old released files are removed if space is needed.""",
["schedules", "crash points", "histories", "faults"],
"all interleavings at file operation granularity up to a deviation bound, all kill points, ENOSPC at each try, all operation sequences up to length 5",
"Tests use a single process without faults; the races need specific interleavings of processes and the touch thread.",
["returnn/util/file_cache.py", "returnn/util/basic.py"],
[("FileCache.get_file/_copy_file_if_needed/cleanup, _TouchFilesThread", "returnn/util/file_cache.py"), ("LockFile", "returnn/util/basic.py")],
"stateless model checking: all schedules/crash points of the real code under a controlled scheduler (virtual processes, virtual clock)",
"The real FileCache/LockFile code runs on real files; deviation (preemption) bound 1-2 in the quick check; time only passes while all processes wait.")

prop("C13", "LockFile gives mutual exclusion and progress between processes",
"""For every interleaving of several processes that lock the same LockFile, and every point at which a holder is killed: at most one live process is in the
critical section as long as every holder leaves it (or renews the file) within the lock timeout, the lock file is gone after the last holder leaves it, no process waits forever, and the lock of a killed process is
recovered after the lock timeout (and not earlier).""",
["schedules", "crash points"],
"all interleavings at file operation granularity of 2-3 processes up to a deviation bound, all kill points",
"Tests use at most one contending process without control of the schedule.",
["returnn/util/basic.py"],
[("LockFile", "returnn/util/basic.py")],
"stateless model checking: all schedules/crash points of the real code under a controlled scheduler (virtual processes, virtual clock)",
"The real code runs on real files. One genuine defect is listed (stale lock removal race with >=3 processes).")

prop("C14", "Text encoding is exact: vocabularies, BPE and literal parsing",
"""For every label list and source (list, dict file, line file, gzip, pickle), a Vocabulary is a bijection between labels and ids 0..n-1, get_seq(get_seq_labels(seq)) == seq (+ seq_postfix) for every id sequence, special symbols resolve to their labels (explicit options before the file), invalid ids / labels are errors or the unknown label. Characters and UTF-8 bytes round-trip for every text.
For every BPE merge list (file versions 0.1 and 0.2) and word, StandardBytePairEncoder gives the segmentation defined by the merges in order; the segments concatenate to the word (never empty), and segments not in the vocabulary are split by reverting merges. The sampling encoder always returns a valid split if one exists (else the unknown label or an error), every valid split can be sampled, and the result is determined by the seed.
literal_eval of literal_py_to_pickle gives, for every str/int (64 bit)/decimal float/None/list/dict/set literal, the same value as ast.literal_eval; for everything else it either gives the same value or raises an exception, never a wrong value, never a crash of the process.""",
["inputs"],
"all label lists/texts/merge lists/words/literal expressions up to a bound, and all outcomes of random decisions",
"Tests check single examples.",
["returnn/datasets/util/vocabulary.py", "returnn/util/bpe.py", "returnn/util/literal_py_to_pickle.py", "returnn/util/py-to-pickle.cpp"],
[("Vocabulary, CharacterTargets, Utf8ByteTargets, BytePairEncoding, SamplingBytePairEncoding", "returnn/datasets/util/vocabulary.py"), ("StandardBytePairEncoder, PrefixTree, CharSyncSearch, DepthFirstSearch, SamplingBytePairEncoder", "returnn/util/bpe.py"), ("literal_eval, py_to_pickle", "returnn/util/literal_py_to_pickle.py"), ("Parser", "returnn/util/py-to-pickle.cpp")],
"exhaustive enumeration of bounded inputs (and of all outcomes of the random decisions) on the real code, against a reference",
"")

prop("C20", "Learning rate schedule follows the documented policy and survives restarts",
"""For every history of training/dev scores (incl. missing ones), the learning rate chosen for each epoch follows the documented policy of the configured control
(constant, newbob relative/absolute/multi-epoch, given learning_rates list/dict, min learning rate, min number of epochs per learning rate, decay and growth),
and only depends on the recorded history: saving and loading the learning rate file at any epoch (process restart) does not change anything, and a process killed at
any point of saving leaves a file with either the old or the new complete content.""",
["histories", "crash points"],
"all score histories up to the depth bound for all policy configurations, restarts before every epoch, every kill point of save",
"Tests run one fixed score history per policy.",
["returnn/learning_rate_control.py"],
[("LearningRateControl.get_learning_rate_for_epoch / calc_learning_rate_for_epoch", "returnn/learning_rate_control.py"), ("LearningRateControl.save / load", "returnn/learning_rate_control.py")],
"explicit enumeration of all score histories on the real controller against an independent policy model; crash points with a controlled fault injector",
"The policy model is written from the documentation; score values come from a small set.")

prop("C21", "Interrupted training resumes to the same result",
"""A torch training which is killed at any point (before any file operation, or in the middle of writing a checkpoint) and then restarted with the same config continues
from the last complete epoch and ends with bitwise the same model parameters, optimizer state, learning rates, scores and step counts as the uninterrupted training, for every
optimizer/learning-rate/accumulation/save-interval/cleanup configuration. No kill point makes the training unable to resume or lose more than the unsaved epochs.""",
["crash points", "histories"],
"all single kill points (and pairs for small configs) of complete small trainings",
"Tests never kill a training; the crash points form an exhaustive enumeration over the file operation trace.",
["returnn/torch/engine.py", "returnn/engine/base.py", "returnn/torch/updater.py", "returnn/learning_rate_control.py"],
[("Engine.init_train_from_config / _load_model / _save_model / _save_optimizer", "returnn/torch/engine.py"), ("EngineBase.get_epoch_model / cleanup_old_models", "returnn/engine/base.py"), ("Updater.save_optimizer / load_optimizer", "returnn/torch/updater.py")],
"exhaustive fault injection: each kill point of the file operation trace of the real torch Engine, followed by restarts, compared bitwise with the uninterrupted run",
"The real engine runs on real files; tiny models on CPU.")

prop("C22", "Model cleanup keeps exactly the checkpoints asked for",
"""After cleanup_old_models, the surviving checkpoints are exactly: the last keep_last_n ones, for each score key the keep_best_n best ones (missing/NaN scores never
count as better), those listed in keep (or the default keep pattern) - whatever the score table, the existing files and the number of epochs.
A needed checkpoint is never deleted, and repeating the cleanup after each epoch of a history never removes one which a later rule still needs from what exists.""",
["histories", "inputs"],
"all score tables and options up to the bounds",
"The tests use one score table.",
["returnn/engine/base.py", "returnn/torch/engine.py"],
[("EngineBase.cleanup_old_models", "returnn/engine/base.py"), ("Engine.delete_model", "returnn/torch/engine.py")],
"exhaustive enumeration of score tables/options on the real code (real files) against an independent retention rule",
"Real files and real LearningRateControl; scores from a small set.")

prop("C30", "Tensor operations match dims by identity, not by position or size",
"""For every pair of tensors over any subsets of dims in any axis order (also with equal sizes and with ragged dims), every elementwise operator, comparison,
rf.combine/compare/where with any explicit dim order, expand/transpose, and every matmul with any set of reduce dims gives the result defined per dim index:
out[i] depends exactly on a[i restricted to the dims of a] and b[i restricted to the dims of b]. Output dims are the union, the dtype is right, an explicit dim order is obeyed, the inputs are not modified, and values in the padding never influence valid positions.""",
["inputs"],
"all ordered dim subsets x all ordered dim subsets x ops up to 4 dims",
"Fast paths (native C++ and Python) are selected by dim order/equality; tests cover only a few orders.",
["returnn/frontend/math_.py", "returnn/frontend/_native/tensor_ops.cpp", "returnn/torch/frontend/_backend.py", "returnn/tensor/_tensor_extra.py"],
[("tensor compare/combine native code", "returnn/frontend/_native/tensor_ops.cpp"), ("TorchBackend.matmul / where", "returnn/torch/frontend/_backend.py"), ("Tensor.copy_compatible_to_dims / copy_transpose", "returnn/tensor/_tensor_extra.py")],
"exhaustive enumeration of all dim orders/subsets on the real frontend (native code compiled from the tree) against an index-wise reference",
"Torch backend on CPU; sizes <= 4.")

prop("C49", "On-the-fly compiled native code is complete and up to date in every process",
"""However many processes use the compile cache at the same time, in whatever interleaving, and wherever a compiling process is killed: each process that asks for a native library gets
one that is completely written and belongs to its source code and dependencies; no process fails or waits forever because of another one (also not because of the cleanup of old versions); an up-to-date library is not compiled again;
recently used libraries are kept.""",
["schedules", "crash points"],
"all interleavings at file operation granularity of 2-3 processes up to a deviation bound; all kill points of a compiling process",
"Tests compile in one process only.",
["returnn/util/native_code_compiler.py"],
[("NativeCodeCompiler._maybe_compile / _need_recompile / _cleanup_old", "returnn/util/native_code_compiler.py")],
"stateless model checking: all schedules/crash points of the real code under a controlled scheduler (virtual processes, virtual clock), stand-in for the compiler binary",
"The compiler itself is a stand-in which writes its output in two steps.")

prop("C06", "What is written to HDF is what is read back",
"""For all sequences (any lengths incl. 0, any kind of inputs, any set of extra streams), any split into insert_batch calls, any point where a file is closed and later extended or continued in a new file: HDFDataset over the written file(s)
returns exactly the written tags, values, lengths, dtypes, dims and labels, for every stream, in order, by tag and by corpus index. The same for HDFDatasetWriter dumping any dataset in any ordering from any start.
Wherever the process is killed while a file is finalized, the final name is absent or holds a complete file (old or new).""",
["inputs", "histories", "crash points"],
"all length tuples x all batch segmentations x all extension points x stream sets; all interruption points of close()",
"Tests write one or two fixed batches; the layout (flattened streams plus length columns by sorted key) makes errors depend on the stream set and the history.",
["returnn/datasets/hdf.py"],
[("SimpleHDFWriter / HDFDatasetWriter / HDFDataset", "returnn/datasets/hdf.py")],
"exhaustive enumeration of write histories and kill points on the real writers, read back by the real dataset, compared with the written data",
"The cache preload thread is run synchronously (see DESIGN.md); rename within a directory is assumed atomic.")

prop("C23", "Training performs exactly the declared optimization",
"""For every combination of batching, gradient accumulation (constant or callable), gradient clipping, optimizer options, weight decay groups, learning rate schedule/multiplier/warmup and declared losses (scale, custom_inv_norm_factor, as_error, sum/mean normalization),
each parameter update of the torch engine equals the optimizer rule applied to the gradient of the declared total loss over the accumulated batches (padding never contributes), at the learning rate given by the schedule for that step/epoch;
the number of steps, and the reported scores and learning rates of each epoch, fit to this.""",
["configurations", "inputs"],
"full products of option groups (see bounds) on ragged data over 2-3 epochs",
"Options interact (accumulation x clipping x normalization x multiplier); tests check single options and mostly only that training runs.",
["returnn/torch/engine.py", "returnn/torch/updater.py", "returnn/frontend/run_ctx.py", "returnn/learning_rate_control.py", "returnn/torch/data/pipeline.py"],
[("Engine.train_epoch / run_train_step", "returnn/torch/engine.py"), ("Updater", "returnn/torch/updater.py"), ("RunCtx.total_loss / Loss", "returnn/frontend/run_ctx.py")],
"exhaustive enumeration of configurations; the real Engine trains, compared with an independent float64 implementation of model, gradients and update rules",
"CPU, one process, num_workers=0, float tolerance. An accumulation group which is incomplete at the epoch end makes no update.")

prop("C24", "Distributed training keeps all workers in sync",
"""For every number of batches per worker, accumulation, reduce type (param averaging every n steps, on CPU or not; gradient averaging), eval datasets of any size, learning rate schedule, speed of the workers relative to each other, and also after a restart (with the evaluation of the last epoch done or still missing): all workers do the same collective operations in the same order (so nothing deadlocks), do the same number of steps
(that of the worker with the fewest batches), have exactly the parameters which the declared averaging gives, and the same learning rates and scores (those of worker 0). Only worker 0 writes or removes files, its checkpoints have its parameters. With a shuffled dataset each worker uses its own order and random numbers.""",
["schedules", "configurations", "histories"],
"all tuples of batches per worker x modes x execution orders of the workers, with restart",
"Tests have no real distributed training; a mismatch of the collectives hangs only for particular amounts of data.",
["returnn/torch/engine.py", "returnn/torch/distributed.py"],
[("Engine.train_epoch / eval_model", "returnn/torch/engine.py"), ("DistributedContext, _sync_params_avg", "returnn/torch/distributed.py"), ("should_write_to_disk", "returnn/util/basic.py"), ("_get_default_random_seed_offset", "returnn/datasets/basic.py")],
"the real Engine in one process per worker, collectives served by a monitor which controls the order of execution and detects any mismatch; exhaustive over data distributions, modes, orders; vs closed form",
"CPU in place of CUDA; a user class in place of DistributedDataParallel.")

prop("C25", "Training (re)starts continue from the right checkpoint, and stop when done",
"""Which checkpoint is used and which epoch is trained next is determined by the files and options for every combination: training continues with the latest complete checkpoint (PyTorch: model and optimizer state), whatever load / import options say, and starts with the next epoch; without one, import_model_train_epoch1 (epoch 1) or load is used; start_epoch=n continues exactly from checkpoint n-1, start_epoch=1 from scratch (or, with an explicit start_epoch, from load if given); other tasks use load, load_epoch or the latest model (also without optimizer state); a requested checkpoint which does not exist is an error and never silently replaced; the epoch of a symlinked checkpoint is that of its target.
The train process manager (re)starts the training as long as it is not finished and the last run made progress (a new complete checkpoint), for every history of crashes, never otherwise, and exits with the return code of the last run (0 if there was nothing to do); it only acts for a non-distributed training with automatic start epoch, and not inside a managed process.""",
["crashes", "histories", "inputs"],
"all states of the checkpoint files x options; all histories of child runs",
"Tests cover single configurations; the histories of crashes are not tested.",
["returnn/engine/base.py", "returnn/util/train_proc_manager.py", "returnn/util/basic.py"],
[("EngineBase.get_existing_models, get_epoch_model, get_train_start_epoch", "returnn/engine/base.py"), ("maybe_start_train_proc_manager, main_proc_manager", "returnn/util/train_proc_manager.py"), ("model_epoch_from_filename, get_checkpoint_filepattern", "returnn/util/basic.py")],
"exhaustive enumeration of file states x options, and of all histories of child runs, on the real functions",
"The child process is a stand-in which creates the checkpoint files.")

prop("C26", "Forwarding delivers each sequence exactly once; scores do not depend on batching",
"""For every batching and sequence lengths, and every pattern of out-of-memory failures in the steps (with automatic batch splitting), forward_with_callback calls the callback exactly once per sequence, with its own tag and its own outputs cut to its own lengths
(for outputs with the time dim, none, derived, or new dynamic dims, in any axis order), equal to forwarding the sequence alone; if a single sequence cannot be computed, the error is raised. Evaluation scores are the frame- resp. seq-normalized sums over the data, independent of the batching.""",
["inputs", "fault points"],
"all length tuples x batchings x all sets of failing steps up to the bound",
"Tests cover no failure patterns except a single split.",
["returnn/torch/engine.py", "returnn/torch/data/extern_data.py", "returnn/forward_iface.py"],
[("Engine.forward_with_callback / _run_step with forward_auto_split_batch_on_oom", "returnn/torch/engine.py")],
"exhaustive fault injection (all failure patterns up to a bound) on the real Engine vs each sequence alone",
"OOM error raised by a stand-in in the step function; CPU.")

prop("C27", "TF engine training performs exactly the declared optimization",
"""For every combination of losses (scale, normalization, several losses, errors), batching, gradient accumulation (also over epoch boundaries), gradient clipping (by value, norm, average norm, global norm, also per tag), L2 (in the loss, or decoupled with factor), optimizer and its options, learning rate multiplier, learning rate schedule (constant, list, newbob, dynamic), and updater options of single layers (own optimizer, clipping,
accumulation, not trainable): the TF engine updates each parameter exactly as declared; the reported train and dev scores are the losses averaged over all frames (sequences) of the epoch; and a training stopped after any epoch(s) and restarted continues with the same parameters, step count, learning rates and scores.""",
["configurations", "inputs", "histories"],
"full products of the options, 3 epochs each, all restart points",
"Tests only run some of the options to see that nothing crashes.",
["returnn/tf/updater.py", "returnn/tf/engine.py", "returnn/tf/network.py"],
[("Updater", "returnn/tf/updater.py"), ("Engine.train_epoch / eval_model, Runner", "returnn/tf/engine.py"), ("LossHolder", "returnn/tf/network.py"), ("AsIsLoss", "returnn/tf/layers/basic.py")],
"exhaustive enumeration of configs on the real TF engine vs an independent implementation of losses, gradients and update rules",
"CPU, no Horovod; TF checkpoints do not contain the optimizer state (after a restart: fresh state).")

prop("C28", "Checkpoint loading gives every parameter exactly the declared value",
"""For every combination of task (first training epoch, import_model_train_epoch1, restart, forward), main checkpoint (complete, missing some parameters, additional ones, wrong shapes) and preload_from_files entries (prefix, var_name_mapping, ignore_missing, ignore_params, ignore_params_prefixes, checkpoint_key, init_for_train, pattern for random initialization) the torch Engine gives each parameter the value of the
first entry (in sorted order) which has it, else of the main checkpoint, else its initialization; a parameter which no source provides is refused, unless declared as not critical / ignored. Epoch and global step continue from the main checkpoint. Parameters with init_for_train="always" are not trained, not stored in checkpoints, and loaded again at each restart. The optimizer state is restored by parameter name, for every order of the parameters,
with removed and additional frozen ones; a trainable parameter without state is refused.""",
["configurations", "inputs"],
"all combinations of tasks, main checkpoints, and up to two preload entries of 20 kinds; all parameter orders for the optimizer state",
"Tests cover single options.",
["returnn/torch/engine.py", "returnn/torch/updater.py", "returnn/torch/util/module.py"],
[("Engine._load_model, _save_model", "returnn/torch/engine.py"), ("Updater.load_optimizer / save_optimizer", "returnn/torch/updater.py"), ("convert_parameters_to_buffers", "returnn/torch/util/module.py")],
"exhaustive enumeration of loading configurations on the real Engine vs a reference of the precedence rules",
"")

prop("C31", "Results of a sequence do not depend on padding or on the other sequences",
"""For every masked op and module of the frontend (reductions, softmax, norms, moments, attention variants, convolutions, pooling, windows, LSTM, STFT, batch norm with masking, masked select/pack, conformer/transformer encoders, ...), every batch of ragged sequences in any axis order and
any content of the padding (also nan/huge where masking must hide it): output frames and output lengths of each sequence equal those of the sequence alone without padding; reductions over several dims cover exactly the valid entries.""",
["inputs"],
"all tuples of lengths up to the bounds x ops x poison values x axis orders",
"Tests run one random batch per op, mostly checking shapes only.",
["returnn/torch/frontend/_backend.py", "returnn/frontend/normalization.py", "returnn/frontend/conv.py", "returnn/frontend/attention.py", "returnn/frontend/reduce.py", "returnn/frontend/array_.py", "returnn/frontend/encoder/conformer.py"],
[("TorchBackend.reduce/softmax_unary/conv/pool/...", "returnn/torch/frontend/_backend.py"), ("BatchNorm, moments, RunningMean", "returnn/frontend/normalization.py"), ("dot_attention and attention modules", "returnn/frontend/attention.py")],
"exhaustive enumeration of ragged batches with poisoned padding on the real frontend, compared with each sequence alone",
"Torch backend CPU, eval mode (except batch norm), float tolerance 1e-4. matmul over a ragged dim is not masked by design.")

prop("C32", "Restructuring ops move exactly the right elements",
"""For every length combination and axis order: concat, pad (all modes/values), slice, gather (also with clipping), scatter (all modes), split/merge/flatten dims, shift, reverse_sequence, repeat, masked_select/masked_scatter, pack_padded, sort/top_k, search_sorted, one_hot, range, stack, where, strided and sequence masks
yield exactly the elements defined per sequence and index (no element lost, duplicated, or taken from padding), with the right output lengths, and inverse ops restore the input.""",
["inputs"],
"all length tuples, axis orders and option values up to the bounds",
"Offsets depend on each sequence's length and order of dims; tests use one shape.",
["returnn/frontend/array_.py", "returnn/torch/frontend/_backend.py", "returnn/frontend/dims.py"],
[("array ops", "returnn/frontend/array_.py"), ("TorchBackend.gather/scatter/pad/slice/...", "returnn/torch/frontend/_backend.py")],
"exhaustive enumeration of ragged batches and options on the real frontend vs an index-wise Python reference",
"Torch backend CPU.")

prop("C33", "Dim arithmetic is integer arithmetic on the sizes",
"""For every expression over dims (+, -, *, //, ceildiv, div, left/right variants) with ints, static and dynamic dims: the derived dim has, for each sequence of each batch, the size given by integer arithmetic, the padded size is large enough, dims that compare equal have equal sizes and hashes, and undoing an operation gives back the same dim.""",
["inputs", "histories"],
"all expressions up to depth 2-3, over several batches in a row",
"Simplification rules and caches only fail for particular combinations and for batches after the first.",
["returnn/tensor/_dim_extra.py"],
[("_DimMixin math, _OpMultTerm/_OpLinearTerm, complete_dyn_size", "returnn/tensor/_dim_extra.py")],
"exhaustive enumeration of expressions on real Dim objects, over a history of batches, vs integer arithmetic",
"No negative intermediate sizes; derived dims derived anew for each batch.")

prop("C34", "Stepwise, segmented and whole-sequence processing agree for every history",
"""For every stateful module (LSTM, causal self attention variants incl. relative/rotary positions, transformer decoder, causal convs, learned/sinusoidal positions): feeding a sequence at once, a ragged prefix followed by single steps, or any segmentation gives the same outputs and final state,
and the state can be reordered by any beam backpointers (gather_nested), and reduced and restored (masked_select/scatter_nested) in every history, giving each hypothesis what it gets alone.""",
["histories"],
"all prefix lengths, segmentations, backpointer histories and activity histories up to the bounds",
"Tests check one step-by-step run; histories with reordering and dropping are not covered.",
["returnn/frontend/attention.py", "returnn/frontend/rec.py", "returnn/frontend/decoder/transformer.py", "returnn/frontend/nested.py", "returnn/frontend/state.py"],
[("CausalSelfAttention & co, relative_positional_encoding", "returnn/frontend/attention.py"), ("gather_nested, masked_select_nested, masked_scatter_nested", "returnn/frontend/nested.py"), ("TransformerDecoder", "returnn/frontend/decoder/transformer.py")],
"exhaustive enumeration of decoding histories on the real modules vs the whole history of the hypothesis alone",
"Torch backend CPU, eval mode, float tolerance 1e-4.")

prop("C40", "Losses and distances equal their definition",
"""Cross entropy (all input types, sparse/dense targets, label smoothing), CTC loss, the CTC automaton (FastBaumWelch FSA), edit distance and gradient helpers: value and gradient equal the definition for every label sequence, every length, any batch composition, axis order and content of the padding.""",
["inputs"],
"all label sequences and lengths up to the bounds x axis orders x options",
"Tests compare single examples.",
["returnn/frontend/loss.py", "returnn/torch/frontend/_backend.py", "returnn/frontend/label_smoothing.py", "returnn/frontend/gradient.py", "returnn/util/fsa.py"],
[("cross_entropy / ctc_loss / edit_distance", "returnn/frontend/loss.py"), ("TorchBackend.softmax_cross_entropy_with_logits / ctc_loss", "returnn/torch/frontend/_backend.py"), ("fsa for ctc", "returnn/util/fsa.py")],
"exhaustive enumeration of label sequences/lengths/orders on the real code vs brute force over all alignments",
"CTC with 0 input frames excluded (torch reads uninitialised memory).")

prop("C42", "Config options: the last write wins, with the documented type, in every process",
"""For every history of config sources (Python files, JSON, line-based files, include, command line, set, update), an option has the value of the last write; a command line / line-based value for an option which already has a typed value is converted to Python (strings are kept); typed getters give the documented conversion, the default if unset, or an error for a wrong type. Functions in the config see the current values.
Pickling a Config (subprocesses) keeps all options, typed or not, functions, classes and object identities, and the functions refer to the new config. global_config_ctx recovers the previous global config for every nesting, also when an exception is raised or TF is used.""",
["histories", "inputs"],
"all histories of config operations up to a bound; all nestings of contexts",
"Tests sample single configs.",
["returnn/config.py", "returnn/util/task_system.py"],
[("Config", "returnn/config.py"), ("global_config_ctx, get_global_config, SubProcCopyGlobalConfigPreInitFunc", "returnn/config.py"), ("Pickler", "returnn/util/task_system.py")],
"exhaustive enumeration of histories on the real Config, compared to a reference model of the options",
"")

prop("C48", "Native ops: alignments, sums, distances and LSTM exactly as defined",
"""The compiled native ops (TF, CPU) compute for every sequence of a batch, independent of the others and of the padding, exactly their definition: edit_distance, optimal_completion_edit_distance (also per successor, and step by step via next_edit_distance_row / next_edit_distance_reduce incl. ended sequences and blank); fast_baum_welch: the full sum over all paths of the automaton and the posterior of every label in every frame, whatever the structure, edge order and weights of the automaton;
fast_viterbi: the best path and its score; the CTC automata (native and Python, label_loop or not) have exactly one path for each string which collapses to the targets, and none for any other; ctc_loss / ctc_loss_viterbi: the loss and its gradient for all feasible targets; chunk / unchunk: every frame in exactly the chunks which cover it, padding never marked valid, and back to the same sequence, with the right gradient; NativeLstm2: outputs, final state and all gradients of the LSTM equations for all lengths and both directions.""",
["inputs"],
"all label sequences / automata / lengths of the bound, all alignments enumerated",
"Tests compare single (random) examples; errors in C++ kernels concern boundary lengths, repeated labels, particular automaton structures.",
["returnn/native_op.py", "returnn/native_op.cpp", "returnn/tf/native_op.py", "returnn/util/fsa.py"],
[("EditDistanceOp, OptimalCompletionEditDistance*Op, NextEditDistance*Op, FastBaumWelchOp, FastViterbiOp, GetCtcFsaFastBwOp, Chunking, UnChunking, NativeLstm2", "returnn/native_op.py"), ("ctc_loss, ctc_loss_viterbi, fast_baum_welch, fast_viterbi", "returnn/tf/native_op.py"), ("get_ctc_fsa_fast_bw, fast_bw_fsa_staircase", "returnn/util/fsa.py")],
"exhaustive enumeration of label sequences, automata and lengths through the compiled kernels vs enumeration of all paths in Python",
"Kernels are compiled from the working tree in each run. GPU kernels are out of reach (no GPU).")

prop("C07", "MetaDataset never mixes streams of different sequences",
"""Every sequence delivered by MetaDataset has, in each of its streams, exactly the data which the respective sub-dataset stores for that sequence tag (after the tag mapping of seq_list_file): for every storage order of the sub-datasets, additional unused sequences in a sub-dataset,
every ordering (own, by a control dataset, predefined list), partitioning, sub-dataset type, epoch history and read pattern. Each sequence of the list / control dataset occurs exactly once per full epoch. A sequence missing in a sub-dataset is refused, never replaced by another one.""",
["inputs", "configurations", "histories"],
"all storage permutations x extra sequences x orderings x tag mappings x read patterns within bounds",
"Tests use sub-datasets with equal order; mix-ups appear only for differing orders and supersets.",
["returnn/datasets/meta.py", "returnn/datasets/hdf.py", "returnn/datasets/audio.py", "returnn/datasets/text_dict.py"],
[("MetaDataset", "returnn/datasets/meta.py")],
"exhaustive enumeration of storage permutations x orderings x read patterns on the real datasets vs the content by tag",
"Tags are unique within a sub-dataset.")

prop("C08", "Composed datasets deliver exactly the sequences of their parts",
"""CombinedDataset, ConcatDataset, ConcatSeqsDataset and MultiEpochDataset deliver exactly the sequences of their parts: nothing lost, duplicated or mixed up, order as documented, per full epoch and with every sampling size over successive epochs (each part is cycled through completely before repeating),
for all sizes of the parts, orderings, partition/repeat options and read patterns. ConcatSeqs: exactly the listed segments concatenated, for every stream.""",
["inputs", "configurations", "histories"],
"all sizes of the parts x orderings x partition/sampling options x read patterns within bounds",
"Tests use one or two examples; index mapping errors show only for specific sizes.",
["returnn/datasets/meta.py", "returnn/datasets/multi_epoch.py"],
[("CombinedDataset / ConcatDataset / ConcatSeqsDataset", "returnn/datasets/meta.py"), ("MultiEpochDataset", "returnn/datasets/multi_epoch.py")],
"exhaustive enumeration of sizes x options x read patterns on the real datasets vs the parts read separately",
"Not claimed: seq_list for ConcatDataset; empty sub-epochs of inner datasets of MultiEpochDataset are refused.")

prop("C09", "MultiProcDataset delivers the wrapped dataset unchanged, for every schedule",
"""For every schedule of the main process and the worker processes, number of workers, buffer size, sharding method, wrapped dataset and history of calls (epochs abandoned early, re-init, finish_epoch with and without freeing resources, predefined orders, queries between, windows), MultiProcDataset delivers the
sequences which the wrapped dataset delivers when used directly, in the same order, with tags and data unchanged (dedicated sharding: the shards interleaved). No worker fails, nothing deadlocks, and all workers end at exit.""",
["schedules", "histories", "configurations"],
"all schedules up to a preemption bound x histories of calls x configurations",
"Tests run one uncontrolled schedule of a few histories.",
["returnn/datasets/multi_proc.py"],
[("MultiProcDataset._init_workers/_worker_proc_loop/_seq_order_proc_loop", "returnn/datasets/multi_proc.py")],
"stateless model checking: real code of parent and workers as virtual processes under a controlled scheduler, all schedules up to a preemption bound",
"Processes and pipes are virtual (pickled messages, unbounded buffers).")

prop("C10", "DistributeFilesDataset: every file once per full epoch, for every schedule",
"""For all file sizes, partition_epoch, shards and orderings: over all sub-epochs and shards of a full epoch every file is used exactly once (in order for default ordering), no sub-epoch is empty, sizes are balanced, and each sub-epoch delivers all sequences of its files exactly once, in the order of the sub-dataset for this full epoch.
For every schedule of the worker processes, preloading, buffer size and history (epochs abandoned, repeated, jumps backward/forward, finish_epoch with and without freeing) an epoch delivers the same as a fresh dataset reading just this epoch; no worker fails or is left behind. Also nested in MultiProcDataset with dedicated sharding.""",
["inputs", "configurations", "schedules", "histories"],
"all size tuples x partition x shards; all schedules up to a preemption bound x histories",
"Tests use single examples and one uncontrolled schedule; shards are tested for file lists only.",
["returnn/datasets/distrib_files.py", "returnn/datasets/multi_proc.py"],
[("DistributeFilesDataset", "returnn/datasets/distrib_files.py"), ("_WorkerProcParent / _worker_proc_loop", "returnn/datasets/distrib_files.py")],
"exhaustive enumeration of distributions, and stateless model checking of the real parent/worker code as virtual processes over all schedules up to a preemption bound",
"Processes and pipes are virtual (pickled messages, unbounded buffers).")

prop("C11", "PostprocessingDataset delivers exactly the mapped sequences",
"""For every mapper shape (per sequence; per stream: 1:1, dropping, duplicating, merging, reordering, composed), wrapped dataset, ordering, epoch history (abandoned, repeated, backward) and read pattern, PostprocessingDataset delivers exactly the mapper applied to the sequences of the wrapped dataset: data, tags, number and order.
Random augmentation is a function of the epoch only. LaplaceOrdering delivers every sequence exactly once, sorted within consecutive bins with alternating direction, and complete_frac stays monotonic up to 1.""",
["inputs", "configurations", "histories"],
"all sizes x mappers x histories x read patterns; all length tuples x bin sizes for LaplaceOrdering",
"Tests use one example per feature.",
["returnn/datasets/postprocessing.py", "returnn/datasets/cached2.py"],
[("PostprocessingDataset", "returnn/datasets/postprocessing.py"), ("LaplaceOrdering / Sequential", "returnn/datasets/postprocessing.py")],
"exhaustive enumeration of mappers x sizes x histories on the real dataset vs the mapper applied on the plain list",
"An epoch without any sequence is refused if the number of sequences is unknown (assertion), not claimed.")

prop("C35", "Loops run each sequence exactly for its own length",
"""rf.scan, rf.while_loop, rf.cond and TensorArray behave like a plain Python loop run for each sequence alone: for all sequence lengths resp. stop conditions (incl. 0), max_seq_len, any structure of the state and outputs, nested loops, histories which grow in the loop,
and any axis order, the outputs, output lengths and the final state of a sequence are those after exactly its own number of iterations, independent of the other sequences of the batch; the body runs exactly max-length times; a TensorArray gives back exactly the pushed/unstacked entries.""",
["inputs", "histories"],
"all length / stop-condition tuples, structures and op sequences up to the bounds",
"Tests run one or two loops of fixed lengths.",
["returnn/frontend/loop.py", "returnn/frontend/tensor_array.py", "returnn/frontend/cond.py", "returnn/frontend/nested.py"],
[("scan / while_loop", "returnn/frontend/loop.py"), ("TensorArray", "returnn/frontend/tensor_array.py"), ("tensor_array_stack / unstack", "returnn/torch/frontend/_backend.py")],
"exhaustive enumeration of lengths, stop conditions and op sequences on the real loops vs a plain Python loop per sequence",
"Torch backend (eager). TensorArray used linearly.")

prop("C36", "TF RecLayer computes the step-by-step definition, however it is optimized",
"""For every subnetwork of a TF RecLayer (any data flow between layers of the current frame, previous frames, the source, outer layers, the step index; layers with own state like cumsum, window, masked computation, subnetworks; any initial output), each sequence of a ragged batch gets exactly the outputs
of the step-by-step definition run on this sequence alone, whether layers are moved out of the loop (optimize_move_layers_out) or not, and independent of the content of the padding.""",
["programs", "inputs"],
"all data flow graphs of the bounded size over the layer kinds x optimization on/off; all sequence lengths up to 5 in one batch",
"Tests check a few hand-written subnetworks, mostly only that it runs; the interaction of moving layers out with prev-frame references, state and masks is combinatorial.",
["returnn/tf/layers/rec.py", "returnn/tf/layers/basic.py", "returnn/tf/network.py"],
[("_SubnetworkRecCell: _move_outside_loop, _construct_input/output_layers_moved_out, get_output", "returnn/tf/layers/rec.py"), ("MaskedComputationLayer / UnmaskLayer", "returnn/tf/layers/rec.py"), ("CumsumLayer, WindowLayer in a loop", "returnn/tf/layers/basic.py")],
"exhaustive enumeration of small recurrent data flow graphs, each built and run as a real RecLayer, vs step-by-step interpretation per sequence",
"Graphs with up to 3 nodes, 8 layer kinds; TF CPU. direction=-1 with a subnetwork is a known finding.")

prop("C37", "TF beam search finds exactly the hypotheses defined by beam search",
"""With the search flag, a TF RecLayer with choice layer(s) delivers for every sequence exactly the beam defined by beam search over the scores of its subnetwork: labels, lengths (with/without EOS), scores (log_prob/prob/logits, score scales, length normalization) and order; all recurrent state and all other layer outputs
belong to the history of the respective hypothesis (backpointers are resolved right), ended hypotheses keep their score and are never extended, the maximum length is respected, no hypothesis occurs twice, and the decide layer picks the best one. Independent of the other sequences of the batch.""",
["inputs", "histories"],
"all score tables of the bounded family x beam sizes x max lengths x variants of state and choices",
"Tests check single examples of search; errors in backpointer resolution only show up for certain score orders.",
["returnn/tf/layers/rec.py", "returnn/tf/util/basic.py"],
[("ChoiceLayer, DecideLayer, SearchChoices", "returnn/tf/layers/rec.py"), ("_SubnetworkRecCell._opt_search_resolve", "returnn/tf/layers/rec.py"), ("beam_search, filter_ended_scores, select_src_beams", "returnn/tf/util/basic.py")],
"exhaustive enumeration of score tables decoded by the real layers vs beam search in plain Python with whole histories",
"3 labels, tie-free tables; for length normalization the scores of a beam are compared up to the common factor.")

prop("C38", "TF layers: a sequence's result is independent of padding and batch mates",
"""In a TF network, for every batch of sequences of different lengths (also of length 0), the output frames (and output lengths) of each sequence are the same as when this sequence is computed alone, whatever the padded frames contain, and for every order of the axes of the input. For the listed operations they are also exactly what the layer is
documented to compute for one sequence: reduce over time (sum, max, min, mean, logsumexp, argmax, argmin, any, all), softmax_over_spatial, seq_len_mask, cumsum, math_norm, causal window, valid window/conv/pool, masked same conv/pool, prefix/postfix/pad/shift/slice/slice_nd/repeat/resize in time, time_chunking + time_unchunking, gather (incl. clip_to_valid), length,
dot over time / attention, top_k, flatten_batch/unflatten_batch, masked_computation, positional encodings, self attention (also relative, left-only), recurrent units (lstm, nativelstm2, gru, ..., forward and backward), edit_distance. For the losses (ce, ce with smoothing / focal, mse, l1, mean_l1, as_is, ctc): value, error and norm factor of the batch are the sums over the sequences alone, and the gradient
with respect to the input is the same as alone, and exactly zero for padded frames. Not covered (not handled by these layers): non-causal window, reverse cumsum, norm over time, strided same padding.""",
["inputs"],
"all tuples of lengths up to the bound x nets x axis orders, with garbage padding",
"Unit tests usually take one batch, often without padding or without garbage in it.",
["returnn/tf/layers/basic.py", "returnn/tf/layers/rec.py", "returnn/tf/util/data.py", "returnn/tensor/_tensor_extra.py"],
[("ReduceLayer, SoftmaxOverSpatialLayer, WindowLayer, SliceLayer, RepeatLayer, GatherLayer, TopKLayer, DotLayer, ConvLayer, PoolLayer, PostfixInTimeLayer, ...", "returnn/tf/layers/basic.py"), ("Loss classes", "returnn/tf/layers/basic.py"), ("RecLayer, SelfAttentionLayer, MaskedComputationLayer, EditDistanceLayer", "returnn/tf/layers/rec.py"), ("Loss / LossHolder", "returnn/tf/network.py")],
"exhaustive enumeration of length tuples on the real nets vs the same net per sequence, and vs per-sequence oracles",
"ConcatLayer over dynamic axes is a known finding.")

prop("C39", "Gradient checkpointing changes neither results, gradients nor random state",
"""For every program structure (nested, repeated, and sequential gradient_checkpoint_scopes, combined with user saved_tensors_hooks scopes inside, outside or overlapping in lifetime, dropout and other random ops, in-place ops on tensors of the scope, views, references kept or dropped, exceptions, several threads in any interleaving, tensors released in another thread),
the values, gradients, and the random generator state afterwards are identical to the same program without the scope, and nothing fails which works without it; tensors created in the scope are not kept for the backward pass; user hooks work as usual in all threads. (Assumed: the inputs of the scope are not modified before backward.)""",
["inputs", "histories", "schedules"],
"all programs, histories and two-thread interleavings up to a bound",
"Tests have few fixed programs, single thread.",
["returnn/torch/util/gradient_checkpoint.py"],
[("gradient_checkpoint_scope, _Graph, _custom_saved_tensors_hooks_enter/_exit", "returnn/torch/util/gradient_checkpoint.py")],
"exhaustive enumeration of programs, histories and thread interleavings on the real code, compared to the same program without checkpointing",
"")

prop("C41", "Caches never change a result",
"""returnn.util.lru_cache: for every sequence of calls and cache operations (set, peek, pop, pop oldest, clear, change of the size), also by another thread while the function is computed, the entries, their order, the statistics and all results are those of an LRU cache of the current size; cache_set makes its value the one for the key; keys are distinguished like by functools.lru_cache.
The cache of the RETURNN frontend, and rf.sinusoidal_positional_encoding / rf.relative_positional_encoding which use it: whatever was computed before (other dims of same or other size, static or dynamic dims, single_step_dim, dims which are gone, other offset, dtype, device), a call returns the same values as without a cache, over exactly the dims of this call. The number of entries is bounded and an entry is dropped when the tensor or dynamic dim of its key is gone.""",
["histories", "schedules"],
"all histories of operations / calls up to a bound",
"Tests call each function once or twice; stale or mixed up entries need particular histories.",
["returnn/util/lru_cache.py", "returnn/frontend/_cache.py", "returnn/frontend/attention.py"],
[("lru_cache", "returnn/util/lru_cache.py"), ("Cache, DimWrapper, TensorWrapper", "returnn/frontend/_cache.py"), ("sinusoidal_positional_encoding, relative_positional_encoding", "returnn/frontend/attention.py")],
"exhaustive enumeration of operation histories on the real caches vs an ordered-dict model resp. the closed form of the encodings",
"Torch backend, eager mode.")
