fixed("C01", "55fb4d0", "sort_bin_shuffle ordering with an empty bin gave float seq indices (IndexError on use)")
fixed("C02", "254f502", "MetaDataset.init_seq_order for the same epoch kept a previous custom order / already loaded seqs")
fixed("C02", "42cf070", "ConcatDataset/CombinedDataset.init_seq_order of the same epoch did not restart after seqs were loaded")
fixed("C02", "7d27533", "CombinedDataset could not be pickled/copied")
fixed("C02", "005d318", "StaticDataset could not be pickled/copied")
fixed("C02", "b6aa560", "PostprocessingDataset with map_seq could not be pickled/copied")
fixed("C03", "70a2ce7", "CachedDataset2._load_seqs with a window beyond the end tried to load nonexistent seqs")
fixed("C02", "54cf528", "ConcatDataset/CombinedDataset.init_seq_order after unpickling ignored the init for the same epoch")
fixed("C02", "253bcd6", "TextDictDataset initialised with a predefined seq_order had no data loaded")
fixed("C03", "da22beb", "Dataset.get_complete_frac failed when neither num_seqs nor an estimate is available")
fixed("C04", "92bb78e", "chunking with a data key of length <= 1 yielded only the first chunk of the other keys")
fixed("C05", "ed31891", "ReturnnDataset*MapDataPipe constructors were named __int__ (objects unusable)")
fixed("C03", "ae95977", "Dataset.get_complete_frac failed (assert) when the estimated num_seqs is too low")
fixed("C03", "10defbd", "LmDataset with error_on_invalid_seq=False claimed num_seqs including the skipped seqs, iterating crashed at the end")
fixed("C02", "30d14d6", "HDFDataset with full cache: init_seq_order with a seq list over other seqs of the same count failed with KeyError")
known("C13", "stale-lock-toctou", "LockFile.maybe_remove_old_lockfile: with a stale lock file and >=3 contending processes, a waiter that saw the old lock file (stat) can remove the fresh lock file which another process created in between (history: A stat old; B stat old, remove; C creates the lock; A remove -> lock of C is gone, B also gets the lock)")
fixed("C12", "7ea7b9b", "FileCache.get_file raised an exception after its own cleanup had made enough space (no retry after a no-space-left error while copying)")
fixed("C12", "08604b1", "FileCache touch thread died when one of its files was removed, so that the other files in use were cleaned up by other processes")
fixed("C22", "9327421", "cleanup_old_models with NaN scores could delete the best model")
fixed("C49", "7acd4dd", "NativeCodeCompiler: a process waiting for the lock compiled again over the lib which other processes were already loading ('file too short'); lib/info were written non-atomically (a kill leaves a broken lib which is used afterwards)")
fixed("C49", "3db5970", "NativeCodeCompiler cleanup: failed when another process cleaned up concurrently, removed the dir in which another process was about to compile, and removed recently used libs")
fixed("C03", "204fa71", "TranslationDataset.get_all_tags returned only the lines which the background thread had already loaded")
fixed("C06", "7df6897", "SimpleHDFWriter(extend_existing_file=True) wrote wrong seq lengths with more than one extra data stream")
fixed("C08", "a680be2", "ConcatDataset.load_seqs with a range over the end of a sub-dataset failed")
fixed("C08", "8cc1928", "CombinedDataset.initialize failed with sampling_sizes, or with a sub-dataset with unknown num seqs")
fixed("C23", "d2028ec", "torch Updater: learning_rate_multiplier of a param group was dropped after the first learning rate update")
fixed("C23", "d7b2210", "torch Updater: weight_decay_custom_include_check got the name within the module, not the full param name")
fixed("C26", "6cc4911", "torch forward_auto_split_batch_on_oom failed with scalar entries in the batch")
fixed("C31", "276e150", "torch reduce_max/reduce_min over multiple axes gave a wrong result or failed")
fixed("C31", "57231a7", "reduce_logmeanexp with a static axis failed")
fixed("C31", "402cb34", "torch conv with padding=same and dilation: wrong output size / padding")
fixed("C31", "cb21166", "torch pool with padding=same, even pool size and stride 1: wrong output size")
fixed("C31", "ec16854", "pool with mode avg counted padded frames, so the result depended on the padding")
fixed("C31", "5d1987f", "moments with use_mask=False computed the mean with masking")
fixed("C31", "081cbf0", "RunningMean failed or was wrong for input with other dims to be reduced")
fixed("C32", "11dabd7", "scatter with fill_value and masked frames (logmeanexp, argmax) and int source")
fixed("C32", "097e561", "torch pad with non-scalar value")
fixed("C32", "212eb0d", "torch gather with clip_to_valid with empty seqs (reverse_sequence) failed")
fixed("C32", "c7212dc", "torch slice with step, negative start or end")
fixed("C32", "6aa1283", "torch top_k over multiple axes with a dynamic axis selected padded frames")
fixed("C32", "7eac883", "torch pad with right padding of a ragged dim without explicit value failed with a TypeError")
fixed("C33", "83abe82", "Dim: padded size of difference of dynamic dims and of a division by a dynamic dim")
fixed("C33", "6fd0f10", "Dim math cache: static dim op dynamic dim kept outdated sizes for the next batch")
fixed("C33", "593de7e", "Dim math: division of a product with a floor-divided factor")
fixed("C33", "576dbf4", "Dim math: merging of terms with negative dynamic factor")
fixed("C34", "1653d55", "relative_positional_encoding in a single step with ragged history: wrong position")
fixed("C40", "40a6ad8", "torch scaled_gradient_ext: scale/shift tensors not aligned to the dims of the source")
fixed("C40", "4a5f24f", "torch softmax_cross_entropy_with_logits: wrong result with different dim orders of logits and targets")
fixed("C10", "db282a7", "DistributeFilesDataset: init_seq_order again with an epoch which was already partly read (or going back to it) failed in the worker (cannot go backwards)")
fixed("C10", "ebcd2b3", "DistributeFilesDataset.finish_epoch did not exit the worker of the finished epoch")
fixed("C10", "a28269b", "DistributeFilesDataset with sharding: the sub dataset was sharded again, so most of the data was never delivered")
fixed("C10", "f19d67f", "MultiProcDataset with dedicated sharding and shards of different num seqs: failed or dropped the remaining data")
fixed("C11", "94e9e05", "PostprocessingDataset over a dataset which does not know its number of seqs failed (complete_frac None)")
known("C36", "rec-subnet-direction-ignored", "TF RecLayer with a subnetwork as unit ignores direction=-1 (documented as backward): it processes the sequence forward")
fixed("C36", "6fddf48", "UnmaskLayer outside of the rec loop: the mask in the padded frames was not ignored (gather out of range, depending on the content of the padding)")
known("C38", "concat-dynamic-axis", "TF ConcatLayer over a dynamic (time) axis concatenates including the padding: the output lengths are the sums of the lengths, but frames of shorter sequences are padding frames")
fixed("C14", "7b7eb46", "literal_eval (literal_py_to_pickle): ints beyond 32 bit gave wrong values, '.5' or '-' crashed the process, escaped newline kept, further data after the first item silently ignored ('a' 'b' -> 'a'), lists of >=250 short floats failed")
fixed("C14", "19e7bfe", "StandardBytePairEncoder with vocab, file version 0.1: reverting the merge with the end-of-word symbol gave an empty segment")
fixed("C39", "6c739e7", "gradient_checkpoint_scope failed inside of a user saved_tensors_hooks scope, with nested scopes (exception in destructor, hooks left over), and broke saved_tensors_hooks in all other threads (AttributeError)")
fixed("C39", "bd0d68d", "gradient_checkpoint_scope: wrong gradient, silently, when a tensor of the scope is modified in-place after the scope")
fixed("C42", "93917ec", "Config pickling (for subprocesses) dropped all untyped options (command line, line-based config)")
fixed("C42", "4662564", "global_config_ctx did not recover the previous global config when TF is used")
fixed("C41", "5cc8353", "relative_positional_encoding failed with an assertion when the dims of an earlier call with same sizes are gone; sinusoidal / relative_positional_encoding mixed up single_step_dim and another dim of size 1 (wrong shape, or assertion); Cache.get with a dim without size failed")
fixed("C41", "dd689f7", "relative_positional_encoding returned the cached tensor on another device after the default device was changed")
fixed("C41", "1bcc9ca", "lru_cache: cache_set of an existing key kept the old value; KeyError when the max size is set to 0 while the function is computed")
known("C27", "decouple_constraints_factor has no effect", "TF updater with decouple_constraints: the factor (decouple_constraints_factor, default 0.025, and learning rate / initial learning rate) is computed but not used: the weight decay is always 2*L2 per update. Not repaired: using it changes the weight decay of every existing setup with decouple_constraints (default: by factor 40), so this needs a new behavior version")
fixed("C23", "ceb42a0", "log_grad_norm=10 reported the gradient norm under the name of another norm (grad_norm:p1): simplify_and_format_number removed zeros of integers")

known("C03", "generating-dtype-width", "artificial datasets (subclasses of GeneratingDataset, generate_seq): get_data delivers int64/int8/float64 arrays where get_data_dtype says int32/float32 (the consumers cast it). Not repaired: a conversion would change the data of existing demos/tests slightly (float64 -> float32)")
fixed("C01", "82ed8b6", "NumpyDumpDataset without end_seq lost the last sequence")
fixed("C02", "a8c1216", "TaskVariableAssignmentDataset failed for every sequence (random choice over dict keys)")
fixed("C01", "995c090", "NumpyDumpDataset with partition_epoch or sequences with a single frame failed")
fixed("C01", "bfc27fb", "NumpyDumpDataset: loading failed once all previous seqs were removed from its cache (e.g. loading seqs one by one)")
