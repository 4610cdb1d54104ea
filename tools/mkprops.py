# Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Caps-words processing is reversible",
  "For every text with Unix line ends that does not itself contain the three marker characters (0x14, 0x15, 0x16), the text produced by caps-words processing determines the original exactly. The documented decoding recovers it: a capitalised marker upper-cases the next letter, an all-caps marker upper-cases the whole word that follows it, and an end-of-word marker becomes a space if a word (or a marker starting a word) follows and is dropped otherwise. In particular two different texts never process to the same output.",
  ["inputs"], "every Unicode text free of the three markers and of carriage returns before line feeds",
  "One test with eleven ASCII sentences, none decoded again; whether upper/lower-case mapping is invertible depends on the whole of Unicode and on every word/space/punctuation context.",
  ["src/processing.rs"],
  [("add_word: marker selection and lower-casing", "src/processing.rs"), ("process: state machine over letter/space/other", "src/processing.rs")],
  [("word", "letters of the word being collected", "src/processing.rs process"), ("state", "NonWord / Word / SpaceAfterWord", "src/processing.rs")],
  ["texmo process -d IN -o OUT", "processing::process"])

p("C02", "Caps-words processing normalises words independently of context",
  "Every maximal run of letters is emitted as one word followed by one end-of-word marker, encoded the same way wherever it occurs: a capitalised word as the capitalised marker plus its lower-case form, an all-upper-case word of two or more letters as the all-caps marker plus its lower-case form (whenever lower-casing can be undone), and any other word unchanged. Exactly one space standing alone between two words is omitted. Every other character is copied unchanged and in order.",
  ["inputs"], "every text: all words, all neighbouring characters, all runs of spaces and line breaks, any length",
  "The existing test samples eleven sentences; context independence is a claim about every pair of neighbours and every word length.",
  ["src/processing.rs"],
  [("get_char_type / process state machine", "src/processing.rs"), ("add_word", "src/processing.rs")],
  (), ["texmo process", "processing::process"])

p("C03", "Streaming processing equals whole-text processing for any I/O behaviour",
  "Processing a stream writes exactly the processed form of each line followed by a line feed, no matter how the reader splits its data and no matter how much each write accepts. If any read or write fails, or the input is not valid text, the operation reports failure. It never reports success unless the complete output has been handed to the writer.",
  ["fault_sequences", "inputs"], "every segmentation of reads and writes, every position of an interrupted/failed call, inputs on both sides of internal buffer sizes",
  "No test exercises the streaming path at all; the claim ranges over all I/O fault positions.",
  ["src/processing.rs"],
  [("process_file: buffered line reader / buffered writer, final flush", "src/processing.rs")],
  (), ["processing::process_file", "texmo process exit status"])

p("C04", "Tokenization uses the fewest possible tokens",
  "For every token set that can express all bytes and every text fragment, the number of tokens reported for the fragment is the minimum over all ways of covering the fragment with the set's tokens and fallback sequences, each fallback sequence counted with its full length.",
  ["inputs", "configurations"], "all token sets (every fallback type, any multi-byte tokens, overlapping prefixes and suffixes) and all byte strings",
  "Two tests tokenize one string each. Optimality quantifies over all texts, all token sets and all alternative segmentations.",
  ["src/tokenizer2.rs"],
  [("suffix automaton: longest span suffix and its suffix chain", "src/tokenizer2.rs create_spans/create_suffix_states"), ("forward dynamic programme", "src/tokenizer2.rs process_slice")],
  [("cost_state", "cheapest cost of each prefix", "src/tokenizer2.rs"), ("suffix_span", "next shorter span that is a suffix", "src/tokenizer2.rs")],
  ["TokenStats.total_tokens", "stats.total_tokens in saved JSON"])

p("C05", "Token statistics describe one real lossless encoding",
  "The per-token, per-fallback-sequence and adjacent-pair counts reported for a fragment are those of one actual cheapest segmentation of exactly that fragment: token counts (including tokens inside fallback sequences) add up to the reported total, covered bytes add up to the scanned bytes, and a pair is counted exactly when its two tokens are neighbours in that segmentation with no fallback sequence between them. Statistics of several fragments are the exact sums of the statistics of each, whatever was processed before.",
  ["inputs", "histories"], "all token sets, all fragments, all sequences of fragments processed into the same statistics",
  "Tests check only the total for one string; no test reads token, sequence or pair counts or accumulates two fragments.",
  ["src/tokenizer2.rs", "src/stats2.rs"],
  [("backtrace and counting", "src/tokenizer2.rs update_stats"), ("merge", "src/stats2.rs")],
  [("token_counts/seq_counts/pair_counts", "usage counters", "src/stats2.rs")],
  ["TokenStats fields"])

p("C06", "Parallel tokenization equals sequential tokenization under every schedule",
  "Tokenizing a data source with worker threads terminates and yields exactly the same statistics as tokenizing its samples one after another in a single thread, for every number of workers, every number of samples and every thread schedule. No sample is lost or counted twice and no schedule deadlocks.",
  ["schedules", "configurations"], "all interleavings of the producer and 1..N workers, all sample counts below and above the queue capacity",
  "No test runs the parallel path (it needs more than 32 MiB of data), and a test would see one schedule.",
  ["src/batch_tokenize.rs", "src/stats2.rs"],
  [("bounded job channel shared behind a mutex", "src/batch_tokenize.rs"), ("result channel, one message per worker; merge", "src/batch_tokenize.rs, src/stats2.rs")],
  [("jobs_rx", "shared receiver", "src/batch_tokenize.rs"), ("stats", "per-worker and merged statistics", "src/batch_tokenize.rs")],
  ["batch_tokenize::tokenize_file"])

p("C07", "Saving and loading a token set loses nothing",
  "Serialising a token set to JSON and loading it again gives an equivalent token set: the same fallback type, processing, paragraph flag, tokens in the same order (including strings that are not valid UTF-8) and, for every byte string, the same fallback sequence exactly once. Serialising the loaded set again gives the same JSON, and every loaded set can be used for tokenization.",
  ["configurations"], "all token sets of every fallback type reachable by adding byte and multi-byte tokens and removing multi-byte ones (fallback sequences of at least two tokens), and all token sets shipped with the repository",
  "The only test that loads JSON discards the result; nothing compares a loaded set with the saved one, and byte strings range over all of {0..255}*.",
  ["src/tokenset.rs", "tokens/"],
  [("to_json / from_json / parse_token / bytes_to_json", "src/tokenset.rs")],
  [("sequences", "fallback sequences by token index", "src/tokenset.rs")],
  ["TokenSet::to_json", "TokenSet::from_json", "texmo convert-tokens"])

p("C08", "Editing a token set never changes what its fallback sequences mean",
  "After any sequence of adding tokens, removing unreferenced tokens, adding fallback sequences and sorting, every fallback sequence still consists of the same tokens in the same order as when it was added, except that a sequence disappears exactly when a token for the same string is added. The set contains exactly the tokens added and not removed, lookups by string return the position of that token, the reported token counts and generated name match, and sorting puts extension tokens first and strings in byte order.",
  ["histories"], "all histories of add / remove / add-sequence / sort up to the explored depth, from empty and from non-empty sets",
  "Tests run one removal and one sort on a five-token set; index remapping errors depend on which position is removed, in what order, after which history.",
  ["src/tokenset.rs"],
  [("swap-remove with index remapping", "src/tokenset.rs remove_token"), ("sort with index remapping", "src/tokenset.rs sort"), ("sequence retirement", "src/tokenset.rs add_token")],
  [("tokens", "token list, index = id", "src/tokenset.rs"), ("sequences", "byte string -> token ids", "src/tokenset.rs")],
  ["TokenSet"])

p("C09", "Every byte has exactly one fallback code and encodings decode uniquely",
  "In every token set the program constructs (bit, two-bit, four-bit, byte and frequency-based fallback, with any byte tokens added), each of the 256 byte values is expressible in exactly one way as a single-byte token or a fallback sequence of existing tokens. No two different byte strings share an encoding: any sequence of tokens produced by encoding decodes to one byte string only.",
  ["configurations", "inputs"], "all fallback types, all budgets, all byte-frequency profiles, all byte strings",
  "No test builds a frequency-based fallback or decodes anything; unique decodability is a statement about all concatenations of codes.",
  ["src/tokenset.rs", "src/optimize_bytes.rs"],
  [("new_bits1/2/4, new_bytes", "src/tokenset.rs"), ("interval splitting and recursive extension codes", "src/optimize_bytes.rs optimize_splits/optimize_ext_encoding/optimize_bytes_tokenset"), ("add_token drops the code of a byte that gets a token", "src/tokenset.rs")],
  (), ["TokenSet.tokens / sequences", "saved JSON"])

p("C10", "Byte-token selection keeps the budget, the long tokens and the best bytes",
  "Re-selecting single-byte tokens for a budget returns a set of the same type, processing and paragraph flag that contains every multi-byte token of the input set exactly once and uses exactly the requested number of byte and extension tokens (or all 256 bytes if the budget exceeds that). For bit-based fallbacks the chosen bytes are those used most often, so no other choice of the same number of bytes would encode the measured data with fewer tokens. A byte token set is returned unchanged.",
  ["inputs", "configurations"], "all usage statistics (including ties and unused bytes), all budgets, all input token sets",
  "No test calls the byte optimizers.",
  ["src/optimize_bytes.rs"],
  [("SimpleBytesOptimizer / NoopBytesOptimizer / HuffOptimizer", "src/optimize_bytes.rs")],
  [("byte_counts / counts", "usage per byte", "src/optimize_bytes.rs")],
  ["BytesOptimizer::optimize_bytes"])

p("C11", "Optimization always ends in a valid token set with truthful statistics",
  "For every training text, fallback type and token budget the type allows, and with or without an input token set of that type and processing that fits the budget, optimization terminates without crashing and returns a token set of the requested type with at most the requested number of tokens, no duplicates, every byte expressible, and every multi-byte token built from text that occurs in the training data (or taken from the input set). The statistics saved with it (token count, total tokens, scanned bytes, bytes per token) are exactly those of tokenizing the training data with that set, and it is saved under the name that states its size, processing and type.",
  ["inputs", "configurations"], "all training texts (empty, tiny, repetitive, multi-paragraph, non-ASCII), all five fallback types, all budgets from the type's minimum to beyond 256 bytes plus extensions, with and without an input set",
  "No test runs the optimizer; its search visits data-dependent sequences of token sets.",
  ["src/optimize.rs", "src/optimize_bytes.rs", "src/main.rs", "src/batch_tokenize.rs"],
  [("optimize_tokenset / optimization_step / remove_add_token / add_token", "src/optimize.rs"), ("save_tokens", "src/main.rs")],
  [("token_set", "current candidate", "src/optimize.rs"), ("removal_count", "attempt counters", "src/optimize.rs")],
  ["texmo optimize: exit status, output JSON"])

p("C12", "Optimization never makes the token set worse",
  "The token set returned by optimization encodes its training data with no more tokens than the set it started from: the plain fallback set of the requested type (for frequency-based sets the one chosen from the byte counts of the data), or the input token set when one is given. Optimizing again starting from a returned set, with the same data and budget, never returns a set that needs more tokens.",
  ["inputs", "configurations", "histories"], "all training texts, types, budgets and starting sets, and chains of runs",
  "No test compares any before/after total; monotonicity must hold for every accepted step of a data-dependent search.",
  ["src/optimize.rs", "src/batch_tokenize.rs"],
  [("accept only strictly smaller totals", "src/optimize.rs optimization_step/remove_add_token"), ("statistics cache", "src/batch_tokenize.rs TokenizerCache")],
  (), ["texmo optimize output total_tokens"])

p("C13", "Optimization stops only at a local optimum",
  "When optimization of a full-size token set stops, no single replacement the search is meant to try would help: neither removing any one multi-byte token and adding what promises more instead (the most frequent valid neighbouring pair or one more byte token), nor giving up the least useful byte token for the most frequent valid pair, nor re-selecting the single-byte tokens reduces the total number of tokens for the training data. When it stops below the requested size, no valid neighbouring pair of tokens was left to add, and no byte token was missing (or, for frequency-based sets, selecting the codes of all bytes for one more token makes things worse).",
  ["inputs", "configurations"], "all training texts, types and budgets; every removable token of every final set",
  "No test runs the optimizer; local optimality quantifies over every token that could be removed.",
  ["src/optimize.rs"],
  [("remove_add_token tries every multi-byte token", "src/optimize.rs"), ("optimization_step re-selects bytes", "src/optimize.rs")],
  [("removal_count", "order in which removals are tried", "src/optimize.rs")],
  ["optimize::Optimizer::optimize"])

p("C14", "No learned token reaches across a paragraph break",
  "No multi-byte token added by optimization contains a character other than a line feed after two consecutive line feeds, for any training data, fallback type, budget and input set that itself respects the rule. This holds even when every remaining candidate would break it, in which case fewer tokens are returned.",
  ["inputs", "configurations"], "all training texts with line-feed runs in any position, all types and budgets",
  "No test covers the rule; the violating case needs data in which all frequent pairs straddle a break.",
  ["src/optimize.rs"],
  [("is_valid_token filter in pair selection", "src/optimize.rs is_valid_token/add_token_bpe")],
  (), ["tokens in the returned set"])

p("C15", "Sampling a file yields all of its text exactly once, cut between characters",
  "Iterating over a whole-file data source (from disk or from memory) yields non-empty samples whose concatenation is exactly the file's text, for every valid UTF-8 file, every chunk size and every way the operating system splits reads, and every iteration yields the same samples. A sample that is not the last one ends right after a blank line whenever its chunk contains one, and never inside a character. The reported total size is the size of the data.",
  ["inputs", "configurations", "fault_sequences"], "all texts (multi-byte characters and line-feed runs across chunk boundaries), all chunk sizes, short reads",
  "No test iterates over a sampler.",
  ["src/input/file_sampler.rs", "src/input/memory_sampler.rs", "src/input/util.rs", "src/input/sample.rs"],
  [("find_paragraph_end and seek back", "src/input/util.rs, src/input/file_sampler.rs"), ("MemoryIterator position", "src/input/memory_sampler.rs")],
  [("position / file offset", "start of the next sample", "src/input/")],
  ["Sampler::iter", "stats.scanned_bytes of convert-tokens"])

p("C16", "A size-limited sample is made of whole paragraphs in proportion",
  "Extracting a sample of a given size smaller than the file yields a selection of whole paragraphs of the file (each with the blank lines that follow it), in their original order and each at most once. At every point of the file the amount selected stays proportional to the amount read, to within the size of the largest paragraph, so that the total is within one largest paragraph of the requested size.",
  ["inputs", "configurations"], "all files (any paragraph sizes, leading/trailing line feeds, no final line feed) and all requested sizes",
  "No test extracts a sample.",
  ["src/input/memory_sampler.rs"],
  [("sample_from_file: read_until + running share", "src/input/memory_sampler.rs")],
  [("read_bytes / data", "bytes passed over / selected", "src/input/memory_sampler.rs")],
  ["MemorySampler::sample_from_file"])

p("C17", "Cached statistics are indistinguishable from fresh ones",
  "Whatever sequence of statistics requests preceded it, the statistics returned for a token set are the same as those computed from scratch for that token set on the same data, and belong to that token set: same token set up to order, same total, same per-token and per-sequence counts, and pair counts present whenever they are requested. Two token sets that differ in any token, fallback sequence or attribute never share an entry.",
  ["histories", "configurations"], "all sequences of requests (with and without pairs) over all small families of similar token sets",
  "No test uses the cache.",
  ["src/batch_tokenize.rs", "src/stats2.rs"],
  [("key = JSON of the sorted set", "src/batch_tokenize.rs TokenizerCache::get_key"), ("clone_without_pairs", "src/stats2.rs")],
  [("cache", "key -> statistics", "src/batch_tokenize.rs")],
  ["TokenizerCache::get_stats / get_stats_with_pairs"])

p("C18", "Optimization is deterministic whatever the environment does",
  "The token set and statistics produced by optimization depend only on the data, the options and the input set. They are byte-for-byte the same for every hash seed, every clock behaviour (including periodic intermediate saves), every number of processors, every split of file reads and any previous content of the output directory.",
  ["schedules", "configurations", "fault_sequences"], "all environment answers: random seeds, monotonic-clock jumps at every reading, processor counts, short reads, stale output files",
  "Tests run once with one seed and one clock, and never run the optimizer.",
  ["src/optimize.rs", "src/batch_tokenize.rs", "src/main.rs"],
  [("stable sorts, order-independent maps", "src/optimize.rs"), ("timed save does not feed back", "src/optimize.rs optimize_tokenset_impl")],
  [("last_save", "time of the last intermediate save", "src/optimize.rs")],
  ["texmo optimize output file"])

p("C19", "Optimization with growing data always delivers a full-data result",
  "Optimizing with a minimum data size succeeds for every data file and every minimum size, zero or positive, smaller or larger than the file, however tiny the samples. The result satisfies the requested budget and type, and the saved statistics are those of tokenizing the complete data file with the saved token set, not of a partial sample.",
  ["inputs", "configurations"], "all file sizes relative to the minimum size, number of doublings, paragraph structures, fallback types, with and without an input set",
  "No test runs this mode.",
  ["src/main.rs", "src/optimize.rs", "src/input/memory_sampler.rs"],
  [("optimize_with_increasing_data loop", "src/main.rs")],
  [("size / tokenset / full_stats", "current sample size, set carried over, final statistics", "src/main.rs")],
  ["texmo optimize --min-data-size"])

p("C20", "Character counting is exact",
  "The character-count report states the exact number of characters in the file, the exact number of occurrences of every character below U+0100 that occurs (and no others), and the highest character that occurs.",
  ["inputs"], "all valid UTF-8 files: with and without final line feed, any characters, characters at the U+00FF/U+0100 and encoding-length boundaries",
  "No test runs the command.",
  ["src/main.rs"],
  [("count_chars line loop", "src/main.rs")],
  (), ["texmo count-chars standard output"])

p("C21", "Pretty-printing a token file changes layout only",
  "Rewriting a JSON file (well-formed Unicode text without repeated member names, with numbers in double range) with the pretty-printer leaves a file that is valid JSON with exactly the same value, including every string character and the order of arrays and of object members. Running it again changes nothing. A document it cannot format (because it is nested too deeply) is left as it was, and the program then fails.",
  ["inputs"], "all JSON documents: nesting, empty containers, strings of any characters, line lengths on either side of every width threshold",
  "There is no test for the script; its comma and line-breaking logic depends on lengths on both sides of thresholds at every nesting depth.",
  ["pretty.py"],
  [("serialize: delayed last_line / commas", "pretty.py")],
  [("last_line", "line waiting for its comma", "pretty.py")],
  ["file contents after python3 pretty.py FILE"])

p("C22", "Converting a token set keeps it intact and reports true statistics",
  "Converting any valid token set (including every one shipped with the repository) against any data writes a file, named after the set's size, processing and type, that holds the same token set and whose statistics are exact: token count, the minimum number of tokens for the samples the (processed) data is read in (blocks of up to 16 MiB ending at a blank line), the number of processed bytes, the raw data size and their ratio. Converting the written file again with the same data reproduces it byte for byte, whether the processed data is given or generated, and converting a file in its own directory, over itself, gives the same file as converting it to another directory.",
  ["inputs", "configurations"], "all shipped and generated token sets, raw and caps-words processing, all data including multi-byte text and multi-chunk files",
  "No test runs the command.",
  ["src/main.rs", "src/tokenset.rs", "src/stats2.rs"],
  [("load_save_tokens", "src/main.rs"), ("maybe_process_file", "src/main.rs"), ("TokenStats::to_json", "src/stats2.rs")],
  (), ["texmo convert-tokens output file"])

p("C23", "Every intermediate save is a complete usable token set",
  "Whenever optimization saves its progress, at whatever moment the clock triggers it, the file written is a complete token set that loads, respects the budget, type and paragraph rule, expresses every byte, and is named after its actual number of tokens, its processing and its type. Resuming optimization from it succeeds and does not end worse than it.",
  ["histories", "configurations"], "all moments at which the save can be triggered along the search, all fallback types",
  "Intermediate saves happen only after a minute of optimization; no test reaches them.",
  ["src/optimize.rs", "src/tokenset.rs"],
  [("save_tokens in optimize_tokenset_impl", "src/optimize.rs")],
  [("last_save", "time of the last save", "src/optimize.rs")],
  ["files appearing in the tokens directory"])

p("C24", "No command reports success without its complete output",
  "For every command that writes a file, if any open, read, write or seek on the way fails or is cut short at any point, the command either ends with an error status or its output is complete and identical to that of an undisturbed run. Success is never reported for a missing, truncated or altered output.",
  ["fault_sequences"], "all single and double faults (error or short transfer) at every I/O call of every command",
  "Tests inject no faults and run no command.",
  ["src/main.rs", "src/processing.rs", "src/input/file_sampler.rs", "src/input/memory_sampler.rs", "src/optimize.rs"],
  [("unwrap on every I/O result", "src/main.rs, src/input/"), ("process_file final flush", "src/processing.rs")],
  (), ["exit status and output files of texmo process / convert-tokens / optimize"])

p("C25", "Commands leave everything but their output alone",
  "A command changes nothing but its output file (optimize: also the token sets it saves on the way, which are named after their size and the requested processing and type). Its input files - data, processed data, input token set - keep contents and mode, unless the output has the same name; other files, also in the directories of the inputs and of the output, are neither changed nor removed nor created. This holds for success, for inputs that can't be used, and whenever any I/O operation fails; the temporary file for the processed data is in the system's directory for temporary files and gone at the end. Even a command that is killed leaves nothing more than its partial output and that temporary file.",
  ["inputs", "configurations", "fault_sequences"], "all commands and options, all I/O faults and kill points along each run, all unusable inputs, existing outputs, files with any other name nearby",
  "Tests run no command, and none looks at what else is on the disk.",
  ["src/main.rs", "src/optimize.rs", "pretty.py"],
  [("NamedTempFile removed on drop, also when unwinding", "src/main.rs maybe_process_file"), ("input files are opened for reading only", "src/main.rs")],
  [("temp_processed", "temporary file with the processed data", "src/main.rs")],
  ["directory tree before and after each command"])

p("C26", "Runs do not influence each other",
  "What a command writes depends on its own inputs and options only: neither on what other commands did before with the same or other inputs, nor on inputs that meanwhile changed (whatever their size and time stamps), nor on what a killed run left behind, nor on another command that runs at the same time, with its output in another directory, on the same data, token sets and directory for temporary files.",
  ["schedules", "crash_points", "histories"], "all histories of commands and changes of inputs, all points at which an earlier run was killed, all interleavings of the file operations of runs at the same time",
  "Tests run no command, let alone two.",
  ["src/main.rs", "src/optimize.rs"],
  [("NamedTempFile: unique name, created exclusively", "src/main.rs maybe_process_file"), ("nothing is cached between runs", "src/main.rs")],
  [("temp_processed", "temporary file with the processed data", "src/main.rs")],
  ["output files and exit status of texmo commands"])

p("C27", "The progress report of an optimization is true",
  "What the optimize command prints while it searches describes that search: the number of tokens and the bytes per token it begins with; for each step the tokens removed and added, so that all steps of a search, replayed from its starting set, lead through the sets that were accepted to the saved one (the one needing the fewest tokens); the bytes of (processed) data per token after each step, which with all requested tokens in use improve at every step; the tokens whose removal is tried, all of them multi-byte tokens of the set at that moment; with growing data, the amount of data of each round and the figures for it and for the complete data; and the file that is written.",
  ["inputs", "configurations", "histories"], "all training texts, types, budgets, input sets and minimum data sizes; every step of every search; tokens with any bytes",
  "No test runs the optimizer or reads what it prints; the report must match a data-dependent sequence of token sets.",
  ["src/optimize.rs", "src/main.rs", "src/stats2.rs", "src/tokenset.rs"],
  [("show_tokenset_diff / remove_add_token / optimization_step", "src/optimize.rs"), ("bytes_per_token", "src/stats2.rs"), ("optimize_with_increasing_data", "src/main.rs"), ("show_bytes", "src/tokenset.rs")],
  [("token_set", "current candidate", "src/optimize.rs")],
  ["texmo optimize: standard output"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
