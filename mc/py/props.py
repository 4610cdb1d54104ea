"""What each check runs, and how it decides."""

SPECS = {}
MC = "explicit enumeration on the real code"


def spec(id, technique, note, rule, engines=(), modules=(), level="model_checking", assumptions=()):
    SPECS[id] = dict(engines=list(engines), modules=list(modules), level=level, technique=technique, note=note, rule=rule,
                     assumptions=list(assumptions))


UNI = "Case mapping and letter classification of characters are those of the installed Rust standard library (the command-level part uses characters on which Python's Unicode version agrees)."
BOUND = "Exhaustive within the enumerated families only (listed with their sizes under coverage.parts)."
REF = "The reference model (written separately from the code) states the property."

spec("C01", "bounded exhaustive enumeration of texts through the real processing code; an independent decoder is the oracle",
     "Every text of the families is processed by the code of the working tree (in process, and by the texmo command) and decoded again by a decoder written from the documentation. All Unicode scalars in a dozen contexts, all words over class alphabets. Assurance is complete inside those families only.",
     "every text of the families is processed by the real code and decoded; non-trivial: processing changes the text",
     engines=["c01"], modules=["m_process@C01"], assumptions=[UNI, BOUND])
spec("C02", "bounded exhaustive enumeration of texts through the real processing code against a reference written from the README",
     "The reference splits a text into maximal letter runs and encodes each by itself, so equality on a text shows independence of context. Complete inside the families only.",
     "every text of the families, real code against the reference; non-trivial: processing changes the text",
     engines=["c02"], modules=["m_process@C02"], assumptions=[UNI, BOUND, REF])
spec("C03", "stateless exploration of I/O answers (full, short, interrupted, failed) at every call of the real streaming code",
     "Scripted readers and writers drive the real process_file; every execution with at most two deviations from the normal answer is run, for texts around the buffer sizes; the texmo command likewise under the LD_PRELOAD shim. More than two deviations are covered only as constant patterns (always k bytes).",
     "one execution per (text, script of I/O answers); non-trivial: distinct (output, status) reached with a disturbed script",
     engines=["c03"], modules=["m_process@C03"], level="fault_enumeration", assumptions=[BOUND])
spec("C04", "explicit-state search to a fixpoint over tokenizer states, every transition replayed on the real tokenizer; oracle: reference dynamic programme",
     "States are (last bytes, relative costs of the last positions); two texts with the same state continue alike, so reaching a fixpoint covers texts of every length over the alphabet for that token set - as far as the real tokenizer is a function of that state, which the replay of every transition checks. Complete for the enumerated token sets only.",
     "states: canonical tokenizer states; a transition appends one byte and is executed by the real tokenizer",
     engines=["c04"], modules=["m_convert@C04"], assumptions=[BOUND, REF])
spec("C05", "bounded exhaustive enumeration of token sets, texts and fragment histories on the real tokenizer; oracle: search for a cheapest segmentation with exactly the reported counts",
     "The oracle enumerates all cheapest segmentations and asks for one that has exactly the reported token, sequence and pair counts. Complete inside the families only.",
     "one case per (token set, history of fragments); non-trivial: the text needs at least one multi-byte token or fallback sequence",
     engines=["c05"], modules=["m_convert@C05"], assumptions=[BOUND, REF])
spec("C06", "systematic exploration of all thread schedules up to a preemption bound (controlled scheduler under the real code)",
     "The real tokenize_file runs on shuttle's primitives under our depth-first, preemption-bounded scheduler; every schedule must end and give the statistics of the sequential run. Interleavings are sequentially consistent (the code uses mutexes and channels only). Free runs of the texmo command on data above 32 MiB bind the result to the real primitives.",
     "states: scheduling points; transitions: scheduled steps; one execution per schedule",
     engines=["c06"], modules=["m_convert@C06"],
     assumptions=["Sequentially consistent interleavings.", "Preemption bounds and sizes as listed in coverage.parts."])
spec("C07", "bounded exhaustive enumeration of token sets and edit histories through the real save and load code, and of token files through convert-tokens",
     "Every set of the families is saved, loaded, compared, saved again and used. Complete inside the families only (all byte strings up to length 2, chosen longer ones).",
     "one case per token set; non-trivial: it has a token or sequence of its own",
     engines=["c07"], modules=["m_convert@C07"], assumptions=[BOUND])
spec("C08", "explicit-state search over all operation histories on the real TokenSet against a reference list model",
     "Breadth-first over canonical states of the model; at every transition the operation is executed on the real set and everything observable is compared. Complete up to the depth for the operation alphabet.",
     "states: canonical token sets; transitions: operations executed on both",
     engines=["c08"], modules=["m_optcli@C08"], assumptions=[BOUND, REF])
spec("C09", "enumeration of all constructed token sets of the families; each decided completely by table (bytes) and Sardinas-Patterson (unique decoding)",
     "Per set the decision covers all byte strings; the sets are those reached from enumerated frequency profiles, budgets and additions.",
     "states: dangling suffixes visited; one case per constructed set",
     engines=["c09"], modules=["m_optcli@C09"], assumptions=[BOUND])
spec("C10", "bounded exhaustive enumeration of usage profiles, budgets and input sets through the real byte selection; oracle: best choice by counting",
     "Oracle and code agree on attributes, exact budget, kept long tokens and the optimal bytes for every case of the families.",
     "one case per (type, profile, budget, long tokens); non-trivial: the budget leaves room for some but not all used bytes",
     engines=["c10"], modules=["m_optcli@C10"], assumptions=[BOUND])
OPT = "Small training texts (all words up to a length, plus a pool of chosen texts); the search is deterministic, so each case is one complete run."
spec("C11", "bounded exhaustive enumeration of (text, type, budget, input set) through the real optimizer, in process and as a command; oracle: reference tokenization and validity of the result",
     "Every run must end with a valid set whose saved statistics equal a reference recount. " + OPT,
     "one complete optimization per case; non-trivial: the result has a multi-byte token",
     engines=["c11"], modules=["m_optcli@C11"], assumptions=[BOUND, OPT, REF])
spec("C12", "bounded exhaustive enumeration of optimizer runs and chains of runs; oracle: reference recount of start and result",
     "Start and result are counted by the reference, for single runs and chains of runs. " + OPT,
     "one complete optimization (or chain) per case; non-trivial: the result is better than the start",
     engines=["c12"], modules=["m_optcli@C12"], assumptions=[BOUND, OPT, REF])
spec("C13", "bounded exhaustive enumeration of optimizer runs; at each result every single replacement is evaluated by the reference",
     "For each result every removable token and re-selection is tried; among equally frequent additions the most favourable to the code counts. " + OPT,
     "one complete optimization per case, transitions: replacements evaluated; non-trivial: the result has a multi-byte token",
     engines=["c13"], modules=["m_optcli@C13"], assumptions=[BOUND, OPT, REF])
spec("C14", "bounded exhaustive enumeration of texts made of line feeds and letters through the real optimizer; every token of every result is examined",
     "Texts in which most or all frequent pairs reach across a break, all types and budgets, with and without input sets. " + OPT,
     "one complete optimization per case, transitions: tokens examined; non-trivial: the result has a multi-byte token",
     engines=["c14"], modules=["m_optcli@C14"], assumptions=[BOUND, OPT])
spec("C15", "bounded exhaustive enumeration of (text, chunk size, sampler) and of the answers of read() at every call",
     "All texts over alphabets of mixed-width characters and line feeds, all chunk sizes, both samplers; read() is controlled inside the process (all answers with at most two short or interrupted reads, constant small reads); real command on files around 2^24 bytes.",
     "one case per (text, chunk size, read script); transitions: samples delivered",
     engines=["c15"], modules=["m_convert@C15"], assumptions=[BOUND])
spec("C16", "bounded exhaustive enumeration of paragraph structures and requested sizes on the real sampling code",
     "All sequences of paragraph shapes up to a length and all sizes; the selection must be whole paragraphs in order, in proportion at every point. Complete inside the families only.",
     "one case per (paragraph sequence, requested size); non-trivial: something but not everything is selected",
     engines=["c16"], modules=["m_convert@C16"], assumptions=[BOUND])
spec("C17", "explicit-state search over all request histories of the real statistics cache on pools of near-identical token sets",
     "Every history up to the depth is executed on a fresh cache and each answer compared with statistics computed from scratch. Complete for the pools and depth.",
     "states: distinct answered histories; transitions: requests",
     engines=["c17"], modules=["m_optcli@C17"], assumptions=[BOUND])
ENV = "The LD_PRELOAD shim decides hash seeds, clock, processor count and transfers for files below the scratch directory; other nondeterminism is the kernel's."
spec("C18", "enumeration of the environment's answers (hash seeds, clock jumps, processors, read splits, leftovers) on the real program; outputs compared byte for byte",
     "Each configuration runs under every enumerated environment; the quick tier covers every pair of answers, the thorough tier the product.",
     "states: distinct results; transitions: environments tried; one execution each",
     modules=["m_c18"], assumptions=[BOUND, ENV])
spec("C19", "bounded exhaustive enumeration of (text, type, budget, minimum size, input set) on the real program; oracle: reference recount over the full data",
     "All minimum sizes for small files, around the thresholds for files above 16 MiB.",
     "one complete run per case; transitions: rounds of growing data; non-trivial: at least one sample smaller than the file",
     modules=["m_c19"], assumptions=[BOUND, REF])
spec("C20", "bounded exhaustive enumeration of files through the real program; oracle: independent counting",
     "All scalars, all short texts over a class alphabet, texts around buffer sizes.",
     "one file per case; non-trivial: the file is not empty",
     modules=["m_c20"], assumptions=[BOUND])
spec("C21", "bounded exhaustive enumeration of JSON documents through the real script; oracle: equality of parsed values with order, idempotence",
     "Documents around every width threshold at several depths. Numbers that are not exact in double precision are outside.",
     "one document per case; non-trivial: distinct results",
     modules=["m_c21"], assumptions=[BOUND, "Python's json module as the reader of the oracle."])
spec("C22", "bounded exhaustive enumeration of (token set, data, options) through the real program; oracle: reference recount, second conversion compared byte for byte",
     "All shipped sets, generated sets of every type, data around chunk and thread thresholds.",
     "one chain of conversions (the input, the result, the input in its place) per case; non-trivial: the data is not empty",
     modules=["m_c22"], assumptions=[BOUND, REF])
spec("C23", "enumeration of all moments of intermediate saves (clock answers) on the real program; every saved file is examined and resumed from",
     "A clock jump at every reading in turn, and at all readings; each file that appears is loaded, validated, and optimization is resumed from it.",
     "one case per (configuration, clock script); transitions: files examined",
     modules=["m_c23"], assumptions=[BOUND, ENV])
spec("C24", "systematic fault enumeration: an error or short transfer at every I/O call of every writing command of the real program",
     "Every open/read/write/seek of each command fails in turn, with each error; pairs of faults where affordable. Errors at close and in the page cache after a successful write are outside.",
     "one execution per (command, call, fault); non-trivial: distinct (status, output) reached under a fault",
     modules=["m_c24"], level="fault_enumeration", assumptions=[BOUND, ENV])
spec("C25", "enumeration of commands, options, failing inputs, single I/O faults and kill points on the real program; the whole directory tree is compared before and after",
     "Every file, name and mode below the prepared tree (inputs, bystanders, temporary directory, home, working directory) is compared with its state before the run. Writes outside the tree and network effects are not observed.",
     "one execution per (command, form of the paths, fault or kill point); non-trivial: distinct (command, status) reached",
     modules=["m_c25"], level="fault_enumeration", assumptions=[BOUND, ENV])
spec("C26", "exploration of histories, kill points and interleavings of whole commands (controlled at every file operation) on the real program; oracle: the same command by itself",
     "All short histories of commands and changes of their inputs; every kill point of one run followed by another run; all interleavings of the file operations of two runs with at most two preemptions (thorough: three). Two runs at a time write to different directories; more than two are not run.",
     "states: scheduling points; transitions: operations performed under control; one execution per history, kill point or schedule",
     modules=["m_c26"], assumptions=[BOUND, ENV])
spec("C27", "bounded exhaustive enumeration of runs of the real command; the reported trace of each search is replayed from the starting set to the saved one on a reference model",
     "Every reported step (tokens removed and added, resulting figure) is one transition of the model; the figures are recomputed by the reference tokenization. For frequency-based sets, whose codes the report does not show, intermediate figures are only checked to be whole numbers of tokens, and begin and end exactly.",
     "states: token sets along the reported searches; transitions: reported steps; one run per case; non-trivial: at least one step",
     modules=["m_c27"], assumptions=[BOUND, REF])
