import os

from . import build as B

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers")

PROPS = {}
VALGRIND = ["valgrind", "-q", "--error-exitcode=78", "--exit-on-first-error=yes",
            "--leak-check=no", "--undef-value-errors=yes"]


def prop(id, **kw):
    kw.setdefault("level", "exploration")
    PROPS[id] = kw


def run(driver, mode, flavor, quick, thorough, **kw):
    d = dict(driver=driver, mode=mode, flavor=flavor, quick=quick,
             thorough=thorough)
    d.update(kw)
    return d


prop("C10",
     technique="history-vs-model monitor on the live table, ASan/UBSan",
     rule="random operation histories (Insert/Find/Clear) over int and pair "
          "keys, from initial capacities 1..120000, with key families that "
          "collide modulo the table size or share a hash value; every read is "
          "compared with a sequential map; non-trivial: more than 3 live keys; "
          "distinct by (family, capacity, live keys, hits, updates)",
     runs=[run("hash", "ops", "o2", 6000, 60000),
           run("hash", "ops", "asan", 1600, 12000),
           run("hash", "big", "o2", 8, 64)],
     require=[("hits", 10000), ("clears", 10)])

prop("C11",
     technique="shadow-model monitor of constructor/destructor events, ASan/UBSan",
     rule="random allocate/release/clear histories on pools with block sizes "
          "1..4096 holding trivially and non-trivially destructible objects; a "
          "shadow model checks addresses, contents, destruction events and the "
          "reported counts after every operation; non-trivial: more than 4 "
          "objects live at once and some released; distinct by (pool kind, peak "
          "live, releases, clears)",
     runs=[run("pool", "pool", "o2", 3200, 30000),
           run("pool", "pool", "asan", 960, 6000)],
     require=[("clears", 50), ("reused_cells", 1000)])

prop("C12",
     technique="shadow-model monitor of collections (reachability oracle), ASan/UBSan",
     rule="random histories of allocation, explicit release and collection over "
          "forests of linked nodes in pools with block sizes 1..4096; after each "
          "collection a reachability computation on the shadow graph decides "
          "which nodes must be intact and which must have been notified and "
          "destroyed once; also chains of up to 3 million nodes, up to 70000 "
          "collections of one pool, and collections with hundreds of thousands of nodes and roots; non-trivial: some nodes freed and some kept; distinct "
          "by (block size, freed, kept, collections)",
     runs=[run("pool", "gc", "o2", 3600, 20000),
           run("pool", "gc", "asan", 960, 4000)],
     require=[("collections", 1000), ("freed", 1000), ("kept", 1000),
              ("deep_chains", 20), ("max_chain", 1000000),
              ("max_collections_of_a_pool", 66000), ("max_wide_live", 100000)])

prop("C15",
     technique="definition oracle with propagated rounding bounds on observed layer outputs, ASan/UBSan",
     rule="random layers and stacks (2..7 layers) of every type, read from "
          "generated model files and built directly, on inputs of 1..200 rows "
          "and 1..500 columns (some of 5000 rows or 9000 columns) incl. padded and sub-matrix views, zero rows and "
          "activations up to 1e30; each output element is compared with a "
          "double-precision evaluation whose rounding bound is propagated layer "
          "by layer; non-trivial: more than one input element; distinct by "
          "shapes and layer sequence",
     runs=[run("math", "nnet", "o2", 9000, 60000),
           run("math", "nnet", "asan", 2700, 12000)],
     require=[("elements", 100000), ("layers", 2000)])

prop("C16",
     technique="exact integer oracle on observed codes and products, ASan/UBSan",
     rule="random matrices (straddling zero, one-sided, constant, zero) of "
          "shapes 1..400 x 1..900 (some with a side of up to 5700) quantised, every code compared with its "
          "value, and products of two quantised matrices compared with exact "
          "64-bit integer sums; non-trivial: both operands have more than one "
          "element; distinct by shape and value family",
     runs=[run("math", "quant", "o2", 80000, 400000),
           run("math", "quant", "asan", 9600, 40000)],
     require=[("codes", 100000), ("products", 100000)])

prop("C17",
     technique="shadow-model monitor after every operation, ASan/UBSan",
     rule="random operation histories over three live matrices or vectors of "
          "each element type (some of more than 65536 elements), with random views, and matrix products over views; "
          "after each operation every element of every operand is compared with "
          "a plain model; distinct by operation sequence",
     runs=[run("math", "mat", "o2", 51200, 100000),
           run("math", "mat", "asan", 19200, 30000)],
     require=[("matrix_ops", 10000), ("vector_ops", 10000), ("products", 500)])

prop("C18",
     technique="DFT oracle on observed transforms, bit-identity monitor across reuse and threads, ASan/UBSan and TSan",
     rule="sizes 4..131072, inputs: noise, tones at every bin, impulses, "
          "constants, alternating, zero, padded 16-bit audio; forward result "
          "against a double-precision FFT, inverse against the input, reuse and "
          "4-thread sharing bit for bit; distinct by size and transform values",
     runs=[run("math", "fft", "o2", 900, 12000),
           run("math", "fft", "asan", 360, 2400),
           run("math", "fft", "tsan", 72, 240)],
     require=[("transforms", 3000), ("threaded_transforms", 1000), ("max_fft_size", 131072)])

prop("C19",
     technique="sliding-window definition oracle on every observed frame, ASan/UBSan",
     rule="random feature matrices of 1..1900 frames (6000 thorough) with "
          "drifting levels and random global statistics; each frame against a "
          "double-precision sliding window, and again on a random prefix bit for "
          "bit; distinct by length and values",
     runs=[run("math", "cmvn", "o2", 1280, 3000),
           run("math", "cmvn", "asan", 384, 400)],
     require=[("frames", 20000), ("frames_past_window", 5000)])

prop("C13",
     technique="backoff-definition oracle over observed lookups, ASan/UBSan",
     rule="random backoff graphs of 1..200 states (root first or anywhere, "
          "states without arcs, without backoff, final or not) written to a "
          "file and read by the library; every (state, word) lookup before and "
          "after building the lowest-order table, iteration, final costs and "
          "the difference model against a direct evaluation; some models "
          "with more than 65536 states, arcs of one state, or word ids; chains of up "
          "to 600000 backoffs; non-trivial: some "
          "lookup backed off; distinct by (states, words, found, backed off)",
     runs=[run("io", "lm", "o2", 9600, 24000),
           run("io", "lm", "asan", 2880, 5000),
           run("io", "deep", "o2", 96, 400), run("io", "deep", "asan", 16, 64)],
     require=[("lookups_backed_off", 10000), ("delta_lookups", 10000),
              ("deep_lookups", 500),
              ("lookups_failed", 1000)])

prop("C14",
     technique="differential monitor: cached against direct lookup, ASan/UBSan",
     rule="query sequences of 50..4000 over pools that repeat and collide, "
          "cache sizes 1..1000000, over backoff models and over arbitrary "
          "deterministic models incl. failing lookups and ids up to 2^31-1; non-trivial: repeated "
          "queries with successes; distinct by (cache size, successes, failures)",
     runs=[run("io", "cache", "o2", 19200, 40000),
           run("io", "cache", "asan", 4800, 6000)],
     require=[("queries", 100000), ("failed", 1000), ("repeats", 10000)])

prop("C20",
     technique="byte-level oracle on observed headers and samples, ASan/UBSan",
     rule="valid headers of random rate/width/channels and headers with one "
          "damaged field or cut at every length, through both entry points, "
          "from files, pipes and the middle of a file; whole files through the file reader, "
          "also named pipes and sparse files of 2 to 4 GiB; pieces of 1 to 2 GiB; "
          "random byte streams of each width (some of megabytes) cut into random pieces; distinct "
          "by (fault, length, width, rate) or (width, samples, pieces)",
     runs=[run("io", "wav", "o2", 18000, 60000),
           run("io", "wav", "asan", 7200, 12000)],
     require=[("headers_accepted", 1000), ("headers_rejected", 1000),
              ("samples", 100000), ("formats_refused", 100), ("files_read", 500),
              ("headers_from_pipes", 2000), ("headers_inside_files", 2000), ("odd_files", 10),
              ("vast_pieces", 2)])

prop("C21",
     technique="text-level oracle on observed lookups, ASan/UBSan",
     rule="random configuration texts (repeated keys in different case, "
          "comments, blanks, LF/CRLF, with and without final newline, values "
          "and comments up to 40 kB, files of up to 9000 lines and 4000 keys, malformed lines), read through absolute and relative "
          "names; every kind of lookup against the text; distinct by text",
     runs=[run("io", "conf", "o2", 32000, 80000),
           run("io", "conf", "asan", 9600, 12000)],
     require=[("lookups", 20000), ("refused", 200), ("integers", 1000)])

prop("C22",
     technique="text-level oracle on observed words and ids, ASan/UBSan",
     rule="random tables of 2..90000 entries in any order with gaps, LF/CRLF, "
          "with and without final newline, and tables with one malformed line "
          "or without a sentence symbol; every id and word against the text; "
          "distinct by table and fault",
     runs=[run("io", "sym", "o2", 1600, 24000),
           run("io", "sym", "asan", 480, 4000)],
     require=[("ids", 100000), ("refused", 100), ("gaps", 1000)])

prop("C24",
     technique="round-trip oracle and exhaustive truncation with fault-injected headers, ASan/UBSan",
     rule="files of 1..4 random objects (vectors of each type, matrices, "
          "graphs, empty ones and some of up to 300000 elements included); read back exactly, then cut at every "
          "byte (sampled above 400 bytes) and with one header field damaged; "
          "distinct by object sequence",
     runs=[run("io", "bin", "o2", 1600, 8000),
           run("io", "bin", "asan", 640, 2400)],
     require=[("objects_read", 1000), ("truncations_refused", 20000),
              ("damage_refused", 3000), ("overflowing_counts", 500)])

prop("C05",
     technique="exact-search oracle on every observed hypothesis, ASan/UBSan",
     rule="random graphs (epsilon chains and cycles, shared units, garden "
          "paths lagging up to the beam, dead ends, no final state, random "
          "numbering) with score sequences of 0..400 frames; hypotheses at "
          "random frames and at the end compared with exact search; weights "
          "dyadic, so compared for equality, or real with a rounding bound; "
          "non-trivial: at least one hypothesis decided by the beam condition; "
          "rings of up to 65537 frames with one path and units that return after "
          "gaps around powers of two, cost added up independently; chains of "
          "up to 250000 epsilon arcs (600000 thorough) between two frames; "
          "up to 29000 branches side by side whose winner lags by up to the beam; "
          "distinct by graph size, frames and final cost",
     runs=[run("dec", "search", "o2", 12000, 200000),
           run("dec", "ring", "o2", 500, 4000), run("dec", "ring", "asan", 40, 400),
           run("dec", "chain", "o2", 160, 2400), run("dec", "chain", "asan", 24, 200),
           run("dec", "wide", "o2", 400, 6000), run("dec", "wide", "asan", 40, 300),
           run("dec", "search", "asan", 1600, 20000)],
     require=[("hypotheses_decided", 5000), ("finals_decided", 500),
              ("wide_checks", 600), ("wide_late_winners", 8),
              ("cases_with_pruning", 100), ("empty_hypotheses", 50),
              ("searches_died", 5), ("ring_checks", 1000),
              ("chain_checks", 400), ("max_epsilon_chain", 100000)])

prop("C06",
     technique="exact joint-search oracle on every observed hypothesis, ASan/UBSan",
     rule="as C05 with a random backoff language model (1..25 states, any "
          "backoff chain) and random original unigram costs; the oracle "
          "searches the product of graph and model",
     runs=[run("dec", "lm", "o2", 6000, 100000),
           run("dec", "lm", "asan", 800, 10000)],
     require=[("hypotheses_decided", 2500), ("finals_decided", 200),
              ("cases_with_pruning", 50)])

prop("C07",
     technique="word-history oracle over long streams at collection boundaries, ASan",
     rule="strongly connected graphs of 2..30 states whose hypotheses fork and "
          "merge all the time, streams of 300..2500 frames (8000 thorough); at "
          "random frames and around every reclamation the whole word history "
          "must be that of a cheapest path; all ties are accepted; and streams "
          "of more than 100000 words (400000 thorough) whose competing words "
          "always lose, compared word by word",
     runs=[run("dec", "hist", "o2", 640, 6000),
           run("dec", "long", "o2", 3, 8),
           run("dec", "hist", "asan", 64, 400)],
     require=[("hypotheses_decided", 3000), ("collections", 3000),
              ("words_checked", 100000), ("max_transcript_words", 100000),
              ("streams_with_large_numbers", 60)])

prop("C08",
     technique="exact-search oracle with more than 30000 active hypotheses",
     rule="30010..110000 active states (250000 thorough) with eight cost "
          "distributions and good paths early, late or in the middle of the "
          "beam; every hypothesis whose path is among the best 1000 and within "
          "0.45 of the best must be returned; results that depend on where the "
          "cap falls; decoded three times; some with up to 300000 active states",
     runs=[run("dec", "cap", "o2", 140, 500),
           run("dec", "cap", "asan", 16, 24)],
     require=[("hypotheses_decided", 60), ("results_at_the_cap", 20)])

prop("C09",
     technique="live-heap monitor over long streams and repeated use",
     rule="search over streams of 40000 frames (100000 thorough) on graphs of "
          "20..60 states whose losing hypotheses carry words, whole-recogniser "
          "streams of 120 s, and repetitions (at least 3) of one history of "
          "1..5 of create/feed/abandon/refuse/failed-initialise; live bytes "
          "and open files must not follow the frames or the repetitions; distinct by model and history",
     runs=[run("dec", "mem", "o2", 24, 200),
           run("e2e", "mem", "asan", 64, 500)],
     require=[("cycles", 50), ("streamed_seconds", 500), ("frames", 500000)])

prop("C01",
     technique="differential oracle over feedings of the same bytes (trace equality), ASan/UBSan",
     rule="random models and audio of 1..34000 samples (80000 thorough) of every "
          "width, odd trailing bytes included; fed byte by byte, sample by "
          "sample, in pieces of 1..5 bytes, of 319/321 bytes, of random sizes "
          "and at once; every call's return value, every partial transcript and "
          "the final transcript and score compared bit for bit; non-trivial: at "
          "least two frames; distinct by length, transcript and score",
     runs=[run("e2e", "split", "o2", 1600, 30000),
           run("e2e", "split", "asan", 160, 2000)],
     require=[("calls", 1000000), ("partials_compared", 100000),
              ("partial_changes", 300), ("nonempty", 200), ("megabyte_pieces", 5)])
prop("C02",
     technique="independent reference recogniser as oracle, ASan/UBSan",
     rule="random complete models (1..30 graph states plus garden paths, "
          "networks with 0..2 splices, chunk sizes 1..60, with and without a "
          "second language model) and audio of 1..30000 samples; the score "
          "against an exact search over double-precision features and network "
          "outputs, the transcript by the cost of the cheapest path with its "
          "words; non-trivial: decided with words; distinct by transcript and "
          "frames",
     runs=[run("e2e", "best", "o2", 8000, 150000),
           run("e2e", "best", "asan", 400, 6000)],
     require=[("decided", 5000), ("words", 20000), ("without_path", 200),
              ("too_short", 100)])
prop("C27",
     technique="differential oracle: interleaved against solitary runs (bit identity), ASan/UBSan",
     rule="2..4 utterances over one or two recognisers decoded alone, then "
          "interleaved call by call in random order with strangers fed garbage "
          "and abandoned, with recognisers destroyed and reloaded in between; "
          "2..3 models that differ in one part only, written to the same files "
          "and loaded in random order, against a process of their own each; "
          "12..500 (some thousands) utterances alive at once; "
          "every partial and final result bit for bit; non-trivial: some "
          "transcript has words; distinct by transcripts and schedule length",
     runs=[run("e2e", "iso", "o2", 1600, 30000),
           run("e2e", "iso", "asan", 160, 2000),
           run("e2e", "many", "o2", 240, 4000),
           run("e2e", "many", "asan", 32, 400),
           run("e2e", "twins", "o2", 400, 8000),
           run("e2e", "twins", "asan", 24, 400)],
     require=[("utterances_compared", 3000), ("crowd_utterances", 10000), ("max_utterances_alive", 1000), ("abandoned", 1000), ("reloads", 100),
              ("twins_that_differ", 200), ("twin_same_address", 500)])
prop("C25",
     technique="AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck over random call histories",
     rule="5..60 calls on up to 6 utterances alive (create, feed audio or raw "
          "bytes of any value, end, feed after the end, read, destroy in any "
          "order, refused requests with file names of up to 4000 bytes), "
          "through exact-size heap buffers; transcripts must be "
          "NUL-terminated sequences of table words; non-trivial: audio fed; "
          "distinct by numbers of calls and bytes",
     runs=[run("e2e", "hist", "asan", 1200, 20000),
           run("e2e", "many", "asan", 32, 400),
           run("e2e", "hist", "vg", 48, 800, more=["blas.cc"], wrap=VALGRIND)],
     require=[("calls", 20000), ("calls_after_end", 1000), ("reads", 10000),
              ("max_utterances_alive", 1000)])
prop("C26",
     technique="ThreadSanitizer and bit identity of concurrent against solitary results",
     rule="2..10 threads (some with 40..150) started together, each creating, feeding, ending or "
          "abandoning 1..3 utterances of one or two shared recognisers (half of "
          "them fresh), with random delays; every partial and final result "
          "compared with the solitary run; half of the threads also make invalid "
          "requests and must read their own message, some load, use and destroy "
          "a recogniser of their own; distinct by threads and results",
     runs=[run("e2e", "threads", "tsan", 120, 3000, more=["blas.cc"]),
           run("e2e", "threads", "o2", 400, 10000)],
     require=[("concurrent_utterances", 2000), ("threads", 1000), ("max_threads_at_once", 100),
              ("refused_requests", 2000), ("own_recognisers", 100)])
prop("C30",
     technique="differential oracle: streams with refused requests against streams without, ASan/UBSan",
     rule="nine kinds of invalid request inserted at random points of a "
          "stream (null and invalid arguments, formats, models, wave headers, "
          "file names up to 4000 bytes); failure values, message bounds and the "
          "stream's later partial and final results are checked; distinct by "
          "transcript and number of requests",
     runs=[run("e2e", "bad", "o2", 2400, 40000),
           run("e2e", "bad", "asan", 400, 4000)],
     require=[("refused", 20000)])
prop("C03",
     technique="definition oracle with rounding intervals on every observed frame, bit-identity monitor across streams and instances, ASan/UBSan",
     rule="waveforms of 1..40000 samples (160000 thorough; one in fifty up to 500000) spliced from 13 "
          "kinds (silence, constants, full scale, tones on and off bin centres, "
          "impulses, squares, ramps, noise, offsets) at 8, 16 and 32-bit scale; "
          "every value against a double-precision computation with a rounding "
          "interval; then streamed in random pieces through 1..4 interleaved "
          "instances of one or two extractors, bit for bit, with the number of "
          "frames checked after every piece; non-trivial: at least one frame; "
          "distinct by length and values",
     runs=[run("am", "fbank", "o2", 2400, 30000),
           run("am", "fbank", "asan", 320, 3000)],
     require=[("frames", 10000), ("values_within_1e-2", 200000), ("streams", 1000)])

prop("C04",
     technique="definition oracle on every observed score row, row conservation monitor, ASan/UBSan",
     rule="random networks (0..3 splices, contexts up to hundreds of frames) read through a "
          "configuration file, chunk sizes 1..1000, 1..6 interleaved streams of "
          "0..150 frames (400 thorough) with up to three chunk sizes each; each "
          "row against a double-precision evaluation of the whole stream, the "
          "number of rows conserved; distinct by contexts, chunk sizes and rows",
     runs=[run("am", "am", "o2", 24000, 300000),
           run("am", "am", "asan", 3200, 30000)],
     require=[("rows", 50000), ("rows_at_end", 5000), ("streams", 3000),
              ("shorter_than_context", 100), ("max_widest_context", 100)])
prop("C23", level="fault_enumeration",
     technique="fault enumeration over the files of a model, live-heap and message monitors, ASan/UBSan",
     rule="for random complete models: each file missing; each configuration "
          "key missing, empty, malformed or not a number; binary files cut at "
          "every byte (500 cuts of larger files, 20000 thorough); every section "
          "name, size, shape and count of every binary file damaged in several "
          "ways; the symbol table with one bad line or without a sentence "
          "symbol; each must be refused with a fresh message and the same live "
          "bytes, and the repaired model must decode as before; distinct by "
          "model, file and number of faults",
     runs=[run("fault", "fault", "o2", 720, 2000),
           run("fault", "fault", "asan", 240, 1000)],
     require=[("refused_missing", 50), ("refused_conf", 500), ("refused_cut", 2000),
              ("refused_damage", 1000), ("refused_words", 300), ("repaired", 100)])
PYTHON = next((p for p in ("/opt/veriftools/pyvenv/bin/python3",
                           "/usr/local/bin/python3-vt") if os.path.exists(p)), "python3")
prop("C29",
     technique="round-trip oracle: tool output read by the library and compared with the tool's input",
     rule="random nnet3 texts (splices, batch norms, any component order and "
          "number style), unit maps, statistics, ARPA unigrams (direct and "
          "pruned) and graphs; the tools run on them, the library reads the "
          "result, every value is compared with the source text and, for "
          "networks, the scores of random frames with an evaluation of the "
          "text; distinct by kind and size",
     runs=[run("rd", "conv", "o2", 2800, 12000, wrap=[PYTHON, os.path.join(HERE, "conv.py")]),
           run("rd", "conv", "asan", 560, 1400, wrap=[PYTHON, os.path.join(HERE, "conv.py")])],
     require=[("am_models", 100), ("fst_models", 100), ("unigram_models", 50),
              ("trans_models", 50), ("cmvn_models", 50), ("pruned", 20)])

MAIN = B.REPO + "/src/main.cc"
prop("C28",
     technique="differential oracle: program output against the library, fault injection per list entry, ASan/UBSan",
     rule="random models (also language models without <s> or "
          "some words, for which the library logs warnings), lists of 0..20 "
          "entries, one in ten 25..500, with 24 file descriptors allowed and the peak memory compared with that of three times the list (UTF-8 names, repeated files, "
          "relative and absolute paths, with and without final newline, LF and "
          "CRLF), wave files of every width incl. empty data and data that is "
          "no multiple of the sample or the read buffer; then lists with one "
          "faulty entry at a random position, faulty models and wrong usage; "
          "non-trivial: at least one entry; distinct by transcripts and faults",
     builds=[{"name": "main-o2", "flavor": "o2", "sources": [], "repo_extra": [MAIN]},
             {"name": "main-asan", "flavor": "asan", "sources": [], "repo_extra": [MAIN]}],
     runs=[run("cli", "cli", "o2", 320, 5000, exe_env={"VERIF_CLI": "main-o2"}),
           run("cli", "cli", "asan", 80, 1000, exe_env={"VERIF_CLI": "main-asan"})],
     require=[("entries", 300), ("files", 100), ("faulty_entries", 300),
              ("faulty_models", 200), ("transcripts_with_words", 150),
              ("without_newline", 20),
              ("long_lists", 15), ("pipes", 100), ("memory_compared", 8),
              ("incomplete_lms", 40)])

prop("C31",
     technique="exact-search oracle on every observed partial transcript, ASan/UBSan",
     rule="random models and audio as C02, fed in pieces of 1..40000 samples; "
          "after each call the partial transcript and score must be those of a "
          "cheapest active path at one of the last 20 frames scored, where the "
          "frames that must have been scored follow from the samples received; "
          "non-trivial: the transcript changed at least twice; distinct by "
          "length and transcripts",
     runs=[run("e2e", "partial", "o2", 4000, 60000),
           run("e2e", "partial", "asan", 240, 3000)],
     require=[("partials_decided", 3000), ("partial_changes", 500), ("words", 5000)])

prop("C32",
     technique="fault injection into cross-references between the model files, refusal, leak and repair monitor, ASan/UBSan",
     rule="valid random models in which one reference is moved out of range: a "
          "label, next state, start state or arc position of the decoding "
          "graph, a pdf of the transition map or the map or symbol table cut "
          "short, a state, label or position of the language model or a cycle of "
          "its back-off arcs, too few original costs, a layer of another shape, "
          "missing or added, another number of priors, a negative or different "
          "context, a negative chunk size; then the repaired model; distinct by "
          "model and number of faults",
     runs=[run("fault", "dangling", "o2", 400, 8000),
           run("fault", "dangling", "asan", 120, 1200)],
     require=[("faults", 5000), ("refused_HCLG.fst", 1000),
              ("refused_large.lm", 300),
              ("refused_orig.lm", 100), ("refused_final.nnet", 1000),
              ("refused_final.prior", 300), ("refused_left_context", 300), ("refused_final.map", 300),
              ("refused_words.txt", 20), ("repaired", 200)])

prop("C33", level="fault_enumeration",
     technique="injected read and write errors under the library and the program, refusal, leak and repair monitor, ASan/UBSan",
     rule="reads of one file of a random complete model (every file, the "
          "configuration included) fail from a random byte on, or once, or the "
          "file is a directory: initialisation must refuse, say why and leak "
          "nothing, then load the same model; reads of a wave header fail; under "
          "the program, reads of a wave file, list or model file fail at a random "
          "byte, or the output cannot be written: non-zero exit, a message, "
          "exactly the results of the entries before; only cases in which the "
          "injected error was delivered are judged; distinct by model and faults",
     builds=[{"name": "main-io-o2", "flavor": "o2", "sources": ["ioshim.cc"], "repo_extra": [MAIN]}],
     runs=[run("ioerr", "load", "o2", 800, 8000, more=["ioshim.cc"]),
           run("ioerr", "load", "asan", 160, 1600, more=["ioshim.cc"]),
           run("cli", "ioerr", "o2", 400, 4000, exe_env={"VERIF_CLI": "main-io-o2"})],
     require=[("failed_reads", 5000), ("refused_headers", 500), ("refused_directory", 300),
              ("failed_waves", 200), ("failed_lists", 200), ("failed_models", 200)])

prop("C34",
     technique="deterministic work counter (executed basic blocks, bulk bytes moved) with growth monitor",
     rule="streams of the same audio 48 times over (240 thorough) in five cuts, "
          "with and without words; the same utterance 16 times (60 thorough) on "
          "one recogniser with others in between or the recogniser reloaded; "
          "searches of 16000 frames (60000 thorough); crowds of 100000..140000 "
          "and four times as many states; filter banks and acoustic model alone "
          "over 80000 frames (300000 thorough); work is counted per period, "
          "utterance or frame; distinct by work counts",
     runs=[run("work", "stream", "work", 48, 400),
           run("work", "repeat", "work", 96, 1000),
           run("work", "search", "work", 32, 200),
           run("work", "front", "work", 16, 80),
           run("work", "crowd", "work", 12, 80)],
     require=[("periods", 1000), ("utterances", 800), ("frames", 300000), ("crowds", 6),
              ("front_frames", 500000)])
