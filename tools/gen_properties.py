#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Results do not depend on how the audio stream is cut into calls",
  "For one utterance, feeding the same audio bytes through the processing call in any sequence of non-empty pieces (single bytes, pieces that split a sample, pieces shorter or longer than a frame, everything at once) gives, bit for bit, the same final transcript, the same score and the same total number of samples reported. After any two feedings of the same prefix of the bytes the partial transcript is the same too, and each call returns exactly the number of samples completed by its bytes.",
  ["inputs", "histories"], "all audio byte strings, all sample widths (8/16/32 bit), all partitions of the bytes into calls, all models",
  "The only streaming test feeds one file through the feature extractor in fixed chunks; the API, odd byte splits, the acoustic batch and the decoder are never driven with different partitions.",
  ["src/ce_stt.cc", "src/pcm_reader.cc", "src/fbank.cc", "src/am.cc", "src/decoder.cc"],
  [("left-over bytes kept between calls", "WaveReader::Process in src/pcm_reader.cc"), ("left-over samples kept between calls", "Fbank::Process in src/fbank.cc"), ("feature queue and batches", "AcousticModel::Process in src/am.cc")],
  [("wave_reader.buffer_, fbank_inst.wave_buffer, am_inst.feats_buffer", "what has been received but not consumed", "ce_utt_internal_t in src/ce_stt.cc")],
  ["return value of ce_stt_process", "utt->hyp and utt->loglikelihood_per_frame after every call"])
p("C02", "The final transcript and score are the best path for the audio",
  "At end of stream the transcript is the word sequence of a minimum-cost path through the decoding graph that consumes every 25 ms/10 ms frame of the audio and ends in a final state, where a frame costs 0.1 times the negated (network output minus log prior) of the unit on the arc, whenever that best path never lags more than the beam of 16 behind the leading hypothesis; it is empty when no path can end there or when the best path carries no word (for audio shorter than one frame, unless the graph allows words without audio). The reported per-frame score is that path's total cost, final cost included once, divided by the number of frames, and is 0 when there is no path or no frame.",
  ["inputs", "configurations"], "all audio, all well-formed models (graph, network with splice context, prior, unit map, chunk size, with or without a second language model)",
  "No existing test runs the recogniser end to end; the parts are tested on one fixture each and the final-state and score rules not at all.",
  ["src/ce_stt.cc", "src/fbank.cc", "src/am.cc", "src/decoder.cc", "src/nnet.cc"],
  [("pipeline", "ce_stt_process, ce_stt_end_of_stream in src/ce_stt.cc"), ("best path at the end of stream", "Decoder::BestPath in src/decoder.cc")],
  observe=["utt->hyp, utt->loglikelihood_per_frame after ce_stt_end_of_stream"])
p("C03", "Filterbank features follow their definition for any waveform",
  "For every waveform the extractor yields exactly 1 + floor((N-400)/160) frames (none below 400 samples) of 40 log mel energies, each equal, within single-precision error, to the textbook computation (mean removal, 0.97 pre-emphasis, Hamming window, 512-point power spectrum, triangular mel bins 20 Hz to 8 kHz, floor, natural log). Delivered in any pieces, the frames are the same bit for bit, and an instance is not affected by other instances of the extractor.",
  ["inputs", "histories"], "all waveforms (silence, constants, full-scale, impulses, tones, noise), all partitions into calls, interleaved instances",
  "Two tests compare one recorded wave file with stored values and one fixed chunking.",
  ["src/fbank.cc", "src/fbank.h", "src/srfft.cc"],
  [("frame extraction and carry-over", "Fbank::Process in src/fbank.cc"), ("mel banks", "Melbanks in src/fbank.cc")],
  [("wave_buffer", "samples not yet covered by a full frame shift", "Fbank::Instance")], ["matrix returned by Fbank::Process"])
p("C04", "Acoustic scoring gives every frame exactly one correct score row",
  "Over a whole stream the acoustic model outputs exactly one row of scores per input frame, in order, none lost, duplicated or reordered at batch boundaries or at end of stream, for every positive chunk size and every left/right context. Row t equals the network applied to frames t-left..t+right, where frames before the first repeat the first and frames after the last repeat the last, minus the natural log of the prior; it does not depend on the chunk size beyond rounding.",
  ["inputs", "histories", "configurations"], "all frame counts, chunk sizes, context widths, network shapes",
  "No test touches the acoustic model: batch boundaries, padding and the prior are only exercised by running the whole program.",
  ["src/am.cc", "src/am.h", "src/nnet.cc"],
  [("batching", "AcousticModel::Process, BatchAvailable, ComputeBatch in src/am.cc"), ("padding", "AcousticModel::Process and EndOfStream in src/am.cc")],
  [("feats_buffer", "frames still needed as context or not yet scored", "AcousticModel::Instance")], ["log_prob of Process and EndOfStream"])
p("C05", "Beam search returns the cheapest path whenever it stays in the beam",
  "For every decoding graph (epsilon chains, words on epsilon or emitting arcs, several units sharing a score, several final states) and every score sequence, the hypothesis at end of stream has the words of a path that ends in a final state and its weight is that path's cost including the final cost once; before end of stream it is the cheapest active path without final costs. Whenever the globally cheapest path stays within 16 of the leading hypothesis at every frame that path (or one of equal cost) is returned; if no path ends in a final state the hypothesis is empty, and once no hypothesis is left further frames are ignored.",
  ["inputs"], "all graphs without epsilon cycles of negative cost, all finite score sequences up to hundreds of frames, hypotheses asked for at any frame",
  "The decoder has no test at all: correctness against exact search over all graphs and score sequences is not sampled anywhere.",
  ["src/decoder.cc", "src/decoder.h", "src/hashtable.h", "src/pool.h"],
  [("token passing", "Decoder::ProcessEmitting, ProcessNonemitting, InsertTok in src/decoder.cc"), ("best path", "Decoder::BestPath")],
  [("toks_, state_idx_", "one token per reachable state of the current frame", "Decoder")], ["Decoder::BestPath words() and weight()"])
p("C06", "Decoding with a second language model is exact on-the-fly composition",
  "With a large backoff language model configured, a word costs its cost in the decoding graph plus its large-model cost given the full word history minus its original unigram cost, and at end of stream the large model's sentence-end cost minus the original one is added. The returned words and weight are those of the cheapest path under these combined costs whenever it stays within the beam, for words on emitting and on epsilon arcs alike, and hypotheses with different language-model histories are kept apart.",
  ["inputs", "configurations"], "all decoding graphs, backoff language models of any order, word vocabularies and score sequences",
  "The language-model classes have one fixture test each; their use inside the decoder, where costs and histories combine, is untested.",
  ["src/decoder.cc", "src/fst.cc", "src/symbol_table.cc"],
  [("joint state and cost", "Decoder::PropogateLm, State in src/decoder.cc"), ("difference model", "DeltaLmFst in src/fst.cc")],
  observe=["Decoder::BestPath"])
p("C07", "Word histories stay intact however long the utterance is",
  "At any moment of a stream of any length, the partial or final transcript is exactly the word history of the current cheapest hypothesis from the very first frame: no word is lost, duplicated, replaced or attached to another hypothesis when the history store is reclaimed and its nodes are reused, however many hypotheses branch, merge and die.",
  ["histories", "inputs"], "streams of thousands of frames and hundreds of reclamations, graphs whose hypotheses share, fork and abandon word histories",
  "Reclamation runs every 20 frames inside the decoder; the pool test frees a hand-made list once and nothing checks histories afterwards.",
  ["src/decoder.cc", "src/decoder.h", "src/pool.h"],
  [("mark and sweep from live tokens", "GCPool::GC in src/pool.h, called by Decoder::Process"), ("sharing of equal histories", "Decoder::InsertTok, OLabel::OnCollect in src/decoder.cc")],
  [("olabels_pool_", "word-history nodes", "Decoder")], ["Decoder::BestPath after every frame"])
p("C08", "The hypothesis cap never drops the leading hypothesis",
  "When more than 30000 hypotheses are active, narrowing the beam keeps the leading hypotheses: a path that at every frame is among the best 1000 hypotheses and costs at most 0.5 more than the best one is returned exactly as without the cap, unless the costs are arranged against the fixed positions at which the cap samples them. Narrowing is deterministic: decoding the same input again gives the same words and weight.",
  ["inputs"], "graphs with tens of thousands to hundreds of thousands of simultaneously active states, ties and skewed cost distributions",
  "No test has a beam that large; the code path that estimates the cutoff by sampling is never executed by the test suite.",
  ["src/decoder.cc", "src/hashtable.h", "src/pool.h"],
  [("sampled cutoff", "Decoder::GetCutoff in src/decoder.cc")], observe=["Decoder::BestPath"])
p("C09", "Memory does not grow with stream length or with the number of utterances",
  "While an utterance is streamed, the memory held by the recogniser stays bounded by the model, the beam and the words of the transcript, not by the number of frames processed. Destroying an utterance releases everything it held, destroying a recogniser releases everything it held, including after failed initialisations, so repeated use returns to the same amount of live memory.",
  ["histories"], "streams of thousands of frames, repeated create/use/destroy histories, failed creations, early destruction at any point",
  "Tests neither measure memory nor run long enough for growth to show.",
  ["src/decoder.cc", "src/pool.h", "src/ce_stt.cc", "src/fbank.cc", "src/vector.cc"],
  [("tokens returned to the pool", "Decoder::ProcessEmitting, InsertTok"), ("history reclamation", "GCPool::GC"), ("destructors", "ce_stt_destroy, ce_utt_destroy in src/ce_stt.cc")],
  observe=["live heap bytes before, during and after the history"])
p("C10", "The hash table behaves like a map for every key set and capacity",
  "After any history of inserts, updates, lookups and clears, a lookup returns the value last inserted for that key since the last clear, or the caller's default if there is none, for every initial capacity, through every growth step, and for key sets that collide or share a hash value. Every operation terminates.",
  ["histories", "inputs"], "all operation histories, key types int and state pairs, initial capacities from 1, tables from empty to millions of keys",
  "One test inserts a fixed range of integers and reads them back; collisions, small capacities, clears after growth and large tables are not reached.",
  ["src/hashtable.h", "src/hashtable.cc"],
  [("quadratic probing and growth", "HashTable::Lookup, Insert, ExtendBuckets in src/hashtable.h")],
  [("size_, bucket_size_, empty_", "occupancy", "HashTable")], ["Find results"])
p("C11", "The object pool never aliases, loses or double-destroys objects",
  "Under any history of allocations, releases and clears, every live object of a pool keeps the contents it was given and shares no memory with another live object, each constructed object is destroyed exactly once (on release, clear or destruction of the pool), and no object that was never constructed is destroyed. The reported number of allocated objects equals the number of live ones, and released memory is reused before the pool grows.",
  ["histories"], "all histories across block boundaries and several clears, trivially and non-trivially destructible types",
  "The pool test runs two fixed allocation patterns and counts allocations only.",
  ["src/pool.h"], [("blocks and free list", "Pool::Alloc, Dealloc, Clear in src/pool.h")],
  [("current_block_, current_pos_, free_", "which cells are live", "Pool")], ["constructor/destructor events of the stored type", "allocated_nodes(), free_nodes()"])
p("C12", "Garbage collection frees exactly the unreachable nodes",
  "After a collection with any set of roots, every node reachable from a root through previous-links is untouched and still counted as allocated, every other allocated node has been notified once and destroyed once and its memory becomes reusable, and nodes released earlier are not released again; this holds for any number of collections interleaved with allocations and explicit releases.",
  ["histories"], "all histories of allocate/release/collect over forests of linked nodes, across block boundaries, with shared and duplicate roots",
  "One test collects a single fixed structure; later collections, reuse of freed cells and the most recently allocated node are where it breaks.",
  ["src/pool.h"], [("mark and sweep", "GCPool::GC in src/pool.h")],
  [("state_ of each node", "freed / in use / marked", "Collectable")], ["OnCollect and destructor events", "allocated_nodes()"])
p("C13", "Language-model lookups implement backoff exactly",
  "For every backoff model, state and word, the lookup finds the word's own arc if the state has one and otherwise follows backoff arcs, accumulating their costs, until a state has it; it fails only if no state on the chain has it. Final costs follow the same chain, the precomputed table for the lowest-order state changes no answer, iteration yields exactly a state's arcs, and the difference model's start state, word costs and sentence-end cost are those of the large model with the sentence symbols applied, minus the original unigram costs.",
  ["inputs"], "all backoff models (any order, states without arcs, states without backoff, words missing from the unigrams), all states and words",
  "Three tests query a handful of arcs of one small fixture.",
  ["src/fst.cc", "src/fst.h"],
  [("arc search", "Fst::CountArcs, GetArc in src/fst.cc"), ("backoff", "LmFst::GetArc, Final, InitBucket0"), ("difference", "DeltaLmFst")],
  observe=["GetArc/Final/StartState/IterateArcs results"])
p("C14", "Caching language-model lookups is invisible",
  "For every underlying model and every sequence of queries, the cached lookup gives the same success flag, next state, labels and cost as asking the model directly, for every cache size including one where all queries collide, and whatever was asked before.",
  ["histories", "inputs"], "all query histories over states and words (existing and missing), all cache sizes, all models",
  "No test uses the cache.",
  ["src/fst.cc", "src/fst.h"], [("direct-mapped cache", "CachedFst::GetArc in src/fst.cc")],
  [("buckets_", "cached arc per (state, word) hash", "CachedFst")], ["CachedFst::GetArc results"])
p("C15", "Network layers compute their definition for every shape and finite input",
  "For every input matrix shape and finite parameters, each layer (linear, splice, batch-norm, ReLU, normalise, softmax, log-softmax, narrow) and any stack of them read from a model file computes its mathematical definition within single-precision error, row by row, and does not modify its input. Softmax rows are non-negative and sum to one and log-softmax rows are finite for activations of any size, and an all-zero row never produces NaN. (Inputs are finite, with squares representable in single precision for the normalise layer.)",
  ["inputs", "configurations"], "all shapes (single row, wide, tall), indices beyond both edges, activation sizes from tiny to thousands, stacks of layers",
  "Each layer is tested on one hand-written matrix.",
  ["src/nnet.cc", "src/vector.cc", "src/matrix.cc"],
  [("layers", "Layer::Propagate implementations in src/nnet.cc"), ("stack", "Nnet::Propagate")], observe=["Propagate outputs"])
p("C16", "8-bit quantised products stay within the quantisation error bound",
  "For every finite matrix whose value range (zero included) is not a tiny fraction of its magnitude, quantisation maps each element to a code whose dequantised value is within one quantisation step (the value range, zero included, divided by 255) of the element, including for matrices of equal elements. The product of two quantised matrices equals, within float rounding, the exact product of the dequantised matrices, for every shape with more than one element per operand as long as the integer sums fit 32 bits.",
  ["inputs"], "all shapes from 1xK to hundreds, values of one sign or mixed, concurrent callers",
  "One test multiplies random matrices of fixed size and checks a loose average error.",
  ["src/matrix.cc", "src/gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc"],
  [("quantisation", "Quantize, ComputeQuantizationParams in src/matrix.cc"), ("integer product", "MatMat_U8U8F32")], observe=["Quantize output and params", "MatMat_U8U8F32 output"])
p("C17", "Matrix and vector operations are exact on every shape and view",
  "Products, copies, transposes, ranges, row views, resizing (zeroing, or keeping the shared part and zeroing the rest), scaling, element-wise operations, dot products, floors and conversions equal their definition for every shape, including matrices with padded rows and sub-matrix views, and write nothing outside the target view. Moving and swapping keep contents and release nothing twice.",
  ["inputs", "histories"], "all shapes including empty, all strides, all sequences of operations on shared storage",
  "The linear-algebra layer is only tested through one GEMM comparison.",
  ["src/matrix.cc", "src/matrix.h", "src/vector.cc", "src/vector.h"],
  [("storage and views", "Matrix::Resize, SubMatrix, Vector::Resize"), ("product", "MatMat, SimpleMatMat")], observe=["contents of targets and of the memory around views"])
p("C18", "The fast Fourier transform equals the DFT and inverts exactly",
  "For every power-of-two size and every real input, the forward transform yields the discrete Fourier transform in the packed real layout within single-precision error of the input's norm, and the inverse transform applied to it returns the input scaled by the size. One transform object can be used for any number of inputs, in either direction and from several threads, without affecting later results.",
  ["inputs", "histories", "schedules"], "sizes 4..131072, impulses, tones, constants, noise of any amplitude, any order of forward and inverse calls",
  "One test transforms one fixed vector of one size.",
  ["src/srfft.cc", "src/srfft.h"], [("split radix recursion and tables", "SRFFT::Compute in src/srfft.cc")], observe=["transformed buffer"])
p("C19", "Cepstral mean normalisation is the exact sliding window",
  "For every feature matrix and global statistics, frame t minus its output equals the mean over the last min(t+1, 600) frames up to and including t, where while fewer than 600 frames are in the window min(200, 600 - frames) frames' worth of the global mean are added. Frames asked in order give the same result whatever the length of the utterance, and the inputs are not modified.",
  ["inputs", "histories"], "utterances from 1 to thousands of frames, arbitrary features and global statistics",
  "One test uses a recording shorter than the window, so the sliding part is not reached.",
  ["src/cmvn.cc", "src/cmvn.h"], [("running sums", "CMVN::ComputeStats, SmoothStats, Apply in src/cmvn.cc")],
  [("cached_stats_", "sums over the window", "CMVN")], ["CMVN::GetFrame output"])
p("C20", "Wave headers and PCM bytes are decoded exactly or rejected",
  "A header is accepted exactly when it is a 16-byte-format uncompressed-PCM RIFF/WAVE header whose byte rate and block size match one channel of the stated rate and width, and then the stated channels, rate and width are reported and the read position is at the first sample byte; anything else, including every truncation, is rejected with a message. Sample bytes, however they are cut into calls or read from a file at once, are decoded as little-endian signed integers of the stated width (8, 16 or 32), every complete sample exactly once, and only mono 16 kHz of those widths is accepted for decoding.",
  ["inputs", "histories"], "all header bytes (valid, each field altered, truncated at each byte), all sample bytes and partitions",
  "No test reads a malformed header or splits a sample.",
  ["src/pcm_reader.cc", "src/pcm_reader.h", "src/ce_stt.cc"],
  [("header checks", "ReadPcmHeader in src/pcm_reader.cc"), ("sample assembly", "WaveReader::Process")],
  [("buffer_", "bytes of an incomplete sample", "WaveReader")], ["format and status returned", "samples returned"])
p("C21", "Configuration files mean what they say",
  "For every configuration text, whatever the length of its lines, a lookup returns the value of the last line setting that key, with keys compared case-insensitively, surrounding blanks removed, and comments and blank lines ignored, with or without a final newline and with either line ending; a line without '=', with several '=' separating non-empty parts, or with an empty value makes reading fail. Relative paths are resolved against the directory of the configuration file, absolute ones are unchanged, and integers are returned exactly or reported as missing or malformed without raising an exception.",
  ["inputs"], "all configuration texts, key spellings, path forms and integer texts",
  "One test reads one fixture file.",
  ["src/configuration.cc", "src/configuration.h", "src/util.cc"],
  [("parsing", "Configuration::Read"), ("lookups", "GetPathOrElse, GetStringOrElse, GetInteger")], observe=["Status and values returned"])
p("C22", "The symbol table maps every word and id of its file, or refuses it",
  "For every table file, in any order, with gaps and any number of entries, with or without a final newline, each listed id returns its word and each listed word its id, unlisted words return 'not present', gaps return the empty string, and the sentence-begin and sentence-end ids are the listed ones. Files with a malformed line, an id that is not a non-negative integer, or without both sentence symbols are refused with an error.",
  ["inputs"], "all table files from 2 to hundreds of thousands of entries, UTF-8 words, shuffled and sparse ids, malformed lines at any position",
  "One test reads a small ordered fixture.",
  ["src/symbol_table.cc", "src/symbol_table.h", "src/util.cc"],
  [("reading", "SymbolTable::Read"), ("lookup", "SymbolTable::Get, GetId")], observe=["Status, Get, GetId, bos_id, eos_id"])
p("C23", "A broken model never yields a recogniser and never takes the process down",
  "For every single fault in the model set (a file missing, a binary file truncated at any byte, a wrong magic, a size field that is negative, larger than the content or inconsistent with the shape as far as that much memory can be allocated, a required key missing, empty or not a number where one is needed, a malformed configuration or symbol line), initialisation returns no recogniser, leaves a non-empty error message, does not crash, abort or raise, and leaks nothing; the same process can initialise the repaired model afterwards and it works.",
  ["fault_sequences", "configurations"], "every truncation point of every model file and every listed single fault of the configuration, in sequence within one process",
  "No test initialises the recogniser, let alone from broken files.",
  ["src/ce_stt.cc", "src/am.cc", "src/nnet.cc", "src/vector.cc", "src/matrix.cc", "src/fst.cc", "src/symbol_table.cc", "src/configuration.cc"],
  [("status propagation", "ce_stt_init in src/ce_stt.cc, PK_CHECK_STATUS"), ("size checks", "Vector::Read, Matrix::Read, Fst::Read, Nnet::Read")],
  observe=["return value of ce_stt_init", "ce_stt_last_error", "live heap bytes"])
p("C24", "Binary model files are read back exactly or rejected",
  "A vector, matrix, language-model graph or network stored in the documented binary layout is read back with exactly the stored shape and contents, several objects in one file are read one after another, and empty objects are read as empty. A file cut at any byte, or with a wrong section name, a negative shape or a section size inconsistent with it (vector, matrix row, graph), is reported as an error instead of yielding an object.",
  ["inputs", "crash_points"], "all shapes and contents including empty, NaN payloads and extremes, every truncation point, every section name byte",
  "Fixture files are read in a few tests; none is damaged and none is compared bit for bit.",
  ["src/vector.cc", "src/matrix.cc", "src/fst.cc", "src/nnet.cc", "src/util.cc"],
  [("readers", "Vector::Read, Matrix::Read, Fst::Read, Nnet::Read"), ("block reads", "ReadableFile::Read")], observe=["Status and object contents"])
p("C25", "No call history corrupts memory or runs into undefined behaviour",
  "Over every history of interface calls on valid objects (creating, feeding, ending, reading results, destroying utterances in any order, with any audio bytes, any piece sizes, any number of utterances alive, results read at any time, more audio after the end), no memory is read or written outside live objects, no uninitialised or undefined operation is executed, nothing is freed twice, and the transcript is always a NUL-terminated string.",
  ["histories", "inputs"], "all call histories, hostile audio (all byte values, extremes, NaN-free or not), all models that load",
  "Tests run without sanitizers and never call the interface.",
  ["src/ce_stt.cc", "src/decoder.cc", "src/pool.h", "src/fbank.cc", "src/am.cc", "src/pcm_reader.cc"],
  [("ownership", "ce_utt_init, ce_utt_destroy, ce_stt_destroy"), ("transcript buffer", "StoreHypText in src/ce_stt.cc")], observe=["AddressSanitizer and UndefinedBehaviorSanitizer reports", "utt->hyp"])
p("C26", "One recogniser can serve many threads at once",
  "Any number of utterances of one recogniser can be created, fed, ended and destroyed concurrently, each from its own thread: there is no data race, and every utterance gives exactly the transcript and score it gives when run alone. Recognisers may be created and destroyed in other threads at the same time, and when requests fail in several threads at once, each thread reads the message of its own last failed request.",
  ["schedules"], "all interleavings of any number of threads, with and without a second language model",
  "All tests are single-threaded.",
  ["src/ce_stt.cc", "src/am.cc", "src/fbank.cc", "src/decoder.cc", "src/fst.cc"],
  [("per-utterance state", "ce_utt_internal_t in src/ce_stt.cc"), ("const shared model", "AcousticModel::Process, Fbank::Process, DeltaLmFst"), ("per-thread message", "error_message in src/ce_stt.cc")], observe=["ThreadSanitizer reports", "per-thread results", "ce_stt_errmsg per thread"])
p("C27", "Utterances are isolated and repeatable",
  "The results of an utterance depend only on the model and its own audio: they are bit-for-bit the same when it is decoded again, when other utterances of the same or another recogniser are fed in between, when earlier utterances were abandoned half-way or fed garbage, and when recognisers are destroyed and created anew.",
  ["histories"], "all interleavings of calls on several utterances and recognisers within one thread",
  "No test holds two utterances at a time.",
  ["src/ce_stt.cc", "src/fbank.cc", "src/am.cc", "src/decoder.cc"],
  [("per-utterance state", "ce_utt_internal_t in src/ce_stt.cc"), ("model objects are const", "Fbank::Process, AcousticModel::Process")], observe=["utt->hyp, score, return values"])
p("C28", "The command-line program prints what the library returns",
  "For every readable wave file the program prints exactly the library's final transcript on one line; for a list file it prints, in order, one line per entry with the entry's name and that transcript, for any number of entries, with or without a final newline. A missing or unusable model, list line or wave file makes it stop with a non-zero exit status and an error message, after having printed the results of the entries before it.",
  ["inputs", "fault_sequences"], "all list files and wave files (empty data, data not a multiple of the sample or buffer size, with every supported width), every faulty entry position",
  "No test runs the program.",
  ["src/main.cc", "src/util.cc", "src/ce_stt.cc"],
  [("audio loop", "ProcessAudio in src/main.cc"), ("list loop", "process_scp in src/main.cc")], observe=["stdout and exit status"])
p("C29", "Model conversion tools and the library's readers agree",
  "What the conversion scripts write is read by the library as exactly the same model: network layers, weights, biases and contexts from the text network description, unit maps, priors and statistics, unigram costs (also of models first pruned to unigrams) and language-model graphs (every arc, final cost and start state, with arcs sorted by input label), for every valid input.",
  ["inputs", "programs"], "all valid text models: layer sequences and shapes, vectors, vocabularies, language-model graphs with any state numbering",
  "The tools have no tests and the fixtures were produced by hand.",
  ["tool/convert_am.py", "tool/convert_cmvn_stats.py", "tool/convert_trans.py", "tool/convert_unigram.py", "tool/convert_fstfmt.py", "tool/prune_lm.py", "src/nnet.cc", "src/vector.cc", "src/fst.cc"],
  [("writers", "tool/*.py"), ("readers", "Nnet::Read, Vector::Read, Fst::Read")], observe=["objects read from converted files"])
p("C30", "Invalid requests are refused without side effects",
  "A null utterance, a null or non-positive-size buffer, an unsupported audio format, an unusable model or an unusable wave header each yields the documented failure value and a non-empty, NUL-terminated, bounded error message, whatever the length of the file names involved. A refused request changes nothing: the utterance it was addressed to continues and ends exactly as if the request had not been made.",
  ["inputs", "histories"], "all invalid arguments at every point of a stream, file names up to the system limit",
  "No test calls the interface with invalid arguments.",
  ["src/ce_stt.cc", "src/pcm_reader.cc", "src/strlcpy.cc"],
  [("parameter checks", "CheckParamUtt, WaveReader::Process, WaveReader::SetFormat"), ("message buffer", "error_message in src/ce_stt.cc, pasco_strlcpy")],
  [("error_message", "last error text", "src/ce_stt.cc")], ["return values, ce_stt_last_error, later transcript"])

p("C31", "Partial transcripts are the best hypothesis of the audio so far",
  "While a stream is fed, after every call the transcript is the word sequence of a cheapest active path (final costs not counted) through the decoding graph after one of the last 20 frames scored so far, and the score is that path's cost divided by that number of frames, whenever that path never lagged more than the beam of 16 behind the leading hypothesis; before 20 frames are scored the transcript may still be empty. Frames are scored as soon as a full batch of them and its right context have been received.",
  ["inputs", "histories", "configurations"], "all audio, all piece sizes, all well-formed models, the transcript read after any call",
  "No test reads a partial transcript.",
  ["src/ce_stt.cc", "src/am.cc", "src/decoder.cc"],
  [("periodic update", "ce_stt_process, StoreHypText in src/ce_stt.cc"), ("best active path", "Decoder::BestPath in src/decoder.cc")],
  observe=["utt->hyp, utt->loglikelihood_per_frame after every call of ce_stt_process"])
p("C32", "A model whose parts contradict each other is refused",
  "For every model whose files are well formed one by one but do not fit together - a label, next state, start state or arc position of the decoding graph that leads outside the graph, the transition map or the symbol table; a pdf of a used transition beyond the priors; a language-model start, state, label or arc position out of range, a cycle of back-off arcs, fewer original costs than words used; network layers that do not fit the layer before, the 40 features, the number of priors or the configured left and right context; a negative context or chunk size - initialisation returns no recogniser, leaves a non-empty error message, does not crash or abort, and leaks nothing; the same process can then initialise the repaired model and it decodes as before.",
  ["fault_sequences", "configurations"], "every single contradiction of the listed kinds, in any valid model, in sequence within one process",
  "No test loads a complete model.",
  ["src/ce_stt.cc", "src/am.cc", "src/am.h", "src/nnet.cc", "src/fst.cc", "src/symbol_table.h", "src/openfst/include/fst/const-fst.h"],
  [("checks across files", "CheckHclgFst, CheckOriginalLm in src/ce_stt.cc, AcousticModel::CheckShape, AcousticModel::HasTransition"), ("checks within a file", "Fst::Read, LmFst::HasBackoffCycle in src/fst.cc, ConstFst::Read"), ("contexts", "AcousticModel::Read")],
  observe=["return value of ce_stt_init", "ce_stt_last_error", "live heap bytes", "results of the repaired model"])
p("C33", "An I/O error is reported, never taken for the end of the data",
  "When reading any file of a model, the configuration or a wave header fails at any byte, or the path names a directory, initialisation (or reading the header) fails with a fresh non-empty error message and leaks nothing, and succeeds once the file can be read again. When reading a wave file, the list or a model file fails at any byte under the command-line program, it stops with a non-zero exit status and a message after having printed the results of the entries before, and never prints a result for the entry it could not read completely; when its output cannot be written it exits with a non-zero status.",
  ["fault_sequences"], "a read error at every byte of every file, persistent or once; output errors",
  "No test makes a read or a write fail.",
  ["src/util.cc", "src/main.cc", "src/ce_stt.cc", "src/configuration.cc", "src/symbol_table.cc", "src/pcm_reader.cc", "src/openfst/include/fst/const-fst.h"],
  [("reading lines and values", "ReadableFile::ReadLine, ReadableFile::Read in src/util.cc"), ("the program", "ProcessAudio, process_scp, main in src/main.cc"), ("propagation", "Configuration::Read, SymbolTable::Read, ce_stt_init")],
  observe=["return value of ce_stt_init and ce_read_pcm_header", "ce_stt_last_error", "live heap bytes", "exit status and output of the program"])
p("C34", "The work per piece of audio does not grow with what was decoded before",
  "The work done to process a piece of audio is bounded by the piece, the model, the beam and the transcript: it does not grow with the number of frames the utterance has already processed (apart from a part proportional to the transcript so far, which is written anew every 20 frames), nor with the number of utterances a recogniser has served or how often recognisers were loaded, and once more hypotheses are alive than the cap of 30000 allows, not with the number of states of the decoding graph either.",
  ["inputs", "histories"], "all models, all audio, streams of any length cut in any way, any number of utterances",
  "Tests decode a few short utterances and do not look at the work done.",
  ["src/ce_stt.cc", "src/decoder.cc", "src/am.cc", "src/fbank.cc", "src/pool.h", "src/hashtable.h"],
  [("per-frame work", "Decoder::Process, GetCutoff, gc_pool in src/decoder.cc and src/pool.h"), ("per-call work", "ce_stt_process in src/ce_stt.cc"), ("batches", "AcousticModel::Process in src/am.cc")],
  observe=["executed basic blocks and bytes moved per call"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
