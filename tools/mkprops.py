#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=tests,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if hook: d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Batch encoding equals encoding each input alone, in order",
 "Encoding a batch concurrently returns exactly one result per input, in input order, each identical in every field to what encoding that input by itself gives, and, when padding is configured, padded exactly as padding the whole batch at once prescribes. If any input cannot be encoded the call returns an error and no results, and no input makes it crash. This holds for every scheduling of the concurrent work, every tokenizer configuration and every batch, including the empty one.",
 ["schedules", "configurations", "inputs"],
 "Every interleaving of the per-input goroutines of a batch, over all pipeline configurations (models, normalizers, pre-tokenizers, post-processors, truncation, padding, added tokens) and batches of any size.",
 "The suite encodes a few fixed batches under whatever schedule the Go runtime happens to produce; an ordering or sharing mistake needs a particular interleaving of the goroutines.",
 ["tokenizer.go", "encoding.go", "util.go"],
 [("concurrent fan-out over inputs", "tokenizer.go EncodeBatch"), ("batch padding", "PadEncodings")])

prop("C02", "Batch decoding equals decoding each sequence alone, in order",
 "Decoding a batch of id sequences concurrently returns exactly one string per sequence, at the index of that sequence, each identical to decoding it by itself. No result is lost, duplicated or moved under any scheduling of the concurrent work, for any batch, decoder and skip-special-tokens setting.",
 ["schedules", "inputs", "configurations"],
 "Every interleaving of the per-sequence goroutines, over all decoders and batches of any size.",
 "No stable test runs batch decoding under a controlled schedule; results lost to an unsynchronised append need two goroutines to overlap inside it.",
 ["tokenizer.go", "decoder/"],
 [("concurrent fan-out over sequences", "tokenizer.go DecodeBatch")])

prop("C03", "One tokenizer serves any number of concurrent readers safely",
 "Any number of goroutines may encode, decode, tokenize, query vocabularies and special tokens and save the model through one shared tokenizer at once: each call returns what it would return if it ran alone, there is no data race, deadlock or crash, and afterwards the tokenizer's observable state is what it was before. This holds for every built-in model, normalizer, pre-tokenizer, post-processor and decoder and for every interleaving.",
 ["schedules", "configurations", "histories"],
 "Every interleaving of several clients' histories of read-only operations on one tokenizer, for every built-in component.",
 "The tests use each tokenizer from one goroutine; a data race or a shared scratch buffer only shows under overlapping calls, and only in some interleavings.",
 ["tokenizer.go", "added-vocabulary.go", "model/", "normalizer/", "pretokenizer/", "processor/", "decoder/"],
 [("model caches", "model/bpe/cache.go, model/unigram/unigram.go"), ("vocabulary accessors", "tokenizer.go GetVocab"), ("package-level tables and regular expressions", "pretokenizer/bytelevel.go, normalizer/bert.go")])

prop("C04", "What the tokenizer hands out is the caller's own",
 "Encodings, token lists, vocabulary maps and special-token lists returned by the tokenizer are snapshots: later operations on the tokenizer never change them, and whatever a caller does to them (overwriting elements, appending, deleting or inserting map entries) never changes what the tokenizer or any other caller sees. Results of one batch or of one truncated encoding do not share storage in a way that lets changing one change another.",
 ["histories", "schedules", "inputs"],
 "All histories in which several clients interleave calls with mutations of the results they got, under every interleaving.",
 "Tests inspect results once and drop them; aliasing needs a later write through one reference and a read through another.",
 ["tokenizer.go", "encoding.go", "added-vocabulary.go", "model/"],
 [("returned vocabulary map", "tokenizer.go GetVocab"), ("cached tokens", "model/bpe/bpe.go TokenizeWithCache, model/unigram/unigram.go Tokenize"), ("truncation overflow slices", "encoding.go Truncate")])

prop("C05", "Model caches never change a result",
 "Whatever was tokenized before, by whom and in what order, and whatever the capacity of the word cache (disabled, one entry, tiny, ample), however often it is cleared, and however far the clock jumps past entry lifetimes, tokenizing a string yields the same tokens, ids and offsets as a freshly built model that has no history.",
 ["histories", "schedules", "configurations", "inputs"],
 "All histories of lookups, insertions, clears and clock advances by concurrent clients over all cache capacities.",
 "Tests tokenize each string about once with one cache configuration and never move the clock; a stale, mixed-up or expired entry needs a particular history.",
 ["model/bpe/cache.go", "model/bpe/bpe.go", "model/unigram/unigram.go"],
 [("BPE word cache", "model/bpe/bpe.go TokenizeWithCache"), ("Unigram expiring cache", "model/unigram/unigram.go Tokenize")])

prop("C06", "The word cache is a linearizable map bounded by its capacity",
 "Concurrent gets, bulk gets, bulk sets, clears and size queries on one word cache behave as if each took effect at one instant between its call and its return: a lookup returns the value last stored for exactly that key since the last clear, or nothing. The cache never holds more entries than its capacity, never invents or mixes entries, accepts entries while there is room, and never deadlocks.",
 ["schedules", "histories"],
 "Every interleaving of concurrent histories of cache operations, all capacities.",
 "The tests check sequential use and one unstructured concurrent smoke run; linearizability is a statement about every overlapping history.",
 ["model/bpe/cache.go"],
 [("read-write lock around the map", "model/bpe/cache.go"), ("capacity check in bulk set", "model/bpe/cache.go SetValues")])

prop("C07", "Training counts every line of every file exactly once",
 "The word counts handed to the trainer are those of processing each line of each training file exactly once, whatever the number, sizes, line lengths and line endings of the files, wherever chunk boundaries fall, however reads are split, and however the reading goroutines are scheduled. Nothing is dropped at a boundary or at the end of a file and nothing is counted twice.",
 ["schedules", "inputs", "configurations"],
 "Every set of files, every placement of chunk boundaries relative to lines, every split of reads and every interleaving of the scanning and collecting goroutines.",
 "The tests train on one small file that fits one chunk; files above the chunk size start several workers whose split of the file depends on scheduling.",
 ["tokenizer.go"],
 [("chunked concurrent scan", "tokenizer.go Train, processChunk"), ("collector goroutine", "tokenizer.go Train")],
 hook="chunk size and scan buffer size as variables under the verif build tag")

prop("C08", "Training is deterministic",
 "Training on the same word counts with the same options yields the same vocabulary with the same ids and the same ordered merges every time, independent of goroutine scheduling, map iteration order, the clock and earlier trainings in the process. Splitting the counting work over parallel workers on a large corpus gives the same result as counting it in one piece.",
 ["schedules", "inputs", "configurations"],
 "Every schedule, hash seed and clock behaviour, all corpora including those large enough for parallel counting, all trainer options.",
 "A test runs one training per process and compares with a fixed answer on a corpus without ties; ties broken by map order or the clock, and the parallel path, need other inputs, seeds and schedules.",
 ["model/bpe/trainer.go", "model/wordpiece/trainer.go", "model/bpe/word.go"],
 [("parallel pair counting", "model/bpe/trainer.go countPairs"), ("tie break in the merge queue", "model/bpe/trainer.go HConfig comparator"), ("alphabet and vocabulary construction", "model/bpe/trainer.go")])

prop("C09", "A training run that cannot read its data fails cleanly",
 "If a training file is missing, cannot be opened or fails while being read, or the normalizer or pre-tokenizer fails on a line, training returns an error instead of exiting the process or training on a silently truncated corpus. The tokenizer keeps its previous model and vocabulary and remains usable, including for a later successful training.",
 ["fault_sequences", "schedules", "inputs"],
 "Every placement of open, stat and read faults and component failures over the files, chunks and lines of a training run, under every interleaving.",
 "Tests train only on readable files with healthy components; no test injects a fault.",
 ["tokenizer.go", "util/util.go"],
 [("file scan", "tokenizer.go processChunk"), ("error collection", "tokenizer.go Train"), ("file size probe", "util/util.go FileSize")],
 hook="chunk size and scan buffer size as variables under the verif build tag")

prop("C10", "A saved model is complete, or the save reports an error",
 "When saving a BPE, WordPiece, WordLevel or Unigram model reports success, every file it promises is on disk in full and holds exactly that model, so loading a BPE, WordPiece or WordLevel model back gives the same tokenization; if creating, writing or closing any of the files fails or falls short, the save returns an error. Saving never changes the model.",
 ["fault_sequences", "inputs", "configurations"],
 "Every placement of disk faults (full disk, short and failed writes, failed create and close) over the system calls of a save, all models and vocabularies.",
 "Tests save to a healthy disk, if at all; no test injects a disk fault.",
 ["model/bpe/bpe.go", "model/wordpiece/wordpiece.go", "model/wordlevel/wordlevel.go", "model/unigram/unigram.go"],
 [("model writers", "Save methods of the models")])

prop("C11", "Loading yields the whole model or an error, never a partial one",
 "Reading a tokenizer configuration, a vocabulary or a merges file gives a tokenizer equal to the one described by the complete file, however the underlying reads are split, and gives the same one every time; if opening or reading fails at any point, loading returns an error. A read fault never produces a model or tokenizer built from part of the data, and a failed load does not affect a later one.",
 ["fault_sequences", "inputs", "configurations"],
 "Every split of the reads and every placement of a read or open fault over every loader, all files.",
 "Tests load healthy files only; a truncated load needs a fault at a particular read.",
 ["config.go", "pretrained/tokenizer.go", "pretrained/model.go", "model/bpe/bpe.go", "model/wordpiece/wordpiece.go", "model/wordlevel/wordlevel.go"],
 [("configuration loading", "pretrained/tokenizer.go FromFile, FromReader; config.go ConfigFromFile"), ("vocabulary and merges readers", "ReadFiles / reader functions of the models")])

prop("C12", "The download cache never serves an incomplete file",
 "Whenever resolving a pretrained file succeeds, and whenever a file is visible under its final name in the cache directory, its content is byte for byte the complete source file: no connection failure, bad status, short body, disk error, concurrent request for the same file, crash or power loss at any instant can leave a partial or mixed file there. After a failure the call returns an error and a later attempt on a healthy system succeeds.",
 ["fault_sequences", "crash_points", "schedules", "histories"],
 "Every placement of network and disk faults, every crash and power-loss point between or inside writes, every interleaving of concurrent callers, for remote and local sources.",
 "No stable test can reach the network, and none injects faults, crashes or concurrent callers.",
 ["file-util.go", "init.go"],
 [("download to a temporary file and rename", "file-util.go downloadFile"), ("copy of a local file", "file-util.go copyFile"), ("cache lookup", "file-util.go CachedPath")])

prop("C13", "Resolving a pretrained file releases everything it acquired",
 "However resolving a cached, local or remote pretrained file ends, in success or in any failure, every network response body and every file it opened is closed by the time it returns, it returns instead of ending the process, and no goroutine is left behind. A failed attempt leaves nothing in the cache directory that changes the outcome of later attempts, and repeated attempts do not accumulate open resources.",
 ["fault_sequences", "histories", "schedules"],
 "Every placement of network and disk faults in histories of repeated and concurrent resolutions.",
 "Leaks are invisible to a test that resolves one file once on a healthy system.",
 ["file-util.go", "init.go"],
 [("HTTP requests", "file-util.go CachedPath, downloadFile"), ("file handles", "file-util.go downloadFile, copyFile")])

prop("C14", "Added vocabulary behaves as a stable id registry over any history",
 "Over any history of adding ordinary and special tokens interleaved with lookups, encodings and decodings, each add returns how many tokens were really new, a token's id never changes once assigned, distinct added tokens never share an id with each other or with a model token, lookups by token and by id are inverse, the reported vocabulary and its size agree with each other, and only tokens added as special are skipped when decoding without special tokens. Empty and duplicate tokens add nothing, and a text made only of added tokens encodes to their ids.",
 ["histories", "configurations"],
 "All histories of add, lookup, encode and decode operations by several clients interleaved at operation granularity, over all models.",
 "Tests run a few fixed short histories; the registry invariants quantify over every history.",
 ["added-vocabulary.go", "tokenizer.go"],
 [("id assignment", "added-vocabulary.go AddTokens"), ("token and id maps", "added-vocabulary.go"), ("vocabulary accessors", "tokenizer.go")])

prop("C15", "A failing component fails only the call that used it",
 "When a normalizer, pre-tokenizer or model returns an error during single, pair or batch encoding, that call returns an error and no result, the process keeps running, concurrent calls that do not hit the failure return their normal results, and the tokenizer goes on to encode as if the failure had never happened.",
 ["fault_sequences", "schedules", "configurations"],
 "Every placement of component failures over the calls of concurrent clients, every interleaving.",
 "The built-in components seldom fail and no test injects failing ones, so the error paths of the pipeline are never exercised.",
 ["tokenizer.go", "added-vocabulary.go", "pretokenizer.go"],
 [("error propagation in encoding", "tokenizer.go EncodeSingleSequence, EncodeBatch"), ("normalization inside added-token extraction", "added-vocabulary.go ExtractAndNormalize")])

prop("C16", "Every concurrent operation finishes and leaves nothing running",
 "Batch encoding, batch decoding, training from files, and training a model on many words always return within a bounded number of steps once faults stop, whatever fails inside them and however goroutines are scheduled, stalled or starved, and every goroutine they started has ended by the time they return. No schedule deadlocks.",
 ["schedules", "fault_sequences", "configurations"],
 "Every interleaving including long stalls of single goroutines, with and without injected component and read failures.",
 "A test that happens to finish says nothing about other schedules, and goroutines left blocked are invisible to it.",
 ["tokenizer.go", "model/bpe/trainer.go"],
 [("wait groups and channels of training", "tokenizer.go Train"), ("parallel pair counting", "model/bpe/trainer.go countPairs"), ("batch fan-out", "tokenizer.go EncodeBatch, DecodeBatch")],
 hook="chunk size and scan buffer size as variables under the verif build tag")

prop("C17", "BPE dropout is repeatable and only ever leaves merges out",
 "With dropout configured, tokenizing a word returns within a bounded number of steps whatever random numbers are drawn, and its tokens cut the word into consecutive pieces that are vocabulary entries (or unknown) covering it exactly, whatever numbers are drawn. The same word gives the same tokens each time, whatever was tokenized before or at the same time and in whatever process; nothing tokenized with dropout shows up once dropout is switched off, nor the other way round; a dropout that never drops changes nothing and one that always drops merges nothing.",
 ["histories", "schedules", "inputs"],
 "All sequences of random numbers, histories, interleavings of callers, dropout rates and words.",
 "Tests run one word with three rates through one fixed number sequence; a loop that ends only for that sequence and a cache filled by the wrong mode need other sequences and histories.",
 ["model/bpe/bpe.go", "model/bpe/word.go"],
 [("merge loop with skipped merges and fixed seed", "model/bpe/word.go MergeAll"), ("cache bypass", "model/bpe/bpe.go Tokenize")])

prop("C18", "Separately built tokenizers do not influence each other",
 "Two tokenizers (or models, or components) built separately, even from the same or similar descriptions, share no observable state: encoding, decoding, adding tokens, changing settings, clearing caches, saving or training on one never changes what another returns, in whatever order or interleaving they are used, and no call's result depends on what else the process did before.",
 ["histories", "schedules", "configurations"],
 "All sets of tokenizers, histories of operations over them and interleavings of their users.",
 "Tests compare a tokenizer with fixed expectations; a package-level cache or buffer only shows when another tokenizer that is similar enough was used before in the same process.",
 ["tokenizer.go", "added-vocabulary.go", "model/bpe/cache.go", "model/unigram/unigram.go", "normalizer/", "pretokenizer/", "processor/", "decoder/"],
 [("components held by one tokenizer", "tokenizer.go NewTokenizer"), ("caches of one model", "model/bpe/bpe.go, model/unigram/unigram.go"), ("package-level tables", "pretokenizer/bytelevel.go, normalizer/bert.go")])

prop("C19", "A changed setting takes effect at once and completely",
 "After any history of uses and of changes of normalizer, pre-tokenizer, post-processor, decoder (replaced, or given other parameters by their setters), truncation, padding, added tokens or model, every operation gives exactly what a new tokenizer built with the current settings gives: nothing of an earlier setting, or of results computed under it, remains, and removing a setting equals never having set it.",
 ["histories", "configurations", "schedules"],
 "All histories of changes and uses, between which several callers use the tokenizer at once.",
 "Tests configure a tokenizer once and use it once.",
 ["tokenizer.go", "added-vocabulary.go", "encoding.go"],
 [("setters", "tokenizer.go With…"), ("settings read at each call", "tokenizer.go EncodeSingleSequence, PostProcess, EncodeBatch, Decode")])

prop("C20", "Training installs exactly the model its files teach",
 "A training from files that succeeds leaves the tokenizer with exactly the model a new trainer with the same options learns from the words of these files, plus the trainer's special tokens, whatever the tokenizer had been used for, trained on or configured with before, and though the trainer was used before; the settings and added tokens of before remain, and the trained tokenizer then behaves like one built with that model.",
 ["histories", "schedules", "configurations", "fault_sequences"],
 "All histories of uses, changes and trainings with new or reused trainers, chunk boundaries, split reads and schedules.",
 "Tests train once, on one chunk, with a fresh trainer and tokenizer.",
 ["tokenizer.go", "model/bpe/trainer.go", "added-vocabulary.go"],
 [("collecting words and installing the model", "tokenizer.go Train"), ("trainer", "model/bpe/trainer.go Train")],
 hook="chunk size and scan buffer size as variables under the verif build tag")

# Properties this technique does not decide here (see not_applicable in MANIFEST.json).
prop("N01", "Offsets and alignments always point at the text a token came from",
 "For every input and every pipeline, each token's offsets lie inside the original text, are ordered, and delimit the part of the original the token was produced from, in bytes or characters as requested, through any sequence of normalizations and splits.",
 ["inputs", "configurations"], "All texts, normalizers, pre-tokenizers and models.",
 "Tests sample a few dozen strings; the property quantifies over all Unicode text.",
 ["normalizer/normalized.go", "pretokenizer.go", "encoding.go"],
 [("alignment bookkeeping", "normalizer/normalized.go"), ("offset conversion", "pretokenizer.go IntoEncoding")])
prop("N02", "Each model segments a word as its algorithm defines",
 "BPE applies merges lowest rank first until none applies, WordPiece takes the longest matching piece greedily, and Unigram returns a segmentation of maximal total score, for every vocabulary and word.",
 ["inputs", "configurations"], "All vocabularies, merge lists, scores and words.",
 "Tests check a handful of words per model.",
 ["model/bpe/word.go", "model/wordpiece/wordpiece.go", "model/unigram/unigram.go"],
 [("merge loop", "model/bpe/word.go MergeAll"), ("longest match", "model/wordpiece/wordpiece.go Tokenize"), ("Viterbi search", "model/unigram/")])
prop("N03", "Truncation and padding produce exactly the requested lengths",
 "For every encoding and all valid parameters, truncation keeps at most the maximal length including special tokens and loses nothing (the rest is in overflowing parts with the requested stride), and padding reaches the requested length on the requested side in every parallel field.",
 ["inputs", "configurations"], "All encodings, strategies, directions and lengths.",
 "Tests cover few combinations.",
 ["encoding.go", "util.go"], [("truncation", "encoding.go Truncate, TruncateEncodings"), ("padding", "encoding.go Pad, PadEncodings")])
prop("N04", "Post-processing inserts special tokens exactly as the template says",
 "For every template and every single or paired encoding, the result contains the sequences and special tokens in template order with the template's type ids, a matching special-tokens mask and correct sequence ranges, also in overflowing parts.",
 ["inputs", "configurations"], "All templates and encodings.",
 "Tests check fixed templates.",
 ["processor/template.go", "processor/bert.go", "processor/roberta.go"], [("template application", "processor/template.go")])
prop("N05", "Byte-level encoding followed by decoding gives back the text",
 "For every valid UTF-8 text, decoding the byte-level encoding of it with special tokens skipped returns the text.",
 ["inputs", "configurations"], "All UTF-8 texts and byte-level vocabularies.",
 "Tests check a few strings.",
 ["pretokenizer/bytelevel.go", "decoder/"], [("byte to character table", "pretokenizer/bytelevel.go")])
prop("N06", "BPE training merges the most frequent pair at every step",
 "For every corpus, each learned merge is one of the currently most frequent adjacent pairs given the merges before it, and its frequency is counted exactly.",
 ["inputs", "configurations"], "All corpora and trainer options.",
 "Tests check one corpus.",
 ["model/bpe/trainer.go", "model/bpe/word.go"], [("pair queue and incremental counts", "model/bpe/trainer.go")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
