"""What each check covers; the source of the evidence files' fixed text and of MANIFEST.json."""

LIB = 'all packages of sugarme/tokenizer, compiled from /repo with a preemption point before every statement (tokenizer, normalizer, pretokenizer, model/*, processor, decoder, pretrained)'
DEPS = 'golang.org/x/sync/errgroup and patrickmn/go-cache with preemption points; regexpset, uniseg, x/text, gods and the Go standard library as shipped'
GORT = 'the Go runtime of go1.24.13 with its scheduling decisions, timers, clock, map seeds and select order taken from the seed; race detector on'
FS = 'files are real files in a scratch directory; every open, read, write, seek, close, sync, rename, unlink, stat and mkdir passes the simulator, which may fail it, shorten it or interrupt it'
NET = 'the network (net/http.Transport.RoundTrip) is replaced by a simulated server'
EXIT = 'os.Exit and log.Fatal are recorded and end only the calling goroutine'

BASE_ASSUMPTIONS = [
    'goroutines are interleaved at statement boundaries of the instrumented packages and at every blocking operation, one at a time; memory-model effects finer than that are left to the race detector, which watches every run',
    'the search is seeded sampling: a clean batch is evidence, not proof',
    'Go toolchain 1.24.13 with the seams listed in DESIGN.md; the shipped code is otherwise unmodified (build tag verif only makes three limits settable)',
]


def I(title_rule, real_extra=(), stub=(), assumptions=(), level='exploration', note='', technique=''):
    return {'rule': title_rule, 'real': [LIB, DEPS, GORT] + list(real_extra), 'stub': list(stub) + [EXIT], 'assumptions': BASE_ASSUMPTIONS + list(assumptions),
            'level': level, 'note': note, 'technique': technique}


INFO = {
    'C01': I('Each run draws a tokenizer (4 model kinds, 12 normalizers, 14 pre-tokenizers, 5 post-processors, added tokens, truncation), one or two batches of 0-8 inputs (single, pair, pre-tokenized, repeated), padding, possibly a component that fails on a marker word; every input is first encoded alone on a fresh tokenizer, padding comes from an independent reference, then EncodeBatch runs under the drawn schedule and every field of every result is compared.',
             stub=['failing components are wrappers around real ones'],
             technique='deterministic simulation: seeded schedules of EncodeBatch against encoding each input alone plus a reference padder',
             note='Seeded search over goroutine interleavings, batches and configurations of the real concurrent batch encoder; trusts sequential Encode as the meaning of "alone" and a 40-line reference padder.'),
    'C02': I('Each run draws a tokenizer with one of 9 decoders, one to three batches of 0-11 id sequences (known, unknown and negative ids), decodes each sequence alone on a fresh tokenizer, then runs the batches one after another or at once and compares string by string.',
             technique='deterministic simulation: seeded schedules of DecodeBatch against decoding each sequence alone',
             note='Seeded search over goroutine interleavings of the real concurrent decoder; trusts sequential Decode as the meaning of "alone".'),
    'C03': I('Each run builds one tokenizer and 2-6 client goroutines that draw encode, pair and batch encode, decode, batch decode, tokenize, vocabulary and special-token queries, token lookups and model saves; every call is first run alone on a fresh tokenizer, then all run on the shared one under the drawn schedule with the race detector on, each result is compared with the call alone, and the observable state before and after is compared.',
             real_extra=[FS],
             technique='deterministic simulation: seeded schedules of concurrent readers of one tokenizer, race detector on, every call against the same call run alone',
             note='Seeded search over interleavings of 2-6 concurrent readers of one real tokenizer; trusts a call run alone on a fresh tokenizer as its meaning.'),
    'C04': I('Each run keeps results (encodings with overflow, token lists, vocabularies, special tokens), deep-copies them, lets other clients go on using the tokenizer and mutates results in every way a caller can (element writes, appends, map inserts and deletes); every held result must equal its copy and every later call the call on a tokenizer whose results nobody touched.',
             technique='deterministic simulation: seeded histories and schedules with hostile callers, held results against deep copies and a tokenizer nobody interfered with',
             note='Seeded search over histories of calls and of mutations of their results, by several goroutines on one tokenizer.'),
    'C05': I('Each run builds a model with a drawn word cache (disabled, 1, tiny, ample) and a history of tokenizations, cache clears and clock jumps by several goroutines; every result is compared with the tokenization of the same string by a freshly built model without a history.',
             real_extra=['the clock is simulated: entry lifetimes expire by jumps of simulated time'],
             technique='deterministic simulation: seeded histories with simulated clock jumps against a model without a history',
             note='Seeded search over histories, schedules and clock jumps; trusts a freshly built model.'),
    'C06': I('Each run starts 2-5 goroutines of gets, bulk gets, bulk sets, clears and size queries on one real cache with a capacity of 0-8 and few keys, or (one run in twelve) fills a cache of up to 300 entries and stores all keys at once while others look; the recorded history with call and return times is checked for linearizability (Wing-Gong search with memoisation) against a small reference map, per-step for the capacity bound and for values never stored.',
             technique='deterministic simulation: seeded schedules of the real word cache, history checked for linearizability against a reference map',
             note='Seeded search over schedules; the reference map leaves open which keys a bulk set admits when it does not fit (the code promises none), but not whether it accepts while there is room.'),
    'C07': I('Each run writes 0-4 files with drawn line lengths, endings (LF, CRLF, none at the end), empty lines and multi-byte text, sets the chunk size so that 1-9 chunks arise at drawn places (including one byte around a line end), splits reads at drawn points, and compares the word counts that reach the trainer with those of processing every line once.',
             real_extra=[FS, 'chunk and buffer sizes are set through the verif hook tokenizer.SetTrainLimits so that small files have several chunks'],
             technique='deterministic simulation: seeded corpora, chunk boundaries, split reads and schedules against a sequential count of every line',
             note='Seeded search over corpora, chunk boundaries, short reads and schedules; trusts a sequential line-by-line reference.'),
    'C08': I('Each run draws word counts and training options, trains a first time, and again under other schedules, map seeds, clock readings and after other trainings, sequentially and with parallel workers (through the verif hook bpe.SetParallelWords), by one or several goroutines; vocabulary, ids and ordered merges must be equal.',
             real_extra=['the threshold for parallel counting is lowered through the verif hook bpe.SetParallelWords'],
             technique='deterministic simulation: the same training under different seeded schedules, map orders and clocks must give the same model',
             note='Seeded search over schedules and map iteration orders of the real trainers; equality between runs, not correctness of the merges, is decided.'),
    'C09': I('Each run trains from files while a drawn fault hits one of them (missing, open or read failing at a drawn point, a failing normalizer or pre-tokenizer on a marked line, a failing trainer); training must return an error, the model and vocabulary must be unchanged, and a later training on healthy files must give what it gives on a tokenizer that never failed.',
             real_extra=[FS], stub=['failing normalizers and pre-tokenizers are wrappers around real ones'],
             technique='deterministic simulation with fault injection: open, read and component faults during training, then recovery against a tokenizer that never failed',
             note='Seeded search over fault positions, kinds and schedules; a run without a fault that fired must succeed.'),
    'C10': I('Each run saves 1-3 models (built from a drawn specification, or trained) into directories that are fresh, missing, or hold older and longer files, one after another or at once and with readers, on a disk that fails an open, write, close, stat, mkdir or rename at a drawn call, runs full after a drawn number of bytes, splits writes or interrupts them; every save that reports success must have left the complete files (parsed independently) and a model that loads back to the same tokenization, a fault must surface as an error, the model must be unchanged, and a later save on a healthy disk must succeed.',
             real_extra=[FS],
             technique='deterministic simulation with fault injection: disk faults during saves, files checked against the model and loaded back',
             note='Seeded search over disk faults and models; subword prefixes are left out because the BPE file format cannot hold them, and ids are dense because the text vocabulary format cannot hold others.'),
    'C11': I('Each run writes a drawn tokenizer.json (4 models, 11 normalizers, 12 pre-tokenizers, 5 post-processors, 9 decoders, added tokens, truncation, padding), vocabulary or merges file, loads it with one of 8 loaders healthily (the result must equal the tokenizer built directly from the description), under open, read, stat and close faults, torn and missing files, split and interrupted reads and readers that fail with or without their last bytes, alone or several at once, and again healthily.',
             real_extra=[FS],
             technique='deterministic simulation with fault injection: read faults and split reads during loading, results against the description the file was written from',
             note='Seeded search over files, read faults and split points; the reference is the tokenizer built directly from the description. One genuine defect is listed as a known finding.'),
    'C12': I('Each run draws 1-3 pretrained files (remote, local, missing), a cache directory (fresh, existing, with left-over temporary files, initialised by the first callers from the environment), and 1-3 rounds of 1-4 concurrent callers while requests are refused, answered with a bad status, cut, reset, timed out or delayed, and the disk fails, fills, splits or interrupts calls. Every successful call must name a complete file; the log of disk calls is replayed and after every single call no final name may show anything but the complete file; 1-4 crashes (process, or power loss with lost, torn and reordered unsynced data) are cut into the log at drawn points, and the library resolves again from what survived; a healthy round must succeed, and a local source overwritten in place afterwards must not show in the cache.',
             real_extra=[FS], stub=[NET, 'power loss is a model over the recorded disk calls: data not synced may be lost or torn in any combination, directory changes may be lost back to the last sync'],
             technique='deterministic simulation with fault injection: network and disk faults, concurrent callers, process crashes and power loss, recovery by the real code',
             note='Seeded search over fault placements, crash points and interleavings; every instant of every run is checked for a partial visible file.'),
    'C13': I('Each run draws files and a cache as C12 does and 1-4 rounds of concurrent resolutions under network and disk faults; after every round every response body and every file opened must be closed and every goroutine gone, the process alive, and afterwards healthy resolutions of the same files must give what they would give on a cache that saw no failure.',
             real_extra=[FS], stub=[NET],
             technique='deterministic simulation with fault injection: network and disk faults in histories of resolutions, resources counted after each',
             note='Seeded search over fault placements and interleavings.'),
    'C14': I('Each run draws a tokenizer (dense or gapped model ids), 1-3 callers and for each 2-9 operations: adding ordinary and special tokens (new, known, duplicate, empty, model tokens; all flags), lookups, vocabularies, special tokens, encodings, decodings; adds are exclusive and everything else concurrent, as the tokenizer asks of its callers. Every call is judged against a reference registry at the instant it ran, ids against all ids ever seen, encodings against a tokenizer that only saw the adds, and at the end every token, and texts put together from added tokens.',
             technique='deterministic simulation: seeded histories and schedules of adds, lookups, encodings and decodings against a reference registry and a replay of the adds',
             note='Seeded search over histories by 1-3 callers; the reference registry is 60 lines; encodings are compared with a tokenizer that saw only the adds.'),
    'C15': I('Each run wraps normalizer, pre-tokenizer and model (around, before or after the real ones, inside sequences) so that they fail on tags, words unique to one call, always or only the first times, with or without a partial result, with several errors (io.EOF, context.Canceled, wrapped, empty); 1-4 callers make single, pair, batch, character-offset, pre-tokenized and token-list calls, retrying; a call must return an error and no result exactly if one of its tags fired, otherwise what it returns alone; afterwards state and all calls are compared again without failures.',
             stub=['failing components are wrappers around real ones; a WordLevel model without its unknown token fails by itself'],
             technique='deterministic simulation with fault injection: component failures tied to single calls among concurrent callers, every call against the same call without failures',
             note='Seeded search over failing components, their positions, retries and schedules; trusts a call run alone on a fresh tokenizer.'),
    'C16': I('Each run starts 1-3 operations at once (EncodeBatch, DecodeBatch, Train from files with recorded or BPE trainer, model training with parallel pair counting) while components are slow (microseconds to hours of simulated time) or fail, files are missing or their opens, reads, seeks and stats fail, reads are short or interrupted, and goroutines stall. Every operation must return within the step budget, no goroutine may be left, none of its components, its trainer or its files may be touched after it returned, and the operation must finish again once faults stop.',
             real_extra=[FS], stub=['slow and failing components are wrappers around real ones'],
             technique='deterministic simulation with fault injection: seeded schedules, stalls, slow and failing components and read faults; progress within a step budget and nothing left running',
             note='Seeded search over schedules and faults; progress is bounded at 60 million scheduling steps, more than 20 times what the largest operation needs.'),
    'C17': I('Each run draws a BPE model with a dropout rate and 1-6 words, replaces the numbers the real random source draws by adversarial sequences (never, always, patterns, late, random) in some calls, and lets 1-3 callers tokenize in 1-4 phases between which dropout is switched off and on; every result must be a segmentation of its word and equal to the one of a fresh model, in this process and in one with another history.',
             stub=['in some calls the numbers of math/rand come from the simulator'],
             technique='deterministic simulation: seeded schedules, histories and adversarial random-number sequences against a segmentation check and a fresh model',
             note='Seeded search over number sequences, histories and schedules; a result is judged as a segmentation, not as the merge process with these numbers.'),
    'C18': I('Each run draws 2-4 tokenizers, often of the same or slightly different descriptions, some of them loaded from configurations, with a history of 2-7 operations, changes of settings and trainings each; the histories run alone, and then at the same time, or one after another, by one goroutine per tokenizer, and every result and final state must be equal. Two more processes execute the same runs in opposite orders, and every result of every run must agree between them.',
             technique='deterministic simulation: seeded histories over several tokenizers, alone against together, and the same runs in opposite orders in separate processes',
             note='Seeded search over sets of related tokenizers, histories and schedules; package-level state filled identically by both is found only by the reversed process.'),
    'C19': I('Each run draws a tokenizer and 1-5 phases of use by 1-3 callers, with 1-2 changes of settings (normalizer, pre-tokenizer, post-processor, decoder, parameters of these, truncation, padding, added tokens, model, cache clears, clock jumps) before each, repeating operations of earlier phases; every result and the final state of each phase must equal those of a new tokenizer built with the settings of that phase.',
             technique='deterministic simulation: seeded histories of changes and uses, every call against a tokenizer newly built with the current settings',
             note='Seeded search over histories and schedules; models are replaced only while there are no added tokens.'),
    'C20': I('Each run draws a tokenizer, 1-3 trainings (the BPE trainer, new or reused, or a trainer with a given result) on corpora with drawn chunk bounds, split reads and stalls, and uses and changes of the tokenizer before each; the model after each training must equal what a new trainer learns from a sequential count of the lines, and afterwards state and operations must equal those of a tokenizer into which that model was put directly.',
             real_extra=[FS, 'chunk and buffer sizes are set through the verif hook tokenizer.SetTrainLimits so that small files have several chunks'],
             technique='deterministic simulation: seeded histories of trainings, uses, chunk boundaries, split reads and schedules against a trainer fed with a sequential count',
             note='Seeded search over histories, corpora and schedules; trusts the real trainer on sequentially counted words.'),
}
