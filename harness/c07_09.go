package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/normalizer"
)

func init() {
	checks["C07"] = c07
	checks["C08"] = c08
	checks["C09"] = c09
}

// ---- training from files -------------------------------------------------------

// corpus is a set of training files.
type corpus struct {
	paths []string
	data  []string
}

func (r *R) line(maxWords int) string {
	n := r.Small(maxWords + 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 || r.Chance(1, 12) {
			b.WriteString(pick(r, []string{" ", " ", " ", "  ", "\t", ", ", "-", ". "}))
		}
		b.WriteString(r.word())
	}
	return b.String()
}

func genCorpus(r *R, dir string, maxFiles int) *corpus {
	c := &corpus{}
	n := r.Small(maxFiles + 1)
	if n == 0 && r.Chance(3, 4) {
		n = 1
	}
	many := r.Chance(1, 25)
	if many {
		r.Probe("many files or lines")
		if r.Chance(1, 2) {
			n = r.Edge(2, 70)
		}
	}
	for f := 0; f < n; f++ {
		nl := r.Small(12)
		if many && n <= 5 {
			nl = r.Edge(8, 260)
		}
		var b strings.Builder
		crlf := r.N(3)
		for i := 0; i < nl; i++ {
			if r.Chance(1, 6) {
				// empty line
			} else if r.Chance(1, 8) {
				b.WriteString(strings.Repeat(r.word()+pick(r, []string{" ", "", "-"}), 1+r.N(12)))
			} else {
				b.WriteString(r.line(6))
			}
			if i == nl-1 && r.Chance(1, 2) {
				break // no newline at the end of the file
			}
			if crlf == 1 || crlf == 2 && r.Chance(1, 2) {
				b.WriteString("\r")
			}
			b.WriteString("\n")
		}
		p := fmt.Sprintf("%s/corpus%d.txt", dir, f)
		switch {
		case f > 0 && r.Chance(1, 8):
			// the name of another file, somewhere else
			p = fmt.Sprintf("%s/corpus%d/%s", dir, f, filepath.Base(c.paths[r.N(f)]))
			must(os.MkdirAll(filepath.Dir(p), 0o755))
			must(os.WriteFile(p, []byte(b.String()), 0o644))
			r.Probe("files of the same name")
		case r.Chance(1, 12):
			// a link to the file
			q := fmt.Sprintf("%s/stored%d", dir, f)
			must(os.WriteFile(q, []byte(b.String()), 0o644))
			must(os.Symlink(q, p))
			r.Probe("linked file")
		default:
			must(os.WriteFile(p, []byte(b.String()), 0o644))
		}
		c.paths = append(c.paths, p)
		c.data = append(c.data, b.String())
	}
	return c
}

func lines(s string) []string {
	if s == "" {
		return nil
	}
	l := strings.Split(s, "\n")
	if l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}
	for i := range l {
		l[i] = strings.TrimSuffix(l[i], "\r")
	}
	return l
}

// chunkFor draws a chunk size giving at most about 40 chunks per file.
func (c *corpus) chunkFor(r *R) int64 {
	m := 0
	for _, d := range c.data {
		m = max(m, len(d))
	}
	lo := 1 + m/40
	switch r.N(6) {
	case 0:
		return int64(m + 1 + r.N(3)) // one chunk
	case 1:
		return int64(max(m, 1)) // exactly one chunk
	case 2:
		return int64(max(lo, (m+1)/2))
	default:
		return int64(lo + r.N(60))
	}
}

// reference counts every line once, one after another.
func (c *corpus) reference(n normalizer.Normalizer, p tokenizer.PreTokenizer) map[string]int {
	counts := map[string]int{}
	for _, d := range c.data {
		for _, l := range lines(d) {
			ns := normalizer.NewNormalizedFrom(l)
			if n != nil {
				var err error
				if ns, err = n.Normalize(ns); err != nil {
					panic(err)
				}
			}
			pt, err := p.PreTokenize(tokenizer.NewPreTokenizedStringFromNS(ns))
			if err != nil {
				panic(err)
			}
			for _, s := range pt.GetSplits(normalizer.OriginalTarget, tokenizer.Byte) {
				counts[s.Value]++
			}
		}
	}
	return counts
}

// recTrainer records the word counts it is given.
type recTrainer struct {
	calls    int
	words    map[string]int
	model    tokenizer.Model
	specials []tokenizer.AddedToken
	returned *bool
	late     int
}

func (t *recTrainer) WithProgressBar() bool { return false }

func (t *recTrainer) Train(words map[string]int) (tokenizer.Model, []tokenizer.AddedToken) {
	t.calls++
	t.words = map[string]int{}
	for k, v := range words {
		t.words[k] = v
	}
	return t.model, t.specials
}

//go:norace
func (t *recTrainer) noteLate() {
	if t.returned != nil && *t.returned {
		t.late++
	}
}

func (t *recTrainer) ProcessTokens(words map[string]int, tokens []string) {
	t.noteLate()
	for _, w := range tokens {
		words[w]++
	}
}

func countsDiff(want, got map[string]int) string {
	var ks []string
	seen := map[string]bool{}
	for _, m := range []map[string]int{want, got} {
		for k := range m {
			if !seen[k] {
				seen[k] = true
				ks = append(ks, k)
			}
		}
	}
	sort.Strings(ks)
	var o []string
	for _, k := range ks {
		if want[k] != got[k] {
			o = append(o, fmt.Sprintf("%q: %d instead of %d", k, got[k], want[k]))
		}
	}
	if len(o) > 12 {
		o = append(o[:12], "…")
	}
	return strings.Join(o, ", ")
}

func smallModel() tokenizer.Model {
	x, err := wordlevel.New(map[string]int{"<unk>": 0, "ab": 1, "<done>": 2}, "<unk>")
	if err != nil {
		panic(err)
	}
	return x
}

func resetLimits() { tokenizer.SetTrainLimits(100<<20, 1<<16, 1<<20) }

func trainSpec(r *R) *Spec {
	s := genSpec(r, "")
	if s.Pre == nil {
		s.Pre = []int{0, 0, 0, 0, 0}
	}
	return s
}

func shortIO(r *R) {
	fsShortR = pick(r, []int{0, 0, 1, 3, 7, 40})
	fsEintr = pick(r, []int{0, 0, 0, 5, 20})
	fsRng = uint64(r.N(1 << 20))
}

func c07(r *R) {
	s := trainSpec(r)
	c := genCorpus(r, r.dir, 5)
	nt := 1
	if r.Chance(1, 6) {
		nt = 2
	}
	chunk := c.chunkFor(r)
	buf := 1 + r.N(24)
	tokenizer.SetTrainLimits(chunk, buf, 1<<16)
	defer resetLimits()
	r.Desc("%s chunk=%d buffer=%d trainings=%d", s, chunk, buf, nt)
	for i, d := range c.data {
		r.Desc("file %d (%d bytes): %q", i, len(d), d)
	}
	var want map[string]int
	r.Apart(func() { r.Setup("reference", func() { want = c.reference(NormOf(s.Norm), PreOf(s.Pre)) }) })
	tks := make([]*tokenizer.Tokenizer, nt)
	tr := make([]*recTrainer, nt)
	errs := make([]error, nt)
	done := make([]bool, nt)
	for k := 0; k < nt; k++ {
		r.Setup("tokenizer", func() { tks[k] = s.Build() })
		tr[k] = &recTrainer{model: smallModel(), specials: []tokenizer.AddedToken{tokenizer.NewAddedToken("<done>", true)}}
	}
	shortIO(r)
	fsArm()
	for k := 0; k < nt; k++ {
		r.Go(fmt.Sprintf("Train %d", k), func() {
			errs[k] = tks[k].Train(tr[k], c.paths)
			done[k] = true
		})
	}
	o := r.Wait()
	fsSettle()
	fsDisarm()
	if !r.Judge(o, "training", false) {
		r.Stop()
	}
	n := 0
	for _, d := range c.data {
		k := (len(d) + int(chunk) - 1) / int(chunk)
		n += k
		if k > 1 {
			r.Probe("file of several chunks")
		}
	}
	r.ProbeN("chunks", n)
	for k := 0; k < nt; k++ {
		if errs[k] != nil {
			r.Fail("spurious-error", "training on readable files failed: %v", errs[k])
			continue
		}
		if tr[k].calls != 1 {
			r.Fail("calls", "the trainer was called %d times", tr[k].calls)
			continue
		}
		r.Note(fmt.Sprintf("%s counts of %q %d %d", s.id(), c.data, chunk, k), countsDiff(nil, tr[k].words))
		if d := countsDiff(want, tr[k].words); d != "" {
			r.Fail("counts", "training %d counted %s", k, d)
		}
	}
}

// ---- C08 ----------------------------------------------------------------------------

type trainOpts struct {
	minFreq  int
	vocab    int
	limit    int // -1 none
	prefix   string
	suffix   string
	initial  []string
	specials []string
	wp       bool
}

func (o trainOpts) train(words map[string]int) string {
	set := bpe.CharSet{}
	for _, c := range o.initial {
		set[c] = struct{}{}
	}
	var sp []tokenizer.AddedToken
	for _, s := range o.specials {
		sp = append(sp, tokenizer.NewAddedToken(s, true))
	}
	// the caller's map, with its own iteration order
	w := make(map[string]int)
	for k, v := range words {
		w[k] = v
	}
	if o.wp {
		b := wordpiece.NewWordPieceTrainerBuilder().MinFrequency(o.minFreq).VocabSize(o.vocab).SpecialTokens(sp)
		if o.limit >= 0 {
			b = b.LimitAlphabet(o.limit)
		}
		if len(set) > 0 {
			b = b.InitialAlphabet(set)
		}
		if o.prefix != "" {
			b = b.ContinuingSubwordPrefix(o.prefix)
		}
		if o.suffix != "" {
			b = b.EndOfWordSuffix(o.suffix)
		}
		return modelState(b.Build().Train(w))
	}
	b := bpe.NewBPETrainerBuilder()
	b.MinFrequency(o.minFreq)
	b.VocabSize(o.vocab)
	b.SpecialTokens(sp)
	if o.limit >= 0 {
		b.LimitAlphabet(o.limit)
	}
	if len(set) > 0 {
		b.InitialAlphabet(set)
	}
	if o.prefix != "" {
		b.ContinuingSubwordPrefix(o.prefix)
	}
	if o.suffix != "" {
		b.EndOfWordSuffix(o.suffix)
	}
	m, toks := b.Build().Train(w)
	return bpeState(m) + fmt.Sprintf(" special %+v", toks)
}

// bpeState is the vocabulary and the merges in order.
func bpeState(m tokenizer.Model) string {
	var merges *bpe.Merges
	var rev *model.VocabR
	switch x := m.(type) {
	case bpe.BPE:
		merges, rev = x.Merges, x.VocabR
	case *bpe.BPE:
		merges, rev = x.Merges, x.VocabR
	}
	s := modelState(m) + " merges "
	if merges == nil {
		return s + "none"
	}
	type e struct {
		p bpe.Pair
		v bpe.PairVal
	}
	var l []e
	for p, v := range *merges {
		l = append(l, e{p, v})
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i], l[j]
		if a.v.Rank != b.v.Rank {
			return a.v.Rank < b.v.Rank
		}
		if a.p.C1 != b.p.C1 {
			return a.p.C1 < b.p.C1
		}
		return a.p.C2 < b.p.C2
	})
	for _, x := range l {
		s += fmt.Sprintf("%d:(%d,%d)->%d ", x.v.Rank, x.p.C1, x.p.C2, x.v.NewId)
	}
	if rev != nil {
		var ids []int
		for id := range *rev {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			s += fmt.Sprintf("%d=%q ", id, (*rev)[id])
		}
	}
	return s
}

func genWords(r *R) map[string]int {
	words := map[string]int{}
	n := 1 + r.Small(60)
	alpha := letters[:2+r.N(len(letters)-1)]
	for i := 0; i < n; i++ {
		var b strings.Builder
		k := 1 + r.N(7)
		for j := 0; j < k; j++ {
			b.WriteString(pick(r, alpha))
		}
		if r.Chance(1, 15) {
			b.Reset()
			b.WriteString(r.word())
		}
		// few distinct counts: ties are common
		words[b.String()] += pick(r, []int{1, 1, 1, 2, 2, 3, 5, 100})
	}
	return words
}

func genTrainOpts(r *R) trainOpts {
	o := trainOpts{vocab: 5 + r.Small(90), minFreq: r.N(4), limit: -1}
	if r.Chance(1, 4) {
		o.prefix = pick(r, []string{"##", "_"})
	}
	if r.Chance(1, 4) {
		o.suffix = pick(r, []string{"</w>", "|"})
	}
	if r.Chance(1, 4) {
		o.initial = []string{"x", "a", "é", "中", "z"}[:1+r.N(5)]
	}
	if r.Chance(1, 4) {
		o.specials = []string{"[UNK]", "[CLS]", "a"}[:1+r.N(3)]
	}
	if r.Chance(1, 6) {
		o.limit = r.N(8)
	}
	o.wp = r.Chance(1, 5)
	return o
}

func c08(r *R) {
	words := genWords(r)
	o := genTrainOpts(r)
	parallel := pick(r, []int{1, 2, 10, 1 << 30})
	defer bpe.SetParallelWords(10000)
	r.Desc("words %v options %+v parallel from %d words", words, o, parallel)
	// counted in one piece
	var want string
	bpe.SetParallelWords(1 << 30)
	var out *Outcome
	r.Apart(func() { out = r.Do("alone", func() { want = o.train(words) }) })
	if !out.OK() {
		r.Skip("the training does not work alone: %s", out)
	}
	r.Note(fmt.Sprintf("train %v %+v", words, o), want)
	// trainings before, after and at the same time, over other words too
	var other map[string]int
	if r.Chance(1, 3) {
		other = genWords(r)
	}
	bpe.SetParallelWords(parallel)
	n := 1 + r.N(3)
	got := make([]string, n)
	conc := n > 1 && r.Chance(1, 2)
	if other != nil {
		r.Go("other training", func() { o.train(other) })
		if !conc {
			if !r.Judge(r.Wait(), "training", false) {
				r.Stop()
			}
		}
	}
	for k := 0; k < n; k++ {
		r.Go(fmt.Sprintf("training %d", k), func() { got[k] = o.train(words) })
		if !conc || k == n-1 {
			if !r.Judge(r.Wait(), "training", false) {
				r.Stop()
			}
		}
	}
	if len(words) >= parallel {
		r.Probe("pairs counted by several workers")
	} else {
		r.Probe("pairs counted by one worker")
	}
	if conc {
		r.Probe("concurrent trainings")
	}
	for k := range got {
		if got[k] != want {
			r.Fail("different", "training %d of the same words with the same options (counting in parallel from %d words) %s", k, parallel, diff(want, got[k]))
			return
		}
	}
	if r.Chance(1, 4) {
		// the same words from files, in chunks
		var b strings.Builder
		var ks []string
		for w := range words {
			ks = append(ks, w)
		}
		sort.Strings(ks)
		flat := map[string]int{}
		for _, w := range ks {
			if strings.ContainsAny(w, " \t\n\r\u00a0") {
				continue
			}
			k := min(words[w], 3)
			flat[w] = k
			for i := 0; i < k; i++ {
				b.WriteString(w + "\n")
			}
		}
		p := r.dir + "/words.txt"
		must(os.WriteFile(p, []byte(b.String()), 0o644))
		o.wp = false
		bpe.SetParallelWords(1 << 30)
		r.Apart(func() { out = r.Do("alone", func() { want = o.train(flat) }) })
		if !out.OK() {
			return
		}
		bpe.SetParallelWords(parallel)
		tokenizer.SetTrainLimits(int64(1+b.Len()/20+r.N(80)), 1+r.N(32), 1<<16)
		defer resetLimits()
		var tk *tokenizer.Tokenizer
		r.Setup("tokenizer", func() {
			tk = tokenizer.NewTokenizer(smallModel())
			tk.WithPreTokenizer(PreOf([]int{0, 0, 0, 0, 0}))
		})
		var err error
		out := r.Do("Train", func() { err = tk.Train(o.trainer(), []string{p}) })
		if !r.Judge(out, "training from a file", false) {
			r.Stop()
		}
		if err != nil {
			r.Fail("spurious-error", "training on a readable file failed: %v", err)
			return
		}
		r.Probe("trained from a file")
		g := bpeState(tk.GetModel())
		if i := strings.Index(want, " special "); i >= 0 {
			want = want[:i]
		}
		if g != want {
			r.Fail("different", "training from a file in chunks %s", diff(want, g))
		}
	}
}

func (o trainOpts) trainer() *bpe.BpeTrainer {
	b := bpe.NewBPETrainerBuilder()
	b.MinFrequency(o.minFreq)
	b.VocabSize(o.vocab)
	if o.limit >= 0 {
		b.LimitAlphabet(o.limit)
	}
	if len(o.initial) > 0 {
		set := bpe.CharSet{}
		for _, c := range o.initial {
			set[c] = struct{}{}
		}
		b.InitialAlphabet(set)
	}
	if o.prefix != "" {
		b.ContinuingSubwordPrefix(o.prefix)
	}
	if o.suffix != "" {
		b.EndOfWordSuffix(o.suffix)
	}
	return b.Build()
}

// ---- C09 ----------------------------------------------------------------------------

var readErrnos = []syscall.Errno{syscall.EIO, syscall.ESTALE, syscall.EACCES, syscall.ENOMEM}
var openErrnos = []syscall.Errno{syscall.EACCES, syscall.EMFILE, syscall.EIO, syscall.ENOENT}

// trainFaults draws file faults for a training over c.
func trainFaults(r *R, c *corpus) {
	n := r.N(3)
	for i := 0; i < n; i++ {
		sub := ""
		if len(c.paths) > 0 && r.Chance(1, 2) {
			sub = fmt.Sprintf("corpus%d", r.N(len(c.paths)))
		}
		many := pick(r, []int{1, 1, 2, 1 << 20})
		switch r.N(7) {
		case 0, 1:
			fsAdd("open failure", pick(r, openErrnos), r.Small(20), many, sub, syscall.SimOpen)
		case 2, 3, 4:
			fsAdd("read failure", pick(r, readErrnos), r.Small(40), many, sub, syscall.SimRead, syscall.SimPread)
		case 5:
			fsAdd("stat failure", pick(r, openErrnos), r.N(4), many, sub, syscall.SimStat, syscall.SimFstat)
		case 6:
			fsAdd("seek failure", syscall.EIO, r.Small(12), many, sub, syscall.SimSeek)
		}
	}
}

// compFails counts the failures the failing components returned.
var compFails int

//go:norace
func noteFail() { compFails++ }

func c09(r *R) {
	s := trainSpec(r)
	c := genCorpus(r, r.dir, 4)
	chunk := c.chunkFor(r)
	tokenizer.SetTrainLimits(chunk, 1+r.N(24), 1<<16)
	defer resetLimits()
	failing := ""
	bad := *c // the corpus of the failing training
	bad.paths = append([]string(nil), c.paths...)
	bad.data = append([]string(nil), c.data...)
	missing := ""
	switch r.N(5) {
	case 0:
		// a component fails on some line
		if r.Chance(1, 2) {
			failing = "normalizer"
			s.WrapNorm = func(n normalizer.Normalizer) normalizer.Normalizer { return failNorm{n} }
		} else {
			failing = "pre-tokenizer"
			s.WrapPre = func(p tokenizer.PreTokenizer) tokenizer.PreTokenizer { return failPre{p} }
		}
		for k := 1 + r.N(2); k > 0 && len(bad.paths) > 0; k-- {
			f := r.N(len(bad.paths))
			l := strings.SplitAfter(bad.data[f], "\n")
			i := r.N(len(l))
			l[i] = marker + " " + l[i]
			bad.data[f] = strings.Join(l, "")
			bad.paths[f] = fmt.Sprintf("%s/corpus%d-bad.txt", r.dir, f)
			must(os.WriteFile(bad.paths[f], []byte(bad.data[f]), 0o644))
		}
	case 1:
		// a file that is not there, or is no file
		missing = r.dir + "/corpus-missing.txt"
		if r.Chance(1, 2) {
			missing = r.dir + "/corpus-dir"
			must(os.MkdirAll(missing, 0o755))
			r.res.Faults["directory as training file"]++
		} else {
			r.res.Faults["missing training file"]++
		}
		i := r.N(len(bad.paths) + 1)
		bad.paths = append(bad.paths[:i:i], append([]string{missing}, bad.paths[i:]...)...)
		bad.data = append(bad.data[:i:i], append([]string{""}, bad.data[i:]...)...)
	}
	faulty := r.Chance(3, 4) || failing == "" && missing == ""
	r.Desc("%s chunk=%d failing=%s missing=%q", s, chunk, failing, missing)
	for i, d := range bad.data {
		r.Desc("file %s (%d bytes): %q", strings.TrimPrefix(bad.paths[i], r.dir), len(d), d)
	}
	var want, wantBad map[string]int
	r.Apart(func() {
		r.Setup("reference", func() {
			want = c.reference(NormOf(s.Norm), PreOf(s.Pre))
			wantBad = bad.reference(NormOf(s.Norm), PreOf(s.Pre))
		})
	})
	var tk *tokenizer.Tokenizer
	var st, enc string
	in := genInput(r, 5)
	encode := func() string {
		e, err := tk.Encode(in.Make(), false)
		if err != nil {
			return "error: " + err.Error()
		}
		return Canon(e)
	}
	r.Setup("tokenizer", func() { tk = s.Build(); st = State(tk); enc = encode() })
	mod := tk.GetModel()
	tr := &recTrainer{model: smallModel(), specials: []tokenizer.AddedToken{tokenizer.NewAddedToken("<done>", true)}}
	shortIO(r)
	if faulty {
		trainFaults(r, &bad)
	}
	for i := 0; i < fsPlanN; i++ {
		r.Desc("fault: %s %v from the %dth on, %d times, path %q", fsPlan[i].label, fsPlan[i].errno, fsPlan[i].nth+1, fsPlan[i].count, fsPlan[i].sub)
	}
	compFails = 0
	fsArm()
	var err error
	o := r.Do("Train", func() { err = tk.Train(tr, bad.paths) })
	fired := fsFired()
	fsSettle()
	fsDisarm()
	if compFails > 0 {
		r.res.Faults["component failure"] += compFails
	}
	if !r.Judge(o, "training", false) {
		r.Stop()
	}
	broken := fired > 0 || compFails > 0 || missing != ""
	switch {
	case broken && err == nil:
		r.Fail("error-lost", "%d injected file faults, %d component failures, missing %q: training reported success", fired, compFails, missing)
	case !broken && err != nil:
		r.Fail("spurious-error", "training on readable files failed: %v", err)
	}
	if err == nil && tr.calls != 1 {
		r.Fail("calls", "training succeeded with %d calls of the trainer", tr.calls)
	}
	if tr.calls > 0 && !broken {
		if d := countsDiff(wantBad, tr.words); d != "" {
			r.Fail("counts", "training counted %s", d)
		}
	}
	if err == nil {
		if tk.GetModel() != tr.model {
			r.Fail("state", "training succeeded but the tokenizer does not use the trained model")
		}
		return
	}
	r.Probe("training failed with an error")
	var st2, enc2 string
	o = r.Do("use after failure", func() { st2, enc2 = State(tk), encode() })
	if !r.Judge(o, "use after a failed training", false) {
		r.Stop()
	}
	if m := tk.GetModel(); !sameModel(m, mod) || st2 != st {
		r.Fail("state", "after a failed training the tokenizer's state %s", diff(st, st2))
	}
	if enc2 != enc {
		r.Fail("state", "after a failed training encoding %v %s", in, diff(enc, enc2))
	}
	// on a healthy system training works again
	tr2 := &recTrainer{model: smallModel()}
	o = r.Do("Train again", func() { err = tk.Train(tr2, c.paths) })
	if !r.Judge(o, "training again", false) {
		r.Stop()
	}
	if err != nil {
		r.Fail("later", "training on healthy files after a failed one: %v", err)
		return
	}
	if d := countsDiff(want, tr2.words); d != "" {
		r.Fail("later", "training after a failed one counted %s", d)
	}
}

func sameModel(a, b tokenizer.Model) bool { return modelState(a) == modelState(b) }
