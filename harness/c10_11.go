package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"slices"
	"sort"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/pretrained"
)

func init() {
	checks["C10"] = c10
	checks["C11"] = c11
}

// ---- C10: saving ---------------------------------------------------------------

// savedModel is a model to save, with what its files have to hold.
type savedModel struct {
	spec   *ModelSpec
	m      tokenizer.Model
	vocab  map[string]int
	merges []string // "a b" in order of rank
	unk    string
	prefix string
	suffix string
	state  string
	words  []string // probe words
	toks   string   // their tokenization
	lossy  bool     // the formats of its files cannot hold it: a save may only fail
}

// odd gives the model something that the formats of its files cannot hold, or barely.
func (sm *savedModel) odd(r *R) {
	m := sm.spec
	n := len(m.Toks)
	if m.Kind == "unigram" {
		m.Toks[r.N(n)] += "\xff"
		return
	}
	if m.Kind != "bpe" && r.Chance(1, 2) {
		// ids with gaps, or not from 0 on
		m.IDs = nil
		at := r.N(2)
		for range m.Toks {
			m.IDs = append(m.IDs, at)
			at += 1 + r.Small(2)
		}
		return
	}
	t := pick(r, []string{"b c", " b", "c ", "b\nc", "b\n", "b\r", "b\rc", "\xff", "", "#version", "#version: 0.2"})
	if slices.Contains(m.Toks, t) {
		return
	}
	m.Toks = append(m.Toks, t)
	if m.Kind != "bpe" || r.Chance(1, 4) {
		return
	}
	pair := [2]int{slices.Index(m.Toks, "a"), n}
	if r.Chance(1, 2) {
		pair = [2]int{n, pair[0]}
	}
	if x := m.merged(pair[0], pair[1]); !slices.Contains(m.Toks, x) {
		m.Toks = append(m.Toks, x)
		if r.Chance(1, 2) {
			m.Merges = append(m.Merges, pair)
		} else {
			m.Merges = append([][2]int{pair}, m.Merges...)
		}
	}
}

// headerChain adds merges that build "#version" and go on from there; it
// returns words made with them.
func (sm *savedModel) headerChain(r *R) []string {
	m := sm.spec
	id := func(t string) int {
		if i := slices.Index(m.Toks, t); i >= 0 {
			return i
		}
		m.Toks = append(m.Toks, t)
		return len(m.Toks) - 1
	}
	const h = "#version"
	for i := 1; i < len(h); i++ {
		m.Merges = append(m.Merges, [2]int{id(h[:i]), id(h[i : i+1])})
		id(h[:i+1])
	}
	m.Merges = append(m.Merges, [2]int{id(h), id("a")})
	id(h + "a")
	if r.Chance(1, 2) {
		m.Merges = append(m.Merges, [2]int{id("b"), id(h)})
		id("b" + h)
	}
	return []string{h, h + "a", "b" + h, "b" + h + "a"}
}

// judgeFormat finds out whether the formats of the files can hold the model.
func (sm *savedModel) judgeFormat() {
	ids := map[int]bool{}
	for t, id := range sm.vocab {
		ids[id] = true
		switch sm.spec.Kind {
		case "bpe", "unigram":
			sm.lossy = sm.lossy || !utf8.ValidString(t)
		default:
			sm.lossy = sm.lossy || strings.Contains(t, "\n") || strings.HasSuffix(t, "\r")
		}
	}
	if k := sm.spec.Kind; k == "wordpiece" || k == "wordlevel" {
		for i := 0; i < len(sm.vocab); i++ {
			sm.lossy = sm.lossy || !ids[i]
		}
	}
	for _, l := range sm.merges {
		sm.lossy = sm.lossy || strings.Count(l, " ") != 1 || strings.Contains(l, "\n") || strings.HasSuffix(l, "\r")
	}
}

func tokAll(m tokenizer.Model, words []string) string {
	var b strings.Builder
	for _, w := range words {
		t, err := m.Tokenize(w)
		if err != nil {
			b.WriteString("error: " + err.Error() + ";")
			continue
		}
		b.WriteString(tokString(t) + ";")
	}
	return b.String()
}

func copyVocab(v map[string]int) map[string]int {
	o := make(map[string]int, len(v))
	for k, x := range v {
		o[k] = x
	}
	return o
}

// mergeLines lists the merges by rank as token pairs.
func mergeLines(x *bpe.BPE) []string {
	type e struct {
		r int
		s string
	}
	var l []e
	for p, v := range *x.Merges {
		l = append(l, e{v.Rank, (*x.VocabR)[p.C1] + " " + (*x.VocabR)[p.C2]})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].r < l[j].r })
	var o []string
	for _, x := range l {
		o = append(o, x.s)
	}
	return o
}

func stateOf(m tokenizer.Model) string {
	switch x := m.(type) {
	case bpe.BPE, *bpe.BPE:
		return bpeState(x)
	}
	return modelState(m)
}

// genSaved draws a model: built from a specification or trained.
func genSaved(r *R, words []string) *savedModel {
	sm := &savedModel{}
	if r.Chance(1, 5) {
		o := genTrainOpts(r)
		o.limit, o.wp, o.specials = -1, false, nil
		ws := genWords(r)
		plain := !r.Chance(1, 8)
		for w := range ws {
			if plain && strings.ContainsAny(w, " \t\r\n") {
				delete(ws, w)
			}
		}
		if !plain {
			ws[pick(r, []string{"a b", "a\nb", "ab\r", "a\xff", "#version"})] += 5
		}
		r.Setup("training", func() {
			m, _ := o.trainer().Train(ws)
			sm.m = m
		})
		sm.prefix, sm.suffix = o.prefix, o.suffix
		words = nil // a trained model has no unknown token: probe with what it knows
		for w := range ws {
			words = append(words, w)
		}
		sort.Strings(words)
		sm.spec = &ModelSpec{Kind: "bpe"}
		r.Desc("model trained on %d words", len(ws))
	} else {
		sm.spec = genModel(r, "")
		if sm.spec.Kind == "bpe" {
			sm.spec.Cache = pick(r, []int{-1, 0, 2})
			if r.Chance(1, 16) {
				// a merge that reads like the header of its file
				sm.spec.Toks = append(sm.spec.Toks, "#version", "a#version")
				sm.spec.Merges = append([][2]int{{slices.Index(sm.spec.Toks, "a"), len(sm.spec.Toks) - 2}}, sm.spec.Merges...)
			} else if sm.spec.Prefix == "" && sm.spec.Suffix == "" && r.Chance(1, 16) {
				// a later one, and words that need it
				words = append(append([]string(nil), words...), sm.headerChain(r)...)
			}
			sm.prefix, sm.suffix = sm.spec.Prefix, sm.spec.Suffix
		}
		if r.Chance(1, 12) && sm.spec.Kind != "unigram" {
			// long tokens: more than one buffer of output
			for i := 0; i < 30; i++ {
				sm.spec.Toks = append(sm.spec.Toks, strings.Repeat(pick(r, letters), 150+r.N(100))+fmt.Sprint(i))
			}
		}
		if r.Chance(1, 8) {
			sm.odd(r)
		}
		r.Setup("model", func() { sm.m = sm.spec.Build() })
		sm.unk = sm.spec.Unk
		r.Desc("model %s with %d tokens, %d merges", sm.spec.Kind, len(sm.spec.Toks), len(sm.spec.Merges))
	}
	switch x := sm.m.(type) {
	case bpe.BPE:
		sm.merges = mergeLines(&x)
	case *bpe.BPE:
		sm.merges = mergeLines(x)
	}
	sm.words = words
	r.Setup("model state", func() {
		sm.vocab = copyVocab(sm.m.GetVocab())
		sm.state = stateOf(sm.m)
		sm.toks = tokAll(sm.m, words)
	})
	sm.judgeFormat()
	return sm
}

// files names the files a save promises.
func (sm *savedModel) files(dir, name string) []string {
	p := dir + "/"
	if name != "" {
		p += name + "-"
	}
	switch sm.spec.Kind {
	case "bpe":
		return []string{p + "vocab.json", p + "merges.txt"}
	case "unigram":
		if name == "" {
			p += "tokenizer-"
		}
		return []string{p + "vocab.json"}
	}
	return []string{p + "vocab.txt"}
}

// complete checks the files on disk against the model; "" if they hold it.
func (sm *savedModel) complete(dir, name string) string {
	fs := sm.files(dir, name)
	var data [][]byte
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return fmt.Sprintf("%s cannot be read: %v", strings.TrimPrefix(f, dir), err)
		}
		data = append(data, b)
	}
	switch sm.spec.Kind {
	case "bpe":
		var v map[string]int
		if err := json.Unmarshal(data[0], &v); err != nil {
			return fmt.Sprintf("the vocabulary file (%d bytes) is not valid JSON: %v", len(data[0]), err)
		}
		if a, b := vocabString(sm.vocab), vocabString(v); a != b {
			return "the saved vocabulary " + diff(a, b)
		}
		var got []string
		for i, l := range lines(string(data[1])) {
			if i == 0 && strings.HasPrefix(l, "#version") {
				continue
			}
			got = append(got, l)
		}
		if a, b := strings.Join(sm.merges, "\n"), strings.Join(got, "\n"); a != b {
			return fmt.Sprintf("the saved merges (%d of %d) %s", len(got), len(sm.merges), diff(a, b))
		}
	case "unigram":
		var v struct {
			Vocab []struct {
				Token string  `json:"token"`
				Score float64 `json:"score"`
			} `json:"vocab"`
			UnkID *int `json:"unk_id"`
			Bytes bool `json:"byte_fallback"`
			Fuse  bool `json:"fuse_unk"`
		}
		if err := json.Unmarshal(data[0], &v); err != nil {
			return fmt.Sprintf("the file (%d bytes) is not valid JSON: %v", len(data[0]), err)
		}
		if len(v.Vocab) != len(sm.spec.Toks) {
			return fmt.Sprintf("%d of %d tokens", len(v.Vocab), len(sm.spec.Toks))
		}
		for i, e := range v.Vocab {
			if e.Token != sm.spec.Toks[i] || e.Score != sm.spec.Scores[i] {
				return fmt.Sprintf("token %d is %v instead of %q %v", i, e, sm.spec.Toks[i], sm.spec.Scores[i])
			}
		}
		if v.UnkID == nil || *v.UnkID != sm.spec.UnkID || v.Bytes != sm.spec.Bytes || v.Fuse != sm.spec.Fuse {
			return "unknown id, fused unknowns or byte fallback differ"
		}
	default:
		type kv struct {
			k string
			v int
		}
		var l []kv
		for k, v := range sm.vocab {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v < l[j].v })
		var want []string
		for _, e := range l {
			want = append(want, e.k)
		}
		if a, b := strings.Join(want, "\n"), strings.Join(lines(string(data[0])), "\n"); a != b {
			return fmt.Sprintf("the vocabulary file (%d bytes) %s", len(data[0]), diff(a, b))
		}
	}
	return ""
}

// load reads the saved files back. nil for Unigram, which has no loader.
func (sm *savedModel) load(dir, name string) (tokenizer.Model, error) {
	fs := sm.files(dir, name)
	switch sm.spec.Kind {
	case "bpe":
		b := bpe.NewBpeBuilder()
		b.Files(fs[0], fs[1])
		if sm.unk != "" {
			b.UnkToken(sm.unk)
		}
		if sm.prefix != "" {
			b.ContinuingSubwordPrefix(sm.prefix)
		}
		if sm.suffix != "" {
			b.EndOfWordSuffix(sm.suffix)
		}
		x, err := b.Build()
		if err != nil {
			return nil, err
		}
		return x, nil
	case "wordpiece":
		if sm.spec.Prefix != "##" {
			return wordpiece.NewWordPieceBuilderFromFile(fs[0]).UnkToken(sm.unk).MaxInputCharsPerWord(sm.spec.MaxChar).ContinuingSubwordPrefix(sm.spec.Prefix).Build(), nil
		}
		x, err := wordpiece.NewWordPieceFromFile(fs[0], sm.unk, sm.spec.MaxChar)
		if err != nil {
			return nil, err
		}
		return x, nil
	case "wordlevel":
		x, err := wordlevel.NewWorldLevelFromFile(fs[0], sm.unk)
		if err != nil {
			return nil, err
		}
		return x, nil
	}
	return nil, nil
}

// check judges a save that reported success.
func (sm *savedModel) check(r *R, what, dir, name string) bool {
	words := sm.words
	if d := sm.complete(dir, name); d != "" {
		r.Fail("incomplete", "%s reported success, but %s", what, d)
		return false
	}
	var m tokenizer.Model
	var err error
	var toks string
	o := r.DoBg("load", func() {
		if m, err = sm.load(dir, name); err == nil && m != nil {
			toks = tokAll(m, words)
		}
	})
	if !r.Judge(o, "loading what "+what+" wrote", false) {
		return false
	}
	if err != nil {
		r.Fail("unloadable", "%s reported success, but loading the files fails: %v", what, err)
		return false
	}
	if m == nil {
		return true
	}
	if a, b := vocabString(sm.vocab), vocabString(m.GetVocab()); a != b {
		r.Fail("reload", "%s: the vocabulary loaded back %s", what, diff(a, b))
		return false
	}
	if toks != sm.toks {
		r.Fail("reload", "%s: tokenizing %q with the model loaded back %s", what, words, diff(sm.toks, toks))
		return false
	}
	r.Probe("saved and loaded back")
	return true
}

var writeErrnos = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EFBIG}

// saveFaults draws disk faults for paths below sub.
func saveFaults(r *R, sub string) {
	n := 1 + r.N(2)
	for i := 0; i < n; i++ {
		s := sub
		if r.Chance(1, 3) {
			s = pick(r, []string{"vocab", "merges"})
		}
		many := pick(r, []int{1, 1, 2, 1 << 20})
		switch r.N(8) {
		case 0, 1:
			fsAdd("open failure", pick(r, []syscall.Errno{syscall.EACCES, syscall.EMFILE, syscall.EIO, syscall.EROFS, syscall.ENOSPC}), r.N(3), many, s, syscall.SimOpen)
		case 2, 3, 4:
			fsAdd("write failure", pick(r, writeErrnos), r.Small(10), many, s, syscall.SimWrite, syscall.SimPwrite)
		case 5, 6:
			fsAdd("close failure", pick(r, writeErrnos), r.N(3), many, s, syscall.SimClose)
		case 7:
			fsAdd("stat or mkdir failure", pick(r, []syscall.Errno{syscall.EACCES, syscall.EIO}), r.N(3), many, sub, syscall.SimStat, syscall.SimMkdir, syscall.SimRename, syscall.SimFsync, syscall.SimFtruncate)
		}
	}
}

func c10(r *R) {
	var ws []string
	for i := 0; i < 6; i++ {
		ws = append(ws, r.word())
	}
	nm := 1
	if r.Chance(1, 4) {
		nm = 2
	}
	var ms []*savedModel
	for i := 0; i < nm; i++ {
		ms = append(ms, genSaved(r, ws))
	}
	type job struct {
		sm        *savedModel
		dir, name string
		err       error
		done      bool
		nodir     bool
	}
	nj := 1
	if r.Chance(1, 3) {
		nj = 2 + r.N(2)
	}
	var jobs []*job
	for i := 0; i < nj; i++ {
		j := &job{sm: pick(r, ms), dir: fmt.Sprintf("%s/save%d", r.dir, i)}
		if r.Chance(1, 2) {
			j.name = pick(r, []string{"m", "bert-base"})
		}
		if i > 0 && !jobs[0].nodir && r.Chance(1, 2) {
			// next to each other in one directory
			j.dir, j.name = jobs[0].dir, fmt.Sprintf("%s%d", pick(r, []string{"m", ""}), i)
			jobs = append(jobs, j)
			r.Probe("saves share a directory")
			continue
		}
		switch r.N(12) {
		case 0:
			j.nodir = true // missing directory
		case 1:
			j.nodir = true
			must(os.WriteFile(j.dir, []byte("a file"), 0o644))
		default:
			must(os.MkdirAll(j.dir, 0o755))
			if r.Chance(1, 3) {
				// files of an earlier, longer save are in the way
				for _, f := range j.sm.files(j.dir, j.name) {
					must(os.WriteFile(f, []byte(strings.Repeat("old content\n", 1+r.N(4000))), 0o644))
				}
				r.Probe("saved over older files")
			}
		}
		jobs = append(jobs, j)
	}
	faulty := r.Chance(3, 4)
	if faulty {
		sub := ""
		if nj > 1 {
			sub = fmt.Sprintf("/save%d", r.N(nj))
		}
		if r.Chance(1, 4) {
			fsFree = int64(r.Small(6000))
			r.Desc("disk full after %d bytes", fsFree)
		} else {
			saveFaults(r, sub)
		}
	}
	fsShortW = pick(r, []int{0, 0, 0, 1, 7, 300, 5000})
	if fsShortW == 1 && len(ms[0].vocab) > 200 {
		fsShortW = 7
	}
	fsEintr = pick(r, []int{0, 0, 5})
	fsRng = uint64(r.N(1 << 20))
	for i := 0; i < fsPlanN; i++ {
		r.Desc("fault: %s %v from the %dth on, %d times, path %q", fsPlan[i].label, fsPlan[i].errno, fsPlan[i].nth+1, fsPlan[i].count, fsPlan[i].sub)
	}
	for i, j := range jobs {
		r.Desc("save %d: %s to %s name %q missing dir %v", i, j.sm.spec.Kind, strings.TrimPrefix(j.dir, r.dir), j.name, j.nodir)
	}
	fsArm()
	readers := r.Chance(1, 3)
	var mid []string
	for i, j := range jobs {
		r.Go(fmt.Sprintf("save %d", i), func() {
			if j.name == "" {
				j.err = j.sm.m.Save(j.dir)
			} else {
				j.err = j.sm.m.Save(j.dir, j.name)
			}
			j.done = true
		})
	}
	if readers {
		mid = make([]string, len(ms))
		for i, sm := range ms {
			r.Go("reader", func() { mid[i] = tokAll(sm.m, sm.words) })
		}
	}
	o := r.Wait()
	// failures of calls that may be part of creating, writing or closing
	strict, full := 0, fsFullN
	for i := 0; i < fsPlanN; i++ {
		if fsPlan[i].label != "stat or mkdir failure" {
			strict += fsPlan[i].fired
		}
	}
	fired := fsFired()
	fsSettle()
	fsDisarm()
	if !r.Judge(o, "saving", true) {
		r.Stop()
	}
	failed := 0
	for i, j := range jobs {
		what := fmt.Sprintf("save %d of a %s model", i, j.sm.spec.Kind)
		if j.err != nil {
			failed++
			if j.sm.lossy {
				r.Probe("refused a model its files cannot hold")
			} else if fired == 0 && !j.nodir {
				r.Fail("spurious-error", "%s failed on a healthy disk: %v", what, j.err)
			}
			continue
		}
		if !j.sm.check(r, what, j.dir, j.name) {
			return
		}
	}
	if strict+full > 0 && failed == 0 {
		r.Fail("error-lost", "%d failed opens, writes or closes and %d writes to a full disk, but every save reported success", strict, full)
	}
	for i, sm := range ms {
		var st, tk string
		if !r.Judge(r.Do("state", func() { st, tk = stateOf(sm.m), tokAll(sm.m, sm.words) }), "using a saved model", false) {
			r.Stop()
		}
		if st != sm.state {
			r.Fail("state", "after saving, the state of the %s model %s", sm.spec.Kind, diff(sm.state, st))
		}
		if tk != sm.toks || readers && mid[i] != sm.toks {
			r.Fail("state", "during or after saving, tokenizing with the %s model %s", sm.spec.Kind, diff(sm.toks, tk))
		}
	}
	if failed == 0 {
		return
	}
	r.Probe("save failed with an error")
	// on a healthy disk the same save succeeds, over whatever the failed one left
	for i, j := range jobs {
		if j.err == nil || j.sm.lossy {
			continue
		}
		if j.nodir {
			os.Remove(j.dir)
		}
		must(os.MkdirAll(j.dir, 0o755))
		o := r.Do("save again", func() {
			if j.name == "" {
				j.err = j.sm.m.Save(j.dir)
			} else {
				j.err = j.sm.m.Save(j.dir, j.name)
			}
		})
		what := fmt.Sprintf("save %d again on a healthy disk", i)
		if !r.Judge(o, what, true) {
			r.Stop()
		}
		if j.err != nil {
			r.Fail("later", "%s failed: %v", what, j.err)
			return
		}
		if !j.sm.check(r, what, j.dir, j.name) {
			return
		}
	}
}

// ---- C11: loading ----------------------------------------------------------------

type jmap = map[string]any

var behNames = []string{"Isolated", "Removed", "MergedWithPrevious", "MergedWithNext", "Contiguous"}

// genConfig draws a tokenizer that a tokenizer.json can describe.
func genConfig(r *R) *Spec {
	s := &Spec{Model: genModel(r, "")}
	if s.Model.Kind == "bpe" && r.Chance(1, 4) {
		s.Model.Dropout = pick(r, []float32{0.5, 0.1, 1})
	}
	s.Model.NoUnk = s.Model.Kind == "bpe" && r.Chance(1, 6)
	s.Model.Cache = -1
	if r.Chance(2, 3) {
		s.Norm = r.recipe(nNorm, false)
		if s.Norm[0] == 0 {
			s.Norm[0] = 11
		}
	}
	s.Pre = r.recipe(nPre, true)
	if s.Pre != nil && s.Pre[0] == 13 {
		s.Pre[0] = 9
	}
	if r.Chance(2, 3) {
		s.Post = r.recipe(nPost, false)
	}
	s.Dec = r.recipe(nDec, true)
	n := r.Small(5)
	for i := 0; i < n; i++ {
		a := genAdded(r)
		if s.Model.vocab()[a.Tok.Content] != 0 && r.Chance(1, 2) {
			continue
		}
		s.Added = append(s.Added, a)
	}
	// specials come first, as the loader adds them
	sort.SliceStable(s.Added, func(i, j int) bool { return s.Added[i].Special && !s.Added[j].Special })
	if r.Chance(1, 3) {
		s.Trunc = genTrunc(r)
	}
	if r.Chance(1, 3) {
		s.Pad = genPad(r)
	}
	return s
}

func orNil(s string) any {
	if s == "" {
		return nil
	}
	return s
}

// configJSON renders the tokenizer.json of a specification.
func configJSON(r *R, s *Spec) []byte {
	m := s.Model
	c := jmap{"version": "1.0"}
	switch m.Kind {
	case "bpe":
		var merges []any
		arr := r.Chance(1, 2)
		for _, p := range m.Merges {
			if arr {
				merges = append(merges, []string{m.Toks[p[0]], m.Toks[p[1]]})
			} else {
				merges = append(merges, m.Toks[p[0]]+" "+m.Toks[p[1]])
			}
		}
		if merges == nil {
			merges = []any{}
		}
		var dropout any
		if m.Dropout > 0 {
			dropout = m.Dropout
		}
		unk := any(m.Unk)
		if m.NoUnk {
			unk = nil
		}
		c["model"] = jmap{"type": "BPE", "dropout": dropout, "unk_token": unk, "continuing_subword_prefix": orNil(m.Prefix), "end_of_word_suffix": orNil(m.Suffix), "fuse_unk": false, "vocab": m.vocab(), "merges": merges}
	case "wordpiece":
		c["model"] = jmap{"type": "WordPiece", "unk_token": m.Unk, "continuing_subword_prefix": m.Prefix, "max_input_chars_per_word": m.MaxChar, "vocab": m.vocab()}
	case "wordlevel":
		c["model"] = jmap{"type": "WordLevel", "unk_token": m.Unk, "vocab": m.vocab()}
	case "unigram":
		var v []any
		for i, t := range m.Toks {
			v = append(v, []any{t, m.Scores[i]})
		}
		c["model"] = jmap{"type": "Unigram", "unk_id": m.UnkID, "byte_fallback": m.Bytes, "fuse_unk": m.Fuse, "vocab": v}
	}
	// a key that says null, or what it would say by default, may be missing
	if mc := c["model"].(jmap); m.Kind != "unigram" && r.Chance(1, 3) {
		for _, k := range []string{"dropout", "unk_token", "continuing_subword_prefix", "end_of_word_suffix", "fuse_unk"} {
			if v := mc[k]; (v == nil || v == false) && r.Chance(1, 2) {
				delete(mc, k)
			}
		}
		if m.Kind == "wordpiece" && m.MaxChar == 100 {
			delete(mc, "max_input_chars_per_word")
		}
		if m.Kind == "wordpiece" && m.Prefix == "##" && r.Chance(1, 2) {
			delete(mc, "continuing_subword_prefix")
		}
		if d, ok := decJSON(s.Dec).(jmap); m.Kind == "bpe" && r.Chance(1, 4) && (!ok || d["type"] != "WordPiece") {
			delete(mc, "type")
		}
	}
	if m.Kind == "unigram" && r.Chance(1, 3) {
		if !m.Bytes {
			delete(c["model"].(jmap), "byte_fallback")
		}
		if m.Fuse {
			delete(c["model"].(jmap), "fuse_unk")
		}
	}
	if r.Chance(1, 8) {
		c["model"].(jmap)["comment"] = []any{"type", nil, 1}
	}
	c["normalizer"] = normJSON(s.Norm)
	c["pre_tokenizer"] = preJSON(s.Pre)
	c["post_processor"] = postJSON(s.Post)
	c["decoder"] = decJSON(s.Dec)
	added := []any{}
	short := r.Chance(1, 3)
	for i, a := range s.Added {
		t := jmap{"id": 1000 + i, "content": a.Tok.Content, "single_word": a.Tok.SingleWord, "lstrip": a.Tok.LStrip, "rstrip": a.Tok.RStrip, "normalized": a.Tok.Normalized, "special": a.Special}
		for _, k := range []string{"single_word", "lstrip", "rstrip", "normalized", "special"} {
			if short && t[k] == false && r.Chance(2, 3) {
				delete(t, k)
			}
		}
		added = append(added, t)
	}
	c["added_tokens"] = added
	for _, k := range []string{"normalizer", "pre_tokenizer", "post_processor", "decoder"} {
		if c[k] == nil && short {
			delete(c, k)
		}
	}
	if t := s.Trunc; t != nil {
		n := map[tokenizer.TruncationStrategy]string{tokenizer.LongestFirst: "LongestFirst", tokenizer.OnlyFirst: "OnlyFirst", tokenizer.OnlySecond: "OnlySecond"}[t.Strategy]
		c["truncation"] = jmap{"direction": "Right", "max_length": t.MaxLength, "stride": t.Stride, "strategy": n}
	}
	if p := s.Pad; p != nil {
		d := "Right"
		if p.Direction == tokenizer.Left {
			d = "Left"
		}
		var st any = "BatchLongest"
		if p.Strategy.Name == "Fixed" {
			st = jmap{"Fixed": p.Strategy.Value}
		}
		c["padding"] = jmap{"strategy": st, "direction": d, "pad_to_multiple_of": nil, "pad_id": p.PadId, "pad_type_id": p.PadTypeId, "pad_token": p.PadToken}
		pc := c["padding"].(jmap)
		for k, v := range map[string]any{"direction": "Right", "pad_id": 0, "pad_type_id": 0, "pad_token": "[PAD]"} {
			if short && pc[k] == v {
				delete(pc, k)
			}
		}
	}
	var out []byte
	var err error
	if r.Chance(1, 2) {
		out, err = json.MarshalIndent(c, "", "  ")
	} else {
		out, err = json.Marshal(c)
	}
	must(err)
	return append(out, pick(r, []string{"", "\n"})...)
}

func normJSON(p []int) any {
	if p == nil {
		return nil
	}
	switch p[0] {
	case 1:
		return jmap{"type": "BertNormalizer", "clean_text": b(p[1]), "lowercase": b(p[2]), "handle_chinese_chars": p[3]%2 == 0, "strip_accents": p[4]%2 == 0}
	case 2:
		return jmap{"type": "NFC"}
	case 3:
		return jmap{"type": "NFD"}
	case 4:
		return jmap{"type": "NFKC"}
	case 5:
		return jmap{"type": "NFKD"}
	case 6:
		return jmap{"type": "StripAccents"}
	case 7:
		return jmap{"type": "Strip", "strip_left": b(p[1]), "strip_right": b(p[2])}
	case 8:
		return jmap{"type": "Prepend", "prepend": vPrepend[variant(p)]}
	case 9:
		if b(p[1]) {
			return jmap{"type": "Replace", "pattern": jmap{"Regex": vRegex[variant(p)]}, "content": vContent[(variant(p)+1)%4]}
		}
		return jmap{"type": "Replace", "pattern": jmap{"String": vString[variant(p)]}, "content": vContent[variant(p)]}
	case 10:
		return jmap{"type": "Sequence", "normalizers": []any{jmap{"type": "NFD"}, jmap{"type": "StripAccents"}, jmap{"type": "Lowercase"}}}
	case 12:
		return jmap{"type": "Precompiled", "precompiled_charsmap": charsmap(vCharsmap[variant(p)])}
	case 13:
		pre := vPrepend[variant(p)]
		return jmap{"type": "Sequence", "normalizers": []any{jmap{"type": "Strip", "strip_left": b(p[1]), "strip_right": b(p[2])},
			jmap{"type": "Replace", "pattern": jmap{"String": " "}, "content": pre}, jmap{"type": "Prepend", "prepend": pre}}}
	}
	return jmap{"type": "Lowercase"}
}

func preJSON(p []int) any {
	if p == nil {
		return nil
	}
	ws := jmap{"type": "WhitespaceSplit"}
	switch p[0] {
	case 0:
		return ws
	case 1:
		return jmap{"type": "BertPreTokenizer"}
	case 2:
		return jmap{"type": "ByteLevel", "add_prefix_space": b(p[1]), "trim_offsets": b(p[2])}
	case 3:
		return jmap{"type": "Whitespace"}
	case 4:
		return jmap{"type": "Delimiter", "delimiter": string(vDelimiter[variant(p)])}
	case 5:
		return jmap{"type": "Digits", "individual_digits": b(p[1])}
	case 6:
		return jmap{"type": "Metaspace", "replacement": vMeta[variant(p)], "add_prefix_space": b(p[1])}
	case 7:
		return jmap{"type": "Punctuation", "behavior": behNames[p[3]]}
	case 8:
		return jmap{"type": "Split", "pattern": jmap{"String": vSplit[variant(p)]}, "behavior": behNames[p[3]], "invert": b(p[1])}
	case 9:
		return jmap{"type": "Split", "pattern": jmap{"Regex": vSplitRe[variant(p)]}, "behavior": behNames[p[3]], "invert": b(p[1])}
	case 10:
		return jmap{"type": "UnicodeScripts"}
	case 14:
		return jmap{"type": "Metaspace", "replacement": vMeta[variant(p)], "prepend_scheme": []string{"never", "first", "always"}[p[3]%3]}
	case 11:
		return jmap{"type": "Sequence", "pretokenizers": []any{ws, jmap{"type": "Punctuation", "behavior": behNames[p[3]]}}}
	}
	return jmap{"type": "Sequence", "pretokenizers": []any{jmap{"type": "Whitespace"}, jmap{"type": "Digits", "individual_digits": b(p[1])}}}
}

func postJSON(p []int) any {
	if p == nil {
		return nil
	}
	v := variant(p)
	pieces := func(t string) (l []any) {
		for _, w := range strings.Fields(t) {
			id, n := w[:len(w)-2], int(w[len(w)-1]-'0')
			if id[0] == '$' {
				l = append(l, jmap{"Sequence": jmap{"id": id[1:], "type_id": n}})
			} else {
				l = append(l, jmap{"SpecialToken": jmap{"id": id, "type_id": n}})
			}
		}
		return
	}
	tpl := jmap{"type": "TemplateProcessing", "single": pieces(vTpl[v].single), "pair": pieces(vTpl[v].pair),
		"special_tokens": jmap{"[CLS]": jmap{"id": "[CLS]", "ids": vTpl[v].cls, "tokens": []string{"[CLS]", "[Y]"}[:len(vTpl[v].cls)]},
			"[SEP]": jmap{"id": "[SEP]", "ids": vTpl[v].sep, "tokens": []string{"[SEP]", "[X]"}[:len(vTpl[v].sep)]}}}
	cls, sep := []any{vCls[v].Value, vCls[v].Id}, []any{vSep[v].Value, vSep[v].Id}
	if defaultRoberta(p) {
		cls, sep = []any{"<s>", 0}, []any{"</s>", 2}
	}
	bl := jmap{"type": "ByteLevel", "add_prefix_space": b(p[1]), "trim_offsets": b(p[2])}
	switch p[0] {
	case 0:
		return jmap{"type": "BertProcessing", "sep": sep, "cls": cls}
	case 1:
		return jmap{"type": "RobertaProcessing", "sep": sep, "cls": cls, "trim_offsets": b(p[1]), "add_prefix_space": b(p[2])}
	case 2:
		return bl
	case 3, 4, 5:
		return tpl
	}
	bl["add_prefix_space"] = true
	return jmap{"type": "Sequence", "processors": []any{bl, tpl}}
}

func decJSON(p []int) any {
	if p == nil {
		return nil
	}
	strip := func(a, z int) jmap {
		return jmap{"type": "Strip", "content": vStrip[variant(p)], "start": a, "stop": z}
	}
	switch p[0] {
	case 0:
		return jmap{"type": "WordPiece", "prefix": vPrefix[variant(p)], "cleanup": b(p[1])}
	case 1:
		return jmap{"type": "BPE", "suffix": vSuffix[variant(p)]}
	case 2:
		return jmap{"type": "ByteLevel", "add_prefix_space": true, "trim_offsets": true}
	case 3:
		return jmap{"type": "Metaspace", "replacement": vMeta[variant(p)], "add_prefix_space": b(p[1])}
	case 4:
		return jmap{"type": "CTC", "pad_token": vPadTok[variant(p)], "word_delimiter": vDelim[variant(p)], "cleanup": b(p[1])}
	case 5:
		return jmap{"type": "Fuse"}
	case 6:
		return jmap{"type": "ByteFallback"}
	case 7:
		return jmap{"type": "Sequence", "decoders": []any{jmap{"type": "ByteFallback"}, jmap{"type": "Fuse"}, strip(1, 0)}}
	case 9:
		if b(p[1]) {
			return jmap{"type": "Replace", "pattern": jmap{"Regex": vRegex[variant(p)]}, "content": vContent[(variant(p)+1)%4]}
		}
		return jmap{"type": "Replace", "pattern": jmap{"String": vString[variant(p)]}, "content": vContent[variant(p)]}
	case 10:
		return jmap{"type": "Sequence", "decoders": []any{jmap{"type": "Replace", "pattern": jmap{"String": vMeta[variant(p)]}, "content": " "}, jmap{"type": "ByteFallback"}, jmap{"type": "Fuse"}, jmap{"type": "Strip", "content": " ", "start": 1, "stop": 0}}}
	}
	return strip(1, 1)
}

// faultyReader hands out data in pieces and fails at a point, like a file or
// network stream would.
type faultyReader struct {
	data  []byte
	pos   int
	chunk int
	at    int   // fails once at bytes were delivered, <0: never
	err   error // the failure
	with  bool  // the failure comes together with the last bytes
	zero  bool  // sometimes returns no bytes and no error
	rng   uint64
	fired bool
}

func (f *faultyReader) Read(p []byte) (int, error) {
	runtime.SimYield(0)
	if len(p) == 0 {
		return 0, nil
	}
	f.rng = mix(f.rng)
	if f.zero && f.rng%5 == 0 {
		f.zero = f.rng%25 != 0
		return 0, nil
	}
	limit := len(f.data)
	if f.at >= 0 && f.at < limit {
		limit = f.at
	}
	n := min(limit-f.pos, len(p))
	if f.chunk > 0 {
		n = min(n, 1+int(f.rng>>8)%f.chunk)
	}
	if n > 0 {
		copy(p, f.data[f.pos:f.pos+n])
		f.pos += n
		if f.pos < limit || !f.with {
			return n, nil
		}
	}
	if f.at >= 0 && f.pos >= f.at {
		f.fired = true
		return max(n, 0), f.err
	}
	return max(n, 0), io.EOF
}

// loadJob is one load of a model or tokenizer.
type loadJob struct {
	kind  string
	dir   string
	spec  *Spec
	rd    *faultyReader
	need  int // bytes of rd that hold the value
	cut   bool
	gone  bool
	ins   []Input
	words []string
	got   string
	err   error
	done  bool
}

var loaders = []string{"pretrained.FromFile", "pretrained.FromReader", "tokenizer.ConfigFromFile", "bpe files", "bpe.ReadFiles", "wordpiece", "wordlevel", "wordpiece builder"}

// describe is what a caller sees of a loaded tokenizer.
func describe(tk *tokenizer.Tokenizer, ins []Input) string {
	s := State(tk)
	for _, in := range ins {
		for _, sp := range []bool{true, false} {
			e, err := tk.Encode(in.Make(), sp)
			if err != nil {
				s += " error " + err.Error()
				continue
			}
			s += " " + Canon(e)
			if tk.GetDecoder() != nil && len(e.Ids) > 0 {
				s += fmt.Sprintf(" decoded %q", tk.Decode(e.Ids, sp))
			}
		}
	}
	return s
}

func (j *loadJob) run() {
	switch j.kind {
	case "pretrained.FromFile", "pretrained.FromReader":
		var tk *tokenizer.Tokenizer
		if j.kind == "pretrained.FromFile" {
			tk, j.err = pretrained.FromFile(j.dir + "/tokenizer.json")
		} else {
			tk, j.err = pretrained.FromReader(j.rd)
		}
		if j.err == nil {
			j.got = describe(tk, j.ins)
			// what is done to this one is nothing to the next one
			tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("ab", true), tokenizer.NewAddedToken("zz", true)})
			tk.WithPadding(nil)
		} else if tk != nil {
			j.got = "a tokenizer together with the error"
		}
	case "tokenizer.ConfigFromFile":
		var c *tokenizer.Config
		c, j.err = tokenizer.ConfigFromFile(j.dir + "/tokenizer.json")
		if j.err == nil {
			b, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			j.got = string(b)
		} else if c != nil {
			j.got = "a configuration together with the error"
		}
	case "bpe files":
		bb := bpe.NewBpeBuilder()
		bb.Files(j.dir+"/vocab.json", j.dir+"/merges.txt")
		bb.UnkToken(j.spec.Model.Unk)
		if j.spec.Model.Prefix != "" {
			bb.ContinuingSubwordPrefix(j.spec.Model.Prefix)
		}
		if j.spec.Model.Suffix != "" {
			bb.EndOfWordSuffix(j.spec.Model.Suffix)
		}
		var m *bpe.BPE
		m, j.err = bb.Build()
		if j.err == nil {
			j.got = bpeState(m) + tokAll(m, j.words)
		} else if m != nil {
			j.got = "a model together with the error"
		}
	case "bpe.ReadFiles":
		var v *model.Vocab
		var ms *bpe.Merges
		empty := &bpe.BPE{}
		if p := j.spec.Model.Prefix; p != "" {
			empty.ContinuingSubwordPrefix = &p
		}
		v, ms, j.err = empty.ReadFiles(j.dir+"/vocab.json", j.dir+"/merges.txt")
		if j.err == nil {
			x := bpe.NewBPE(*v, *ms)
			u := j.spec.Model.Unk
			x.UnkToken = &u
			x.ContinuingSubwordPrefix = empty.ContinuingSubwordPrefix
			if s := j.spec.Model.Suffix; s != "" {
				x.EndOfWordSuffix = &s
			}
			j.got = bpeState(x) + tokAll(x, j.words)
		}
	case "wordpiece":
		var m wordpiece.WordPiece
		m, j.err = wordpiece.NewWordPieceFromFile(j.dir+"/vocab.txt", j.spec.Model.Unk, j.spec.Model.MaxChar)
		if j.err == nil {
			j.got = modelState(m) + tokAll(m, j.words)
		}
	case "wordpiece builder":
		m := wordpiece.NewWordPieceBuilderFromFile(j.dir + "/vocab.txt").UnkToken(j.spec.Model.Unk).MaxInputCharsPerWord(j.spec.Model.MaxChar).ContinuingSubwordPrefix(j.spec.Model.Prefix).Build()
		j.got = modelState(m) + tokAll(m, j.words)
	case "wordlevel":
		var m *wordlevel.WordLevel
		m, j.err = wordlevel.NewWorldLevelFromFile(j.dir+"/vocab.txt", j.spec.Model.Unk)
		if j.err == nil {
			j.got = modelState(m) + tokAll(m, j.words)
		} else if m != nil {
			j.got = "a model together with the error"
		}
	}
	j.done = true
}

// want is what the loader has to deliver, from the description alone.
func (j *loadJob) want() string {
	switch j.kind {
	case "pretrained.FromFile", "pretrained.FromReader":
		return describe(j.spec.Build(), j.ins)
	case "tokenizer.ConfigFromFile":
		return ""
	case "bpe files", "bpe.ReadFiles":
		m := j.spec.Model.Build()
		return bpeState(m) + tokAll(m, j.words)
	}
	m := j.spec.Model.Build()
	return modelState(m) + tokAll(m, j.words)
}

// write puts the described files into the job's directory.
func (j *loadJob) write(r *R) {
	must(os.MkdirAll(j.dir, 0o755))
	m := j.spec.Model
	switch j.kind {
	case "pretrained.FromFile", "pretrained.FromReader", "tokenizer.ConfigFromFile":
		c := configJSON(r, j.spec)
		if r.Chance(1, 8) {
			// larger than any read buffer
			c = append([]byte(strings.Repeat(" ", 5000)), c...)
		}
		j.need = len(strings.TrimRight(string(c), "\n"))
		if r.Chance(1, 8) && j.kind != "pretrained.FromReader" {
			// the file itself is torn, as after a crash
			j.cut = true
			c = c[:r.N(j.need)]
			r.res.Faults["torn file"]++
		}
		must(os.WriteFile(j.dir+"/tokenizer.json", c, 0o644))
		if j.kind == "pretrained.FromReader" {
			j.rd = &faultyReader{data: c, at: -1}
		}
	case "bpe files", "bpe.ReadFiles":
		v, err := json.Marshal(m.vocab())
		must(err)
		if r.Chance(1, 8) {
			j.cut = true
			v = v[:r.N(len(v))]
			r.res.Faults["torn file"]++
		}
		var b strings.Builder
		if r.Chance(1, 2) {
			b.WriteString("#version: 0.2\n")
		}
		for i, p := range m.Merges {
			b.WriteString(m.Toks[p[0]] + " " + m.Toks[p[1]])
			if i < len(m.Merges)-1 || r.Chance(1, 2) {
				b.WriteString("\n")
			}
		}
		must(os.WriteFile(j.dir+"/vocab.json", v, 0o644))
		must(os.WriteFile(j.dir+"/merges.txt", []byte(b.String()), 0o644))
	default:
		t := strings.Join(m.Toks, "\n") + pick(r, []string{"\n", ""})
		must(os.WriteFile(j.dir+"/vocab.txt", []byte(t), 0o644))
	}
	if j.rd == nil && r.Chance(1, 20) {
		j.gone = true
		l, _ := os.ReadDir(j.dir)
		must(os.Remove(j.dir + "/" + l[r.N(len(l))].Name()))
		r.res.Faults["missing file"]++
	}
}

func genLoad(r *R, i int) *loadJob {
	j := &loadJob{kind: pick(r, loaders), dir: fmt.Sprintf("%s/load%d", r.dir, i)}
	switch {
	case strings.HasPrefix(j.kind, "bpe"):
		j.spec = &Spec{Model: genModel(r, "bpe")}
	case strings.HasPrefix(j.kind, "wordpiece"):
		j.spec = &Spec{Model: genModel(r, "wordpiece")}
		if j.kind == "wordpiece" {
			j.spec.Model.Prefix = "##" // this loader knows no other
		}
	case j.kind == "wordlevel":
		j.spec = &Spec{Model: genModel(r, "wordlevel")}
	default:
		j.spec = genConfig(r)
	}
	if r.Chance(1, 8) && j.spec.Model.Kind != "unigram" {
		// more than one buffer of data
		for k := 0; k < 40; k++ {
			j.spec.Model.Toks = append(j.spec.Model.Toks, strings.Repeat(pick(r, letters), 100+r.N(200))+fmt.Sprint(k))
		}
	}
	if (strings.HasPrefix(j.kind, "wordpiece") || j.kind == "wordlevel") && r.Chance(1, 5) {
		// tokens that occur twice: the last line counts
		m := j.spec.Model
		for k := 1 + r.N(6); k > 0; k-- {
			at := r.N(len(m.Toks))
			if r.Chance(1, 2) {
				m.Toks = append(m.Toks, m.Toks[at])
			} else {
				m.Toks = slices.Insert(m.Toks, at, m.Toks[at])
			}
		}
		r.Probe("vocabulary with repeated lines")
	}
	for k := 0; k < 4; k++ {
		j.words = append(j.words, r.word())
	}
	for k := 0; k < 2; k++ {
		j.ins = append(j.ins, genInput(r, 4))
	}
	return j
}

func c11(r *R) {
	n := 1
	if r.Chance(1, 3) {
		n = 2 + r.N(2)
	}
	var jobs []*loadJob
	want := map[*loadJob]string{}
	for i := 0; i < n; i++ {
		j := genLoad(r, i)
		if i > 0 && r.Chance(1, 3) && jobs[0].rd == nil {
			// the same file once more
			x := *jobs[0]
			j = &x
			r.Probe("one file loaded twice")
		} else {
			j.write(r)
		}
		r.Desc("load %d: %s of %s, inputs %v, words %q, torn %v, missing %v", i, j.kind, j.spec, j.ins, j.words, j.cut, j.gone)
		before := runtime.SimSteps()
		var o *Outcome
		r.Apart(func() { o = r.DoBg("reference", func() { want[j] = j.want() }) })
		if !o.OK() || runtime.SimSteps()-before > 60_000 {
			// the described tokenizer cannot do these inputs at all, or not in useful time
			j.ins, j.words = nil, nil
			r.Apart(func() { r.Setup("reference", func() { want[j] = j.want() }) })
		}
		r.Note(fmt.Sprintf("load %s %s %v %q", j.kind, j.spec.id(), j.ins, j.words), want[j])
		jobs = append(jobs, j)
	}
	// a load on a healthy system: the meaning of the file
	for i, j := range jobs {
		if j.cut || j.gone {
			continue
		}
		if want[j] != "" && r.Chance(1, 2) {
			continue // the faults meet the first load
		}
		k := *j
		if k.rd != nil {
			x := *k.rd
			k.rd = &x
		} else if want[j] == "" && r.Chance(1, 2) {
			k.dir = fmt.Sprintf("%s-copy%d", j.dir, i)
			must(os.CopyFS(k.dir, os.DirFS(j.dir)))
		}
		o := r.DoBg("healthy load", k.run)
		if !r.Judge(o, "loading a complete file ("+j.kind+")", false) {
			r.Stop()
		}
		if k.err != nil {
			r.Fail("spurious-error", "%s of a complete file failed: %v", j.kind, k.err)
			r.Stop()
		}
		if want[j] == "" {
			want[j] = k.got
		}
		if k.got != want[j] {
			r.Fail("whole", "%s of a complete file: the result %s", j.kind, diff(want[j], k.got))
			r.Stop()
		}
	}
	faulty := r.Chance(4, 5)
	if faulty {
		for i := 1 + r.N(2); i > 0; i-- {
			sub := ""
			if n > 1 && r.Chance(2, 3) {
				sub = fmt.Sprintf("/load%d", r.N(n))
			}
			many := pick(r, []int{1, 1, 1 << 20})
			switch r.N(6) {
			case 0, 1:
				fsAdd("open failure", pick(r, openErrnos), r.N(3), many, sub, syscall.SimOpen)
			case 2, 3, 4:
				fsAdd("read failure", pick(r, readErrnos), r.Small(20), many, sub, syscall.SimRead, syscall.SimPread)
			case 5:
				fsAdd("stat or close failure", syscall.EIO, r.N(3), many, sub, syscall.SimStat, syscall.SimFstat, syscall.SimClose)
			}
		}
	}
	shortIO(r)
	if fsShortR > 0 && fsShortR < 40 {
		for _, j := range jobs {
			if len(j.spec.Model.Toks) > 200 {
				fsShortR = 300
			}
		}
	}
	for i, j := range jobs {
		if j.rd == nil {
			continue
		}
		j.rd.chunk = pick(r, []int{0, 0, 1, 5, 50, 600})
		j.rd.with = r.Chance(1, 2)
		j.rd.zero = r.Chance(1, 4)
		j.rd.rng = uint64(r.N(1 << 20))
		if faulty && r.Chance(1, 2) {
			j.rd.at = r.N(len(j.rd.data) + 1)
			j.rd.err = pick(r, []error{syscall.EIO, io.ErrUnexpectedEOF, io.EOF, syscall.ECONNRESET})
			r.Desc("load %d: the reader fails with %v after %d of %d bytes", i, j.rd.err, j.rd.at, len(j.rd.data))
		}
	}
	for i := 0; i < fsPlanN; i++ {
		r.Desc("fault: %s %v from the %dth on, %d times, path %q", fsPlan[i].label, fsPlan[i].errno, fsPlan[i].nth+1, fsPlan[i].count, fsPlan[i].sub)
	}
	fsArm()
	again := r.Chance(1, 3)
	if again {
		r.Desc("every load is tried again while the faults go on")
	}
	if r.Chance(1, 2) {
		for i, j := range jobs {
			r.Go(fmt.Sprintf("load %d", i), j.run)
		}
		o := r.WaitBg()
		c11exits(r, jobs, o)
		if !r.Judge(o, "loading", false) {
			fsDisarm()
			r.Stop()
		}
		if fsFired() == 0 {
			for i, j := range jobs {
				if j.err != nil && !j.cut && !j.gone && (j.rd == nil || !j.rd.fired) {
					r.Fail("spurious-error", "load %d (%s) failed although nothing was injected: %v", i, j.kind, j.err)
				}
			}
		}
		c11judge(r, jobs, want)
	} else {
		for n := range 2 * len(jobs) {
			i := n % len(jobs)
			j := jobs[i]
			if n >= len(jobs) {
				if !again || j.rd != nil {
					continue
				}
				j.err, j.got, j.done = nil, "", false
			}
			before, soft := fsFired(), 0
			for k := 0; k < fsPlanN; k++ {
				if fsPlan[k].label == "stat or close failure" {
					soft -= fsPlan[k].fired
				}
			}
			o := r.DoBg(fmt.Sprintf("load %d", i), j.run)
			c11exits(r, jobs[i:i+1], o)
			if !r.Judge(o, "loading ("+j.kind+")", false) {
				fsDisarm()
				r.Stop()
			}
			for k := 0; k < fsPlanN; k++ {
				if fsPlan[k].label == "stat or close failure" {
					soft += fsPlan[k].fired
				}
			}
			hard := fsFired() - before - soft
			if j.err == nil && hard > 0 {
				r.Fail("error-lost", "%s: %d failures of opening or reading were injected, but the load reported success", j.kind, hard)
			}
			if j.err != nil && hard+soft == 0 && !j.cut && !j.gone && (j.rd == nil || !j.rd.fired) {
				r.Fail("spurious-error", "%s failed although nothing was injected: %v", j.kind, j.err)
			}
			c11judge(r, jobs[i:i+1], want)
		}
	}
	fsSettle()
	fsDisarm()
	// a failed load leaves no trace: the next one, on a healthy system, is whole
	for i, j := range jobs {
		if j.cut || j.gone {
			continue
		}
		k := *j
		k.err, k.got, k.done = nil, "", false
		if k.rd != nil {
			k.rd = &faultyReader{data: j.rd.data, at: -1}
		}
		o := r.DoBg("load again", k.run)
		if !r.Judge(o, "loading again", false) {
			r.Stop()
		}
		if k.err != nil {
			r.Fail("later", "load %d (%s) on a healthy system after the faults failed: %v", i, k.kind, k.err)
			return
		}
		if k.got != want[j] {
			r.Fail("later", "load %d (%s) on a healthy system after the faults: the result %s", i, k.kind, diff(want[j], k.got))
			return
		}
	}
}

func c11judge(r *R, jobs []*loadJob, want map[*loadJob]string) {
	for i, j := range jobs {
		if j.rd != nil && j.rd.fired {
			r.res.Faults["reader failure"]++
		}
		if j.err != nil {
			r.Probe("load failed with an error")
			if j.got != "" {
				r.Fail("both", "load %d (%s) returned %s: %v", i, j.kind, j.got, j.err)
			}
			continue
		}
		if j.cut || j.gone {
			r.Fail("error-lost", "load %d (%s) of a torn or missing file reported success", i, j.kind)
			continue
		}
		if j.rd != nil && j.rd.fired && j.rd.at < j.need {
			r.Fail("error-lost", "load %d (%s): the reader failed after %d of %d bytes, but the load reported success", i, j.kind, j.rd.at, j.need)
		}
		if j.got != want[j] {
			r.Fail("partial", "load %d (%s) reported success, but the result %s", i, j.kind, diff(want[j], j.got))
			continue
		}
		r.Probe("loaded " + j.kind)
	}
}

// c11exits marks the exits of the one loader that has no way to report an
// error (see known-findings.txt), whatever function of it the exit is in: a
// WordPiece builder whose file is missing or failed to open or read.
func c11exits(r *R, jobs []*loadJob, o *Outcome) {
	n := 0
	for _, j := range jobs {
		if j.done {
			continue
		}
		if j.kind != "wordpiece builder" || !j.gone && fsFired() == 0 {
			return
		}
		n++
	}
	if n != len(o.Exits) {
		return
	}
	for i := range o.Exits {
		o.Exits[i].key = "exit:NewWordPieceBuilderFromFile"
	}
}
