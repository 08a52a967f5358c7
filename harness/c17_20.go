package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"slices"
	"strings"
	"time"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
)

func init() {
	checks["C17"] = c17
	checks["C18"] = c18
	checks["C19"] = c19
	checks["C20"] = c20
}

// ---- C17 ----------------------------------------------------------------------------

// rollStream replaces the numbers of every seeded random source.
type rollStream struct {
	kind, a, b int
	n          int
	rng        rng
}

func (s *rollStream) next() (uint64, bool) {
	s.n++
	const low, high = 0, 1<<63 - 1<<40
	switch s.kind {
	case 0:
		return low, true
	case 1:
		return high, true
	case 2: // a skips, b merges, again
		if s.n%(s.a+s.b+2) <= s.a {
			return low, true
		}
		return high, true
	case 3: // merges until, then skips
		if s.n > s.a*4+s.b {
			return low, true
		}
		return high, true
	default:
		return s.rng.next() >> 1, true
	}
}

// segmentation says what is wrong with the tokens of a word; "" if nothing.
func segmentation(m *ModelSpec, w string, l []tokenizer.Token) string {
	at := 0
	for i, t := range l {
		if len(t.Offsets) != 2 || t.Offsets[0] != at || t.Offsets[1] <= at || t.Offsets[1] > len(w) {
			return fmt.Sprintf("token %d %q has offsets %v, the one before ends at %d", i, t.Value, t.Offsets, at)
		}
		part := w[t.Offsets[0]:t.Offsets[1]]
		at = t.Offsets[1]
		if t.Id < 0 || t.Id >= len(m.Toks) || m.Toks[t.Id] != t.Value {
			return fmt.Sprintf("token %d has id %d and value %q", i, t.Id, t.Value)
		}
		if t.Value == m.Unk {
			if len([]rune(part)) != 1 {
				return fmt.Sprintf("the unknown token %d stands for %q", i, part)
			}
			for _, k := range m.Toks {
				if k == part {
					return fmt.Sprintf("%q is in the vocabulary, but token %d is unknown", part, i)
				}
			}
			continue
		}
		if t.Value != part {
			return fmt.Sprintf("token %d is %q, it stands for %q", i, t.Value, part)
		}
	}
	if at != len(w) {
		return fmt.Sprintf("the tokens end at %d of %d bytes", at, len(w))
	}
	return ""
}

// dropBudget bounds the steps of one tokenization with dropout; a loop that
// repeats merges for ever would otherwise first fill the memory.
const dropBudget = 1_000_000

func c17(r *R) {
	m := genModel(r, "bpe")
	for m.Prefix+m.Suffix != "" {
		m = genModel(r, "bpe")
	}
	m.Cache = pick(r, []int{-1, 0, 1, 3, 1000})
	m.Dropout = pick(r, []float32{0.5, 0.1, 0.9, 0.25, 0.99, 1e-9, 1})
	var ws []string
	nw := 1 + r.N(6)
	for i := 0; i < nw; i++ {
		w := r.word()
		if len(ws) > 0 && r.Chance(1, 3) {
			w = r.related(pick(r, ws))
		}
		if r.Chance(1, 4) {
			// letters that merge
			w = ""
			for n := 1 + r.N(24); n > 0; n-- {
				w += pick(r, letters)
			}
		}
		if w != "" {
			ws = append(ws, strings.ToValidUTF8(w, "a"))
		}
	}
	if len(ws) == 0 {
		ws = []string{"ab"}
	}
	r.Desc("dropout %v cache %d tokens %q merges %v words %q", m.Dropout, m.Cache, m.Toks, m.Merges, ws)
	get := func(x tokenizer.Model, w string) (s string, l []tokenizer.Token) {
		l, err := x.Tokenize(w)
		return tokString(l) + fmt.Sprint(err), l
	}
	// without dropout, and with it, alone
	plain, want := make([]string, len(ws)), make([]string, len(ws))
	nod := *m
	nod.Dropout = 0
	for i, w := range ws {
		var a, b tokenizer.Model
		var l []tokenizer.Token
		var o *Outcome
		r.Apart(func() {
			r.Setup("model", func() { a = nod.Build() })
			o = r.Alone(func() { plain[i], _ = get(a, w) })
		})
		if !o.OK() {
			r.Skip("the word does not work without dropout")
		}
		r.Apart(func() {
			r.Setup("model", func() { b = m.Build() })
			r.limit = dropBudget
			o = r.Do("alone", func() { want[i], l = get(b, w) })
		})
		if !r.Judge(o, fmt.Sprintf("Tokenize(%q) with dropout", w), true) {
			return
		}
		r.Note(fmt.Sprintf("%s dropout %v %q", (&Spec{Model: m}).id(), m.Dropout, w), want[i])
		if s := segmentation(m, w, l); s != "" {
			r.Fail("segmentation", "%q: %s: %s", w, s, want[i])
			return
		}
		if want[i] != plain[i] {
			r.Probe("a merge was left out")
		}
		if m.Dropout == 1 {
			for _, t := range l {
				if len([]rune(w[t.Offsets[0]:t.Offsets[1]])) != 1 {
					r.Fail("segmentation", "%q: merged with dropout 1: %s", w, want[i])
					return
				}
			}
		}
		if m.Dropout < 1e-6 && want[i] != plain[i] {
			r.Fail("segmentation", "%q with a dropout of %v %s", w, m.Dropout, diff(plain[i], want[i]))
			return
		}
	}
	// whatever numbers are drawn
	nr := r.N(4)
	for k := 0; k < nr; k++ {
		st := &rollStream{kind: r.N(5), a: r.N(6), b: r.N(6), rng: rng{uint64(r.N(1 << 20))}}
		w := pick(r, ws)
		var x tokenizer.Model
		var l []tokenizer.Token
		var s string
		r.Setup("model", func() { x = m.Build() })
		rand.SimRand = st.next
		r.limit = dropBudget
		o := r.Do("drawn numbers", func() { s, l = get(x, w) })
		rand.SimRand = nil
		r.res.Faults["random numbers replaced"] += st.n
		if !r.Judge(o, fmt.Sprintf("Tokenize(%q) with drawn random numbers %+v", w, *st), true) {
			return
		}
		if bad := segmentation(m, w, l); bad != "" {
			r.Fail("segmentation", "%q with drawn random numbers %+v: %s: %s", w, *st, bad, s)
			return
		}
		if st.n > 0 && st.kind == 1 && m.Dropout < 0.98 && s != plain[strIndex(ws, w)] {
			r.Fail("segmentation", "%q when nothing is dropped %s", w, diff(plain[strIndex(ws, w)], s))
			return
		}
	}
	// concurrent callers, a clock that moves, dropout switched off and on between the phases
	var x tokenizer.Model
	r.Setup("model", func() { x = m.Build() })
	r.limit = 0
	p := m.Dropout
	for phase := 0; phase < 1+r.N(4); phase++ {
		on := phase%2 == 0
		expect := want
		if bm, is := x.(*bpe.BPE); is {
			bm.Dropout = nil
			if on {
				bm.Dropout = &p
			}
		}
		if !on {
			expect = plain
			r.Probe("dropout switched off")
		}
		nc := 1 + r.N(3)
		bads := make([]string, nc)
		for c := 0; c < nc; c++ {
			var plan []int
			for n := 1 + r.N(5); n > 0; n-- {
				plan = append(plan, r.N(len(ws)))
			}
			wait := time.Duration(r.N(3)) * time.Minute
			r.Go(fmt.Sprintf("client %d", c), func() {
				for _, i := range plan {
					if wait > 0 {
						time.Sleep(wait)
					}
					if g, l := get(x, ws[i]); g != expect[i] {
						bads[c] = fmt.Sprintf("phase %d client %d: %q %s", phase, c, ws[i], diff(expect[i], g))
						return
					} else {
						heldTokens("", l).scribble()
					}
				}
			})
		}
		if !r.Judge(r.Wait(), "tokenizing", true) {
			return
		}
		for _, b := range bads {
			if b != "" {
				r.Fail("history", "%s", b)
				return
			}
		}
	}
}

func strIndex(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return 0
}

// ---- changes of settings ----------------------------------------------------------------

// action is one thing done to a tokenizer.
type action struct {
	kind  int
	op    Op
	rec   []int
	add   []AddedSpec
	trunc *tokenizer.TruncationParams
	pad   *tokenizer.PaddingParams
	model *ModelSpec
	words map[string]int
	opts  trainOpts
	wait  time.Duration
	part  string // component whose parameters are set
}

const (
	acOp = iota
	acNorm
	acPre
	acPost
	acDec
	acAdd
	acTrunc
	acPad
	acModel
	acClear
	acWait
	acScribble
	acTrain
	acTweak
)

func (a action) String() string {
	switch a.kind {
	case acOp:
		return a.op.String()
	case acScribble:
		return a.op.String() + " and overwrite the result"
	case acNorm:
		return fmt.Sprintf("WithNormalizer(%T%v)", NormOf(a.rec), a.rec)
	case acPre:
		return fmt.Sprintf("WithPreTokenizer(%T%v)", PreOf(a.rec), a.rec)
	case acPost:
		return fmt.Sprintf("WithPostProcessor(%T%v)", PostOf(a.rec), a.rec)
	case acDec:
		return fmt.Sprintf("WithDecoder(%T%v)", DecOf(a.rec), a.rec)
	case acAdd:
		return fmt.Sprintf("add %+v", a.add)
	case acTrunc:
		return fmt.Sprintf("WithTruncation(%+v)", a.trunc)
	case acPad:
		return fmt.Sprintf("WithPadding(%+v)", a.pad)
	case acModel:
		return "WithModel(" + (&Spec{Model: a.model}).String() + ")"
	case acClear:
		return "ClearCache"
	case acWait:
		return fmt.Sprintf("wait %v", a.wait)
	case acTweak:
		return fmt.Sprintf("set %s to %v", a.part, a.rec)
	case acTrain:
		return fmt.Sprintf("train a model on %v with %+v", a.words, a.opts)
	}
	return "?"
}

// genChange draws a change of settings.
func genChange(r *R, s *Spec, model bool) action {
	if s.Norm != nil && s.Norm[0] == 1 && r.Chance(1, 4) {
		rec := append([]int(nil), s.Norm...)
		rec[1], rec[2], rec[3], rec[4] = r.N(2), r.N(2), r.N(2), r.N(2)
		return action{kind: acTweak, part: "normalizer", rec: rec}
	}
	switch n := r.N(12); n {
	case 0:
		return action{kind: acNorm, rec: r.recipe(nNorm, true)}
	case 1:
		return action{kind: acPre, rec: r.recipe(nPre, true)}
	case 2:
		return action{kind: acPost, rec: r.recipe(nPost, true)}
	case 3:
		return action{kind: acDec, rec: r.recipe(nDec, true)}
	case 4, 5:
		if r.Chance(1, 4) {
			return action{kind: acTrunc}
		}
		return action{kind: acTrunc, trunc: genTrunc(r)}
	case 6:
		if r.Chance(1, 4) {
			return action{kind: acPad}
		}
		return action{kind: acPad, pad: genPad(r)}
	case 7:
		return action{kind: acClear}
	case 8:
		return action{kind: acWait, wait: pick(r, []time.Duration{time.Second, 6 * time.Minute, 11 * time.Minute})}
	case 10:
		// parameters of a component, through its own methods
		type part struct {
			name string
			rec  []int
		}
		var l []part
		if p := s.Pre; p != nil && (p[0] == 2 || p[0] == 6 || p[0] == 14) {
			l = append(l, part{"pre-tokenizer", p})
		}
		if p := s.Norm; p != nil && p[0] == 1 {
			l = append(l, part{"normalizer", p})
		}
		if p := s.Post; p != nil && p[0] == 1 {
			l = append(l, part{"post-processor", p})
		}
		if p := s.Dec; p != nil && p[0] == 3 {
			l = append(l, part{"decoder", p})
		}
		if len(l) > 0 {
			p := pick(r, l)
			rec := append([]int(nil), p.rec...)
			if p.name == "normalizer" {
				rec[1], rec[2], rec[3], rec[4] = r.N(2), r.N(2), r.N(2), r.N(2)
			} else if p.name == "post-processor" || rec[0] == 2 {
				rec[1], rec[2] = r.N(2), r.N(2)
			} else {
				rec[5] = r.N(4)
			}
			return action{kind: acTweak, part: p.name, rec: rec}
		}
	case 9:
		if model && len(s.Added) == 0 {
			return action{kind: acModel, model: sibling(r, s.Model)}
		}
	}
	a := action{kind: acAdd}
	sp := r.Chance(1, 2)
	for n := 1 + r.N(2); n > 0; n-- {
		t := genAdded(r)
		t.Special = sp
		a.add = append(a.add, t)
	}
	return a
}

// sibling is another model, often one that is easily taken for the given one.
func sibling(r *R, m *ModelSpec) *ModelSpec {
	c := *m
	switch r.N(7) {
	case 5:
		// as many tokens, some of them others
		c.Toks = append([]string(nil), m.Toks...)
		used := map[string]bool{m.unkTok(): true}
		for _, t := range m.Toks {
			used[t] = used[t] || m.Kind == "unigram" && r.Chance(1, 4)
		}
		for _, p := range m.Merges {
			used[m.Toks[p[0]]], used[m.Toks[p[1]]], used[m.merged(p[0], p[1])] = true, true, true
		}
		for n := 1 + r.N(12); n > 0; n-- {
			i := r.N(len(c.Toks))
			w := r.word()
			if !used[c.Toks[i]] && !used[w] && !slices.Contains(c.Toks, w) {
				c.Toks[i] = w
			}
		}
		return &c
	case 6:
		// another setting
		switch m.Kind {
		case "wordpiece":
			c.MaxChar = pick(r, []int{5, 3, 100})
		case "unigram":
			c.Fuse = !c.Fuse
			c.Bytes = r.Chance(1, 2)
		case "bpe":
			c.Cache = pick(r, []int{-1, 0, 1, 3})
		}
		return &c
	case 0:
		return &c // the same again
	case 1:
		return genModel(r, "")
	case 2:
		// the same tokens with other ids
		if m.Kind == "wordlevel" || m.Kind == "wordpiece" {
			c.IDs = nil
			for i := range m.Toks {
				c.IDs = append(c.IDs, (i+1)%len(m.Toks))
			}
			return &c
		}
		c.Merges = append([][2]int(nil), m.Merges...)
		c.rotate(1 + r.N(len(m.Toks)-1))
		return &c
	case 3:
		// fewer merges, other scores, a shorter vocabulary
		switch m.Kind {
		case "bpe":
			c.Merges = m.Merges[:len(m.Merges)/2]
		case "unigram":
			c.Scores = append([]float64(nil), m.Scores...)
			for i := range c.Scores {
				c.Scores[i] = -1 - float64((i*7)%5)
			}
		default:
			n := (len(m.Toks)+1)/2 + 1
			c.Toks, c.IDs = nil, nil
			for i, t := range m.Toks {
				if i >= n && t != m.Unk {
					continue
				}
				c.Toks = append(c.Toks, t)
				if m.IDs != nil {
					c.IDs = append(c.IDs, m.IDs[i])
				}
			}
		}
		return &c
	default:
		return genModel(r, m.Kind)
	}
}

// spec is the description after the change.
func (a action) spec(s *Spec) *Spec {
	c := *s
	switch a.kind {
	case acNorm:
		c.Norm = a.rec
	case acPre:
		c.Pre = a.rec
	case acPost:
		c.Post = a.rec
	case acDec:
		c.Dec = a.rec
	case acAdd:
		c.Added = append(append([]AddedSpec(nil), s.Added...), a.add...)
	case acTweak:
		switch a.part {
		case "normalizer":
			c.Norm = a.rec
		case "pre-tokenizer":
			c.Pre = a.rec
		case "post-processor":
			c.Post = a.rec
		default:
			c.Dec = a.rec
		}
	case acTrunc:
		c.Trunc = a.trunc
	case acPad:
		c.Pad = a.pad
	case acModel:
		c.Model = a.model
	}
	return &c
}

// do performs the action; operations give a result.
func (a action) do(tk *tokenizer.Tokenizer) string {
	switch a.kind {
	case acOp:
		s, _ := a.op.run(tk)
		return s
	case acScribble:
		s, parts := a.op.run(tk)
		for _, h := range parts {
			h.scribble()
		}
		return s
	case acNorm:
		tk.WithNormalizer(NormOf(a.rec))
	case acPre:
		tk.WithPreTokenizer(PreOf(a.rec))
	case acPost:
		tk.WithPostProcessor(PostOf(a.rec))
	case acDec:
		tk.WithDecoder(DecOf(a.rec))
	case acAdd:
		var l []tokenizer.AddedToken
		for _, t := range a.add {
			l = append(l, t.Tok)
		}
		if a.add[0].Special {
			return fmt.Sprint(tk.AddSpecialTokens(l))
		}
		return fmt.Sprint(tk.AddTokens(l))
	case acTrunc:
		if a.trunc == nil {
			tk.WithTruncation(nil)
		} else {
			t := *a.trunc
			tk.WithTruncation(&t)
		}
	case acPad:
		if a.pad == nil {
			tk.WithPadding(nil)
		} else {
			p := *a.pad
			tk.WithPadding(&p)
		}
	case acModel:
		tk.WithModel(a.model.Build())
	case acTweak:
		var x any = tk.GetDecoder()
		switch a.part {
		case "normalizer":
			x = tk.GetNormalizer()
		case "pre-tokenizer":
			x = tk.GetPreTokenizer()
		case "post-processor":
			x = tk.GetPostProcessor()
		}
		switch x := x.(type) {
		case *normalizer.BertNormalizer:
			x.CleanText, x.Lowercase, x.HandleChineseChars, x.StripAccents = b(a.rec[1]), b(a.rec[2]), a.rec[3]%2 == 0, a.rec[4]%2 == 0
			tk.WithNormalizer(x)
		case *pretokenizer.ByteLevel:
			x.SetAddPrefixSpace(b(a.rec[1]))
			x.SetTrimOffsets(b(a.rec[2]))
		case *pretokenizer.Metaspace:
			x.SetReplacement(vMeta[a.rec[5]])
		case *processor.RobertaProcessing:
			x.TrimOffsets(b(a.rec[1]))
			x.AddPrefixSpace(b(a.rec[2]))
		default:
			panic(fmt.Sprintf("%T", x))
		}
	case acClear:
		switch m := tk.GetModel().(type) {
		case *bpe.BPE:
			m.ClearCache()
		case *unigram.Unigram:
		}
	case acWait:
		// a sleeping client would look blocked beside the models' janitors
		runtime.SimAdvance(int64(a.wait))
	case acTrain:
		return a.opts.train(a.words)
	}
	return ""
}

// ---- C18 ----------------------------------------------------------------------------

func c18(r *R) {
	nt := 2 + r.N(3)
	specs := make([]*Spec, nt)
	plans := make([][]action, nt)
	want := make([][]string, nt)
	loads := make([]bool, nt) // from configurations
	// operations some of the tokenizers have in common
	var pool []Op
	for t := range specs {
		switch k := r.N(4); {
		case t == 0 || k == 0:
			specs[t] = genSpec(r, "")
			if r.Chance(1, 4) {
				specs[t] = genConfig(r)
				specs[t].Model.Dropout = 0
				loads[t] = true
			}
		case k == 1:
			of := r.N(t)
			c := *specs[of]
			specs[t] = &c // built from the same description
			loads[t] = loads[of]
			r.Probe("two tokenizers of one description")
		default:
			// a relative
			of := r.N(t)
			c := *specs[of]
			loads[t] = loads[of]
			for n := 1 + r.N(3); n > 0; n-- {
				if r.Chance(1, 2) || loads[t] {
					c.Model = sibling(r, c.Model)
					continue
				}
				a := genChange(r, &c, true)
				c = *a.spec(&c)
			}
			specs[t] = &c
			r.Probe("related tokenizers")
		}
		s := specs[t]
		r.Desc("tokenizer %d: %s", t, s)
		if loads[t] {
			c := *s
			specs[t].Load = configJSON(r, s)
			c.Load = nil
			s = &c
			r.Desc("tokenizer %d is loaded from %s", t, specs[t].Load)
			r.Probe("tokenizer loaded from a configuration")
		}
		n := 2 + r.N(6)
		for i := 0; i < n; i++ {
			var a action
			switch k := r.N(10); {
			case k == 0:
				a = genChange(r, s, false)
				s = a.spec(s)
			case k == 1:
				a = action{kind: acTrain, words: genWords(r), opts: genTrainOpts(r)}
			default:
				a = action{kind: acOp, op: genOp(r, s, opSave)}
				if len(pool) > 0 && r.Chance(1, 2) {
					a.op = pick(r, pool)
					if r.Chance(1, 3) {
						a.op = a.op.near(r, s)
					}
				}
				if r.Chance(1, 3) {
					a.kind = acScribble
				}
				a.op.usable(r, s)
				pool = append(pool, a.op)
			}
			plans[t] = append(plans[t], a)
		}
	}
	play := func(tk *tokenizer.Tokenizer, plan []action, out []string, n *int) {
		for i, a := range plan {
			out[i] = a.do(tk)
			*n = i + 1
		}
		out[len(plan)] = State(tk)
	}
	for t := range specs {
		// alone; what brings the library down alone is taken out
		for {
			want[t] = make([]string, len(plans[t])+1)
			var tk *tokenizer.Tokenizer
			n := 0
			var o *Outcome
			r.Apart(func() {
				r.Setup("tokenizer", func() { tk = specs[t].Build() })
				r.base = 1 << 20
				o = r.Alone(func() { play(tk, plans[t], want[t], &n) })
				r.Rebase()
			})
			if o.OK() {
				break
			}
			if n >= len(plans[t]) {
				r.Skip("the state cannot be read")
			}
			r.Probe("action unusable alone")
			plans[t] = append(append([]action(nil), plans[t][:n]...), plans[t][n+1:]...)
		}
		r.Desc("history %d: %v", t, plans[t])
		for i, w := range want[t] {
			if i < len(plans[t]) {
				r.Note(fmt.Sprintf("%s after %v: %v", specs[t].id(), plans[t][:i], plans[t][i]), w)
			} else {
				r.Note(fmt.Sprintf("%s after %v: state", specs[t].id(), plans[t]), w)
			}
		}
	}
	// all of them in one process
	share := r.Chance(1, 5) // tokenizers of one description use one model object
	mode := r.N(4)          // who builds when
	live := make([]*Spec, nt)
	shared := map[*ModelSpec]tokenizer.Model{}
	for t := range specs {
		live[t] = specs[t]
		clears := false
		for _, a := range plans[t] {
			clears = clears || a.kind == acTrain
		}
		if share && !clears {
			c := *specs[t]
			m := c.Model
			c.WrapModel = func(x tokenizer.Model) tokenizer.Model {
				if shared[m] == nil {
					shared[m] = x
				}
				return shared[m]
			}
			live[t] = &c
			r.Probe("model object shared by tokenizers")
		}
	}
	tks := make([]*tokenizer.Tokenizer, nt)
	got := make([][]string, nt)
	ends := make([]int, nt)
	if mode != 0 || share {
		r.Setup("tokenizers", func() {
			for t := range live {
				tks[t] = live[t].Build()
			}
		})
	}
	for t := range specs {
		got[t] = make([]string, len(want[t]))
		r.Go(fmt.Sprintf("user of tokenizer %d", t), func() {
			if tks[t] == nil {
				tks[t] = live[t].Build()
			}
			play(tks[t], plans[t], got[t], &ends[t])
		})
		if mode == 3 {
			// one after the other
			if !r.Judge(r.WaitBg(), "separate tokenizers one after the other", false) {
				r.Stop()
			}
		}
	}
	if mode != 3 {
		if !r.Judge(r.WaitBg(), "separate tokenizers at the same time", false) {
			r.Stop()
		}
	}
	for t := range specs {
		for i := range want[t] {
			if got[t][i] != want[t][i] {
				what := "its state at the end"
				if i < len(plans[t]) {
					what = plans[t][i].String()
				}
				r.Fail("influence", "tokenizer %d of %d, action %d, %s %s", t, nt, i, what, diff(want[t][i], got[t][i]))
				return
			}
		}
	}
}

// ---- C19 ----------------------------------------------------------------------------

func c19(r *R) {
	s := genSpec(r, "")
	if r.Chance(1, 3) {
		s.Trunc = genTrunc(r)
	}
	if r.Chance(1, 3) {
		s.Pad = genPad(r)
	}
	if r.Chance(1, 3) {
		s.Added = nil // the model may be replaced
	} else if r.Chance(1, 6) {
		// patterns that depend on the parameters of a normalizer
		s.Norm = r.recipe(nNorm, false)
		s.Norm[0] = 1
		for _, w := range []string{"CAB", "Able", "naïve"} {
			s.Added = append(s.Added, AddedSpec{Tok: tokenizer.AddedToken{Content: w, SingleWord: true, Normalized: r.Chance(2, 3)}})
		}
		r.Probe("patterns that depend on the normalizer")
	}
	r.Desc("%s", s)
	var tk *tokenizer.Tokenizer
	r.Setup("tokenizer", func() { tk = s.Build() })
	var pool []Op
	np := 1 + r.N(5)
	for phase := 0; phase < np; phase++ {
		if phase > 0 {
			nch := 1 + r.N(2)
			for k := 0; k < nch; k++ {
				a := genChange(r, s, true)
				s = a.spec(s)
				r.Desc("phase %d: %v", phase, a)
				if o := r.DoBg("change", func() { a.do(tk) }); !o.OK() {
					r.Skip("the change does not work: %s", o)
				}
			}
		}
		nc := 1 + r.N(3)
		type call struct {
			op        Op
			mess      bool
			want, got string
		}
		var plan [][]*call
		for c := 0; c < nc; c++ {
			var l []*call
			for n := 1 + r.N(3); n > 0; n-- {
				o := genOp(r, s, opSave)
				if len(pool) > 0 && r.Chance(2, 3) {
					// what was done under other settings
					o = pick(r, pool)
					if r.Chance(1, 4) {
						o = o.near(r, s)
					}
				}
				o.usable(r, s)
				k := &call{op: o, mess: r.Chance(1, 6)}
				var t *tokenizer.Tokenizer
				var out *Outcome
				r.Apart(func() {
					r.Setup("tokenizer", func() { t = s.Build() })
					out = r.Do("fresh", func() { k.want, _ = o.run(t) })
				})
				if !out.OK() {
					r.Probe("operation unusable alone")
					continue
				}
				r.Note(s.id()+" "+o.String(), k.want)
				pool = append(pool, o)
				l = append(l, k)
			}
			plan = append(plan, l)
			r.Desc("phase %d client %d: %v", phase, c, func() (o []string) {
				for _, k := range l {
					o = append(o, k.op.String())
				}
				return
			}())
		}
		for c := range plan {
			l := plan[c]
			r.Go(fmt.Sprintf("client %d", c), func() {
				for _, k := range l {
					var parts []*held
					k.got, parts = k.op.run(tk)
					if k.mess {
						for _, h := range parts {
							h.scribble()
						}
					}
				}
			})
		}
		if !r.Judge(r.Wait(), "use after a change of settings", false) {
			r.Stop()
		}
		for c := range plan {
			for i, k := range plan[c] {
				r.Probe(opNames[k.op.kind])
				if k.got != k.want {
					r.Fail("stale", "phase %d client %d call %d %v: against a new tokenizer with these settings the result %s", phase, c, i, k.op, diff(k.want, k.got))
					return
				}
			}
		}
		var a, b string
		r.Apart(func() { r.Setup("state", func() { a = State(s.Build()) }) })
		r.Setup("state", func() { b = State(tk) })
		if a != b {
			r.Fail("stale", "phase %d: against a new tokenizer with these settings the state %s", phase, diff(a, b))
			return
		}
	}
}

// ---- C20 ----------------------------------------------------------------------------

// fixedTrainer gives the same model whatever the words.
type fixedTrainer struct {
	m  *ModelSpec
	sp []tokenizer.AddedToken
}

func (t fixedTrainer) WithProgressBar() bool { return false }
func (t fixedTrainer) Train(words map[string]int) (tokenizer.Model, []tokenizer.AddedToken) {
	return t.m.Build(), t.sp
}
func (t fixedTrainer) ProcessTokens(words map[string]int, tokens []string) {
	for _, w := range tokens {
		words[w]++
	}
}

func (o trainOpts) bpeTrainer() *bpe.BpeTrainer {
	set := bpe.CharSet{}
	for _, c := range o.initial {
		set[c] = struct{}{}
	}
	var sp []tokenizer.AddedToken
	for _, s := range o.specials {
		sp = append(sp, tokenizer.NewAddedToken(s, true))
	}
	b := bpe.NewBPETrainerBuilder()
	b.MinFrequency(o.minFreq)
	b.VocabSize(o.vocab)
	b.SpecialTokens(sp)
	if o.limit >= 0 {
		b.LimitAlphabet(o.limit)
	}
	if len(set) > 0 {
		b.InitialAlphabet(set)
	}
	if o.prefix != "" {
		b.ContinuingSubwordPrefix(o.prefix)
	}
	if o.suffix != "" {
		b.EndOfWordSuffix(o.suffix)
	}
	return b.Build()
}

// ofCorpus is o on a text of the corpus.
func (o Op) ofCorpus(r *R, c *corpus) Op {
	if len(c.data) == 0 {
		return o
	}
	l := lines(pick(r, c.data))
	if len(l) == 0 {
		return o
	}
	o.in.A, o.in.Tokenized = l[r.N(len(l))], false
	if f := strings.Fields(o.in.A); len(f) > 0 && (o.tok != "" || r.Chance(1, 4)) {
		o.tok = f[r.N(len(f))]
	}
	return o
}

func c20(r *R) {
	s := trainSpec(r)
	s.Model.Dropout = 0
	nt := 1 + r.N(3)
	type training struct {
		c      *corpus
		tr     func() tokenizer.Trainer
		before []action // what happens before it
		again  bool     // with the trainer object of the one before
	}
	var ts []*training
	var trained []Op
	for k := 0; k < nt; k++ {
		t := &training{}
		for n := r.N(4); n > 0; n-- {
			if r.Chance(1, 4) {
				a := genChange(r, s, false)
				if a.kind == acAdd || a.kind == acTrunc || a.kind == acPad {
					t.before = append(t.before, a)
				}
				continue
			}
			o := genOp(r, s, opSave)
			if k > 0 && r.Chance(1, 2) {
				o = o.ofCorpus(r, ts[k-1].c)
			}
			if o.kind != opEncodeBatch && o.kind != opDecodeBatch {
				t.before = append(t.before, action{kind: acOp, op: o})
			}
		}
		dir := fmt.Sprintf("%s/t%d", r.dir, k)
		must(os.MkdirAll(dir, 0o755))
		if k > 0 && r.Chance(1, 4) {
			t.c = ts[k-1].c // the same files again
		} else if k > 0 && r.Chance(1, 2) {
			// the same files with something else in them
			t.c = &corpus{paths: ts[k-1].c.paths}
			for _, d := range ts[k-1].c.data {
				switch r.N(4) {
				case 0: // the same size
					a, b := pick(r, letters), pick(r, letters)
					d = strings.NewReplacer(a, b, b, a).Replace(d)
				case 1:
					d += r.line(3) + "\n"
				case 2:
					d = d[:strings.LastIndex(d[:len(d)-min(1, len(d))], "\n")+1]
				}
				t.c.data = append(t.c.data, d)
			}
			r.Probe("files rewritten between trainings")
		} else {
			t.c = genCorpus(r, dir, 3)
		}
		t.again = k > 0 && r.Chance(1, 2)
		if t.again {
			t.tr = ts[k-1].tr
		} else if r.Chance(1, 4) {
			m := genModel(r, "")
			sp := []tokenizer.AddedToken{tokenizer.NewAddedToken("<done>", true), tokenizer.NewAddedToken("[CLS]", true)}[:r.N(3)]
			t.tr = func() tokenizer.Trainer { return fixedTrainer{m, sp} }
			r.Desc("training %d gives %s, special %v", k, &Spec{Model: m}, sp)
		} else {
			o := genTrainOpts(r)
			o.wp = false
			t.tr = func() tokenizer.Trainer { return o.bpeTrainer() }
			r.Desc("training %d with %+v", k, o)
		}
		for i, d := range t.c.data {
			r.Desc("training %d file %d: %q", k, i, d)
		}
		ts = append(ts, t)
	}
	last := ts[nt-1]
	// operations on words of the corpora
	for n := 1 + r.N(5); n > 0; n-- {
		o := genOp(r, s, opSave)
		if r.Chance(2, 3) {
			o = o.ofCorpus(r, last.c)
		}
		if n := len(last.before); n > 0 && r.Chance(1, 2) {
			// once more what was done before the training
			if a := last.before[r.N(n)]; a.kind == acOp {
				o = a.op
				r.Probe("same operation before and after the training")
			}
		}
		trained = append(trained, o)
	}
	r.Desc("%s; before: %v; after: %v", s, func() (o []string) {
		for _, t := range ts {
			o = append(o, fmt.Sprint(t.before))
		}
		return
	}(), trained)
	// what the result has to be: the counts of each corpus alone, a new trainer each time
	resetLimits()
	var ref *tokenizer.Tokenizer
	var wantModel []string
	want := make([]string, len(trained))
	ok := make([]bool, len(trained))
	var wantState string
	r.Apart(func() {
		r.Setup("reference", func() { ref = s.Build() })
		for k, t := range ts {
			if o := r.DoBg("reference", func() {
				for _, a := range t.before {
					if a.kind != acOp {
						a.do(ref)
					}
				}
				counts := t.c.reference(NormOf(s.Norm), PreOf(s.Pre))
				m, sp := t.tr().Train(counts)
				ref.WithModel(m)
				ref.AddSpecialTokens(sp)
				wantModel = append(wantModel, bpeState(m))
			}); !o.OK() {
				r.Skip("training %d does not work: %s", k, o)
			}
			r.Note(fmt.Sprintf("training %d of %q", k, t.c.data), wantModel[k])
		}
		for i, o := range trained {
			if o.kind == opEncodeBatch || o.kind == opDecodeBatch {
				continue // cannot be tried safely on a trained model
			}
			ok[i] = r.DoBg("reference", func() { want[i], _ = o.run(ref) }).OK()
		}
		r.Setup("state", func() { wantState = State(ref) })
	})
	// the real thing
	var tk *tokenizer.Tokenizer
	var tr tokenizer.Trainer
	r.Setup("tokenizer", func() { tk = s.Build() })
	for k, t := range ts {
		for _, a := range t.before {
			if o := r.DoBg("before", func() { a.do(tk) }); !o.OK() {
				r.Probe("operation unusable")
			}
		}
		if k > 0 && r.Chance(1, 4) {
			// the model is about to be replaced, whatever its options
			p := pick(r, []float32{1, 0.5})
			switch m := tk.GetModel().(type) {
			case *bpe.BPE:
				m.Dropout = &p
				r.Probe("options of the model changed before it is replaced")
			case bpe.BPE:
				m.Dropout = &p
				tk.WithModel(m)
				r.Probe("options of the model changed before it is replaced")
			}
		}
		for i, f := range t.c.paths {
			must(os.WriteFile(f, []byte(t.c.data[i]), 0o644))
		}
		tokenizer.SetTrainLimits(t.c.chunkFor(r), 1+r.N(24), 1<<16)
		shortIO(r)
		fsArm()
		var err error
		if !t.again || tr == nil {
			tr = t.tr()
		}
		o := r.DoBg("Train", func() { err = tk.Train(tr, append([]string(nil), t.c.paths...)) })
		fsDisarm()
		resetLimits()
		if !r.Judge(o, "Train", false) {
			r.Stop()
		}
		if err != nil {
			r.Fail("spurious-error", "training %d on readable files failed: %v", k, err)
			return
		}
		var g string
		r.Setup("model", func() { g = bpeState(tk.GetModel()) })
		if g != wantModel[k] {
			r.Fail("model", "training %d of %d: against a training on these files alone the model %s", k, nt, diff(wantModel[k], g))
			return
		}
	}
	if nt > 1 {
		r.Probe("trained again")
	}
	var g string
	r.Setup("state", func() { g = State(tk) })
	if g != wantState {
		r.Fail("state", "after %d trainings the state %s", nt, diff(wantState, g))
		return
	}
	for i, o := range trained {
		if !ok[i] {
			continue
		}
		r.Probe("trained tokenizer used")
		if !r.Judge(r.DoBg("use", func() { g, _ = o.run(tk) }), "use of the trained tokenizer", false) {
			r.Stop()
		}
		if g != want[i] {
			r.Fail("use", "after %d trainings %v %s", nt, o, diff(want[i], g))
			return
		}
	}
}
