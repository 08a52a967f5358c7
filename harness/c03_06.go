package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
)

func init() {
	checks["C03"] = c03
	checks["C04"] = c04
	checks["C05"] = c05
	checks["C06"] = c06
}

// ---- operations -----------------------------------------------------------------

// Op is one thing a client does with a tokenizer.
type Op struct {
	kind    int
	in      Input
	ins     []Input
	ids     []int
	seqs    [][]int
	special bool
	tok     string
	id      int
	dir     string
}

const (
	opEncode = iota
	opEncodeBatch
	opTokenize
	opDecode
	opDecodeBatch
	opVocab
	opVocabSize
	opSpecials
	opLookup
	opEncodeChar
	opModelTok
	opSave
	opNKinds
)

var opNames = [...]string{"Encode", "EncodeBatch", "Tokenize", "Decode", "DecodeBatch", "GetVocab", "GetVocabSize", "GetSpecialTokens", "TokenToId/IdToToken", "EncodeCharOffsets", "Model.Tokenize", "Model.Save"}

func genOp(r *R, s *Spec, kinds int) Op {
	o := Op{kind: r.N(kinds), special: r.Chance(1, 2)}
	nv := len(s.Model.Toks) + len(s.Added)
	switch o.kind {
	case opEncode, opEncodeChar:
		o.in = genInput(r, 6)
	case opEncodeBatch:
		n := r.Small(5)
		for i := 0; i < n; i++ {
			o.ins = append(o.ins, genInput(r, 5))
		}
	case opTokenize:
		o.in = Input{A: r.text(6)}
	case opDecode:
		o.ids = genIds(r, 8, nv)
	case opDecodeBatch:
		n := r.Small(5)
		for i := 0; i < n; i++ {
			o.seqs = append(o.seqs, genIds(r, 6, nv))
		}
	case opLookup:
		o.id = r.N(nv + 2)
		o.tok = r.word()
		if r.Chance(1, 2) {
			o.tok = pick(r, s.Model.Toks)
		}
	case opModelTok:
		o.tok = r.word()
	}
	return o
}

// near is an operation of any kind with the inputs of another, or inputs close to it.
func (o Op) near(r *R, s *Spec) Op {
	p := genOp(r, s, opSave)
	in := o.in
	if r.Chance(1, 2) {
		in = in.nearby(r)
	}
	switch p.kind {
	case opEncode, opEncodeChar:
		p.in = in
	case opTokenize:
		p.in = Input{A: in.A}
	case opModelTok:
		p.tok = in.A
		if o.tok != "" {
			p.tok = o.tok
		}
	case opEncodeBatch:
		p.ins = append(p.ins, in)
	case opDecode:
		if len(o.ids) > 0 {
			p.ids = o.ids
		}
	case opDecodeBatch:
		p.seqs = append(p.seqs, o.ids)
	}
	return p
}

func (o Op) String() string {
	switch o.kind {
	case opEncode, opEncodeChar, opTokenize:
		return fmt.Sprintf("%s(%v,%v)", opNames[o.kind], o.in, o.special)
	case opEncodeBatch:
		return fmt.Sprintf("EncodeBatch(%v,%v)", o.ins, o.special)
	case opDecode:
		return fmt.Sprintf("Decode(%v,%v)", o.ids, o.special)
	case opDecodeBatch:
		return fmt.Sprintf("DecodeBatch(%v,%v)", o.seqs, o.special)
	case opLookup:
		return fmt.Sprintf("lookup(%q,%d)", o.tok, o.id)
	case opModelTok:
		return fmt.Sprintf("Model.Tokenize(%q)", o.tok)
	}
	return opNames[o.kind]
}

// run performs the operation. It returns a canonical result, and the parts of
// the result a caller could change.
func (o Op) run(tk *tokenizer.Tokenizer) (string, []*held) {
	errs := func(err error) string { return "error: " + err.Error() }
	switch o.kind {
	case opEncode, opEncodeChar:
		var e *tokenizer.Encoding
		var err error
		if o.kind == opEncode {
			e, err = tk.Encode(o.in.Make(), o.special)
		} else {
			e, err = tk.EncodeCharOffsets(o.in.Make(), o.special)
		}
		if err != nil {
			return errs(err), nil
		}
		return Canon(e), encParts("encoding", e, nil)
	case opEncodeBatch:
		var in []tokenizer.EncodeInput
		for _, x := range o.ins {
			in = append(in, x.Make())
		}
		l, err := tk.EncodeBatch(in, o.special)
		if err != nil {
			// which of several failing inputs is reported is not specified
			return fmt.Sprintf("error and %d results", len(l)), nil
		}
		s := fmt.Sprint(len(l))
		var h []*held
		for i := range l {
			s += Canon(&l[i])
			h = encParts(fmt.Sprintf("batch result %d", i), &l[i], h)
		}
		return s, h
	case opTokenize:
		l, err := tk.Tokenize(o.in.A, o.special)
		if err != nil {
			return errs(err), nil
		}
		return fmt.Sprintf("%q", l), []*held{heldStrings("token list", l, false)}
	case opDecode:
		return tk.Decode(append([]int(nil), o.ids...), o.special), nil
	case opDecodeBatch:
		var q [][]int
		for _, x := range o.seqs {
			q = append(q, append([]int(nil), x...))
		}
		l := tk.DecodeBatch(q, o.special)
		return fmt.Sprintf("%q", l), []*held{heldStrings("decoded batch", l, false)}
	case opVocab:
		v := tk.GetVocab(o.special)
		return vocabString(v), []*held{heldVocab("vocabulary", v)}
	case opVocabSize:
		return fmt.Sprint(tk.GetVocabSize(o.special)), nil
	case opSpecials:
		l := tk.GetSpecialTokens()
		c := append([]string(nil), l...)
		sort.Strings(c)
		return fmt.Sprintf("%q", c), []*held{heldStrings("special tokens", l, true)}
	case opLookup:
		i, ok := tk.TokenToId(o.tok)
		t, ok2 := tk.IdToToken(o.id)
		return fmt.Sprint(i, ok, t, ok2), nil
	case opModelTok:
		l, err := tk.GetModel().Tokenize(o.tok)
		if err != nil {
			return errs(err), nil
		}
		return tokString(l), []*held{heldTokens("model tokens", l)}
	case opSave:
		if err := tk.GetModel().Save(o.dir); err != nil {
			return errs(err), nil
		}
		return "saved", nil
	}
	return "", nil
}

// usable drops the parts of a batch operation that bring the library down even
// alone (a crash in a goroutine of the batch would end the process).
func (o *Op) usable(r *R, s *Spec) {
	switch o.kind {
	case opEncodeBatch:
		var keep []Input
		for _, a := range encodeAlone(r, s, o.ins, o.special) {
			if !a.bad {
				keep = append(keep, a.in)
			}
		}
		o.ins = keep
	case opDecodeBatch:
		var keep [][]int
		var t *tokenizer.Tokenizer
		for _, ids := range o.seqs {
			var out *Outcome
			if r.apart() {
				t = nil
			}
			r.Apart(func() {
				if t == nil {
					r.Setup("tokenizer", func() { t = s.Build() })
				}
				out = r.Alone(func() { t.Decode(append([]int(nil), ids...), o.special) })
			})
			if out.OK() {
				keep = append(keep, ids)
			} else {
				t = nil
			}
		}
		o.seqs = keep
	}
}

// savedFiles reads a directory of saved files in a form that does not depend
// on the order of JSON object members.
func savedFiles(dir string) string {
	l, _ := filepath.Glob(dir + "/*")
	sort.Strings(l)
	s := ""
	for _, f := range l {
		b, err := os.ReadFile(f)
		if err != nil {
			return err.Error()
		}
		s += filepath.Base(f) + "="
		var v any
		if strings.HasSuffix(f, ".json") && json.Unmarshal(b, &v) == nil {
			b, _ = json.Marshal(v)
		}
		s += string(b) + ";"
	}
	return s
}

// ---- C03 ----------------------------------------------------------------------------

func c03(r *R) {
	s := genSpec(r, "")
	if r.Chance(1, 3) {
		s.Trunc = genTrunc(r)
	}
	if r.Chance(1, 3) {
		s.Pad = genPad(r)
	}
	failing := ""
	if r.Chance(1, 10) {
		failing = genFailing(r, s)
	}
	nc := 2 + r.N(4)
	r.Desc("%s failing=%s", s, failing)
	type call struct {
		op    Op
		want  string
		files string
		got   string
		done  bool
	}
	var plan [][]*call
	hot := genOp(r, s, opSave) // an operation several clients do
	nsave := 0
	var ref *tokenizer.Tokenizer
	fresh := r.Chance(1, 2)
	for c := 0; c < nc; c++ {
		n := 1 + r.N(4)
		var l []*call
		for i := 0; i < n; i++ {
			o := genOp(r, s, opNKinds)
			if r.Chance(1, 3) {
				o = hot
				if r.Chance(1, 3) {
					o = hot.near(r, s)
				}
			}
			if failing != "" && (o.kind == opEncode || o.kind == opTokenize) && r.Chance(1, 2) {
				o.in = o.in.mark(r)
			}
			o.usable(r, s)
			k := &call{op: o}
			if o.kind == opSave {
				k.op.dir = fmt.Sprintf("%s/ref%d", r.dir, nsave)
				must(os.MkdirAll(k.op.dir, 0o755))
			}
			var before uint64
			var out *Outcome
			if fresh || r.apart() {
				ref = nil
			}
			r.Apart(func() {
				if ref == nil {
					r.Setup("tokenizer", func() { ref = s.Build() })
				}
				t := ref
				before = runtime.SimSteps()
				out = r.Alone(func() { k.want, _ = k.op.run(t) })
			})
			if !out.OK() || runtime.SimSteps()-before > 60_000 {
				r.Probe("operation unusable alone")
				ref = nil
				continue
			}
			r.Note(s.id()+" "+o.String(), k.want)
			if o.kind == opSave {
				k.files = savedFiles(k.op.dir)
				k.op.dir = fmt.Sprintf("%s/out%d", r.dir, nsave)
				must(os.MkdirAll(k.op.dir, 0o755))
				nsave++
			}
			l = append(l, k)
		}
		plan = append(plan, l)
		r.Desc("client %d: %v", c, func() (o []string) {
			for _, k := range l {
				o = append(o, k.op.String())
			}
			return
		}())
	}
	var tk *tokenizer.Tokenizer
	var before string
	r.Setup("tokenizer", func() { tk = s.Build(); before = State(tk) })
	for c := range plan {
		l := plan[c]
		r.Go(fmt.Sprintf("client %d", c), func() {
			for _, k := range l {
				k.got, _ = k.op.run(tk)
				k.done = true
			}
		})
	}
	if !r.Judge(r.Wait(), "concurrent use", false) {
		r.Stop()
	}
	for c := range plan {
		for i, k := range plan[c] {
			r.Probe("concurrent " + opNames[k.op.kind])
			if k.got != k.want {
				r.Fail("mismatch", "client %d call %d %v %s", c, i, k.op, diff(k.want, k.got))
				return
			}
			if k.op.kind == opSave {
				if g := savedFiles(k.op.dir); g != k.files {
					r.Fail("mismatch", "client %d call %d: the saved files differ: %s", c, i, diff(k.files, g))
					return
				}
			}
		}
	}
	var after string
	r.Do("state", func() { after = State(tk) })
	if after != before {
		r.Fail("state", "after concurrent readers the tokenizer's state %s", diff(before, after))
	}
}

// ---- C04 ----------------------------------------------------------------------------

// held is something the tokenizer handed out.
type held struct {
	name     string
	want     string
	canon    func() string
	scribble func()
	enc      *tokenizer.Encoding // an encoding
	kids     []*held             // its overflowing parts
}

// refresh accepts what a caller did to an encoding, its parts included.
func (h *held) refresh() {
	h.want = h.canon()
	for _, k := range h.kids {
		k.refresh()
	}
}

// call uses an encoding through its methods. It says what was called, and
// whether that may change the encoding.
func (h *held) call(k int, other *held) (what string, changes bool) {
	// what a method does with an encoding it does not fit is not the subject
	defer func() { recover() }()
	e := h.enc
	n := k % 5
	switch k % 13 {
	case 0:
		what = "getters"
		for i := 0; i <= e.Len(); i++ {
			e.Token2Chars(i)
			e.Token2Word(i)
			e.Char2Token(i)
			e.Char2Word(i)
			e.Token2Sequence(i)
		}
	case 1:
		what = "word getters"
		for i := 0; i < 3; i++ {
			e.Word2Tokens(i)
			e.Word2Chars(i)
			e.SequenceRange(i)
		}
	case 2:
		what = "Clone, then changes of the clone"
		c := e.Clone()
		hs := encParts("clone", c, nil)
		for _, x := range hs {
			x.scribble()
		}
	case 3:
		what = "GetSequenceIds"
		e.GetSequenceIds()
	case 4:
		what, changes = fmt.Sprintf("Truncate(%d,0)", 1+n), true
		e.Truncate(1+n, 0)
	case 5:
		what, changes = fmt.Sprintf("Truncate(%d,1)", 2+n), true
		e.Truncate(2+n, 1)
	case 6:
		what, changes = "Pad right", true
		e.Pad(e.Len()+1+n, 7, 1, "[P]", tokenizer.Right)
	case 7:
		what, changes = "Pad left", true
		e.Pad(e.Len()+1+n, 7, 1, "[P]", tokenizer.Left)
	case 8:
		what, changes = "MergeWith", true
		if other != nil && other != h {
			e.MergeWith(other.enc, n%2 == 0)
		}
	case 9:
		what, changes = "TakeOverflowing", true
		l := e.TakeOverflowing()
		for i := range l {
			l[i].Ids = append(l[i].Ids, 1)
		}
	case 10:
		what, changes = "SetTypeIds, SetWord", true
		e.SetTypeIds(make([]int, e.Len()))
		e.SetWord(0, n)
	case 11:
		what, changes = "SetSequenceIds", true
		e.SetSequenceIds(n % 2)
	case 12:
		what = "MergeEncodings, then changes of the result"
		if other != nil && other != h {
			m := tokenizer.MergeEncodings([]tokenizer.Encoding{*e.Clone(), *other.enc.Clone()}, n%2 == 0)
			for _, x := range encParts("merged", m, nil) {
				x.scribble()
			}
		}
	}
	return
}

func encParts(name string, e *tokenizer.Encoding, l []*held) []*held {
	h := &held{name: name, enc: e}
	h.canon = func() string { c := *e; c.Overflowing = nil; return Canon(&c) }
	h.scribble = func() {
		mess := func(l []int) {
			for i := range l {
				l[i] = -7777
			}
			_ = append(l, -7778, -7779)
		}
		mess(e.Ids)
		mess(e.TypeIds)
		mess(e.SpecialTokenMask)
		mess(e.AttentionMask)
		mess(e.Words)
		for i := range e.Tokens {
			e.Tokens[i] = "scribble"
		}
		_ = append(e.Tokens, "more", "more")
		for i := range e.Offsets {
			mess(e.Offsets[i])
		}
		_ = append(e.Offsets, []int{-5, -5})
		_ = append(e.Overflowing, tokenizer.Encoding{Ids: []int{-6}})
		for _, v := range e.SequenceRanges {
			mess(v)
		}
		if e.SequenceRanges != nil {
			clear(e.SequenceRanges)
			e.SequenceRanges[99] = []int{0, 99}
		}
	}
	h.want = h.canon()
	l = append(l, h)
	for i := range e.Overflowing {
		at := len(l)
		l = encParts(fmt.Sprintf("%s overflow %d", name, i), &e.Overflowing[i], l)
		h.kids = append(h.kids, l[at])
	}
	return l
}

func heldStrings(name string, l []string, sorted bool) *held {
	h := &held{name: name}
	h.canon = func() string {
		if !sorted {
			return fmt.Sprintf("%q", l)
		}
		c := append([]string(nil), l...)
		sort.Strings(c)
		return fmt.Sprintf("%q", c)
	}
	h.scribble = func() {
		for i := range l {
			l[i] = "scribble"
		}
		_ = append(l, "more", "more")
	}
	h.want = h.canon()
	return h
}

func heldVocab(name string, v map[string]int) *held {
	h := &held{name: name, canon: func() string { return vocabString(v) }}
	h.scribble = func() {
		if v == nil {
			return
		}
		for k := range v {
			if len(k)%2 == 0 {
				delete(v, k)
			} else {
				v[k] = -7777
			}
		}
		v["scribble"] = 0
		v["ab"] = 1 << 20
	}
	h.want = h.canon()
	return h
}

func heldTokens(name string, l []tokenizer.Token) *held {
	h := &held{name: name, canon: func() string { return tokString(l) }}
	h.scribble = func() {
		for i := range l {
			for j := range l[i].Offsets {
				l[i].Offsets[j] = -7777
			}
			l[i].Id, l[i].Value = -7777, "scribble"
		}
		_ = append(l, tokenizer.Token{Id: -1}, tokenizer.Token{Id: -2})
	}
	h.want = h.canon()
	return h
}

func c04(r *R) {
	s := genSpec(r, "")
	if r.Chance(2, 3) {
		s.Trunc = genTrunc(r)
		if r.Chance(1, 2) {
			s.Trunc.MaxLength = 3 + r.N(4)
		}
	}
	if r.Chance(1, 2) {
		s.Pad = genPad(r)
	}
	nc := 1 + r.N(3)
	nops := 2 + r.N(5)
	var ops []Op
	for i := 0; i < nops; i++ {
		o := genOp(r, s, opSave)
		if i > 0 && r.Chance(1, 4) {
			o = ops[r.N(i)].near(r, s)
		}
		ops = append(ops, o)
	}
	// what each operation gives on a tokenizer nobody touched
	want := make([]string, len(ops))
	usable := make([]bool, len(ops))
	for i := range ops {
		var t *tokenizer.Tokenizer
		ops[i].usable(r, s)
		r.Apart(func() {
			r.Setup("tokenizer", func() { t = s.Build() })
			before := runtime.SimSteps()
			usable[i] = r.Alone(func() { want[i], _ = ops[i].run(t) }).OK() && runtime.SimSteps()-before < 60_000
		})
		if usable[i] {
			r.Note(s.id()+" "+ops[i].String(), want[i])
		}
	}
	r.Desc("%s", s)
	r.Desc("operations %v, %d clients", ops, nc)
	type step struct {
		op    int
		reuse bool
		mess  int // scribble over this many of the results held
		at    []int
	}
	plans := make([][]step, nc)
	for c := range plans {
		n := 2 + r.N(4)
		for i := 0; i < n; i++ {
			st := step{op: r.N(len(ops)), mess: r.N(4)}
			for k := 0; k < st.mess; k++ {
				st.at = append(st.at, r.N(64*26))
			}
			plans[c] = append(plans[c], st)
		}
	}
	settings := r.N(4) // afterwards, change the tokenizer itself
	var tk *tokenizer.Tokenizer
	r.Setup("tokenizer", func() { tk = s.Build() })
	all := make([][]*held, nc)
	type bad struct{ class, msg string }
	bads := make([][]bad, nc)
	for c := 0; c < nc; c++ {
		r.Go(fmt.Sprintf("client %d", c), func() {
			var hs []*held
			fail := func(class, f string, a ...any) {
				bads[c] = append(bads[c], bad{class, fmt.Sprintf("client %d: ", c) + fmt.Sprintf(f, a...)})
			}
			for _, st := range plans[c] {
				if !usable[st.op] {
					continue
				}
				got, parts := ops[st.op].run(tk)
				if got != want[st.op] {
					fail("polluted", "after callers changed results they had been given, %v %s", ops[st.op], diff(want[st.op], got))
					return
				}
				hs = append(hs, parts...)
				for _, k := range st.at {
					if len(hs) == 0 {
						break
					}
					h := hs[k%64%len(hs)]
					what := "changing"
					if k /= 64; k < 13 && h.enc != nil {
						var other *held
						if o := hs[(k*7+3)%len(hs)]; o.enc != nil {
							other = o
						}
						var changes bool
						what, changes = h.call(k, other)
						what += " of"
						if changes {
							h.refresh()
						}
					} else {
						h.scribble()
						h.want = h.canon()
					}
					for _, o := range hs {
						if g := o.canon(); g != o.want {
							fail("shared", "%s %s changed %s: %s", what, h.name, o.name, diff(o.want, g))
							return
						}
					}
				}
			}
			all[c] = hs
		})
	}
	if !r.Judge(r.Wait(), "use and change of results", false) {
		r.Stop()
	}
	for c := range bads {
		for _, b := range bads[c] {
			r.Fail(b.class, "%s", b.msg)
		}
	}
	if len(r.res.Violations) > 0 {
		return
	}
	// later operations on the tokenizer leave what was handed out alone
	o := r.Do("later operations", func() {
		switch settings {
		case 0:
			tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("<later>", false), tokenizer.NewAddedToken("ab", false)})
			tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("<s2>", true)})
		case 1:
			tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 4, Strategy: tokenizer.LongestFirst, Stride: 1})
		case 2:
			tk.WithPadding(&tokenizer.PaddingParams{Strategy: *tokenizer.NewPaddingStrategy(tokenizer.WithFixed(9)), Direction: tokenizer.Right, PadToken: "[PAD]"})
		}
		for i, op := range ops {
			if usable[i] {
				op.run(tk)
			}
		}
	})
	if !o.OK() {
		// what these settings do by themselves is not the subject here
		r.Probe("later operations unusable")
	}
	n := 0
	for c := range all {
		for _, h := range all[c] {
			n++
			if g := h.canon(); g != h.want {
				r.Fail("changed-later", "later operations changed %s: %s", h.name, diff(h.want, g))
				return
			}
		}
	}
	r.ProbeN("results held", n)
}

// ---- C05 ----------------------------------------------------------------------------

func c05(r *R) {
	kind := pick(r, []string{"bpe", "bpe", "bpe", "unigram", "unigram", "wordpiece", "wordlevel"})
	m := genModel(r, kind)
	m.NoUnk = r.Chance(1, 8)
	other := m.Cache
	if kind == "bpe" {
		m.Cache = pick(r, []int{0, 1, 2, 3, 8, 1000, -1})
		if other = pick(r, []int{1000, 1, -1, 0}); other == m.Cache {
			other = 7
		}
	}
	if kind == "bpe" && r.Chance(1, 8) {
		m.Dropout = pick(r, []float32{0.5, 0.1, 1})
	}
	nw := 2 + r.N(8)
	if kind == "bpe" && r.Chance(1, 25) {
		// more words than a larger cache takes
		nw = r.Edge(10, 70)
		m.Cache = pick(r, []int{8, 16, 32, 50, 64})
		r.Probe("many words")
	}
	var ws []string
	for i := 0; i < nw; i++ {
		w := r.word()
		if r.Chance(1, 4) {
			w = r.text(3)
		}
		if r.Chance(1, 16) {
			w = ""
		}
		if len(ws) > 0 && r.Chance(1, 3) {
			// words that differ little
			w = r.related(pick(r, ws))
		}
		if r.Chance(1, 12) {
			w = r.longWord()
		}
		ws = append(ws, w)
	}
	r.Desc("%s cache %d prefix %q suffix %q tokens %q merges %v", m.Kind, m.Cache, m.Prefix, m.Suffix, m.Toks[:min(len(m.Toks), 60)], m.Merges)
	// in a third of the runs the model is used through a tokenizer
	var spec *Spec
	const nvar = 3
	if r.Chance(1, 3) {
		spec = genSpec(r, "wordlevel")
		spec.Model, spec.Post = m, nil
		r.Desc("%s", spec)
	}
	type subject struct {
		m tokenizer.Model
		t *tokenizer.Tokenizer
	}
	build := func() (x subject) {
		if spec == nil {
			x.m = m.Build()
			return x
		}
		x.t = spec.Build()
		x.m = x.t.GetModel()
		return x
	}
	tokenize := func(x subject, w string, variant int) (string, func()) {
		if x.t == nil {
			l, err := x.m.Tokenize(w)
			return tokString(l) + fmt.Sprint(err), func() { heldTokens("", l).scribble() }
		}
		var e *tokenizer.Encoding
		var err error
		in := tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(w))
		switch variant {
		case 0:
			e, err = x.t.Encode(in, false)
		case 1:
			e, err = x.t.EncodeCharOffsets(in, false)
		default:
			e, err = x.t.Encode(tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence("a"), tokenizer.NewInputSequence(w)), true)
		}
		if err != nil {
			return err.Error(), func() {}
		}
		return Canon(e), func() {
			for _, h := range encParts("", e, nil) {
				h.scribble()
			}
		}
	}
	mid := (&Spec{Model: m}).id()
	if spec != nil {
		mid = spec.id()
	}
	want := make([][nvar]string, nw)
	ok := make([][nvar]bool, nw)
	for i, w := range ws {
		for v := 0; v < nvar; v++ {
			if v > 0 && spec == nil {
				want[i][v], ok[i][v] = want[i][0], ok[i][0]
				continue
			}
			// the reference has a cache of another capacity
			var x subject
			r.Apart(func() {
				c := m.Cache
				m.Cache = other
				r.Setup("model", func() { x = build() })
				m.Cache = c
				ok[i][v] = r.Alone(func() { want[i][v], _ = tokenize(x, w, v) }).OK()
			})
			if ok[i][v] {
				r.Note(fmt.Sprintf("%s tokenize %q %d", mid, w, v), want[i][v])
			}
		}
	}
	type step struct{ kind, w, d int }
	nc := 1 + r.N(3)
	plans := make([][]step, nc)
	for c := range plans {
		n := 2 + r.N(10)
		if nw > 9 {
			n = 2 * nw
		}
		for i := 0; i < n; i++ {
			st := step{kind: r.N(12), w: r.N(nw), d: r.N(6)}
			if !ok[st.w][st.d%nvar] {
				continue
			}
			plans[c] = append(plans[c], st)
		}
		r.Desc("client %d: %v", c, plans[c])
	}
	r.Desc("words %q", ws)
	var x subject
	r.Setup("model", func() { x = build() })
	type bad struct{ class, msg string }
	bads := make([][]bad, nc)
	waits := []time.Duration{time.Nanosecond, time.Second, 4 * time.Minute, 6 * time.Minute, 11 * time.Minute, 100 * time.Hour}
	for c := 0; c < nc; c++ {
		r.Go(fmt.Sprintf("client %d", c), func() {
			for i, st := range plans[c] {
				switch st.kind {
				case 0:
					if b, is := x.m.(*bpe.BPE); is {
						b.ClearCache()
					}
				case 1:
					if st.d == 5 {
						// far ahead at once; every timer is overdue
						runtime.SimAdvance(int64(waits[st.d]))
					} else {
						time.Sleep(waits[st.d])
					}
				case 2:
					// the wall clock is set, forwards or backwards
					runtime.SimWallJump(int64(waits[st.d]) * int64(1-2*(st.w%2)))
				default:
					g, mess := tokenize(x, ws[st.w], st.d%nvar)
					if w := want[st.w][st.d%nvar]; g != w {
						bads[c] = append(bads[c], bad{"history", fmt.Sprintf("client %d step %d: %q %s", c, i, ws[st.w], diff(w, g))})
						return
					}
					if st.d == 5 {
						mess()
					}
				}
			}
		})
	}
	if !r.Judge(r.Wait(), "tokenizing", false) {
		r.Stop()
	}
	for c := range bads {
		for _, b := range bads[c] {
			r.Fail(b.class, "%s", b.msg)
		}
	}
	for c := range plans {
		for _, st := range plans[c] {
			switch st.kind {
			case 0:
				r.res.Probes["cache cleared"]++
			case 1:
				r.res.Faults["clock jump past entry lifetimes"]++
			case 2:
				r.res.Faults["wall clock set"]++
			}
		}
	}
	if b, is := x.m.(*bpe.BPE); is && b.Cache != nil {
		n := b.Cache.GetSize()
		if n > b.Cache.Capacity {
			r.Fail("capacity", "the word cache holds %d entries, its capacity is %d", n, b.Cache.Capacity)
		}
		if n == b.Cache.Capacity {
			r.Probe("cache full")
		}
	}
}

// ---- C06 ----------------------------------------------------------------------------

type cacheIn struct {
	kind int // 0 get, 1 bulk get, 2 bulk set, 3 clear, 4 size, 5 is full
	keys []string
	vals []int
}

var cacheNames = [...]string{"Get", "GetValues", "SetValues", "Clear", "GetSize", "IsFull"}

type cacheOut struct {
	vals []int // 0: nothing, -1: not one of the stored values
	n    int
	full bool
}

// cacheState is the sequential model: sorted "key=value;" pairs.
type cacheState struct {
	s string
	n int
}

func (c cacheState) get(k string) int {
	for _, p := range strings.Split(c.s, ";") {
		if i := strings.Index(p, "="); i > 0 && p[:i] == k {
			var v int
			fmt.Sscan(p[i+1:], &v)
			return v
		}
	}
	return 0
}

func (c cacheState) keys() []string {
	var l []string
	for _, p := range strings.Split(c.s, ";") {
		if i := strings.Index(p, "="); i > 0 {
			l = append(l, p[:i])
		}
	}
	return l
}

func (c cacheState) with(k string, v int) cacheState {
	m := map[string]int{}
	for _, x := range c.keys() {
		m[x] = c.get(x)
	}
	if v == 0 {
		delete(m, k)
	} else {
		m[k] = v
	}
	var ks []string
	for x := range m {
		ks = append(ks, x)
	}
	sort.Strings(ks)
	s := ""
	for _, x := range ks {
		s += fmt.Sprintf("%s=%d;", x, m[x])
	}
	return cacheState{s, len(ks)}
}

// cacheModel: an existing key is overwritten; a new key is stored while there
// is room; when there is none it may be dropped or push another entry out.
func cacheModel(capacity int) porcupine.Model {
	uniqStates := func(l []interface{}) []interface{} {
		var o []interface{}
		for _, s := range l {
			dup := false
			for _, t := range o {
				if s == t {
					dup = true
				}
			}
			if !dup {
				o = append(o, s)
			}
		}
		return o
	}
	nm := porcupine.NondeterministicModel{
		Init: func() []interface{} { return []interface{}{cacheState{}} },
		Step: func(state, input, output interface{}) []interface{} {
			s := state.(cacheState)
			in := input.(cacheIn)
			out := output.(cacheOut)
			switch in.kind {
			case 0, 1:
				for i, k := range in.keys {
					if out.vals[i] != s.get(k) {
						return nil
					}
				}
				return []interface{}{s}
			case 2:
				states := []interface{}{s}
				for i, k := range in.keys {
					var next []interface{}
					for _, x := range states {
						st := x.(cacheState)
						switch {
						case st.get(k) != 0 || st.n < capacity:
							next = append(next, st.with(k, in.vals[i]))
						default:
							next = append(next, st)
							for _, old := range st.keys() {
								next = append(next, st.with(old, 0).with(k, in.vals[i]))
							}
						}
					}
					states = uniqStates(next)
				}
				return states
			case 3:
				return []interface{}{cacheState{}}
			case 4:
				if out.n != s.n {
					return nil
				}
				return []interface{}{s}
			default:
				if out.full != (s.n >= capacity) {
					return nil
				}
				return []interface{}{s}
			}
		},
		Equal: func(a, b interface{}) bool { return reflect.DeepEqual(a, b) },
	}
	return nm.ToModel()
}

// c06Many fills a cache of a larger capacity to the brim and beyond.
func c06Many(r *R) {
	capacity := r.Edge(5, 300)
	c := bpe.NewCache(capacity)
	word := func(k, v int) bpe.Word {
		w := bpe.NewWord()
		w.Add(k, 1)
		w.Add(v, 2)
		return *w
	}
	rounds := 1 + r.N(3)
	for round := 0; round < rounds; round++ {
		n := pick(r, []int{capacity, capacity - 1, capacity + 1, capacity / 2, capacity + 40})
		nc := 1 + r.N(4)
		per := 1 + r.N(40)
		r.Desc("capacity %d, %d clients store %d keys, %d at a time", capacity, nc, n, per)
		for k := 0; k < nc; k++ {
			r.Go(fmt.Sprintf("client %d", k), func() {
				var items []bpe.CacheItem
				for i := k; i < n; i += nc {
					items = append(items, bpe.CacheItem{Key: fmt.Sprint("k", i), Value: word(i, round)})
					if len(items) == per {
						c.SetValues(items)
						items = nil
					}
				}
				if items != nil {
					c.SetValues(items)
				}
			})
		}
		if !r.Judge(r.Wait(), "cache operations", false) {
			r.Stop()
		}
		var size, found int
		var full bool
		var bad, missing string
		if !r.Judge(r.Do("look", func() {
			size, full = c.GetSize(), c.IsFull()
			var keys []string
			for i := 0; i < n; i++ {
				keys = append(keys, fmt.Sprint("k", i))
			}
			l := c.GetValues(keys)
			for i, k := range keys {
				w, ok := c.Get(k)
				if ok != (i < len(l) && l[i].Symbols != nil) {
					bad = fmt.Sprintf("Get and GetValues differ on %s", k)
				}
				if !ok {
					missing = k
					continue
				}
				found++
				for _, x := range []bpe.Word{w, l[i]} {
					if len(x.Symbols) != 2 || x.Symbols[0].C != i || x.Symbols[1].C != round {
						bad = fmt.Sprintf("the value of %s is %v in round %d", k, x.Symbols, round)
					}
				}
			}
		}), "cache operations", false) {
			r.Stop()
		}
		switch {
		case bad != "":
			r.Fail("value", "capacity %d: %s", capacity, bad)
		case size > capacity:
			r.Fail("capacity", "the cache holds %d entries, its capacity is %d", size, capacity)
		case n <= capacity && found < n:
			r.Fail("lost", "capacity %d: of %d keys %s is missing", capacity, n, missing)
		case size != min(n, capacity) || found != size:
			r.Fail("size", "capacity %d: %d keys stored, GetSize gives %d, %d are found", capacity, n, size, found)
		case full != (size >= capacity):
			r.Fail("size", "capacity %d: %d entries, IsFull gives %v", capacity, size, full)
		}
		r.Setup("clear", c.Clear)
		if k := c.GetSize(); k != 0 {
			r.Fail("size", "%d entries after Clear", k)
		}
	}
	if r.Chance(1, 2) {
		c06Atomic(r, c, capacity, word)
	}
	r.Probe("large cache filled")
}

// c06Atomic stores all of a large cache's keys at once, again and again,
// while others look: a bulk operation is one operation.
func c06Atomic(r *R, c *bpe.Cache, capacity int, word func(k, v int) bpe.Word) {
	n := 1 + r.N(capacity)
	if r.Chance(1, 2) {
		n = capacity
	}
	var keys []string
	for i := 0; i < n; i++ {
		keys = append(keys, fmt.Sprint("k", i))
	}
	versions := 1 + r.N(3)
	r.Desc("capacity %d, %d keys stored %d times while others look", capacity, n, versions)
	r.Go("writer", func() {
		for v := 1; v <= versions; v++ {
			var items []bpe.CacheItem
			for i, k := range keys {
				items = append(items, bpe.CacheItem{Key: k, Value: word(i, v)})
			}
			c.SetValues(items)
		}
		if versions == 2 {
			c.Clear()
		}
	})
	var bad string
	for k := 0; k < 1+r.N(2); k++ {
		looks := 2 + r.N(6)
		sizes := r.Chance(1, 3)
		r.Go(fmt.Sprintf("reader %d", k), func() {
			last := 0
			for i := 0; i < looks; i++ {
				if sizes {
					if got := c.GetSize(); got != 0 && got != n {
						bad = fmt.Sprintf("GetSize gives %d, while %d keys are stored at once", got, n)
					}
					continue
				}
				l := c.GetValues(keys)
				if len(l) != n {
					bad = fmt.Sprintf("GetValues of %d keys gives %d", n, len(l))
					continue
				}
				seen := map[int]bool{}
				for j, w := range l {
					v := 0
					if w.Symbols != nil {
						if len(w.Symbols) != 2 || w.Symbols[0].C != j {
							bad = fmt.Sprintf("the value of %s is %v", keys[j], w.Symbols)
							continue
						}
						v = w.Symbols[1].C
					}
					seen[v] = true
					if v != 0 && v < last || v > versions {
						bad = fmt.Sprintf("version %d of %s after version %d", v, keys[j], last)
					}
					last = max(last, v)
				}
				if len(seen) > 1 {
					bad = fmt.Sprintf("GetValues of %d keys stored at once sees several versions", n)
				}
			}
		})
	}
	if !r.Judge(r.Wait(), "cache operations", false) {
		r.Stop()
	}
	if bad != "" {
		r.Fail("atomic", "capacity %d: %s", capacity, bad)
	}
}

func c06(r *R) {
	if r.Chance(1, 12) {
		c06Many(r)
		return
	}
	capacity := r.N(5)
	nk := 2 + r.N(4)
	nc := 2 + r.N(3)
	var keys []string
	for i := 0; i < nk; i++ {
		keys = append(keys, []string{"a", "b", "ab", "ba", "c", ""}[i])
	}
	next := 1
	plans := make([][]cacheIn, nc)
	total := 0
	mk := func() cacheIn {
		in := cacheIn{}
		switch r.N(10) {
		case 0, 1:
			in.kind, in.keys = 0, []string{pick(r, keys)}
		case 2, 3:
			in.kind = 1
			for n := r.N(4); n >= 0; n-- {
				in.keys = append(in.keys, pick(r, keys))
			}
		case 7:
			in.kind = 3
		case 8:
			in.kind = 4
		case 9:
			in.kind = 5
		default:
			in.kind = 2
			for n := r.N(4); n >= 0; n-- {
				in.keys = append(in.keys, pick(r, keys))
				in.vals = append(in.vals, next)
				next++
			}
		}
		return in
	}
	for c := range plans {
		n := 1 + r.N(5)
		for i := 0; i < n && total < 16; i++ {
			plans[c] = append(plans[c], mk())
			total++
		}
		r.Desc("client %d: %v", c, plans[c])
	}
	r.Desc("capacity %d", capacity)
	c := bpe.NewCache(capacity)
	hist := make([][]porcupine.Operation, nc)
	word := func(v int) bpe.Word {
		w := bpe.NewWord()
		w.Add(v, 1)
		w.Add(v+100000, 2)
		return *w
	}
	value := func(w bpe.Word, ok bool) int {
		if !ok {
			return 0
		}
		if len(w.Symbols) != 2 || w.Symbols[1].C != w.Symbols[0].C+100000 {
			return -1
		}
		return w.Symbols[0].C
	}
	for k := 0; k < nc; k++ {
		plan := plans[k]
		r.Go(fmt.Sprintf("client %d", k), func() {
			for _, in := range plan {
				var out cacheOut
				var items []bpe.CacheItem
				for i := range in.vals {
					items = append(items, bpe.CacheItem{Key: in.keys[i], Value: word(in.vals[i])})
				}
				t0 := tick()
				switch in.kind {
				case 0:
					w, ok := c.Get(in.keys[0])
					out.vals = []int{value(w, ok)}
				case 1:
					l := c.GetValues(append([]string(nil), in.keys...))
					for i := range in.keys {
						if i >= len(l) {
							out.vals = append(out.vals, -1)
							continue
						}
						out.vals = append(out.vals, value(l[i], l[i].Symbols != nil))
					}
				case 2:
					c.SetValues(items)
				case 3:
					c.Clear()
				case 4:
					out.n = c.GetSize()
				case 5:
					out.full = c.IsFull()
				}
				t1 := tick()
				hist[k] = append(hist[k], porcupine.Operation{ClientId: k, Input: in, Call: t0, Output: out, Return: t1})
			}
		})
	}
	if !r.Judge(r.Wait(), "cache operations", false) {
		r.Stop()
	}
	var ops []porcupine.Operation
	for k := range hist {
		ops = append(ops, hist[k]...)
	}
	for _, o := range ops {
		r.Probe(cacheNames[o.Input.(cacheIn).kind])
		if o.Input.(cacheIn).kind == 4 {
			if n := o.Output.(cacheOut).n; n > capacity {
				r.Fail("capacity", "the cache reported %d entries, its capacity is %d", n, capacity)
			}
		}
	}
	if n := c.GetSize(); n > capacity {
		r.Fail("capacity", "the cache holds %d entries, its capacity is %d", n, capacity)
	}
	if !porcupine.CheckOperations(cacheModel(capacity), ops) {
		sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
		var s strings.Builder
		for _, o := range ops {
			in := o.Input.(cacheIn)
			fmt.Fprintf(&s, "[%d,%d] client %d %s%v%v -> %+v; ", o.Call, o.Return, o.ClientId, cacheNames[in.kind], in.keys, in.vals, o.Output)
		}
		r.Fail("not-linearizable", "no order of the operations explains what they returned (capacity %d): %s", capacity, s.String())
	}
}
