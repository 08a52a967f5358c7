package main

import (
	"context"
	"errors"
	"fmt"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
)

func init() {
	checks["C14"] = c14
	checks["C15"] = c15
	checks["C16"] = c16
}

// ---- C14 ----------------------------------------------------------------------------

// registry is the reference: what the vocabulary must be after the adds so far.
type registry struct {
	model   map[string]int
	byId    map[int]string // model ids
	added   map[string]int // id once it has been observed, -1 before
	special map[string]bool
	taken   map[int]string // every id ever seen for an added token
}

func newRegistry(m *ModelSpec) *registry {
	g := &registry{model: m.vocab(), byId: map[int]string{}, added: map[string]int{}, special: map[string]bool{}, taken: map[int]string{}}
	for t, i := range g.model {
		g.byId[i] = t
	}
	return g
}

// add is the reference AddTokens and AddSpecialTokens.
func (g *registry) add(l []tokenizer.AddedToken, special bool) (n int) {
	for _, t := range l {
		if t.Content == "" || !utf8.ValidString(t.Content) {
			continue // no text can contain it
		}
		if special {
			g.special[t.Content] = true
		}
		if _, ok := g.model[t.Content]; ok {
			continue
		}
		if _, ok := g.added[t.Content]; ok {
			continue
		}
		g.added[t.Content] = -1
		n++
	}
	return n
}

func (g *registry) id(tok string) (int, bool) {
	if i, ok := g.added[tok]; ok {
		return i, true
	}
	i, ok := g.model[tok]
	return i, ok
}

func (g *registry) token(id int) (string, bool) {
	if t, ok := g.taken[id]; ok {
		return t, true
	}
	t, ok := g.byId[id]
	return t, ok
}

func (g *registry) clone() *registry {
	c := &registry{model: g.model, byId: g.byId, added: map[string]int{}, special: map[string]bool{}, taken: map[int]string{}}
	for k, v := range g.added {
		c.added[k] = v
	}
	for k, v := range g.special {
		c.special[k] = v
	}
	for k, v := range g.taken {
		c.taken[k] = v
	}
	return c
}

// seen records the ids the tokenizer reports for added tokens that have none yet.
func (g *registry) seen(tok string, id int) string {
	if old, ok := g.taken[id]; ok && old != tok {
		return fmt.Sprintf("the id %d of added token %q is already that of added token %q", id, tok, old)
	}
	if m, ok := g.byId[id]; ok {
		return fmt.Sprintf("the id %d of added token %q is already that of model token %q", id, tok, m)
	}
	if id < 0 {
		return fmt.Sprintf("added token %q has id %d", tok, id)
	}
	g.added[tok] = id
	g.taken[id] = tok
	return ""
}

const (
	avAdd = iota
	avAddSpecial
	avLookup
	avVocab
	avSpecials
	avEncode
	avDecode
	avAll
	avNKinds
)

type avOp struct {
	kind int
	toks []tokenizer.AddedToken
	tok  string
	in   Input
	nids []int // raw choices, turned into ids when the operation runs
	flag bool
}

func (o avOp) String() string {
	switch o.kind {
	case avAdd, avAddSpecial:
		var l []string
		for _, t := range o.toks {
			f := ""
			if t.SingleWord {
				f += "w"
			}
			if t.LStrip {
				f += "l"
			}
			if t.RStrip {
				f += "r"
			}
			if t.Normalized {
				f += "n"
			}
			l = append(l, fmt.Sprintf("%q/%s", t.Content, f))
		}
		return fmt.Sprintf("%s[%s]", map[int]string{avAdd: "AddTokens", avAddSpecial: "AddSpecialTokens"}[o.kind], strings.Join(l, " "))
	case avLookup:
		return fmt.Sprintf("TokenToId(%q)", o.tok)
	case avVocab:
		return fmt.Sprintf("GetVocab(%v)", o.flag)
	case avSpecials:
		return "GetSpecialTokens"
	case avEncode:
		return fmt.Sprintf("Encode(%v)", o.in)
	case avDecode:
		return fmt.Sprintf("Decode(%v,%v)", o.nids, o.flag)
	}
	return "everything"
}

// guard runs fn and turns a panic into a result.
func guard(fn func() string) (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = "panic"
		}
	}()
	return fn()
}

type avRec struct {
	op   avOp
	ver  int // number of adds before it
	ids  []int
	got  string
	want string // for what the registry settles
}

type avAdds struct {
	toks    []tokenizer.AddedToken
	special bool
}

func c14(r *R) {
	s := genSpec(r, "")
	s.Added = nil
	s.Post = nil
	if s.Pre == nil {
		s.Pre = r.recipe(nPre, false)
	}
	m := s.Model
	if (m.Kind == "wordlevel" || m.Kind == "wordpiece") && r.Chance(1, 3) {
		// ids that are not contiguous
		at := 0
		for range m.Toks {
			at += r.N(3)
			m.IDs = append(m.IDs, at)
			at++
		}
		r.Probe("model with gaps in its ids")
	}
	many := r.Chance(1, 25)
	pool := []string{"<a>", "<b>", "<c>", "[X]", "cab", "ab", "hello", "中文", "x y", "été", "</s>", "a b", "<aa>", ""}
	content := func() string {
		if r.Chance(1, 40) {
			r.Probe("token that is not valid UTF-8")
			return pick(r, []string{"\xff", "a\xc3", "\xa9b"})
		}
		if r.Chance(1, 4) {
			return pick(r, m.Toks)
		}
		if many && r.Chance(1, 3) {
			return fmt.Sprintf("<t%d>", r.N(300))
		}
		return pick(r, pool)
	}
	nc := 1 + r.N(3)
	plans := make([][]avOp, nc)
	for c := range plans {
		n := 2 + r.N(8)
		for i := 0; i < n; i++ {
			o := avOp{kind: pick(r, []int{avAdd, avAddSpecial, avAdd, avAddSpecial, avLookup, avVocab, avSpecials, avEncode, avEncode, avDecode, avDecode, avAll})}
			switch o.kind {
			case avAdd, avAddSpecial:
				k := r.Small(5)
				if many && r.Chance(1, 4) {
					// many at once
					at, n := r.N(3)*100, r.Edge(10, 130)
					for j := 0; j < n; j++ {
						o.toks = append(o.toks, tokenizer.NewAddedToken(fmt.Sprintf("<t%d>", at+j), o.kind == avAddSpecial))
					}
					r.Probe("many tokens added at once")
				}
				for j := 0; j < k; j++ {
					t := tokenizer.NewAddedToken(content(), o.kind == avAddSpecial)
					t.LStrip = r.Chance(1, 5)
					t.RStrip = r.Chance(1, 5)
					t.SingleWord = t.Content != "" && r.Chance(1, 6)
					if r.Chance(1, 5) {
						t.Normalized = !t.Normalized
					}
					o.toks = append(o.toks, t)
				}
			case avLookup:
				o.tok = content()
				if r.Chance(1, 6) {
					o.tok = "nowhere"
				}
			case avVocab, avDecode:
				o.flag = r.Chance(1, 2)
				if o.kind == avDecode {
					k := r.Small(8)
					for j := 0; j < k; j++ {
						o.nids = append(o.nids, r.N(64))
					}
				}
			case avEncode:
				var b strings.Builder
				k := r.Small(5)
				for j := 0; j < k; j++ {
					b.WriteString(pick(r, []string{" ", "", " "}))
					if r.Chance(2, 3) {
						b.WriteString(content())
					} else {
						b.WriteString(r.word())
					}
				}
				o.in = Input{A: b.String()}
			}
			plans[c] = append(plans[c], o)
		}
	}
	r.Desc("%s ids=%v", s, m.IDs)
	for c := range plans {
		r.Desc("client %d: %v", c, plans[c])
	}
	var tk *tokenizer.Tokenizer
	r.Setup("tokenizer", func() { tk = s.Build() })

	// The callers keep their own lock, as the tokenizer asks of them: adding
	// is exclusive, everything else is concurrent.
	var mu sync.RWMutex
	var adds []avAdds
	g := newRegistry(m)
	var bad []string
	fail := func(f string, a ...any) { bad = append(bad, fmt.Sprintf(f, a...)) }
	recs := make([][]*avRec, nc)
	for c := range plans {
		r.Go(fmt.Sprintf("client %d", c), func() {
			for _, o := range plans[c] {
				rec := &avRec{op: o}
				recs[c] = append(recs[c], rec)
				if o.kind == avAdd || o.kind == avAddSpecial {
					func() {
						mu.Lock()
						defer mu.Unlock()
						rec.ver = len(adds)
						var n int
						given := append([]tokenizer.AddedToken(nil), o.toks...)
						if o.kind == avAdd {
							n = tk.AddTokens(given)
						} else {
							n = tk.AddSpecialTokens(given)
						}
						old := g.clone()
						want := g.add(o.toks, o.kind == avAddSpecial)
						adds = append(adds, avAdds{o.toks, o.kind == avAddSpecial})
						rec.got, rec.want = fmt.Sprint(n), fmt.Sprint(want)
						// ids of the new tokens, and of the old ones
						for _, t := range o.toks {
							if t.Content == "" || !utf8.ValidString(t.Content) {
								continue
							}
							id, ok := tk.TokenToId(t.Content)
							if !ok {
								fail("%v: %q has no id afterwards", o, t.Content)
								continue
							}
							if was, known := old.id(t.Content); known {
								if was != id {
									fail("%v: the id of %q changed from %d to %d", o, t.Content, was, id)
								}
							} else if g.added[t.Content] == -1 {
								if e := g.seen(t.Content, id); e != "" {
									fail("%v: %s", o, e)
								}
							} else if g.added[t.Content] != id {
								fail("%v: %q has ids %d and %d", o, t.Content, g.added[t.Content], id)
							}
						}
					}()
					continue
				}
				func() {
					mu.RLock()
					defer mu.RUnlock()
					rec.ver = len(adds)
					avRead(tk, g, rec)
				}()
			}
		})
	}
	if !r.Judge(r.Wait(), "added vocabulary", false) {
		r.Stop()
	}
	for _, b := range bad {
		r.Fail("id", "%s", b)
	}
	// the ids of the tokens replayed without any other operation
	refs := map[int]*tokenizer.Tokenizer{}
	ref := func(ver int) *tokenizer.Tokenizer {
		if refs[ver] == nil {
			r.Setup("tokenizer", func() {
				t := s.Build()
				for _, a := range adds[:ver] {
					l := append([]tokenizer.AddedToken(nil), a.toks...)
					if a.special {
						t.AddSpecialTokens(l)
					} else {
						t.AddTokens(l)
					}
				}
				refs[ver] = t
			})
		}
		return refs[ver]
	}
	for c := range recs {
		for i, k := range recs[c] {
			switch k.op.kind {
			case avEncode:
				if r.apart() {
					clear(refs)
				}
				r.Apart(func() {
					t := ref(k.ver)
					r.Do("reference", func() { k.want = guard(func() string { return avEnc(t, k.op.in) }) })
				})
				r.Note(fmt.Sprintf("%s %v after %d adds", s.id(), k.op, k.ver), k.want)
				r.Probe("encoding with added tokens")
			case avDecode:
				t := DecOf(s.Dec)
				toks := strings.Split(k.want, "\x00")
				if k.want == "" {
					toks = nil
				}
				r.Do("reference", func() {
					k.want = guard(func() string {
						if t == nil {
							return strings.Join(toks, " ")
						}
						return t.Decode(toks)
					})
				})
			case avAdd, avAddSpecial:
				if k.want != "0" {
					r.Probe("new tokens added")
				}
				if len(k.op.toks) > 0 && k.want != fmt.Sprint(len(k.op.toks)) {
					r.Probe("known, duplicate or empty tokens added")
				}
			}
			if k.got != k.want {
				r.Fail("mismatch", "client %d call %d %v after %d adds %s", c, i, k.op, k.ver, diff(k.want, k.got))
				return
			}
		}
	}
	r.ProbeN("adds", len(adds))
	// at the end, and with every token ever mentioned
	rec := &avRec{op: avOp{kind: avAll}}
	r.Do("end", func() { avRead(tk, g, rec) })
	if rec.got != rec.want {
		r.Fail("mismatch", "at the end: %s", diff(rec.want, rec.got))
	}
	// a text that is an added token and nothing else encodes to its id
	plain := map[string]bool{}
	for _, a := range adds {
		for _, t := range a.toks {
			if t.SingleWord && s.Norm != nil {
				return // matches what its normalized form matches
			}
			if _, new := g.added[t.Content]; !new && !g.special[t.Content] {
				continue
			}
			ok, seen := plain[t.Content]
			plain[t.Content] = (ok || !seen) && !t.SingleWord && (s.Norm == nil || !t.Normalized)
		}
	}
	var toks []string
	for t := range plain {
		toks = append(toks, t)
	}
	sort.Strings(toks)
	// the same for texts put together from several of them, wherever no two
	// could be meant
	var ok []string
	for _, t := range toks {
		if t != "" && plain[t] {
			ok = append(ok, t)
		}
	}
	var texts [][]string
	for _, t := range ok {
		texts = append(texts, []string{t})
	}
	for i, n := 0, r.N(4); i < n && len(ok) > 0; i++ {
		var l []string
		for k := 2 + r.N(3); k > 0; k-- {
			l = append(l, pick(r, ok))
		}
		texts = append(texts, l)
	}
	for _, l := range texts {
		text := strings.Join(l, "")
		var want []int
		found := 0
		for _, t := range l {
			id, _ := g.id(t)
			want = append(want, id)
		}
		for _, t := range toks {
			if t != "" {
				for i := range text {
					if strings.HasPrefix(text[i:], t) {
						found++
					}
				}
			}
		}
		if found != len(l) {
			continue
		}
		var e *tokenizer.Encoding
		var err error
		if o := r.Do("added tokens alone", func() { e, err = tk.EncodeSingle(text) }); !o.OK() || err != nil {
			r.Probe("added tokens unusable alone")
			continue
		}
		r.Probe("text of added tokens encoded")
		if ints(e.Ids) != ints(want) {
			r.Fail("encoding", "the text %q is made of added tokens with ids %v, but encodes to %v %q", text, want, e.Ids, e.Tokens)
		}
	}
}

func avEnc(tk *tokenizer.Tokenizer, in Input) string {
	e, err := tk.Encode(in.Make(), false)
	if err != nil {
		return "error: " + err.Error()
	}
	return Canon(e)
}

// avRead performs a reading operation; what the registry settles it settles here.
func avRead(tk *tokenizer.Tokenizer, g *registry, k *avRec) {
	o := k.op
	look := func(tok string) (string, string) {
		id, ok := tk.TokenToId(tok)
		wid, wok := g.id(tok)
		if !wok {
			return fmt.Sprintf("%q known: %v", tok, ok), fmt.Sprintf("%q known: false", tok)
		}
		back, bok := tk.IdToToken(id)
		return fmt.Sprintf("%q: %d %v, id %d: %q %v", tok, id, ok, id, back, bok), fmt.Sprintf("%q: %d true, id %d: %q true", tok, wid, wid, tok)
	}
	vocab := func(withAdded bool) (string, string) {
		v := tk.GetVocab(withAdded)
		w := map[string]int{}
		for t, i := range g.model {
			w[t] = i
		}
		if withAdded {
			for t, i := range g.added {
				w[t] = i
			}
		}
		return fmt.Sprintf("%v size %d %s", withAdded, tk.GetVocabSize(withAdded), vocabString(v)), fmt.Sprintf("%v size %d %s", withAdded, len(w), vocabString(w))
	}
	specials := func() (string, string) {
		l := append([]string(nil), tk.GetSpecialTokens()...)
		sort.Strings(l)
		var w []string
		for t := range g.special {
			w = append(w, t)
		}
		sort.Strings(w)
		return fmt.Sprintf("%q", l), fmt.Sprintf("%q", w)
	}
	switch o.kind {
	case avLookup:
		k.got, k.want = look(o.tok)
	case avVocab:
		k.got, k.want = vocab(o.flag)
	case avSpecials:
		k.got, k.want = specials()
	case avEncode:
		k.got = guard(func() string { return avEnc(tk, o.in) })
	case avDecode:
		var ids []int
		for i := range g.taken {
			ids = append(ids, i)
		}
		sort.Ints(ids)
		nadd := len(ids)
		var mids []int
		for i := range g.byId {
			mids = append(mids, i)
		}
		sort.Ints(mids)
		var toks []string
		for _, n := range o.nids {
			id := 0
			switch {
			case n == 63:
				id = 100_000
			case n%2 == 0 && nadd > 0:
				id = ids[(n/2)%nadd]
			default:
				id = mids[n%len(mids)]
			}
			k.ids = append(k.ids, id)
			t, ok := g.token(id)
			if ok && !(o.flag && g.special[t]) {
				toks = append(toks, t)
			}
		}
		k.got = guard(func() string { return tk.Decode(append([]int(nil), k.ids...), o.flag) })
		k.want = strings.Join(toks, "\x00")
	case avAll:
		add := func(a, b string) { k.got += a + "; "; k.want += b + "; " }
		add(vocab(true))
		add(vocab(false))
		add(specials())
		var l []string
		for t := range g.added {
			l = append(l, t)
		}
		for t := range g.model {
			l = append(l, t)
		}
		sort.Strings(l)
		for _, t := range l {
			add(look(t))
		}
	}
}

// ---- C15 ----------------------------------------------------------------------------

// tagged is a word that makes one component fail, for one call.
type tagged struct {
	word  string
	comp  string // which component fails on it
	mode  int    // what is returned besides the error
	err   error
	left  int // how often it still fails
	times int // how often it fails in a round
	fired int
}

var (
	tagList  []*tagged
	tagArmed bool
)

// tagHit is asked by every failing component whether to fail on these texts.
//
//go:norace
func tagHit(comp string, texts ...string) *tagged {
	if !tagArmed {
		return nil
	}
	for _, t := range tagList {
		if t.comp != comp || t.left == 0 {
			continue
		}
		for _, s := range texts {
			if strings.Contains(s, t.word) {
				t.left--
				t.fired++
				compFails++
				return t
			}
		}
	}
	return nil
}

//go:norace
func (t *tagged) firedSoFar() int { return t.fired }

type tagNorm struct{ inner normalizer.Normalizer }

func (f tagNorm) Normalize(n *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	t := tagHit("normalizer", n.GetOriginal(), n.GetNormalized())
	if t != nil && t.mode == 0 {
		return nil, t.err
	}
	out, err := n, error(nil)
	if f.inner != nil {
		out, err = f.inner.Normalize(n)
	}
	if t != nil {
		return out, t.err
	}
	return out, err
}

type tagPre struct{ inner tokenizer.PreTokenizer }

func (f tagPre) PreTokenize(p *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
	var l []string
	for _, s := range p.GetSplits(normalizer.OriginalTarget, tokenizer.Byte) {
		l = append(l, s.Value)
	}
	t := tagHit("pre-tokenizer", l...)
	if t != nil && t.mode == 0 {
		return nil, t.err
	}
	out, err := p, error(nil)
	if f.inner != nil {
		out, err = f.inner.PreTokenize(p)
	}
	if t != nil {
		return out, t.err
	}
	return out, err
}

type tagModel struct{ tokenizer.Model }

func (f tagModel) Tokenize(s string) ([]tokenizer.Token, error) {
	t := tagHit("model", s)
	if t != nil && t.mode == 0 {
		return nil, t.err
	}
	out, err := f.Model.Tokenize(s)
	if t != nil {
		if t.mode == 2 && len(out) > 0 {
			out = out[:1]
		}
		return out, t.err
	}
	return out, err
}

// call15 is one call of a client.
type call15 struct {
	kind int
	in   Input
	ins  []Input
	ids  []int
	flag bool
	tags []*tagged
	want string // without failures
	bad  bool
}

var names15 = []string{"Encode", "EncodeBatch", "Tokenize", "EncodeCharOffsets", "EncodeSingle", "EncodePair", "EncodeSingleSequence", "Decode"}

func (k *call15) String() string {
	s := names15[k.kind] + "("
	switch k.kind {
	case 1:
		s += fmt.Sprint(k.ins)
	case 7:
		s += fmt.Sprint(k.ids)
	default:
		s += k.in.String()
	}
	s += fmt.Sprintf(",%v)", k.flag)
	for _, t := range k.tags {
		s += fmt.Sprintf(" %s fails on %q %d times with %v/%d", t.comp, t.word, t.times, t.err, t.mode)
	}
	return s
}

// do performs the call: its result, its error, and whether it returned a result.
func (k *call15) do(tk *tokenizer.Tokenizer) (res string, err error, some bool) {
	enc := func(e *tokenizer.Encoding, x error) {
		err, some = x, e != nil
		if x == nil {
			res = Canon(e)
		}
	}
	switch k.kind {
	case 0:
		enc(tk.Encode(k.in.Make(), k.flag))
	case 1:
		var in []tokenizer.EncodeInput
		for _, x := range k.ins {
			in = append(in, x.Make())
		}
		var l []tokenizer.Encoding
		l, err = tk.EncodeBatch(in, k.flag)
		some = len(l) > 0
		if err == nil {
			res = fmt.Sprint(len(l))
			for i := range l {
				res += Canon(&l[i])
			}
		}
	case 2:
		var l []string
		l, err = tk.Tokenize(k.in.A, k.flag)
		some = len(l) > 0
		res = fmt.Sprintf("%q", l)
	case 3:
		enc(tk.EncodeCharOffsets(k.in.Make(), k.flag))
	case 4:
		enc(tk.EncodeSingle(k.in.A, k.flag))
	case 5:
		enc(tk.EncodePair(k.in.A, k.in.B, k.flag))
	case 6:
		var s tokenizer.InputSequence
		if k.in.Tokenized {
			s = tokenizer.NewInputSequence(append([]string(nil), k.in.Pre...))
		} else {
			s = tokenizer.NewInputSequence(k.in.A)
		}
		enc(tk.EncodeSingleSequence(s, 0, tokenizer.Byte))
	case 7:
		res, some = tk.Decode(append([]int(nil), k.ids...), k.flag), true
	}
	return
}

func (in Input) tag(r *R, w string) Input {
	put := func(s string) string {
		if s == "" {
			return w
		}
		if r.Chance(1, 2) {
			return w + " " + s
		}
		return s + " " + w
	}
	switch {
	case in.Pair && r.Chance(1, 2):
		in.B = put(in.B)
	case in.Tokenized && len(in.Pre) > 0:
		in.Pre = append([]string(nil), in.Pre...)
		in.Pre[r.N(len(in.Pre))] = w
	case in.Tokenized:
		in.Pre = []string{w}
	default:
		in.A = put(in.A)
	}
	return in
}

// wrap15 puts failing components around, before or after the real ones.
func wrap15(r *R, s *Spec) {
	wn, wp := r.N(6), r.N(6)
	s.WrapNorm = func(n normalizer.Normalizer) normalizer.Normalizer {
		if n == nil {
			return tagNorm{}
		}
		switch wn {
		case 2:
			return normalizer.NewSequence([]normalizer.Normalizer{n, tagNorm{}})
		case 3:
			return normalizer.NewSequence([]normalizer.Normalizer{tagNorm{}, n})
		case 4:
			return normalizer.NewSequence([]normalizer.Normalizer{tagNorm{n}})
		case 5:
			return normalizer.NewSequence([]normalizer.Normalizer{tagNorm{n}, tagNorm{normalizer.Lowercase()}})
		}
		return tagNorm{n}
	}
	s.WrapPre = func(p tokenizer.PreTokenizer) tokenizer.PreTokenizer {
		if p == nil {
			return tagPre{}
		}
		switch wp {
		case 2:
			return pretokenizer.NewSequence([]tokenizer.PreTokenizer{p, tagPre{}})
		case 3:
			return pretokenizer.NewSequence([]tokenizer.PreTokenizer{tagPre{}, p})
		case 4:
			return pretokenizer.NewSequence([]tokenizer.PreTokenizer{tagPre{p}})
		case 5:
			return pretokenizer.NewSequence([]tokenizer.PreTokenizer{tagPre{p}, tagPre{pretokenizer.NewPunctuation(behaviors[0])}})
		}
		return tagPre{p}
	}
	s.WrapModel = func(m tokenizer.Model) tokenizer.Model { return tagModel{m} }
}

var errs15 = []error{errInjected, io.EOF, context.Canceled, errors.New(""), fmt.Errorf("wrapped: %w", errInjected)}

//go:norace
func setTags(l []*tagged, armed bool) {
	tagList, tagArmed = l, armed
	for _, t := range l {
		t.left = t.times
	}
}

func c15(r *R) {
	s := genSpec(r, "")
	if r.Chance(1, 4) {
		s.Trunc = genTrunc(r)
	}
	if r.Chance(1, 4) {
		s.Pad = genPad(r)
	}
	s.Model.NoUnk = r.Chance(1, 4) // a real model that fails on unknown words
	if s.Model.NoUnk {
		r.Probe("model without its unknown token")
	}
	wrap15(r, s)
	setTags(nil, false)
	defer setTags(nil, false)
	var tags []*tagged
	newTag := func(k *call15) string {
		n := len(tags)
		w := "zq"
		for i := 0; i < 2; i++ {
			w += string("fgjkmpsvxy"[n%10])
			n /= 10
		}
		t := &tagged{word: w + "q", comp: pick(r, []string{"normalizer", "pre-tokenizer", "model"}), mode: r.N(3), err: errInjected, times: pick(r, []int{1 << 30, 1 << 30, 1, 1, 2})}
		if r.Chance(1, 3) {
			t.err = pick(r, errs15)
		}
		tags = append(tags, t)
		k.tags = append(k.tags, t)
		return t.word
	}
	nc := 1 + r.N(4)
	plans := make([][]*call15, nc)
	r.Desc("%s", s)
	for c := range plans {
		n := 1 + r.N(4)
		for i := 0; i < n; i++ {
			k := &call15{kind: pick(r, []int{0, 1, 0, 1, 2, 3, 4, 5, 6, 7}), flag: r.Chance(1, 2)}
			fails := r.Chance(2, 3) && len(tags) < 90
			switch k.kind {
			case 1:
				m, w, den := 1+r.N(6), 4, 3
				if r.Chance(1, 10) {
					m, w, den = 9+r.N(40), 1, 12
				}
				for j := 0; j < m; j++ {
					x := genInput(r, w)
					if fails && r.Chance(1, den) && len(tags) < 100 {
						x = x.tag(r, newTag(k))
					}
					k.ins = append(k.ins, x)
				}
			case 7:
				k.ids = genIds(r, 6, len(s.Model.Toks)+len(s.Added))
			default:
				k.in = genInput(r, 5)
				if k.kind == 2 || k.kind == 4 {
					k.in.Pair, k.in.Tokenized = false, false
				}
				if k.kind == 5 {
					k.in.Pair, k.in.Tokenized = true, false
				}
				if k.kind == 6 {
					k.in.Pair = false
				}
				if fails {
					k.in = k.in.tag(r, newTag(k))
				}
			}
			// its result when nothing fails, on a tokenizer of its own
			if k.kind == 1 {
				o := Op{kind: opEncodeBatch, ins: k.ins, special: k.flag}
				o.usable(r, s)
				k.ins = o.ins
			}
			var t *tokenizer.Tokenizer
			var before uint64
			var err error
			var o *Outcome
			r.Apart(func() {
				r.Setup("tokenizer", func() { t = s.Build() })
				before = runtime.SimSteps()
				o = r.Alone(func() { k.want, err, _ = k.do(t) })
			})
			if err != nil {
				k.want = "error"
			}
			if !o.OK() || runtime.SimSteps()-before > 60_000 {
				for _, e := range o.Exits {
					r.FailKey("exit", e.key, "%v ends the process with exit code %d at\n%s", k, e.code, e.stack)
				}
				r.Probe("call unusable alone")
				continue
			}
			r.Note(fmt.Sprintf("%s %v", s.id(), k), k.want)
			plans[c] = append(plans[c], k)
		}
		r.Desc("client %d: %v", c, plans[c])
	}
	var tk *tokenizer.Tokenizer
	var st string
	r.Setup("tokenizer", func() { tk = s.Build(); st = State(tk) })
	setTags(tags, true)
	compFails = 0
	var bad [][]string = make([][]string, nc)
	tries := 1 + r.N(3)
	for c := range plans {
		r.Go(fmt.Sprintf("client %d", c), func() {
			for i, k := range plans[c] {
				for try := 0; try < tries; try++ {
					f0 := 0
					for _, t := range k.tags {
						f0 += t.firedSoFar()
					}
					res, err, some := k.do(tk)
					f1 := 0
					for _, t := range k.tags {
						f1 += t.firedSoFar()
					}
					if m := judge15(k, f1-f0, res, err, some); m != "" {
						bad[c] = append(bad[c], fmt.Sprintf("client %d call %d attempt %d %v: %s", c, i, try, k, m))
						return
					}
				}
			}
		})
	}
	o := r.Wait()
	if compFails > 0 {
		r.res.Faults["component failure"] += compFails
	}
	if !r.Judge(o, "use with failing components", true) {
		r.Stop()
	}
	for c := range bad {
		for _, m := range bad[c] {
			r.Fail("component", "%s", m)
		}
	}
	// nothing is left of the failures
	var st2 string
	setTags(tags, false)
	if !r.Judge(r.Do("state", func() { st2 = State(tk) }), "state after failures", true) {
		r.Stop()
	}
	if st2 != st {
		r.Fail("state", "after component failures the tokenizer's state %s", diff(st, st2))
	}
	for c := range plans {
		for i, k := range plans[c] {
			var res string
			var err error
			var some bool
			if !r.Judge(r.Do("afterwards", func() { res, err, some = k.do(tk) }), "call after failures", true) {
				r.Stop()
			}
			if m := judge15(k, 0, res, err, some); m != "" {
				r.Fail("afterwards", "client %d call %d %v, repeated when nothing fails any more: %s", c, i, k, m)
				return
			}
		}
	}
}

func judge15(k *call15, fired int, res string, err error, some bool) string {
	switch {
	case fired > 0 && err == nil:
		return fmt.Sprintf("%d component failures, but the call reported success with %.200s", fired, res)
	case err != nil && some:
		return fmt.Sprintf("the call returned the error %q and a result", err)
	case fired > 0:
		return ""
	case k.want == "error":
		if err == nil {
			return fmt.Sprintf("a call that fails alone returned %.200s", res)
		}
		return ""
	case err != nil:
		return fmt.Sprintf("no component failed, but the call returned the error %q", err)
	case res != k.want:
		return diff(k.want, res)
	}
	return ""
}

// ---- C16 ----------------------------------------------------------------------------

// opWatch sees the components of one operation.
type opWatch struct {
	returned bool
	late     int
	slow     int // every how many texts is slow; 0 none
	fail     bool
}

//go:norace
func (w *opWatch) enter() {
	if w.returned {
		w.late++
	}
}

//go:norace
func (w *opWatch) leave() { w.returned = true }

//go:norace
func (w *opWatch) lateCalls() int { return w.late }

func (w *opWatch) work(text string) {
	w.enter()
	if w.slow > 0 {
		h := fnv.New64a()
		h.Write([]byte(text))
		x := mix(h.Sum64())
		if x%uint64(w.slow) == 0 {
			time.Sleep([]time.Duration{time.Microsecond, time.Millisecond, time.Second, time.Minute}[x>>8%4])
		}
	}
}

func (w *opWatch) breaks(text string) bool {
	if w.fail && strings.Contains(text, marker) {
		noteFail()
		return true
	}
	return false
}

type watchNorm struct {
	w     *opWatch
	inner normalizer.Normalizer
}

func (f watchNorm) Normalize(n *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	f.w.work(n.GetNormalized())
	if f.w.breaks(n.GetNormalized()) {
		return nil, errInjected
	}
	if f.inner == nil {
		return n, nil
	}
	return f.inner.Normalize(n)
}

type watchPre struct {
	w     *opWatch
	inner tokenizer.PreTokenizer
}

func (f watchPre) PreTokenize(p *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
	t := ""
	for _, s := range p.GetSplits(normalizer.OriginalTarget, tokenizer.Byte) {
		t += s.Value
	}
	f.w.work(t)
	if f.w.breaks(t) {
		return nil, errInjected
	}
	if f.inner == nil {
		return p, nil
	}
	return f.inner.PreTokenize(p)
}

type watchModel struct {
	w *opWatch
	tokenizer.Model
}

func (f watchModel) Tokenize(s string) ([]tokenizer.Token, error) {
	f.w.work(s)
	if f.w.breaks(s) {
		return nil, errInjected
	}
	return f.Model.Tokenize(s)
}

func (f watchModel) IdToToken(id int) (string, bool) {
	f.w.work(fmt.Sprint(id))
	return f.Model.IdToToken(id)
}

type watchDec struct {
	w *opWatch
	tokenizer.Decoder
}

func (f watchDec) Decode(l []string) string {
	f.w.work(strings.Join(l, ""))
	return f.Decoder.Decode(l)
}

type op16 struct {
	kind  int // 0 EncodeBatch 1 DecodeBatch 2 Train 3 training a model
	spec  *Spec
	w     *opWatch // of the components
	tk    *tokenizer.Tokenizer
	ins   []Input
	ids   [][]int
	flag  bool
	corp  *corpus
	tr    tokenizer.Trainer
	rec   *recTrainer
	words map[string]int
	opts  trainOpts
	err   error
	got   string
	ret   int64 // steps when it returned
	alive int   // goroutines when it returned
	open  int   // file operations when it returned
	simns int64
}

func (o *op16) String() string {
	switch o.kind {
	case 0:
		return fmt.Sprintf("EncodeBatch(%v,%v) on %s slow=%d fail=%v", o.ins, o.flag, o.spec, o.w.slow, o.w.fail)
	case 1:
		return fmt.Sprintf("DecodeBatch(%v,%v) on %s slow=%d", o.ids, o.flag, o.spec, o.w.slow)
	case 2:
		return fmt.Sprintf("Train(%T, %q) on %s slow=%d fail=%v", o.tr, o.corp.data, o.spec, o.w.slow, o.w.fail)
	}
	return fmt.Sprintf("train a model %+v on %v", o.opts, o.words)
}

func (o *op16) run() {
	o.err = nil
	switch o.kind {
	case 0:
		var in []tokenizer.EncodeInput
		for _, x := range o.ins {
			in = append(in, x.Make())
		}
		_, o.err = o.tk.EncodeBatch(in, o.flag)
	case 1:
		var q [][]int
		for _, x := range o.ids {
			q = append(q, append([]int(nil), x...))
		}
		o.tk.DecodeBatch(q, o.flag)
	case 2:
		o.err = o.tk.Train(o.tr, o.corp.paths)
	case 3:
		o.got = o.opts.train(o.words)
	}
}

func c16(r *R) {
	no := pick(r, []int{1, 1, 1, 2, 3})
	parallel := pick(r, []int{1, 2, 10, 10})
	bpe.SetParallelWords(parallel)
	defer bpe.SetParallelWords(10000)
	chunk := int64(1 << 20)
	buf := 1 + r.N(24)
	var ops []*op16
	faulty := false
	for i := 0; i < no; i++ {
		o := &op16{kind: pick(r, []int{0, 1, 2, 2, 3}), w: &opWatch{}, flag: r.Chance(1, 2)}
		if r.Chance(1, 2) {
			o.w.slow = 1 + r.N(4)
		}
		if o.kind != 3 {
			o.spec = genSpec(r, "")
			if o.kind == 2 {
				o.spec.Pre = r.recipe(nPre, false)
			}
			if r.Chance(1, 3) {
				o.spec.Trunc = genTrunc(r)
			}
			if r.Chance(1, 3) {
				o.spec.Pad = genPad(r)
			}
		}
		fails := o.kind != 3 && o.kind != 1 && r.Chance(1, 2)
		where := r.N(3)
		if o.kind == 2 {
			where = r.N(2)
		}
		switch o.kind {
		case 0:
			k, w, den := r.Small(8), 5, 2
			if r.Chance(1, 6) {
				// longer than any pool of workers; few or nearly all of it breaks
				k, w, den = 9+r.N(90), 1, pick(r, []int{1, 1, 2, 20})
			}
			for ; k > 0; k-- {
				in := genInput(r, w)
				if fails && r.Chance(1, den) {
					in = in.mark(r)
				}
				o.ins = append(o.ins, in)
			}
			op := Op{kind: opEncodeBatch, ins: o.ins, special: o.flag}
			op.usable(r, o.spec)
			o.ins = op.ins
		case 1:
			op := Op{kind: opDecodeBatch, special: o.flag}
			k := r.Small(8)
			if r.Chance(1, 6) {
				k = 9 + r.N(120)
			}
			for ; k > 0; k-- {
				op.seqs = append(op.seqs, genIds(r, 6, len(o.spec.Model.Toks)))
			}
			op.usable(r, o.spec)
			o.ids = op.seqs
		case 2:
			d := fmt.Sprintf("%s/op%d", r.dir, i)
			must(os.MkdirAll(d, 0o755))
			nf := 3
			if r.Chance(1, 8) {
				nf = 30
			}
			o.corp = genCorpus(r, d, nf)
			chunk = min(chunk, o.corp.chunkFor(r))
			for f := range o.corp.data {
				if fails && r.Chance(1, 2) {
					l := strings.SplitAfter(o.corp.data[f], "\n")
					j := r.N(len(l))
					l[j] = marker + " " + l[j]
					o.corp.data[f] = strings.Join(l, "")
					must(os.WriteFile(o.corp.paths[f], []byte(o.corp.data[f]), 0o644))
				}
			}
			// the lines have to work alone
			r.Setup("reference", func() { o.corp.reference(NormOf(o.spec.Norm), PreOf(o.spec.Pre)) })
			switch r.N(3) {
			case 0:
				t := genTrainOpts(r)
				t.wp = false
				o.tr = t.trainer()
			default:
				o.rec = &recTrainer{model: smallModel(), specials: []tokenizer.AddedToken{tokenizer.NewAddedToken("<done>", true)}}
				o.rec.returned = &o.w.returned
				o.tr = o.rec
			}
			if r.Chance(1, 2) {
				trainFaults(r, o.corp)
				faulty = true
			}
			if r.Chance(1, 6) {
				p := d + "/corpus-missing"
				at := r.N(len(o.corp.paths) + 1)
				o.corp.paths = append(o.corp.paths[:at:at], append([]string{p}, o.corp.paths[at:]...)...)
				r.res.Faults["missing training file"]++
			}
		case 3:
			o.words = genWords(r)
			o.opts = genTrainOpts(r)
		}
		if o.kind != 3 {
			w := o.w
			w.fail = fails
			o.spec.WrapNorm = func(n normalizer.Normalizer) normalizer.Normalizer {
				if where != 0 && n == nil {
					return nil
				}
				if where != 0 {
					return watchNorm{&opWatch{slow: w.slow}, n}
				}
				return watchNorm{w, n}
			}
			o.spec.WrapPre = func(p tokenizer.PreTokenizer) tokenizer.PreTokenizer {
				if where == 1 {
					return watchPre{w, p}
				}
				return p
			}
			o.spec.WrapModel = func(m tokenizer.Model) tokenizer.Model {
				if where == 2 {
					return watchModel{w, m}
				}
				return m
			}
			r.Setup("tokenizer", func() {
				slow := w.slow
				w.slow = 0
				o.tk = o.spec.Build()
				if d := o.tk.GetDecoder(); d != nil && o.kind == 1 {
					o.tk.WithDecoder(watchDec{w, d})
				}
				w.slow = slow
			})
		}
		r.Desc("operation %d: %v", i, o)
		ops = append(ops, o)
	}
	tokenizer.SetTrainLimits(max(chunk, 1), buf, 1<<16)
	defer resetLimits()
	r.Desc("chunk=%d buffer=%d parallel counting from %d words", chunk, buf, parallel)
	for i := 0; i < fsPlanN; i++ {
		r.Desc("fault: %s %v from the %dth on, %d times, path %q", fsPlan[i].label, fsPlan[i].errno, fsPlan[i].nth+1, fsPlan[i].count, fsPlan[i].sub)
	}
	if faulty {
		shortIO(r)
	}
	again := r.Chance(1, 3)
	compFails = 0
	fsLogOn = true
	fsArm()
	for i, o := range ops {
		r.Go(fmt.Sprintf("operation %d", i), func() {
			o.run()
			o.w.leave()
			o.ret = int64(runtime.SimSteps())
			o.alive = runtime.SimAlive()
			o.open = fsNOps
			o.simns = runtime.SimNow()
		})
	}
	base := r.base
	out := r.Wait()
	steps, now := int64(runtime.SimSteps()), runtime.SimNow()
	nops := fsNOps
	fsSettle()
	fsDisarm()
	if compFails > 0 {
		r.res.Faults["component failure"] += compFails
	}
	if !r.Judge(out, "operations", true) {
		r.Stop()
	}
	for i, o := range ops {
		r.Probe("finished " + []string{"EncodeBatch", "DecodeBatch", "Train", "model training"}[o.kind])
		if o.err != nil {
			r.Probe("operation failed with an error")
		}
		if n := o.w.lateCalls(); n > 0 {
			r.Fail("late", "operation %d had returned, but %d calls of its components came afterwards", i, n)
		}
		if o.rec != nil && o.rec.late > 0 {
			r.Fail("late", "operation %d had returned, but %d calls of its trainer came afterwards", i, o.rec.late)
		}
	}
	if no == 1 {
		o := ops[0]
		left := o.alive - 2 - base
		if left > 0 {
			r.Probe("goroutines past their last step when the operation returned")
		}
		if left > 64 || left > 0 && steps-o.ret > int64(60+60*left) {
			r.Fail("running", "when the operation returned %d of its goroutines were still there, and made %d more steps", left, steps-o.ret)
		}
		if now != o.simns && left > 0 {
			r.Fail("running", "goroutines of the operation were still waiting %d ns after it had returned", now-o.simns)
		}
		if nops != o.open {
			r.Fail("running", "%d file operations came after the operation had returned", nops-o.open)
		}
	}
	if !again {
		return
	}
	// once faults have stopped, the same operations finish again
	for i, o := range ops {
		o.w.fail, o.w.returned = false, false
		o.w.slow = 0
		if o.tk != nil && o.kind == 2 {
			o.tr = &recTrainer{model: smallModel()}
		}
		if !r.Judge(r.Do("again", o.run), fmt.Sprintf("operation %d again", i), true) {
			r.Stop()
		}
		missing := false
		if o.corp != nil {
			for _, p := range o.corp.paths {
				missing = missing || strings.HasSuffix(p, "corpus-missing")
			}
		}
		if o.kind == 2 && o.err != nil && !missing {
			r.Fail("later", "operation %d on a healthy system: %v", i, o.err)
		}
	}
}
