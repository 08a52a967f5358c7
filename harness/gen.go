package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/decoder"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/pretrained"
	"github.com/sugarme/tokenizer/processor"
	"github.com/sugarme/tokenizer/spm"
)

// ---- words and texts -----------------------------------------------------

var letters = []string{"a", "b", "c", "d", "e", "o"}
var words = []string{"ab", "abc", "bad", "cab", "hello", "world", "aa", "abab", "dodo", "bead", "un", "Able", "CAB", "été", "e\u0301te", "中文", "ß", "naïve", "don't", "3.14", "42", "ﬁne", "😀", "👩‍👧", "[MASK]", "<s>", "[CLS]", "▁a", "Ġb", "a_b", "x", "zz", "①", "Àà...", "B", "<0xZZ>", "<0xé>"}
var seps = []string{" ", " ", " ", "  ", "\t", "\n", ", ", ".", "-", " ! ", "\u00a0", ""}

func (r *R) word() string {
	if r.Chance(1, 40) {
		return r.longWord()
	}
	if r.Chance(1, 3) {
		n := 1 + r.N(5)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(pick(r, letters))
		}
		return b.String()
	}
	return pick(r, words)
}

// longWord is one of a few long words; some agree in all but their last letters.
func (r *R) longWord() string {
	n := pick(r, []int{12, 20, 33, 65, 110})
	if r.short {
		n = min(n, 16)
	}
	b := strings.Repeat(pick(r, []string{"abc", "a", "dodo"}), n)[:n]
	return b + pick(r, letters) + pick(r, letters)
}

func (r *R) text(maxWords int) string {
	n := r.Small(maxWords + 1)
	if maxWords > 4 && !r.short && r.Chance(1, 40) {
		n = r.Range(20, 60)
	}
	var b strings.Builder
	if r.Chance(1, 12) {
		b.WriteString(" ")
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(pick(r, seps))
		}
		b.WriteString(r.word())
	}
	if r.Chance(1, 12) {
		b.WriteString(pick(r, seps))
	}
	return b.String()
}

// ---- models ---------------------------------------------------------------

// ModelSpec describes a model; Build makes a fresh one every time.
type ModelSpec struct {
	Kind    string
	Toks    []string // id = index
	Merges  [][2]int
	Scores  []float64
	Unk     string
	UnkID   int  // unigram; -1 none
	NoUnk   bool // built without its unknown token: some words cannot be tokenized
	Prefix  string
	Suffix  string
	Cache   int // bpe cache capacity, -1 default
	MaxChar int
	Bytes   bool
	Fuse    bool
	Dropout float32 // bpe; 0 none
	IDs     []int   // wordlevel and wordpiece: ids that are not the index
}

func uniq(l []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range l {
		if s != "" && !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

var baseChars = []string{"a", "b", "c", "d", "e", "o", "h", "l", "w", "r", "u", "n", "é", "t", "中", "文", "Ġ", "▁", "i", "A", "C", "B", ".", ",", "'", "3", "1", "4"}

func genModel(r *R, kind string) *ModelSpec {
	if kind == "" {
		kind = pick(r, []string{"bpe", "wordpiece", "unigram", "wordlevel"})
	}
	m := &ModelSpec{Kind: kind, Cache: -1, UnkID: -1}
	nchars := r.Range(6, len(baseChars))
	switch kind {
	case "bpe":
		m.Unk = "<unk>"
		toks := []string{"<unk>"}
		toks = append(toks, baseChars[:nchars]...)
		if r.Chance(1, 4) {
			// a subword prefix or suffix, with tokens that carry it
			if k := r.N(3); k != 0 {
				m.Prefix = pick(r, []string{"_", "##", "a"})
			} else {
				m.Suffix = pick(r, []string{"|", "</w>", "b"})
			}
			if r.Chance(1, 4) {
				m.Prefix, m.Suffix = "_", "|"
			}
			for _, c := range baseChars[:4+r.N(4)] {
				toks = append(toks, m.Prefix+c, c+m.Suffix, m.Prefix+c+m.Suffix)
			}
			toks = uniq(toks)
		}
		m.Toks = toks
		idx := map[string]int{}
		for i, t := range toks {
			idx[t] = i
		}
		nm := r.N(16)
		for k := 0; k < nm; k++ {
			a := 1 + r.N(len(m.Toks)-1)
			b := 1 + r.N(len(m.Toks)-1)
			if r.Chance(2, 3) {
				a, b = 1+r.N(min(6, len(m.Toks)-1)), 1+r.N(min(6, len(m.Toks)-1))
			}
			if m.Prefix != "" && r.Chance(1, 2) {
				// a piece inside a word
				if k, ok := idx[m.Prefix+m.Toks[b]]; ok {
					b = k
				}
			}
			t := m.merged(a, b)
			if len(t) > 8 {
				continue
			}
			if _, dup := idx[t]; dup {
				continue
			}
			idx[t] = len(m.Toks)
			m.Toks = append(m.Toks, t)
			m.Merges = append(m.Merges, [2]int{a, b})
		}
	case "wordpiece":
		m.Unk = "[UNK]"
		m.Prefix = pick(r, []string{"##", "##", "##", "@@", "a", ""})
		toks := []string{"[UNK]", "[CLS]", "[SEP]", "[PAD]", "[MASK]"}
		toks = append(toks, baseChars[:nchars]...)
		for _, c := range baseChars[:nchars] {
			toks = append(toks, m.Prefix+c)
		}
		n := r.N(10)
		for i := 0; i < n; i++ {
			w := r.word()
			if r.Chance(1, 2) {
				w = m.Prefix + w
			}
			toks = append(toks, w)
		}
		m.Toks = uniq(toks)
		m.MaxChar = pick(r, []int{100, 5, 1000})
	case "wordlevel":
		m.Unk = "<unk>"
		toks := []string{"<unk>", "a", "b"}
		n := r.N(14)
		for i := 0; i < n; i++ {
			toks = append(toks, r.word())
		}
		m.Toks = uniq(toks)
	case "unigram":
		toks := []string{"<unk>"}
		toks = append(toks, baseChars[:nchars]...)
		n := r.N(10)
		for i := 0; i < n; i++ {
			toks = append(toks, r.word())
		}
		m.Bytes = r.Chance(1, 3)
		if m.Bytes {
			gap, few := 0, r.Chance(1, 2) // some models lack bytes
			if r.Chance(1, 2) {
				gap = r.Range(2, 9)
			}
			for i := 0; i < 256; i++ {
				if gap > 0 && (i*7+i/16)%gap == 0 || few && (i < 'a' || i > 'z') {
					continue
				}
				toks = append(toks, fmt.Sprintf("<0x%02X>", i))
			}
		}
		m.Toks = uniq(toks)
		m.UnkID = 0
		m.Fuse = r.Chance(1, 2)
		for i := range m.Toks {
			m.Scores = append(m.Scores, -1-float64(r.N(8))-float64(i%3)/8)
		}
	}
	if r.Chance(1, 3) {
		m.rotate(r.N(len(m.Toks)))
	}
	return m
}

// rotate gives every token another id.
func (m *ModelSpec) rotate(k int) {
	n := len(m.Toks)
	m.Toks = append(append([]string(nil), m.Toks[k:]...), m.Toks[:k]...)
	if m.Scores != nil {
		m.Scores = append(append([]float64(nil), m.Scores[k:]...), m.Scores[:k]...)
	}
	if m.UnkID >= 0 {
		m.UnkID = (m.UnkID + n - k) % n
	}
	for i, p := range m.Merges {
		m.Merges[i] = [2]int{(p[0] + n - k) % n, (p[1] + n - k) % n}
	}
}

// unkTok is the token for what is unknown.
func (m *ModelSpec) unkTok() string {
	if m.UnkID >= 0 && m.Unk == "" {
		return m.Toks[m.UnkID]
	}
	return m.Unk
}

func (m *ModelSpec) vocab() map[string]int {
	v := make(map[string]int, len(m.Toks))
	for i, t := range m.Toks {
		v[t] = i
		if m.IDs != nil {
			v[t] = m.IDs[i]
		}
	}
	return v
}

// merged is the token of merging two: what continues a word carries the prefix.
func (m *ModelSpec) merged(a, b int) string {
	return m.Toks[a] + strings.TrimPrefix(m.Toks[b], m.Prefix)
}

func (m *ModelSpec) merges() bpe.Merges {
	out := bpe.Merges{}
	for k, p := range m.Merges {
		id := -1
		t := m.merged(p[0], p[1])
		for i, x := range m.Toks {
			if x == t {
				id = i
			}
		}
		out[bpe.Pair{C1: p[0], C2: p[1]}] = bpe.PairVal{Rank: k, NewId: id}
	}
	return out
}

// unk is the unknown token as the model is told.
func (m *ModelSpec) unk() string {
	if m.NoUnk {
		return "<none>"
	}
	return m.Unk
}

// Build constructs the model.
func (m *ModelSpec) Build() tokenizer.Model {
	switch m.Kind {
	case "bpe":
		b := bpe.NewBpeBuilder()
		b.VocabAndMerges(model.Vocab(m.vocab()), m.merges())
		if m.Cache >= 0 {
			b.CacheCapacity(m.Cache)
		}
		if !m.NoUnk {
			b.UnkToken(m.Unk)
		}
		if m.Prefix != "" {
			b.ContinuingSubwordPrefix(m.Prefix)
		}
		if m.Suffix != "" {
			b.EndOfWordSuffix(m.Suffix)
		}
		if m.Dropout > 0 {
			b.Dropout(m.Dropout)
		}
		x, err := b.Build()
		if err != nil {
			panic(err)
		}
		return x
	case "wordpiece":
		v := model.Vocab(m.vocab())
		return wordpiece.NewWordPieceBuilder().Vocab(&v).UnkToken(m.unk()).ContinuingSubwordPrefix(m.Prefix).MaxInputCharsPerWord(m.MaxChar).Build()
	case "wordlevel":
		x, err := wordlevel.New(m.vocab(), m.unk())
		if err != nil {
			panic(err)
		}
		return x
	case "unigram":
		var ts []unigram.TokenScore
		for i, t := range m.Toks {
			ts = append(ts, unigram.TokenScore{Token: t, Score: m.Scores[i]})
		}
		b := unigram.NewUnigramBuilder().Vocab(ts).BytesFallback(m.Bytes).FuseUnk(m.Fuse)
		if m.UnkID >= 0 && !m.NoUnk {
			b = b.UnkID(m.UnkID)
		}
		x, err := b.Build()
		if err != nil {
			panic(err)
		}
		return x
	}
	panic("kind " + m.Kind)
}

// ---- pipelines ------------------------------------------------------------

// Spec describes a tokenizer; Build makes a fresh one every time.
type Spec struct {
	Model *ModelSpec
	Norm  []int // recipe: choice and parameters
	Pre   []int
	Post  []int
	Dec   []int
	Added []AddedSpec
	Trunc *tokenizer.TruncationParams
	Pad   *tokenizer.PaddingParams
	// wrappers for failing components
	WrapNorm  func(normalizer.Normalizer) normalizer.Normalizer
	WrapPre   func(tokenizer.PreTokenizer) tokenizer.PreTokenizer
	Load      []byte // the configuration it is loaded from, if it is
	WrapModel func(tokenizer.Model) tokenizer.Model
}

// AddedSpec is one added token.
type AddedSpec struct {
	Tok     tokenizer.AddedToken
	Special bool
}

func genAdded(r *R) AddedSpec {
	sp := r.Chance(1, 2)
	c := pick(r, []string{"[CLS]", "[SEP]", "<s>", "</s>", "[MASK]", "[PAD]", "cab", "ab", "hello", "中文", "<new>", "a", "été", "x y"})
	t := tokenizer.NewAddedToken(c, sp)
	if r.Chance(1, 4) {
		t.LStrip = true
	}
	if r.Chance(1, 4) {
		t.RStrip = true
	}
	if r.Chance(1, 5) {
		t.SingleWord = true
	}
	if r.Chance(1, 5) {
		t.Normalized = !t.Normalized
	}
	return AddedSpec{t, sp}
}

func genPad(r *R) *tokenizer.PaddingParams {
	p := &tokenizer.PaddingParams{PadId: r.N(4), PadTypeId: r.N(3), PadToken: pick(r, []string{"[PAD]", "<pad>", "a"}), Direction: tokenizer.Right}
	if r.Chance(1, 3) {
		p.Direction = tokenizer.Left
	}
	if r.Chance(1, 3) {
		p.Strategy = *tokenizer.NewPaddingStrategy(tokenizer.WithFixed(r.N(14)))
	} else {
		p.Strategy = *tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest())
	}
	return p
}

func genTrunc(r *R) *tokenizer.TruncationParams {
	r.short = true // overflowing parts of overflowing parts multiply
	t := &tokenizer.TruncationParams{MaxLength: 3 + r.N(10), Strategy: tokenizer.LongestFirst}
	t.Stride = r.N(3)
	switch r.N(6) {
	case 4:
		t.Strategy = tokenizer.OnlyFirst
	case 5:
		t.Strategy = tokenizer.OnlySecond
	}
	if t.Stride >= t.MaxLength-3 {
		t.Stride = 0
	}
	return t
}

// recipe draws a component choice and a few parameters.
func (r *R) recipe(n int, opt bool) []int {
	if opt && r.Chance(1, 4) {
		return nil
	}
	v := 0
	if r.Chance(1, 3) {
		v = 1 + r.N(3)
	}
	return []int{r.N(n), r.N(2), r.N(2), r.N(5), r.N(4), v}
}

// Parameters of the components; the last number of a recipe picks the row. Strings
// that mean something else as a regular expression appear as both.
var (
	vPrepend   = []string{"▁", "a", "x ", "_"}
	vString    = []string{"a", "a.", ".", "b"}
	vRegex     = []string{`[ab]+`, `a.`, `.`, `b`}
	vContent   = []string{"e", "x", "-", "cd"}
	vSplit     = []string{" ", "a.", ".", "b"}
	vSplitRe   = []string{`\s+|[.,]`, `a.`, `.`, `b`}
	vRune      = []rune{'a', 'b', '.', 'x'}
	vDelimiter = []rune{'-', 'a', '.', ' '}
	vMeta      = []string{"▁", "_", "a", "Ġ"}
	vPrefix    = []string{"##", "a", "#", "@@"}
	vSuffix    = []string{"</w>", "a", "o", "</"}
	vPadTok    = []string{"[PAD]", "a", "<pad>", "b"}
	vDelim     = []string{"a", "b", "|", "[PAD]"}
	vStrip     = []string{"a", "b", "o", "e"}
	vCls       = []processor.PostToken{{Value: "[CLS]", Id: 1}, {Value: "[SEP]", Id: 2}, {Value: "a", Id: 4}, {Value: "[CLS]", Id: 3}}
	vSep       = []processor.PostToken{{Value: "[SEP]", Id: 2}, {Value: "[CLS]", Id: 1}, {Value: "b", Id: 5}, {Value: "[SEP]", Id: 0}}
	vTpl       = []struct {
		single, pair string // for processor.NewTemplate
		cls, sep     []int  // ids of [CLS] and of [SEP]
	}{
		{"[CLS]:0 $A:0 [SEP]:0", "[CLS]:0 $A:0 [SEP]:0 $B:1 [SEP]:1", []int{1}, []int{2, 3}},
		{"[CLS]:0 $A:0 [SEP]:0", "[CLS]:0 $A:0 [SEP]:0 $B:1 [SEP]:1", []int{4}, []int{1}},
		{"$A:0 [SEP]:2", "$A:0 [SEP]:1 $B:3", []int{1}, []int{2}},
		{"[CLS]:1 $A:1", "[CLS]:0 [CLS]:1 $B:1 $A:0", []int{1, 4}, []int{2}},
	}
)

// How many kinds of each component there are.
const (
	nNorm = 14

	kPrecompiled = 12 // among the normalizers
	nPre         = 15
	nPost        = 7
	nDec         = 11
)

// vCharsmap are rules of precompiled normalizers.
var vCharsmap = [][][2]string{
	{{"a", "b"}, {"A", "a"}, {"ﬁ", "fi"}, {"é", "e"}, {" ", "▁"}},
	{{"a", "A"}, {"ﬁ", "f"}, {"é", "é"}, {"①", "1"}},
	{{"ab", "x"}, {"b", "yz"}, {"c", "a"}},
	{{"B", "b"}, {"À", "a"}, {"à", "a"}, {"...", "…"}},
}

// charsmap is the sentencepiece form of rules: a trie as a double array, then the texts.
func charsmap(rules [][2]string) []byte {
	type node struct {
		kids map[byte]*node
		leaf int
	}
	root := &node{leaf: -1}
	var texts []byte
	for _, ru := range rules {
		n := root
		for i := 0; i < len(ru[0]); i++ {
			c := ru[0][i]
			if n.kids == nil {
				n.kids = map[byte]*node{}
			}
			if n.kids[c] == nil {
				n.kids[c] = &node{leaf: -1}
			}
			n = n.kids[c]
		}
		n.leaf = len(texts)
		texts = append(append(texts, ru[1]...), 0)
	}
	const size = 1024
	units := make([]uint32, size)
	used := make([]bool, size)
	used[0] = true
	var place func(n *node, at int)
	place = func(n *node, at int) {
		var labels []byte
		for c := 255; c > 0; c-- {
			if n.kids[byte(c)] != nil {
				labels = append(labels, byte(c))
			}
		}
		if n.leaf >= 0 {
			labels = append(labels, 0)
		}
		if len(labels) == 0 {
			return
		}
		base := 256
		for ; base < size-256; base++ {
			ok := !used[base]
			for _, c := range labels {
				ok = ok && !used[base^int(c)]
			}
			if ok {
				break
			}
		}
		used[base] = true
		units[at] |= uint32(base^at) << 10
		for _, c := range labels {
			used[base^int(c)] = true
		}
		for _, c := range labels {
			if c == 0 {
				units[base] = uint32(n.leaf) | 1<<31
				units[at] |= 1 << 8
			} else {
				units[base^int(c)] = uint32(c)
			}
		}
		for _, c := range labels {
			if c != 0 {
				place(n.kids[c], base^int(c))
			}
		}
	}
	place(root, 0)
	out := binary.LittleEndian.AppendUint32(nil, 4*size)
	for _, u := range units {
		out = binary.LittleEndian.AppendUint32(out, u)
	}
	return append(out, texts...)
}

// variant is the row of the tables above that a recipe uses.
func variant(p []int) int {
	if len(p) < 6 {
		return 0
	}
	return p[5]
}

func genSpec(r *R, kind string) *Spec {
	s := &Spec{Model: genModel(r, kind)}
	s.Model.NoUnk = r.Chance(1, 12)
	if r.Chance(1, 2) {
		s.Norm = r.recipe(nNorm, false)
	}
	s.Pre = r.recipe(nPre, true)
	if r.Chance(1, 2) {
		s.Post = r.recipe(nPost, false)
	}
	s.Dec = r.recipe(nDec, true)
	n := r.Small(5)
	for i := 0; i < n; i++ {
		s.Added = append(s.Added, genAdded(r))
	}
	if s.Model.Kind == "bpe" {
		s.Model.Cache = pick(r, []int{-1, 1000, 0, 1, 2, 5, 40})
		if r.Chance(1, 8) {
			s.Model.Dropout = pick(r, []float32{0.5, 0.1, 0.9, 1})
		}
	}
	return s
}

func b(i int) bool { return i != 0 }

// NormOf builds the normalizer of a recipe.
func NormOf(p []int) normalizer.Normalizer {
	if p == nil {
		return nil
	}
	v := variant(p)
	switch p[0] {
	case 0:
		if b(p[1]) && b(p[2]) && p[3] < 2 {
			return normalizer.NewDefaultNormalizer()
		}
		return normalizer.NewDefaultNormalizer(normalizer.WithLowercase(b(p[1])), normalizer.WithStrip(b(p[2])))
	case 1:
		return normalizer.NewBertNormalizer(b(p[1]), b(p[2]), p[3]%2 == 0, p[4]%2 == 0)
	case 2:
		return normalizer.NewNFC()
	case 3:
		return normalizer.NewNFD()
	case 4:
		return normalizer.NewNFKC()
	case 5:
		return normalizer.NewNFKD()
	case 6:
		return normalizer.NewStripAccents()
	case 7:
		return normalizer.NewStrip(b(p[1]), b(p[2]))
	case 8:
		return normalizer.NewPrepend(vPrepend[v])
	case 9:
		if b(p[1]) {
			return normalizer.NewReplace(normalizer.Regex, vRegex[v], vContent[(v+1)%4])
		}
		return normalizer.NewReplace(normalizer.String, vString[v], vContent[v])
	case 10:
		return normalizer.NewSequence([]normalizer.Normalizer{normalizer.NewNFD(), normalizer.NewStripAccents(), normalizer.Lowercase()})
	case kPrecompiled:
		pc, err := spm.NewPrecompiledFrom(charsmap(vCharsmap[v]))
		must(err)
		return &normalizer.Precompiled{Precompiled: pc}
	case 13:
		return normalizer.NewSequence([]normalizer.Normalizer{normalizer.NewStrip(b(p[1]), b(p[2])), normalizer.NewReplace(normalizer.String, " ", vPrepend[v]), normalizer.NewPrepend(vPrepend[v])})
	default:
		return normalizer.Lowercase()
	}
}

var behaviors = []normalizer.SplitDelimiterBehavior{normalizer.IsolatedBehavior, normalizer.RemovedBehavior, normalizer.MergedWithPreviousBehavior, normalizer.MergedWithNextBehavior, normalizer.ContiguousBehavior}

// PreOf builds the pre-tokenizer of a recipe.
func PreOf(p []int) tokenizer.PreTokenizer {
	if p == nil {
		return nil
	}
	v := variant(p)
	switch p[0] {
	case 0:
		return pretokenizer.NewWhitespaceSplit()
	case 1:
		return pretokenizer.NewBertPreTokenizer()
	case 2:
		bl := pretokenizer.NewByteLevel()
		bl.SetAddPrefixSpace(b(p[1]))
		bl.SetTrimOffsets(b(p[2]))
		return bl
	case 3:
		if b(p[2]) {
			return pretokenizer.DefaultWhitespace()
		}
		return pretokenizer.NewWhitespace()
	case 4:
		return pretokenizer.NewCharDelimiterSplit(vDelimiter[v])
	case 5:
		if b(p[2]) && !b(p[1]) {
			return pretokenizer.DefaultDigits()
		}
		return pretokenizer.NewDigits(b(p[1]))
	case 6:
		if b(p[2]) && v == 0 && b(p[1]) {
			return pretokenizer.DefaultMetaspace()
		}
		return pretokenizer.NewMetaspace(vMeta[v], b(p[1]))
	case 7:
		if b(p[2]) && p[3] == 0 {
			return pretokenizer.DefaultPunctuation()
		}
		return pretokenizer.NewPunctuation(behaviors[p[3]])
	case 8:
		return pretokenizer.NewSplit(normalizer.NewStringPattern(vSplit[v]), behaviors[p[3]], b(p[1]))
	case 9:
		return pretokenizer.NewSplit(normalizer.NewRegexpPattern(vSplitRe[v]), behaviors[p[3]], b(p[1]))
	case 10:
		if b(p[2]) {
			return pretokenizer.DefaultUnicodeScript()
		}
		return pretokenizer.NewUnicodeScript()
	case 14:
		return pretokenizer.NewMetaspaceWithScheme(vMeta[v], pretokenizer.PrependScheme(p[3]%3))
	case 11:
		return pretokenizer.NewSequence([]tokenizer.PreTokenizer{pretokenizer.NewWhitespaceSplit(), pretokenizer.NewPunctuation(behaviors[p[3]])})
	case 12:
		return pretokenizer.NewSequence([]tokenizer.PreTokenizer{pretokenizer.NewWhitespace(), pretokenizer.NewDigits(b(p[1]))})
	default:
		return pretokenizer.NewSplit(normalizer.NewRunePattern(vRune[v]), behaviors[p[3]], b(p[1]))
	}
}

// defaultRoberta tells whether a recipe means the default RoBERTa processor.
func defaultRoberta(p []int) bool { return p[0] == 1 && p[3] < 2 }

// PostOf builds the post-processor of a recipe.
func PostOf(p []int) tokenizer.PostProcessor {
	if p == nil {
		return nil
	}
	v := variant(p)
	cls, sep := vCls[v], vSep[v]
	tpl := func() tokenizer.PostProcessor {
		single, err := processor.NewTemplate(vTpl[v].single)
		must(err)
		pair, err := processor.NewTemplate(vTpl[v].pair)
		must(err)
		tokens := []processor.SpecialToken{
			*processor.NewSpecialToken("[CLS]", vTpl[v].cls, []string{"[CLS]", "[Y]"}[:len(vTpl[v].cls)]),
			*processor.NewSpecialToken("[SEP]", vTpl[v].sep, []string{"[SEP]", "[X]"}[:len(vTpl[v].sep)]),
		}
		if p[0] == 4 {
			// piece by piece
			bd := processor.DefaultTemplateProcessing().Builder()
			for _, t := range tokens {
				bd.SpecialTokens.TokenMap[t.Id] = t
			}
			bd.NewSingle(vTpl[v].single)
			bd.NewPair(strings.Split(vTpl[v].pair, " "))
			return bd.Build()
		}
		return processor.NewTemplateProcessing(single, pair, processor.NewTokensFrom(tokens))
	}
	switch p[0] {
	case 0:
		return processor.NewBertProcessing(sep, cls)
	case 1:
		if defaultRoberta(p) {
			x := processor.DefaultRobertaProcessing()
			if !b(p[1]) {
				x.TrimOffsets(false)
			}
			if !b(p[2]) {
				x.AddPrefixSpace(false)
			}
			return x
		}
		return processor.NewRobertaProcessing(sep, cls, b(p[1]), b(p[2]))
	case 2:
		bl := pretokenizer.NewByteLevel()
		bl.SetAddPrefixSpace(b(p[1]))
		bl.SetTrimOffsets(b(p[2]))
		return processor.NewByteLevelProcessing(bl)
	case 3, 4, 5:
		return tpl()
	default:
		bl := pretokenizer.NewByteLevel()
		bl.SetTrimOffsets(b(p[2]))
		return processor.NewSequence([]tokenizer.PostProcessor{processor.NewByteLevelProcessing(bl), tpl()})
	}
}

// DecOf builds the decoder of a recipe.
func DecOf(p []int) tokenizer.Decoder {
	if p == nil {
		return nil
	}
	v := variant(p)
	switch p[0] {
	case 0:
		if b(p[2]) && v == 0 && b(p[1]) {
			return decoder.DefaultWordpieceDecoder()
		}
		return decoder.NewWordPieceDecoder(vPrefix[v], b(p[1]))
	case 1:
		if b(p[2]) && v == 0 {
			return decoder.DefaultBpeDecoder()
		}
		return decoder.NewBpeDecoder(vSuffix[v])
	case 2:
		return pretokenizer.NewByteLevel()
	case 3:
		if b(p[2]) && v == 0 && b(p[1]) {
			return pretokenizer.DefaultMetaspace()
		}
		return pretokenizer.NewMetaspace(vMeta[v], b(p[1]))
	case 4:
		if b(p[2]) && v == 2 && b(p[1]) {
			return decoder.DefaultCTC()
		}
		return decoder.NewCTC(vPadTok[v], vDelim[v], b(p[1]))
	case 5:
		return decoder.NewFuse()
	case 6:
		return decoder.NewByteFallback()
	case 7:
		return decoder.NewSequence([]tokenizer.Decoder{decoder.NewByteFallback(), decoder.NewFuse(), decoder.NewStrip(vStrip[v], 1, 0)})
	case 8:
		return decoder.NewStrip(vStrip[v], 1, 1)
	case 9:
		if b(p[1]) {
			return normalizer.NewReplace(normalizer.Regex, vRegex[v], vContent[(v+1)%4])
		}
		return normalizer.NewReplace(normalizer.String, vString[v], vContent[v])
	default:
		return decoder.NewSequence([]tokenizer.Decoder{normalizer.NewReplace(normalizer.String, vMeta[v], " "), decoder.NewByteFallback(), decoder.NewFuse(), decoder.NewStrip(" ", 1, 0)})
	}
}

// Build makes a fresh tokenizer.
func (s *Spec) Build() *tokenizer.Tokenizer {
	if s.Load != nil {
		tk, err := pretrained.FromReader(bytes.NewReader(s.Load))
		must(err)
		return tk
	}
	m := s.Model.Build()
	if s.WrapModel != nil {
		m = s.WrapModel(m)
	}
	tk := tokenizer.NewTokenizer(m)
	n := NormOf(s.Norm)
	if s.WrapNorm != nil {
		n = s.WrapNorm(n)
	}
	if n != nil {
		tk.WithNormalizer(n)
	}
	p := PreOf(s.Pre)
	if s.WrapPre != nil {
		p = s.WrapPre(p)
	}
	if p != nil {
		tk.WithPreTokenizer(p)
	}
	if x := PostOf(s.Post); x != nil {
		tk.WithPostProcessor(x)
	}
	if x := DecOf(s.Dec); x != nil {
		tk.WithDecoder(x)
	}
	for _, a := range s.Added {
		if a.Special {
			tk.AddSpecialTokens([]tokenizer.AddedToken{a.Tok})
		} else {
			tk.AddTokens([]tokenizer.AddedToken{a.Tok})
		}
	}
	if s.Trunc != nil {
		t := *s.Trunc
		tk.WithTruncation(&t)
	}
	if s.Pad != nil {
		p := *s.Pad
		tk.WithPadding(&p)
	}
	return tk
}

// id tells descriptions apart.
func (s *Spec) id() string {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s %+v %s", s, *s.Model, s.Load)
	return fmt.Sprintf("%08x", h.Sum64()>>32)
}

func (s *Spec) String() string {
	var o []string
	o = append(o, fmt.Sprintf("%s(%d tokens, %d merges, cache %d)", s.Model.Kind, len(s.Model.Toks), len(s.Model.Merges), s.Model.Cache))
	if s.Model.NoUnk {
		o = append(o, "no unknown token")
	}
	if s.Model.Dropout > 0 {
		o = append(o, fmt.Sprintf("dropout %v", s.Model.Dropout))
	}
	add := func(k string, x any, p []int) {
		if p != nil {
			o = append(o, fmt.Sprintf("%s=%s%v", k, strings.TrimPrefix(fmt.Sprintf("%T", x), "*"), p[1:]))
		}
	}
	if s.Norm != nil {
		add("norm", NormOf(s.Norm), s.Norm)
	}
	if s.Pre != nil {
		add("pre", PreOf(s.Pre), s.Pre)
	}
	if s.Post != nil {
		add("post", PostOf(s.Post), s.Post)
	}
	if s.Dec != nil {
		add("dec", DecOf(s.Dec), s.Dec)
	}
	for _, a := range s.Added {
		o = append(o, fmt.Sprintf("added %q special=%v l=%v r=%v sw=%v norm=%v", a.Tok.Content, a.Special, a.Tok.LStrip, a.Tok.RStrip, a.Tok.SingleWord, a.Tok.Normalized))
	}
	if s.Trunc != nil {
		o = append(o, fmt.Sprintf("trunc=%+v", *s.Trunc))
	}
	if s.Pad != nil {
		o = append(o, fmt.Sprintf("pad=%+v", *s.Pad))
	}
	return strings.Join(o, " ")
}

// ---- inputs ---------------------------------------------------------------

// Input is one thing to encode.
type Input struct {
	A, B      string
	Pre       []string // pre-tokenized instead of A
	Pair      bool
	Tokenized bool
}

func genInput(r *R, maxWords int) Input {
	in := Input{A: r.text(maxWords)}
	if r.Chance(1, 4) {
		in.Pair = true
		in.B = r.text(maxWords)
	}
	if r.Chance(1, 6) {
		in.Tokenized = true
		n := r.N(4)
		for i := 0; i < n; i++ {
			in.Pre = append(in.Pre, r.word())
		}
	}
	return in
}

// related is an input or word a sloppy key could take for another one.
func (r *R) related(w string) string {
	rs := []rune(w)
	switch r.N(11) {
	case 0:
		return w + pick(r, letters)
	case 1:
		return pick(r, letters) + w
	case 2:
		return strings.ToUpper(w)
	case 3:
		return w + " "
	case 4:
		return " " + w
	case 5:
		for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
			rs[i], rs[j] = rs[j], rs[i]
		}
		return string(rs)
	case 6:
		if len(rs) > 1 {
			i := r.N(len(rs) - 1)
			rs[i], rs[i+1] = rs[i+1], rs[i]
		}
		return string(rs)
	case 7:
		if len(rs) > 0 {
			rs[r.N(len(rs))] = []rune(pick(r, letters))[0]
		}
		return string(rs)
	case 8:
		return w + w
	case 9:
		if len(rs) > 0 {
			return string(rs[:len(rs)-1])
		}
		return w
	default:
		return strings.NewReplacer("é", "e\u0301", "e\u0301", "é", " ", "  ", "a", "A").Replace(w)
	}
}

func (in Input) Make() tokenizer.EncodeInput {
	var a tokenizer.InputSequence
	if in.Tokenized {
		a = tokenizer.NewInputSequence(append([]string(nil), in.Pre...))
	} else {
		a = tokenizer.NewInputSequence(in.A)
	}
	if in.Pair {
		return tokenizer.NewDualEncodeInput(a, tokenizer.NewInputSequence(in.B))
	}
	return tokenizer.NewSingleEncodeInput(a)
}

func (in Input) String() string {
	s := fmt.Sprintf("%q", in.A)
	if in.Tokenized {
		s = fmt.Sprintf("%q", in.Pre)
	}
	if in.Pair {
		s += fmt.Sprintf("+%q", in.B)
	}
	return s
}

// ---- canonical forms ------------------------------------------------------

func ints(l []int) string {
	if len(l) == 0 {
		return "[]"
	}
	return fmt.Sprint(l)
}

// Canon writes every field of an encoding; nil and empty slices are the same.
func Canon(e *tokenizer.Encoding) string {
	if e == nil {
		return "<nil>"
	}
	var b strings.Builder
	canonInto(&b, e)
	return b.String()
}

func canonInto(b *strings.Builder, e *tokenizer.Encoding) {
	fmt.Fprintf(b, "{ids=%s types=%s tokens=%q offsets=", ints(e.Ids), ints(e.TypeIds), e.Tokens)
	for _, o := range e.Offsets {
		b.WriteString(ints(o))
	}
	fmt.Fprintf(b, " special=%s attention=%s words=%s ranges=", ints(e.SpecialTokenMask), ints(e.AttentionMask), ints(e.Words))
	var ks []int
	for k := range e.SequenceRanges {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(b, "%d:%s", k, ints(e.SequenceRanges[k]))
	}
	if len(e.Overflowing) > 0 {
		b.WriteString(" overflow=[")
		for i := range e.Overflowing {
			canonInto(b, &e.Overflowing[i])
		}
		b.WriteString("]")
	}
	b.WriteString("}")
}

func vocabString(v map[string]int) string {
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q:%d ", k, v[k])
	}
	return b.String()
}

// State is what a caller can observe of a tokenizer without encoding.
func State(tk *tokenizer.Tokenizer) string {
	var b strings.Builder
	b.WriteString(vocabString(tk.GetVocab(false)))
	b.WriteString("| ")
	b.WriteString(vocabString(tk.GetVocab(true)))
	fmt.Fprintf(&b, "| %d %d | ", tk.GetVocabSize(false), tk.GetVocabSize(true))
	sp := append([]string(nil), tk.GetSpecialTokens()...)
	sort.Strings(sp)
	fmt.Fprintf(&b, "%q", sp)
	if p := tk.GetPadding(); p != nil {
		fmt.Fprintf(&b, " pad %+v", *p)
	}
	if t := tk.GetTruncation(); t != nil {
		fmt.Fprintf(&b, " trunc %+v", *t)
	}
	return b.String()
}

func modelState(m tokenizer.Model) string {
	return vocabString(m.GetVocab()) + fmt.Sprint(m.GetVocabSize())
}

func tokString(l []tokenizer.Token) string {
	var b strings.Builder
	for _, t := range l {
		fmt.Fprintf(&b, "(%d %q %v)", t.Id, t.Value, t.Offsets)
	}
	return b.String()
}

func setupOnce() {}

func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	cut := func(s string) string {
		hi := min(len(s), i+160)
		if lo >= len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("differs at byte %d: want …%s… got …%s…", i, cut(a), cut(b))
}
