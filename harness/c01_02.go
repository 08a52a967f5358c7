package main

import (
	"errors"
	"fmt"
	"runtime"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
)

func init() {
	checks["C01"] = c01
	checks["C02"] = c02
}

// ---- failing components -----------------------------------------------------

var errInjected = errors.New("injected component failure")

const marker = "boom"

type failNorm struct{ inner normalizer.Normalizer }

func (f failNorm) Normalize(n *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	if strings.Contains(n.GetOriginal(), marker) || strings.Contains(n.GetNormalized(), marker) {
		noteFail()
		return nil, errInjected
	}
	if f.inner == nil {
		return n, nil
	}
	return f.inner.Normalize(n)
}

type failPre struct{ inner tokenizer.PreTokenizer }

func (f failPre) PreTokenize(p *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
	for _, s := range p.GetSplits(normalizer.OriginalTarget, tokenizer.Byte) {
		if strings.Contains(s.Value, marker) {
			noteFail()
			return nil, errInjected
		}
	}
	if f.inner == nil {
		return p, nil
	}
	return f.inner.PreTokenize(p)
}

type failModel struct{ tokenizer.Model }

func (f failModel) Tokenize(s string) ([]tokenizer.Token, error) {
	if strings.Contains(s, marker) {
		noteFail()
		return nil, errInjected
	}
	return f.Model.Tokenize(s)
}

// genFailing installs a component that fails on the marker word. It returns
// which; "" if none.
func genFailing(r *R, s *Spec) string {
	switch r.N(3) {
	case 0:
		s.WrapNorm = func(n normalizer.Normalizer) normalizer.Normalizer { return failNorm{n} }
		return "normalizer"
	case 1:
		s.WrapPre = func(p tokenizer.PreTokenizer) tokenizer.PreTokenizer { return failPre{p} }
		return "pre-tokenizer"
	default:
		s.WrapModel = func(m tokenizer.Model) tokenizer.Model { return failModel{m} }
		return "model"
	}
}

func (in Input) mark(r *R) Input {
	switch {
	case in.Tokenized && len(in.Pre) > 0:
		in.Pre = append([]string(nil), in.Pre...)
		in.Pre[r.N(len(in.Pre))] = marker
	case in.Pair && r.Chance(1, 2):
		in.B = strings.TrimSpace(in.B + " " + marker)
	case in.Tokenized:
		in.Pre = []string{marker}
	default:
		in.A = strings.TrimSpace(in.A + " " + marker)
	}
	return in
}

// nearby is an input that differs in one part.
func (in Input) nearby(r *R) Input {
	if r.Chance(1, 3) {
		return in.regrouped(r)
	}
	switch {
	case in.Pair && r.Chance(1, 2):
		in.B = r.related(in.B)
	case in.Tokenized && len(in.Pre) > 0:
		in.Pre = append([]string(nil), in.Pre...)
		i := r.N(len(in.Pre))
		in.Pre[i] = r.related(in.Pre[i])
	case !in.Pair && r.Chance(1, 3):
		in.Pair, in.B = true, in.A
	case !in.Tokenized:
		in.A = r.related(in.A)
	}
	return in
}

// regrouped is an input of the same text in other parts.
func (in Input) regrouped(r *R) Input {
	r.Probe("same text in other parts")
	sep := pick(r, []string{" ", " ", "", ", "})
	switch {
	case in.Tokenized && len(in.Pre) > 1 && r.Chance(1, 2): // two words in one
		i := r.N(len(in.Pre) - 1)
		p := append([]string(nil), in.Pre[:i]...)
		p = append(p, in.Pre[i]+sep+in.Pre[i+1])
		in.Pre = append(p, in.Pre[i+2:]...)
	case in.Tokenized && r.Chance(1, 2): // a word in two
		var p []string
		for i, w := range in.Pre {
			f := strings.Fields(w)
			if len(f) < 2 && len(w) > 1 && i == 0 {
				rs := []rune(w)
				f = []string{string(rs[:len(rs)/2]), string(rs[len(rs)/2:])}
			}
			p = append(p, f...)
		}
		in.Pre = p
	case in.Tokenized: // the words as one text, also as they are printed
		in.Tokenized = false
		in.A = strings.Join(in.Pre, sep)
		if r.Chance(1, 3) {
			in.A = fmt.Sprint(in.Pre)
		}
		in.Pre = nil
	case in.Pair && r.Chance(1, 3):
		in.A, in.B = in.B, in.A
	case in.Pair && r.Chance(1, 2): // a word of the first text goes to the second
		f := strings.Fields(in.A)
		if n := len(f); n > 0 {
			in.A, in.B = strings.Join(f[:n-1], " "), f[n-1]+" "+in.B
		}
	case in.Pair:
		in.Pair, in.A, in.B = false, in.A+sep+in.B, ""
	case r.Chance(1, 2): // the first and the other words as a pair
		if a, b, ok := strings.Cut(in.A, " "); ok {
			in.Pair, in.A, in.B = true, a, b
		}
	default:
		in.Tokenized = true
		in.Pre = strings.Fields(in.A)
		if r.Chance(1, 2) {
			in.Pre = []string{in.A}
		}
		in.A = ""
	}
	return in
}

// ---- reference ---------------------------------------------------------------

type alone struct {
	in  Input
	enc *tokenizer.Encoding
	can string
	err error
	bad bool // does not work alone (panics, exits, hangs) or is too expensive
	how string
}

// judge reports an input that brings the library down even by itself: it
// could only bring a batch down, which promises an error instead.
func (a *alone) judge(r *R, s *Spec) {
	if a.how == "" {
		return
	}
	key := ""
	if len(s.Norm) > 0 && s.Norm[0]%nNorm == kPrecompiled {
		key = "crash:precompiled normalizer"
	}
	r.FailKey("crash", key, "input %v does not fail with an error but with %s", a.in, a.how)
}

// encodeAlone encodes every input by itself on a fresh tokenizer. Inputs that
// bring the library down even alone are marked.
func encodeAlone(r *R, s *Spec, ins []Input, special bool) []alone {
	out := make([]alone, len(ins))
	var tk *tokenizer.Tokenizer
	for i := range ins {
		a := &out[i]
		a.in = ins[i]
		var before uint64
		var o *Outcome
		if r.apart() {
			tk = nil
		}
		r.Apart(func() {
			if tk == nil {
				r.Setup("tokenizer", func() { tk = s.Build() })
			}
			t := tk
			before = runtime.SimSteps()
			o = r.Alone(func() {
				a.enc, a.err = t.Encode(a.in.Make(), special)
			})
		})
		if !o.OK() || a.enc == nil && a.err == nil {
			a.bad = true
			a.how = o.String()
			if o.OK() {
				a.how = "neither an encoding nor an error"
			}
			tk = nil
			r.Probe("input unusable alone")
			continue
		}
		if runtime.SimSteps()-before > 60_000 {
			a.bad = true
			r.Probe("input too expensive")
			continue
		}
		if a.err == nil {
			a.can = Canon(a.enc)
		}
		r.Note(fmt.Sprintf("%s encode %v %v", s.id(), a.in, special), fmt.Sprint(a.can, a.err))
	}
	return out
}

// padOracle pads the way the parameters prescribe, on copies.
func padOracle(es []*tokenizer.Encoding, p *tokenizer.PaddingParams) []string {
	target := 0
	if p.Strategy.Name == "Fixed" {
		target = p.Strategy.Value.(int)
	} else {
		for _, e := range es {
			target = max(target, len(e.Ids))
		}
	}
	var one func(e *tokenizer.Encoding) *tokenizer.Encoding
	one = func(e *tokenizer.Encoding) *tokenizer.Encoding {
		n := target - len(e.Ids)
		c := &tokenizer.Encoding{SequenceRanges: e.SequenceRanges}
		for i := range e.Overflowing {
			c.Overflowing = append(c.Overflowing, *one(&e.Overflowing[i]))
		}
		rep := func(l []int, v int) []int {
			var pad []int
			for i := 0; i < n; i++ {
				pad = append(pad, v)
			}
			if p.Direction == tokenizer.Left {
				return append(pad, l...)
			}
			return append(append([]int(nil), l...), pad...)
		}
		c.Ids = rep(e.Ids, p.PadId)
		c.TypeIds = rep(e.TypeIds, p.PadTypeId)
		c.SpecialTokenMask = rep(e.SpecialTokenMask, 1)
		c.AttentionMask = rep(e.AttentionMask, 0)
		c.Words = rep(e.Words, -1)
		var pt []string
		var po [][]int
		for i := 0; i < n; i++ {
			pt = append(pt, p.PadToken)
			po = append(po, []int{0, 0})
		}
		if p.Direction == tokenizer.Left {
			c.Tokens = append(pt, e.Tokens...)
			c.Offsets = append(po, e.Offsets...)
		} else {
			c.Tokens = append(append([]string(nil), e.Tokens...), pt...)
			c.Offsets = append(append([][]int(nil), e.Offsets...), po...)
		}
		return c
	}
	var out []string
	for _, e := range es {
		out = append(out, Canon(one(e)))
	}
	return out
}

func c01(r *R) {
	s := genSpec(r, "")
	if r.Chance(1, 2) {
		s.Trunc = genTrunc(r)
	}
	special := r.Chance(1, 2)
	var pad *tokenizer.PaddingParams
	if r.Chance(1, 2) {
		pad = genPad(r)
	}
	failing := ""
	if r.Chance(1, 6) {
		failing = genFailing(r, s)
	}
	nb := 1 + r.N(2)
	var batches [][]Input
	for k := 0; k < nb; k++ {
		n, words := r.Small(9), 8
		if r.Chance(1, 25) {
			// many short inputs
			n, words = r.Range(9, pick(r, []int{24, 80, 300})), 1
			if r.Chance(1, 3) {
				n = r.Edge(9, 300)
			}
			r.Probe("long batch")
		}
		var ins []Input
		for i := 0; i < n; i++ {
			if len(ins) > 0 && r.Chance(1, 6) {
				in := ins[r.N(len(ins))]
				if r.Chance(1, 2) {
					in = in.nearby(r)
				}
				ins = append(ins, in)
				continue
			}
			in := genInput(r, words)
			if failing != "" && r.Chance(1, 4) {
				in = in.mark(r)
			}
			ins = append(ins, in)
		}
		batches = append(batches, ins)
	}
	conc := r.Chance(1, 3) // batches at the same time
	r.Desc("%s special=%v pad=%+v failing=%s", s, special, pad, failing)

	ref := make([][]alone, nb)
	for k := range batches {
		var keep []alone
		for _, a := range encodeAlone(r, s, batches[k], special) {
			if !a.bad {
				keep = append(keep, a)
			}
			a.judge(r, s)
		}
		ref[k] = keep
		r.Desc("batch %d: %v", k, inputsOf(keep))
	}
	full := *s
	full.Pad = pad
	var tk *tokenizer.Tokenizer
	r.Setup("tokenizer", func() { tk = full.Build() })

	got := make([][]tokenizer.Encoding, nb)
	errs := make([]error, nb)
	run := func(k int) {
		var in []tokenizer.EncodeInput
		for _, a := range ref[k] {
			in = append(in, a.in.Make())
		}
		r.Go(fmt.Sprintf("EncodeBatch %d", k), func() { got[k], errs[k] = tk.EncodeBatch(in, special) })
	}
	if conc {
		for k := 0; k < nb; k++ {
			run(k)
		}
		if !r.Judge(r.Wait(), "EncodeBatch", false) {
			r.Stop()
		}
	} else {
		for k := 0; k < nb; k++ {
			run(k)
			if !r.Judge(r.Wait(), "EncodeBatch", false) {
				r.Stop()
			}
		}
	}
	for k := 0; k < nb; k++ {
		judgeBatch(r, fmt.Sprintf("batch %d", k), ref[k], pad, got[k], errs[k])
	}
}

func inputsOf(l []alone) []string {
	var o []string
	for _, a := range l {
		o = append(o, a.in.String())
	}
	return o
}

func judgeBatch(r *R, what string, ref []alone, pad *tokenizer.PaddingParams, got []tokenizer.Encoding, err error) {
	var want []string
	var encs []*tokenizer.Encoding
	failed := -1
	for i, a := range ref {
		if a.err != nil {
			failed = i
			continue
		}
		encs = append(encs, a.enc)
		want = append(want, a.can)
	}
	if failed >= 0 {
		r.Probe("batch with a failing input")
		if err == nil {
			r.Fail("error-lost", "%s: input %d %v cannot be encoded (%v) but the batch reported success", what, failed, ref[failed].in, ref[failed].err)
		}
		if len(got) != 0 {
			r.Fail("partial-result", "%s: the batch failed but returned %d results", what, len(got))
		}
		return
	}
	if err != nil {
		r.Fail("spurious-error", "%s: every input can be encoded alone but the batch failed: %v", what, err)
		return
	}
	if len(ref) == 0 {
		r.Probe("empty batch")
	}
	if pad != nil {
		want = padOracle(encs, pad)
		r.Probe("padded batch")
	}
	if len(got) != len(want) {
		r.Fail("count", "%s: %d inputs, %d results", what, len(want), len(got))
		return
	}
	for i := range want {
		if len(encs[i].Overflowing) > 0 {
			r.Probe("batch with overflowing parts")
		}
		if g := Canon(&got[i]); g != want[i] {
			r.Fail("mismatch", "%s: result %d of input %v %s", what, i, ref[i].in, diff(want[i], g))
			return
		}
	}
}

// ---- C02 ------------------------------------------------------------------------

func genIds(r *R, max, nvocab int) []int {
	n := r.Small(max + 1)
	ids := make([]int, n)
	for i := range ids {
		switch r.N(8) {
		case 0:
			ids[i] = nvocab + r.N(8)
		case 1:
			ids[i] = -1 - r.N(2)
		default:
			ids[i] = r.N(nvocab + 3)
		}
	}
	return ids
}

func c02(r *R) {
	s := genSpec(r, "")
	skip := r.Chance(1, 2)
	nb := 1 + r.N(3)
	n0 := len(s.Model.Toks) + len(s.Added)
	batches := make([][][]int, nb)
	for k := range batches {
		n, m := r.Small(12), 10
		if r.Chance(1, 12) {
			// many short sequences
			n, m = r.Range(12, pick(r, []int{40, 150, 300})), 2
			if r.Chance(1, 3) {
				n = r.Edge(12, 1025)
			}
			r.Probe("long batch")
		} else if r.Chance(1, 20) {
			m = 80
		}
		for i := 0; i < n; i++ {
			if l := batches[k]; len(l) > 0 && r.Chance(1, 5) {
				// the same again, longer, shorter or in another order
				q := append([]int(nil), l[r.N(len(l))]...)
				switch r.N(4) {
				case 0:
					q = append(q, genIds(r, 2, n0)...)
				case 1:
					q = q[:r.N(len(q)+1)]
				case 2:
					for i, j := 0, len(q)-1; i < j; i, j = i+1, j-1 {
						q[i], q[j] = q[j], q[i]
					}
				}
				batches[k] = append(batches[k], q)
				continue
			}
			batches[k] = append(batches[k], genIds(r, m, n0))
		}
	}
	conc := r.Chance(1, 2)
	r.Desc("%s skip=%v", s, skip)
	want := make([][]string, nb)
	var ref *tokenizer.Tokenizer
	for k := range batches {
		var keep [][]int
		for _, ids := range batches[k] {
			var w string
			var o *Outcome
			if r.apart() {
				ref = nil
			}
			r.Apart(func() {
				if ref == nil {
					r.Setup("tokenizer", func() { ref = s.Build() })
				}
				t := ref
				o = r.Alone(func() { w = t.Decode(append([]int(nil), ids...), skip) })
			})
			if !o.OK() {
				r.Fail("crash", "decoding %v alone: %s", ids, o)
				ref = nil
				continue
			}
			keep = append(keep, ids)
			want[k] = append(want[k], w)
			r.Note(fmt.Sprintf("%s decode %v %v", s.id(), ids, skip), w)
		}
		batches[k] = keep
		r.Desc("batch %d: %v", k, keep)
	}
	var tk *tokenizer.Tokenizer
	r.Setup("tokenizer", func() { tk = s.Build() })
	got := make([][]string, nb)
	for k := range batches {
		in := make([][]int, len(batches[k]))
		for i, x := range batches[k] {
			in[i] = append([]int(nil), x...)
		}
		r.Go(fmt.Sprintf("DecodeBatch %d", k), func() { got[k] = tk.DecodeBatch(in, skip) })
		if !conc || k == nb-1 {
			if !r.Judge(r.Wait(), "DecodeBatch", false) {
				r.Stop()
			}
		}
	}
	for k := range batches {
		if len(got[k]) != len(want[k]) {
			r.Fail("count", "batch %d: %d sequences, %d results", k, len(want[k]), len(got[k]))
			continue
		}
		if len(want[k]) == 0 {
			r.Probe("empty batch")
		}
		for i := range want[k] {
			if got[k][i] != want[k][i] {
				r.Fail("mismatch", "batch %d: sequence %d %v decodes to %q alone, to %q in the batch", k, i, batches[k][i], want[k][i], got[k][i])
			}
		}
	}
}
