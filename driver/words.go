package main

import (
	"encoding/json"
	"unicode"

	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
	"golang.org/x/text/language"
)

func init() {
	handlers["fields"] = fieldsOp
	handlers["classes"] = classesOp
	handlers["ansi"] = ansiOp
	handlers["hyph"] = hyphOp
	handlers["lower"] = lowerOp
	handlers["lang"] = langOp
	handlers["width"] = widthOp
	handlers["widths"] = widthsOp
	handlers["rle"] = rleOp
}

// classesOp records facts about the environment: the classes of runes in the Go standard library.
func classesOp(raw json.RawMessage) interface{} {
	var s struct {
		In []int `json:"in"`
	}
	must(json.Unmarshal(raw, &s))
	out := make(list, 0, len(s.In))
	for _, v := range s.In {
		r := rune(v)
		out = append(out, obj{
			"r": v, "space": unicode.IsSpace(r), "punct": unicode.IsPunct(r), "hyphen": unicode.Is(unicode.Hyphen, r),
			"lower": int(unicode.ToLower(r)),
		})
	}

	return out
}

// fieldsOp runs the splitters on an input.
func fieldsOp(raw json.RawMessage) interface{} {
	var s struct {
		In   []int  `json:"in"`
		Kind string `json:"kind"`
		Seps []int  `json:"seps"`
		Str  []int  `json:"str"` // bytes of a string
	}
	must(json.Unmarshal(raw, &s))
	window, _ := guarded(s.In)
	str := make([]byte, 0, len(s.Str))
	for _, v := range s.Str {
		str = append(str, byte(v))
	}
	if s.Str != nil {
		s.In = ints([]rune(string(str)))
	}

	var parts [][]rune
	one := make([]bool, 0, 8)
	switch s.Kind {
	case "fields":
		seps := map[rune]bool{}
		for _, v := range s.Seps {
			seps[rune(v)] = true
		}
		parts = runes.FieldsFunc(window, func(r rune) bool { return seps[r] })
	case "token":
		t := tokenizer.New()
		if s.Str != nil {
			parts = t.BreakWordString(string(str))
		} else {
			parts = t.BreakWord(window)
		}
	case "punct":
		p := punctuator.New()
		if s.Str != nil {
			parts = p.BreakWordString(string(str))
		} else {
			parts = p.BreakWord(window)
		}
		for _, x := range parts {
			one = append(one, punctuator.IsPunctuation(x))
		}
	case "hyphen":
		parts = hyphenator.SplitWord(window)
		for _, x := range parts {
			one = append(one, hyphenator.IsHyphen(x))
		}
	case "ispunct": // the predicate on the whole input
		one = append(one, punctuator.IsPunctuation(window))
	case "ishyphen":
		one = append(one, hyphenator.IsHyphen(window))
	}

	// another call does not change what was returned
	other := []rune("x,y-z w|v\u2010u")
	_, _, _ = tokenizer.New().BreakWord(other), punctuator.New().BreakWord(other), hyphenator.SplitWord(other)

	return obj{"parts": intss(parts), "one": one, "in": s.In}
}

func ansiOp(raw json.RawMessage) interface{} {
	var s struct {
		In []int `json:"in"`
	}
	must(json.Unmarshal(raw, &s))
	window, _ := guarded(s.In)
	pieces := make(list, 0, 4)
	stripped := ansi.StripToken(window)
	_ = ansi.StripToken([]rune("\x1b[31mx\x1b[0my\x1b[2Kz\x1b[1;2h")) // another call does not change what was returned
	for _, p := range stripped {
		pieces = append(pieces, obj{
			"start": ints(p.StartSequence), "text": ints(p.Text), "stop": ints(p.StopSequence), "rem": ints(p.Remainder),
		})
	}

	return obj{"pieces": pieces}
}

type hyphCfg struct {
	Lang   string `json:"lang"` // language tag
	Tag    bool   `json:"tag"`  // set the language as a tag
	Dict   string `json:"dict"` // load this pattern file
	MinLen *int   `json:"minLen"`
	Left   *int   `json:"left"`
	Right  *int   `json:"right"`
}

func (c hyphCfg) make() *hyphenator.Hyphenator {
	var opts []hyphenator.Option
	if c.Lang != "" {
		if c.Tag {
			opts = append(opts, hyphenator.WithLanguageTag(language.Make(c.Lang)))
		} else {
			opts = append(opts, hyphenator.WithLanguage(c.Lang))
		}
	}
	if c.MinLen != nil {
		opts = append(opts, hyphenator.WithMinLength(*c.MinLen))
	}
	if c.Left != nil {
		opts = append(opts, hyphenator.WithMinLeft(*c.Left))
	}
	if c.Right != nil {
		opts = append(opts, hyphenator.WithMinRight(*c.Right))
	}
	h := hyphenator.New(opts...)
	if c.Dict != "" {
		d, err := hyphenator.LoadPatterns(c.Dict)
		must(err)
		h.Dictionary = d
	}

	return h
}

// hyphOp hyphenates words with one hyphenator.
func hyphOp(raw json.RawMessage) interface{} {
	var s struct {
		Cfg   hyphCfg `json:"cfg"`
		Words [][]int `json:"words"`
		Str   bool    `json:"str"`
	}
	must(json.Unmarshal(raw, &s))
	h := s.Cfg.make()
	kept := make(list, 0, len(s.Words)) // the next calls do not change what was returned
	for _, wv := range s.Words {
		w := wv
		kept = append(kept, protect(func() interface{} {
			window, _ := guarded(w)
			if s.Str {
				return h.BreakWordString(string(window))
			}

			return h.BreakWord(window)
		}))
	}
	out := make(list, 0, len(s.Words))
	for _, k := range kept {
		if parts, ok := k.([][]rune); ok {
			k = obj{"parts": intss(parts)}
		}
		out = append(out, k)
	}

	return obj{"res": out}
}

// lowerOp records a fact about the environment: lower case runes.
func lowerOp(raw json.RawMessage) interface{} {
	var s struct {
		Words [][]int `json:"words"`
	}
	must(json.Unmarshal(raw, &s))
	out := make(list, 0, len(s.Words))
	for _, w := range s.Words {
		l := make([]int, 0, len(w))
		hy := false
		for _, v := range w {
			l = append(l, int(unicode.ToLower(rune(v))))
			hy = hy || unicode.Is(unicode.Hyphen, rune(v))
		}
		out = append(out, obj{"low": l, "hyphen": hy})
	}

	return obj{"res": out}
}

// langOp selects dictionaries.
func langOp(raw json.RawMessage) interface{} {
	var s struct {
		Tags  []string `json:"tags"`
		Words [][]int  `json:"words"`
	}
	must(json.Unmarshal(raw, &s))
	out := make(list, 0, len(s.Tags))
	for _, tv := range s.Tags {
		t := tv
		out = append(out, protect(func() interface{} {
			byString := hyphenator.New(hyphenator.WithLanguage(t))
			byTag := hyphenator.New(hyphenator.WithLanguageTag(language.Make(t)))
			var a, b list
			for _, w := range s.Words {
				a = append(a, intss(byString.BreakWord(runesOf(w))))
				b = append(b, intss(byTag.BreakWord(runesOf(w))))
			}

			return obj{
				"string": byString.String(), "tag": byTag.String(),
				"stringWords": a, "tagWords": b,
			}
		}))
	}

	return obj{"res": out}
}

type widthCfg struct {
	EA   *bool `json:"ea"`
	Skip *bool `json:"skip"`
	Amb  *int  `json:"amb"`
}

func (c widthCfg) opts() []runes.Option {
	var o []runes.Option
	if c.EA != nil {
		o = append(o, runes.WithEastAsian(*c.EA))
	}
	if c.Skip != nil {
		o = append(o, runes.WithSkipStrictEmojiNeutral(*c.Skip))
	}
	if c.Amb != nil {
		o = append(o, runes.WithEastAsianAmbiguousWidth(*c.Amb))
	}

	return o
}

// widthOp is a history of width computations.
func widthOp(raw json.RawMessage) interface{} {
	var s struct {
		Ops []struct {
			R   int      `json:"r"`
			Cfg widthCfg `json:"cfg"`
		} `json:"ops"`
	}
	must(json.Unmarshal(raw, &s))
	out := make(list, 0, len(s.Ops))
	for _, opv := range s.Ops {
		op := opv
		out = append(out, protect(func() interface{} {
			return obj{"w": runes.Width(rune(op.R), op.Cfg.opts()...), "amb": runes.IsAmbiguous(rune(op.R))}
		}))
	}

	return obj{"res": out}
}

// widthsOp measures texts, given as runes or as the bytes of a string.
func widthsOp(raw json.RawMessage) interface{} {
	var s struct {
		In    []int    `json:"in"`
		Bytes []int    `json:"bytes"`
		Cfg   widthCfg `json:"cfg"`
	}
	must(json.Unmarshal(raw, &s))
	if s.Bytes != nil {
		b := make([]byte, 0, len(s.Bytes))
		for _, v := range s.Bytes {
			b = append(b, byte(v))
		}

		return obj{"w": runes.StringWidth(string(b), s.Cfg.opts()...), "in": ints([]rune(string(b)))}
	}
	window, _ := guarded(s.In)

	return obj{"w": runes.Widths(window, s.Cfg.opts()...), "in": s.In}
}

// rleOp measures a whole range of runes: it records runs of equal widths.
func rleOp(raw json.RawMessage) interface{} {
	var s struct {
		From int      `json:"from"`
		To   int      `json:"to"`
		What string   `json:"what"`
		Cfg  widthCfg `json:"cfg"`
		Pre  []int    `json:"pre"` // runes before and after, for "around" and "strings"
		Post []int    `json:"post"`
	}
	must(json.Unmarshal(raw, &s))
	out := make([][3]int, 0, 100)
	around := append(append(runesOf(s.Pre), 0), runesOf(s.Post)...)
	buf := make([]rune, 1)
	for i := s.From; i <= s.To; i++ {
		w := 0
		switch s.What {
		case "width":
			w = runes.Width(rune(i), s.Cfg.opts()...)
		case "widths":
			buf[0] = rune(i)
			w = runes.Widths(buf, s.Cfg.opts()...)
		case "around":
			around[len(s.Pre)] = rune(i)
			w = runes.Widths(around, s.Cfg.opts()...)
		case "strings":
			around[len(s.Pre)] = rune(i)
			w = runes.StringWidth(string(around), s.Cfg.opts()...)
		case "twice":
			w = runes.Widths([]rune{rune(i), rune(i)}, s.Cfg.opts()...)
		case "ambiguous":
			if runes.IsAmbiguous(rune(i)) {
				w = 1
			}
		}
		if n := len(out); n > 0 && out[n-1][2] == w {
			out[n-1][1] = i

			continue
		}
		out = append(out, [3]int{i, i, w})
	}

	return obj{"runs": out}
}

// allClassesOp records runs of runes with the same classes in the environment and the same answers of the splitters.
func allClassesOp(raw json.RawMessage) interface{} {
	type run struct {
		From     int  `json:"from"`
		To       int  `json:"to"`
		Space    bool `json:"space"`
		Punct    bool `json:"punct"`
		Hyphen   bool `json:"hyphen"`
		Token    bool `json:"token"`    // the tokenizer drops it
		IsPunct  bool `json:"isPunct"`  // IsPunctuation
		Puncts   bool `json:"puncts"`   // the punctuator isolates it
		IsHyphen bool `json:"isHyphen"` // IsHyphen
		Splits   bool `json:"splits"`   // SplitWord isolates it
	}
	var s struct {
		From int `json:"from"`
		To   int `json:"to"`
	}
	must(json.Unmarshal(raw, &s))
	var out []run
	t, p := tokenizer.New(), punctuator.New()
	for i := s.From; i <= s.To; i++ {
		r := rune(i)
		one := []rune{r}
		three := []rune{'a', r, 'b'}
		now := run{
			From: i, To: i, Space: unicode.IsSpace(r), Punct: unicode.IsPunct(r), Hyphen: unicode.Is(unicode.Hyphen, r),
			Token: len(t.BreakWord(three)) == 2, IsPunct: punctuator.IsPunctuation(one), Puncts: len(p.BreakWord(three)) == 3,
			IsHyphen: hyphenator.IsHyphen(one), Splits: len(hyphenator.SplitWord(three)) == 3,
		}
		if n := len(out); n > 0 {
			same := out[n-1]
			same.From, same.To = i, i
			if same == now {
				out[n-1].To = i

				continue
			}
		}
		out = append(out, now)
	}

	return obj{"runs": out}
}

func init() {
	handlers["allclasses"] = allClassesOp
}
