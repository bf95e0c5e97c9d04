package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
	"golang.org/x/text/language"
)

func init() {
	handlers["total"] = totalSession
}

type totalOp struct {
	API  string   `json:"api"`
	R    []int    `json:"r"` // runes
	S    []int    `json:"s"` // bytes of a string
	N    []int64  `json:"n"` // integers; 10^9 stands for the largest number
	Name string   `json:"name"`
	X    []string `json:"x"` // floating point numbers
	T    [][]int  `json:"t"` // tokens, as bytes
	On   []bool   `json:"on"`
}

func (o totalOp) str() string {
	b := make([]byte, 0, len(o.S))
	for _, c := range o.S {
		b = append(b, byte(c))
	}

	return string(b)
}

func (o totalOp) num(i int) int {
	if i < len(o.N) {
		return int(o.N[i])
	}

	return 0
}

func (o totalOp) float(i int) float64 {
	f, err := strconv.ParseFloat(o.X[i], 64)
	if f == 0 && err != nil {
		must(err)
	}

	return f
}

type objects struct {
	hy     *hyphenator.Hyphenator
	tok    *tokenizer.Tokenizer
	punct  *punctuator.Punctuator
	reader *runesio.SliceReader
	writer runesio.Writer
	state  *attributes.State
	iter   *attributes.StateIterator
	items  attributes.Renderers
	attr   *attributes.Attribute
	lb     *linebreak.LineBreaker
	tr     trieT
}

// totalSession records how calls end, on objects that they share: with a value, an error or a panic.
func totalSession(raw json.RawMessage) interface{} {
	var s struct {
		Ops []totalOp `json:"ops"`
	}
	must(json.Unmarshal(raw, &s))
	st := attributes.NewState()
	o := &objects{hy: hyphenator.New(), tok: tokenizer.New(), punct: punctuator.New(), reader: runesio.NewSliceReader(nil), writer: runesio.AsRunesWriter(io.Discard),
		state: st, iter: st.Iterator(), attr: attributes.New(nil, nil, nil), lb: linebreak.New(), tr: newTrie()}
	out := make(list, 0, len(s.Ops))
	for _, opv := range s.Ops {
		op := opv
		ended := "panic"
		what := ""
		func() {
			defer func() {
				if e := recover(); e != nil {
					what = fmt.Sprint(e)
				}
			}()
			ended = "value"
			if err := o.call(op); err != nil {
				ended = "error"
				switch {
				case errors.Is(err, io.EOF):
					ended = "eof"
				case errors.Is(err, runesio.ErrSeekOutOfRange):
					ended = "range"
				case errors.Is(err, linebreak.ErrCannotBeSet):
					ended = "cannot"
				}
			}
		}()
		if what != "" {
			ended = "panic"
		}
		out = append(out, obj{"ended": ended, "what": what})
	}

	return obj{"res": out}
}

func (o *objects) call(op totalOp) error {
	in := runesOf(op.R)
	switch op.API {
	case "tokenize":
		_ = o.tok.BreakWord(in)
	case "tokenizeString":
		_ = o.tok.BreakWordString(op.str())
	case "fields":
		_ = runes.FieldsFunc(in, func(r rune) bool { return int(r)%5 == op.num(0)%5 })
	case "punctuate":
		_ = o.punct.BreakWord(in)
	case "punctuateString":
		_ = o.punct.BreakWordString(op.str())
	case "isPunctuation":
		_ = punctuator.IsPunctuation(in)
	case "splitWord":
		_ = hyphenator.SplitWord(in)
	case "isHyphen":
		_ = hyphenator.IsHyphen(in)
	case "newHyphenator":
		o.hy = hyphenator.New(hyphenator.WithLanguage(op.Name), hyphenator.WithMinLength(op.num(0)), hyphenator.WithMinLeft(op.num(1)), hyphenator.WithMinRight(op.num(2)))
	case "newHyphenatorTag":
		o.hy = hyphenator.New(hyphenator.WithLanguageTag(language.Make(op.Name)), hyphenator.WithMinRight(op.num(0)))
	case "hyphenate":
		_ = o.hy.BreakWord(in)
	case "hyphenateString":
		_ = o.hy.BreakWordString(op.str())
	case "dictionary":
		_ = o.hy.String()
	case "supportedPatterns":
		_, err := hyphenator.SupportedPatterns()

		return err
	case "loadPatterns":
		d, err := hyphenator.LoadPatterns(op.Name)
		if err == nil {
			_ = d.String()
		}

		return err
	case "strip":
		_ = ansi.StripToken(in)
	case "stripOne":
		_ = ansi.StripANSIFromRunes(in)
	case "width", "widths", "stringWidth":
		opts := []runes.Option{runes.WithEastAsian(op.On[0]), runes.WithSkipStrictEmojiNeutral(op.On[1]), runes.WithEastAsianAmbiguousWidth(op.num(1))}
		switch op.API {
		case "width":
			_ = runes.Width(rune(op.num(0)), opts...)
			_ = runes.Width(rune(op.num(0)))
			_ = runes.IsAmbiguous(rune(op.num(0)))
		case "widths":
			_ = runes.Widths(in, opts...)
			_ = runes.Widths(in)
		default:
			_ = runes.StringWidth(op.str(), opts...)
			_ = runes.StringWidth(op.str())
		}
	case "newReader":
		o.reader = runesio.NewSliceReader(in)
	case "readRune":
		_, _, err := o.reader.ReadRune()

		return err
	case "unread":
		_ = o.reader.Runes()
	case "seek":
		by := op.N[0]
		switch by {
		case 1e9:
			by = math.MaxInt64
		case -1e9:
			by = math.MinInt64
		}
		_, err := o.reader.Seek(by, op.num(1))

		return err
	case "slices":
		l := make([]int, 0, len(op.N))
		for _, n := range op.N {
			l = append(l, int(n))
		}
		_ = o.reader.Slices(l)
	case "byteSlices":
		l := make([]int, 0, len(op.N))
		for _, n := range op.N {
			l = append(l, int(n))
		}
		_ = o.reader.SliceFromByteOffsets(l)
	case "newWriter":
		o.writer = runesio.NewWriter(&budgetSink{left: op.num(0)})
		if op.num(0) < 0 {
			o.writer = runesio.AsRunesWriter(io.Discard)
		}
	case "writeRune":
		_, err := o.writer.WriteRune(rune(op.num(0)))

		return err
	case "writeRunes":
		_, err := o.writer.WriteRunes(in)

		return err
	case "newState":
		o.state = attributes.NewState()
	case "newAttribute":
		k, m := len(in)/3, 2*len(in)/3
		o.attr = attributes.New(in[k:m], in[:k], in[m:])
		o.items = append(o.items, o.attr, nil)
	case "setStop":
		o.attr.SetStop(in)
	case "setLevel":
		o.attr.SetLevel(op.num(0))
	case "push":
		o.state.Push(o.attr)
	case "pushNil":
		o.state.Push(nil)
	case "iterator":
		o.iter = o.state.Iterator()
	case "first":
		o.iter = o.state.First()
	case "next":
		_ = o.iter.Next()
	case "item":
		_ = o.iter.Item()
	case "startOfLine":
		o.iter.StartOfLine(o.writer)
	case "endOfLine":
		o.iter.EndOfLine(o.writer)
	case "renderAll":
		o.items.Start(o.writer)
		o.items.Render(o.writer)
		o.items.Stop(o.writer)
	case "newLineBreaker":
		m := op.float(3)
		o.lb = linebreak.New(linebreak.WithTolerance(op.float(0)), linebreak.WithScaleFactor(op.float(1)), linebreak.WithHyphenPenalty(op.float(2)),
			linebreak.WithMeasurer(func(in []rune) float64 { return m * float64(len(in)) }),
			linebreak.WithRenderHyphens(op.On[0]), linebreak.WithWordBreak(op.On[1]), linebreak.WithLooseness(op.num(0)))
	case "defaultLineBreaker":
		o.lb = linebreak.New()
	case "hyphenatorLineBreaker":
		o.lb = linebreak.New(linebreak.WithHyphenator(o.hy.BreakWord), linebreak.WithPunctuator(o.punct.BreakWord))
	case "setParagraph":
		tokens := make([]string, 0, len(op.T))
		for _, t := range op.T {
			tokens = append(tokens, totalOp{S: t}.str())
		}
		_, err := o.lb.LeftAlignUniform(tokens, op.float(0))

		return err
	case "put":
		o.tr.Put(in, op.num(0))
	case "get":
		_ = o.tr.Get(in)
	case "delete":
		_ = o.tr.Delete(in)
	default:
		must(fmt.Errorf("unknown API %q", op.API))
	}

	return nil
}
