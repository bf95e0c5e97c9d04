package main

import (
	"encoding/json"
	"errors"
	"math"
	"sync"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
)

func init() {
	handlers["lb"] = lbSession
}

type lbCfg struct {
	Tol    *float64           `json:"tol"`
	WB     *bool              `json:"wb"`
	Hyph   string             `json:"hyph"` // default | every | cuts | none
	Every  int                `json:"every"`
	Cuts   map[string][]int   `json:"cuts"`
	HPen   *float64           `json:"hpen"`
	Render *bool              `json:"render"`
	Meas   string             `json:"meas"`  // default | len | two | ea | table
	Table  map[string]float64 `json:"table"` // measures of some runes
	Unit   float64            `json:"unit"`  // measure of the other ones
	Scale  *float64           `json:"scale"`
	Punct  string             `json:"punct"` // default | off
}

func cutEvery(k int) func([]rune) [][]rune {
	return func(w []rune) [][]rune {
		var out [][]rune
		for len(w) > k {
			out = append(out, w[:k])
			w = w[k:]
		}

		return append(out, w)
	}
}

func (c lbCfg) opts() []linebreak.Option {
	var o []linebreak.Option
	if c.Tol != nil {
		tol := *c.Tol
		if tol >= 1e7 {
			tol = math.Inf(1)
		}
		o = append(o, linebreak.WithTolerance(tol))
	}
	switch c.Hyph {
	case "every":
		o = append(o, linebreak.WithHyphenator(cutEvery(c.Every)))
	case "cuts":
		o = append(o, linebreak.WithHyphenator(func(w []rune) [][]rune {
			var out [][]rune
			prev := 0
			for _, cut := range c.Cuts[string(w)] {
				out = append(out, w[prev:cut])
				prev = cut
			}

			return append(out, w[prev:])
		}))
	}
	if c.WB != nil {
		o = append(o, linebreak.WithWordBreak(*c.WB))
	}
	if c.HPen != nil {
		o = append(o, linebreak.WithHyphenPenalty(*c.HPen))
	}
	if c.Render != nil {
		o = append(o, linebreak.WithRenderHyphens(*c.Render))
	}
	if c.Scale != nil {
		o = append(o, linebreak.WithScaleFactor(*c.Scale))
	}
	switch c.Meas {
	case "len":
		o = append(o, linebreak.WithMeasurer(func(in []rune) float64 { return float64(len(in)) }))
	case "two":
		o = append(o, linebreak.WithMeasurer(func(in []rune) float64 { return float64(2 * len(in)) }))
	case "ea":
		o = append(o, linebreak.WithMeasurer(func(in []rune) float64 {
			return float64(runes.Widths(in, runes.WithEastAsian(true)))
		}))
	}
	if c.Meas == "table" {
		o = append(o, linebreak.WithMeasurer(func(in []rune) (w float64) {
			for _, r := range in {
				m, ok := c.Table[string(r)]
				if !ok {
					m = c.Unit
				}
				w += m
			}

			return w
		}))
	}
	if c.Punct == "off" {
		o = append(o, linebreak.WithPunctuator(func(in []rune) [][]rune {
			if len(in) == 0 {
				return nil
			}

			return [][]rune{in}
		}))
	}

	return o
}

// lbSession is a history of calls on some line breakers.
func lbSession(raw json.RawMessage) interface{} {
	var s struct {
		Cfgs  []lbCfg `json:"cfgs"`
		Calls []struct {
			B      int     `json:"b"` // breaker
			Fresh  bool    `json:"fresh"`
			Tokens [][]int `json:"tokens"`
			W      float64 `json:"w"`
		} `json:"calls"`
		Words [][]int `json:"words"` // hyphenation facts to record, for the default hyphenator
	}
	must(json.Unmarshal(raw, &s))

	breakers := make([]*linebreak.LineBreaker, len(s.Cfgs))
	for i, c := range s.Cfgs {
		breakers[i] = linebreak.New(c.opts()...)
	}
	out := make(list, 0, len(s.Calls))
	for _, cv := range s.Calls {
		c := cv
		out = append(out, protect(func() interface{} {
			b := breakers[c.B]
			if c.Fresh {
				b = linebreak.New(s.Cfgs[c.B].opts()...)
			}
			tokens := make([]string, 0, len(c.Tokens))
			for _, t := range c.Tokens {
				tokens = append(tokens, string(runesOf(t)))
			}

			full := append(tokens, "guard", "")
			before := append([]string{}, full...)
			res := lbResult(b.LeftAlignUniform(full[:len(tokens)], c.W))
			res["kept"] = true
			for i, t := range before {
				if full[i] != t {
					res["kept"] = false
				}
			}

			return res
		}))
	}

	facts := make(list, 0, len(s.Words))
	if len(s.Words) > 0 {
		h := hyphenator.New(hyphenator.WithMinLength(4))
		for _, w := range s.Words {
			facts = append(facts, obj{"w": w, "parts": intss(h.BreakWord(runesOf(w)))})
		}
	}

	return obj{"res": out, "facts": facts}
}

func lbResult(lines []string, err error) obj {
	e := "none"
	switch {
	case errors.Is(err, linebreak.ErrCannotBeSet):
		e = "cannot"
	case err != nil:
		e = "other"
	}
	l := make([][]int, 0, len(lines))
	for _, x := range lines {
		l = append(l, ints([]rune(x)))
	}

	return obj{"lines": l, "err": e}
}

func init() {
	handlers["lbpar"] = func(raw json.RawMessage) interface{} {
		// several histories, each in a goroutine of its own
		var s struct {
			Sessions []json.RawMessage `json:"sessions"`
		}
		must(json.Unmarshal(raw, &s))
		out := make(list, len(s.Sessions))
		var wg sync.WaitGroup
		for iv := range s.Sessions {
			i := iv
			wg.Add(1)
			go func() {
				defer wg.Done()
				out[i] = protect(func() interface{} { return lbSession(s.Sessions[i]) })
			}()
		}
		wg.Wait()

		return obj{"sessions": out}
	}
}
