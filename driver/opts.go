package main

import (
	"encoding/json"
	"math"
	"strconv"
	"strings"
	"sync"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"golang.org/x/text/language"
)

func init() {
	handlers["opts"] = optsSession
}

type optVal struct {
	N string `json:"n"`
	V string `json:"v"`
}

func (o optVal) num() float64 {
	if o.V == "inf" {
		return math.Inf(1)
	}
	x, err := strconv.ParseFloat(o.V, 64)
	must(err)

	return x
}

func (o optVal) integer() int {
	x, err := strconv.Atoi(o.V)
	must(err)

	return x
}

func (o optVal) lb() linebreak.Option {
	switch o.N {
	case "tol":
		return linebreak.WithTolerance(o.num())
	case "wb":
		return linebreak.WithWordBreak(o.V == "true")
	case "hyph":
		if o.V == "default" {
			return linebreak.WithHyphenator(nil)
		}
		if o.V == "library" {
			return linebreak.WithHyphenator(hyphenator.New().BreakWord)
		}

		return linebreak.WithHyphenator(cutEvery(optVal{V: strings.TrimPrefix(o.V, "every")}.integer()))
	case "punct":
		if o.V == "default" {
			return linebreak.WithPunctuator(nil)
		}
		if o.V == "library" {
			return linebreak.WithPunctuator(punctuator.New().BreakWord)
		}

		return linebreak.WithPunctuator(func(in []rune) [][]rune {
			if len(in) == 0 {
				return nil
			}

			return [][]rune{in}
		})
	case "hpen":
		return linebreak.WithHyphenPenalty(o.num())
	case "render":
		return linebreak.WithRenderHyphens(o.V == "true")
	case "scale":
		return linebreak.WithScaleFactor(o.num())
	default: // meas
		f := map[string]float64{"len": 1, "two": 2, "three": 3}[o.V]
		if o.V == "default" {
			return linebreak.WithMeasurer(func(in []rune) float64 { return float64(runes.Widths(in)) })
		}

		return linebreak.WithMeasurer(func(in []rune) float64 { return f * float64(len(in)) })
	}
}

func (o optVal) hyph() hyphenator.Option {
	switch o.N {
	case "lang":
		return hyphenator.WithLanguage(o.V)
	case "tag":
		return hyphenator.WithLanguageTag(language.MustParse(o.V))
	case "len":
		return hyphenator.WithMinLength(o.integer())
	case "left":
		return hyphenator.WithMinLeft(o.integer())
	default:
		return hyphenator.WithMinRight(o.integer())
	}
}

func (o optVal) width() runes.Option {
	switch o.N {
	case "ea":
		return runes.WithEastAsian(o.V == "true")
	case "skip":
		return runes.WithSkipStrictEmojiNeutral(o.V == "true")
	default:
		return runes.WithEastAsianAmbiguousWidth(o.integer())
	}
}

func show(x interface{}) string {
	b, err := json.Marshal(x)
	must(err)

	return string(b)
}

func joined(parts [][]rune) string {
	out := make([]string, 0, len(parts))
	for _, p := range parts {
		out = append(out, string(p))
	}

	return strings.Join(out, "|")
}

// layout places lists of options one after another in the same array: those of a list are followed by the ones of the next.
// Options that are the same are shared, when shared is set.
func layout[O any](lists [][]optVal, shared bool, build func(optVal) O) [][]O {
	n := 0
	for _, l := range lists {
		n += len(l)
	}
	all := make([]O, 0, n+4)
	known := map[optVal]O{}
	out := make([][]O, 0, len(lists))
	for _, l := range lists {
		at := len(all)
		for _, v := range l {
			o, ok := known[v]
			if !ok || !shared {
				o = build(v)
				known[v] = o
			}
			all = append(all, o)
		}
		out = append(out, all[at:])
		out[len(out)-1] = out[len(out)-1][:len(l)]
	}

	return out
}

// optsSession makes instances with lists of options, and looks at what they do.
func optsSession(raw json.RawMessage) interface{} {
	var s struct {
		Kind   string     `json:"kind"`
		Lists  [][]optVal `json:"lists"`
		Shared bool       `json:"shared"`
		Spoil  bool       `json:"spoil"` // reuse the list of options once the instance is made
		Late   []int      `json:"late"`  // the instances to look at, in order, when all are made
		Par    []int      `json:"par"`   // the same, together in goroutines
		Probes [][]int    `json:"probes"`
		Widths []float64  `json:"widths"`
	}
	must(json.Unmarshal(raw, &s))
	var (
		look     []func() []string
		together bool
		events   list
	)
	seen := func(i int, obs []string) obj {
		e := obj{"i": i, "obs": obs}
		if s.Kind == "hyph" { // the number of runes before each break
			cuts := make([][]int, len(obs))
			for k, o := range obs {
				cuts[k] = []int{}
				parts, n := strings.Split(o, "|"), 0
				for _, p := range parts[:len(parts)-1] {
					n += len([]rune(p))
					cuts[k] = append(cuts[k], n)
				}
			}
			e["cuts"] = cuts
		}

		return e
	}
	see := func(f func() []string) { // the instance is looked at once before the next one is made
		events = append(events, seen(len(look), f()))
		look = append(look, f)
	}

	switch s.Kind {
	case "lb":
		lists := layout(s.Lists, s.Shared, optVal.lb)
		tokens := make([][]string, 0, len(s.Probes))
		for _, p := range s.Probes {
			tokens = append(tokens, strings.Fields(string(runesOf(p))))
		}
		for _, lv := range lists {
			l := lv
			b := linebreak.New(l...)
			if s.Spoil {
				for i := range l {
					l[i] = linebreak.WithScaleFactor(7)
				}
			}
			see(func() []string {
				out := make([]string, 0, len(tokens))
				for i, t := range tokens {
					lines, err := b.LeftAlignUniform(t, s.Widths[i])
					out = append(out, show(lbResult(lines, err)))
				}

				return out
			})
		}
	case "hyph":
		lists := layout(s.Lists, s.Shared, optVal.hyph)
		for _, lv := range lists {
			l := lv
			h := hyphenator.New(l...)
			if s.Spoil {
				for i := range l {
					l[i] = hyphenator.WithMinLength(100)
				}
			}
			see(func() []string {
				out := make([]string, 0, len(s.Probes))
				for i, p := range s.Probes {
					if i%2 == 0 {
						out = append(out, joined(h.BreakWord(runesOf(p))))
					} else {
						out = append(out, joined(h.BreakWordString(string(runesOf(p)))))
					}
				}

				return out
			})
		}
	default:
		lists := layout(s.Lists, s.Shared, optVal.width)
		var again [64]runes.Option // an array that is used for all the lists
		for _, lv := range lists {
			own := lv
			see(func() []string {
				out := make([]string, 0, len(s.Probes))
				for i, p := range s.Probes {
					w := 0
					l := own
					if s.Spoil && !together && len(own) <= len(again) && i%4 != 3 {
						l = again[:copy(again[:], own)]
					}
					switch {
					case i%3 == 0:
						w = runes.StringWidth(string(runesOf(p)), l...)
					case i%3 == 1 && len(p) == 1:
						w = runes.Width(rune(p[0]), l...)
					default:
						w = runes.Widths(runesOf(p), l...)
					}
					out = append(out, strconv.Itoa(w))
				}

				return out
			})
		}
	}

	for _, i := range s.Late {
		events = append(events, seen(i, look[i]()))
	}
	together = true
	par := make(list, len(s.Par))
	var wg sync.WaitGroup
	for kv, iv := range s.Par {
		k, i := kv, iv
		wg.Add(1)
		go func() {
			defer wg.Done()
			par[k] = protect(func() interface{} { return seen(i, look[i]()) })
		}()
	}
	wg.Wait()

	return append(events, par...)
}
