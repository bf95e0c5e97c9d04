package main

import (
	"encoding/json"
	"sync"
	"sync/atomic"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
)

func init() {
	handlers["conc"] = concOp
}

type concTask struct {
	What  string  `json:"what"` // break | shared | width | strip | token | lines | punct
	Lang  string  `json:"lang"`
	Words [][]int `json:"words"`
	W     float64 `json:"w"`
	EA    bool    `json:"ea"`
}

// concOp runs tasks on several goroutines. Events are numbered when calls start and end, from one atomic counter.
func concOp(raw json.RawMessage) interface{} {
	var s struct {
		Workers [][]concTask `json:"workers"`
		Seq     bool         `json:"seq"` // one worker after the other
		Shared  [][]int      `json:"shared"`
		Hyph    []string     `json:"hyph"` // hyphenators made beforehand, and shared
	}
	must(json.Unmarshal(raw, &s))

	var (
		clock int64
		wg    sync.WaitGroup
		mu    sync.Mutex
		dicts = map[*hyphenator.Dictionary]int{}
		gate  = make(chan struct{})
	)
	shared := make([][]rune, 0, len(s.Shared)) // input shared by all workers
	for _, x := range s.Shared {
		w, _ := guarded(x)
		shared = append(shared, w)
	}

	dictID := func(d *hyphenator.Dictionary) int {
		mu.Lock()
		defer mu.Unlock()
		if d == nil {
			return 0
		}
		id, ok := dicts[d]
		if !ok {
			id = len(dicts) + 1
			dicts[d] = id
		}

		return id
	}

	tok, pun := tokenizer.New(), punctuator.New()
	hyph := map[string]*hyphenator.Hyphenator{}
	for _, l := range s.Hyph {
		hyph[l] = hyphenator.New(hyphenator.WithLanguage(l))
	}

	results := make([]list, len(s.Workers))
	run := func(i int) {
		for _, tv := range s.Workers[i] {
			t := tv
			begin := atomic.AddInt64(&clock, 1)
			dict := 0
			var end int64
			res := protect(func() interface{} {
				words := make([][]rune, 0, len(t.Words)+len(shared))
				for _, w := range t.Words {
					words = append(words, runesOf(w))
				}
				words = append(words, shared...)
				var out list
				switch t.What {
				case "break", "shared":
					h := hyph[t.Lang]
					if t.What == "break" {
						h = hyphenator.New(hyphenator.WithLanguage(t.Lang))
					}
					end = atomic.AddInt64(&clock, 1)
					dict = dictID(h.Dictionary)
					kept := make([][][]rune, 0, len(words))
					for _, w := range words {
						kept = append(kept, h.BreakWord(w))
					}
					for _, parts := range kept {
						out = append(out, intss(parts))
					}
				case "width":
					for _, w := range words {
						out = append(out, runes.Widths(w, runes.WithEastAsian(t.EA)), runes.Widths(w))
						if len(w) > 0 {
							out = append(out, runes.Width(w[0]))
						}
					}
				case "strip":
					for _, w := range words {
						for _, p := range ansi.StripToken(w) {
							out = append(out, intss([][]rune{p.StartSequence, p.Text, p.StopSequence}))
						}
					}
				case "token":
					for _, w := range words {
						out = append(out, intss(tok.BreakWord(w)), intss(pun.BreakWord(w)), punctuator.IsPunctuation(w), hyphenator.IsHyphen(w), intss(hyphenator.SplitWord(w)))
					}
				case "lines":
					l := linebreak.New()
					tokens := make([]string, 0, len(words))
					for _, w := range words {
						tokens = append(tokens, string(w))
					}
					out = append(out, lbResult(l.LeftAlignUniform(tokens, t.W)))
				}
				b, _ := json.Marshal(out)

				return string(b)
			})
			if end == 0 {
				end = atomic.AddInt64(&clock, 1)
			}
			mu.Lock()
			results[i] = append(results[i], obj{"begin": begin, "end": end, "dict": dict, "out": res})
			mu.Unlock()
		}
	}

	for iv := range s.Workers {
		i := iv
		if s.Seq {
			run(i)

			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			run(i)
		}()
	}
	close(gate)
	wg.Wait()

	return obj{"workers": results}
}
