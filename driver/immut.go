package main

import (
	"encoding/json"
	"io"
	"runtime/debug"
	"strings"
	"syscall"
	"unsafe"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
)

func init() {
	handlers["immut"] = immutSession
}

// immutSession applies operations to windows of one shared buffer, and records this buffer after each of them.
func immutSession(raw json.RawMessage) interface{} {
	var s struct {
		Buf []int `json:"buf"`
		Ops []struct {
			API  string `json:"api"`
			Prev int    `json:"prev"` // -1: window of the buffer, else apply to this part of the previous result
			Lo   int    `json:"lo"`
			Hi   int    `json:"hi"`
			Arg  int    `json:"arg"`
		} `json:"ops"`
	}
	must(json.Unmarshal(raw, &s))
	buf, free := readOnly(runesOf(s.Buf))
	defer free()
	debug.SetPanicOnFault(true) // for this goroutine
	var prev [][]rune
	var kept []func() [][]rune // what was returned so far
	langs := []string{"en-US", "en-GB", "fr", "de", "es"}
	out := make(list, 0, len(s.Ops))

	for _, opv := range s.Ops {
		op := opv
		window := buf[op.Lo:op.Hi]
		if op.Prev >= 0 && len(prev) > 0 {
			window = prev[op.Prev%len(prev)]
		}
		tokens := make([]string, 0, 8)
		res := protect(func() (out interface{}) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(interface{ Addr() uintptr }); !ok {
						panic(e)
					}
					out = obj{"tokens": false, "new": [][]int{}} // writes in its input
				}
			}()
			var next [][]rune
			var again func() [][]rune
			w := runesio.AsRunesWriter(io.Discard)
			switch op.API {
			case "tokenize":
				next = tokenizer.New().BreakWord(window)
			case "fields":
				next = runes.FieldsFunc(window, func(r rune) bool { return int(r)%7 == op.Arg%7 })
			case "punct":
				next = punctuator.New().BreakWord(window)
			case "ispunct":
				_ = punctuator.IsPunctuation(window)
			case "splitword":
				next = hyphenator.SplitWord(window)
			case "ishyphen":
				_ = hyphenator.IsHyphen(window)
			case "hyphenate":
				h := hyphenator.New(hyphenator.WithLanguage(langs[op.Arg%len(langs)]), hyphenator.WithMinLeft(op.Arg%3), hyphenator.WithMinRight(op.Arg%4))
				next = h.BreakWord(window)
			case "strip":
				pieces := ansi.StripToken(window)
				again = func() [][]rune {
					var out [][]rune
					for _, p := range pieces {
						out = append(out, p.StartSequence, p.Text, p.StopSequence, p.Remainder)
					}

					return out
				}
				next = again()
			case "stripone":
				p := ansi.StripANSIFromRunes(window)
				next = append(next, p.StartSequence, p.Text, p.StopSequence, p.Remainder)
			case "widths":
				_ = runes.Widths(window, runes.WithEastAsian(op.Arg%2 == 0))
			case "reader":
				rd := runesio.NewSliceReader(window)
				for i := 0; i < op.Arg%4; i++ {
					_, _, _ = rd.ReadRune()
				}
				_, _ = rd.Seek(0, io.SeekStart)
				n := len(window)
				next = append(next, rd.Runes(), rd.Slice(0, n/2))
				next = append(next, rd.Slices([]int{0, n / 3, n / 3, n})...)
				next = append(next, rd.SliceFromByteOffsets([]int{0, len(string(window[:n/2]))})...)
			case "write":
				_, _ = w.WriteRunes(window)
			case "render":
				n := len(window)
				a := attributes.New(window[n/3:2*n/3], window[:n/3], window[2*n/3:])
				b := attributes.New(window[:n/2], window[n/2:], nil)
				st := attributes.NewState()
				st.Push(a)
				st.Push(b)
				b.SetStop(window[:n/4])
				for it := st.Iterator(); it.Next(); {
					it.StartOfLine(w)
					it.Item().Render(w)
					it.EndOfLine(w)
				}
				attributes.Renderers{a, nil, b}.Render(w)
				next = append(next, a.Runes())
			case "trie":
				t := newTrie()
				t.Put(window, 1)
				t.Put(window[:len(window)/2], 1)
				_ = t.Get(window)
				t.Delete(window)
			case "linebreak": // the hyphenator and punctuator give out parts of the shared buffer
				text := strings.Map(func(r rune) rune { return r }, string(window))
				for _, t := range strings.Fields(text) {
					tokens = append(tokens, t)
				}
				if len(tokens) == 0 {
					break
				}
				full := tokens[:cap(tokens)]
				before := strings.Join(full, "\x00")
				l := linebreak.New(
					linebreak.WithPunctuator(func(in []rune) [][]rune {
						if string(in) == tokens[0] {
							return [][]rune{window[:len(in):len(window)]}
						}

						return punctuator.New().BreakWord(in)
					}),
					linebreak.WithHyphenator(func(in []rune) [][]rune {
						if &in[0] == &window[0] && len(in) > 3 {
							return [][]rune{in[:2], in[2:3], in[3:]}
						}

						return [][]rune{in}
					}),
				)
				_, _ = l.LeftAlignUniform(tokens, float64(op.Arg%40+1))
				if strings.Join(full, "\x00") != before {
					return obj{"tokens": false, "new": [][]int{}}
				}
			default:
				panic("driver: bad op " + op.API)
			}
			if again == nil {
				again = func() [][]rune { return next }
			}
			prev = filled(again())
			kept = append(kept, func() [][]rune { return filled(again()) })

			return obj{"tokens": true, "new": intss(prev)}
		})
		o := res.(obj)
		o["after"] = ints(buf)
		all := [][]rune{}
		for _, f := range kept {
			all = append(all, f()...)
		}
		o["kept"] = intss(all)
		out = append(out, o)
	}

	return obj{"res": out}
}

// readOnly copies runes to memory where any write fails.
func readOnly(in []rune) ([]rune, func()) {
	size := 4 * (len(in) + 8)
	mem, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	must(err)
	out := unsafe.Slice((*rune)(unsafe.Pointer(&mem[0])), len(in)+8)
	copy(out, in)
	must(syscall.Mprotect(mem, syscall.PROT_READ))

	return out[:len(in)], func() { _ = syscall.Munmap(mem) }
}

func filled(in [][]rune) [][]rune {
	out := make([][]rune, 0, len(in))
	for _, x := range in {
		if len(x) > 0 {
			out = append(out, x)
		}
	}

	return out
}
