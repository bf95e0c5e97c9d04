package main

import (
	"encoding/json"
	"errors"
	"io"
	"math"

	"github.com/fredbi/go-typeset/terminal/runes/runesio"
)

func init() {
	handlers["reader"] = readerSession
	handlers["writer"] = writerSession
	handlers["trie"] = trieSession
}

type readerOp struct {
	O    string `json:"o"`
	Base string `json:"base"`
	Off  int64  `json:"off"`
	Wh   int    `json:"wh"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	L    []int  `json:"l"`
}

func readerSession(raw json.RawMessage) interface{} {
	var s struct {
		Runes []int      `json:"runes"`
		Ops   []readerOp `json:"ops"`
	}
	must(json.Unmarshal(raw, &s))
	window, _ := guarded(s.Runes)
	rd := runesio.NewSliceReader(window)
	out := make(list, 0, len(s.Ops))

	for _, opv := range s.Ops {
		op := opv
		out = append(out, protect(func() interface{} {
			switch op.O {
			case "read":
				r, n, err := rd.ReadRune()
				switch {
				case err == nil:
					return obj{"r": int(r), "n": clamp(int64(n)), "err": "none"}
				case errors.Is(err, io.EOF):
					return obj{"r": 0, "n": 0, "err": "eof"}
				default:
					return obj{"r": 0, "n": 0, "err": "other"}
				}
			case "seek":
				off := op.Off
				switch op.Base {
				case "max":
					off += math.MaxInt64
				case "min":
					off += math.MinInt64
				}
				p, err := rd.Seek(off, op.Wh)
				switch {
				case err == nil:
					return obj{"pos": clamp(p), "err": "none"}
				case errors.Is(err, runesio.ErrSeekOutOfRange):
					return obj{"pos": 0, "err": "range"}
				default:
					return obj{"pos": 0, "err": "other"}
				}
			case "rest":
				return obj{"v": ints(rd.Runes())}
			case "slice":
				return obj{"v": ints(rd.Slice(op.A, op.B))}
			case "slices":
				return obj{"v": intss(rd.Slices(op.L))}
			case "bytes":
				return obj{"v": intss(rd.SliceFromByteOffsets(op.L))}
			}
			panic("driver: bad op")
		}))
	}

	return obj{"res": out}
}

var errSink = errors.New("sink is full")

// budgetSink accepts a limited number of bytes.
type budgetSink struct {
	left int
	got  []byte
}

func (b *budgetSink) Write(p []byte) (int, error) {
	n := len(p)
	if n > b.left {
		n = b.left
	}
	b.left -= n
	b.got = append(b.got, p[:n]...)
	if n < len(p) {
		return n, errSink
	}

	return n, nil
}

func writerSession(raw json.RawMessage) interface{} {
	var s struct {
		Budget int  `json:"budget"`
		As     bool `json:"as"`
		Ops    []struct {
			O string `json:"o"`
			R int    `json:"r"`
			V []int  `json:"v"`
		} `json:"ops"`
	}
	must(json.Unmarshal(raw, &s))
	sink := &budgetSink{left: s.Budget}
	var w runesio.Writer
	if s.As {
		w = runesio.AsRunesWriter(runesio.AsRunesWriter(sink))
	} else {
		w = runesio.NewWriter(sink)
	}
	out := make(list, 0, len(s.Ops))

	for _, opv := range s.Ops {
		op := opv
		out = append(out, protect(func() interface{} {
			sink.got = nil
			var (
				n   int
				err error
			)
			switch op.O {
			case "rune":
				n, err = w.WriteRune(rune(op.R))
			case "runes":
				window, _ := guarded(op.V)
				n, err = w.WriteRunes(window)
			case "bytes":
				b := make([]byte, 0, len(op.V))
				for _, v := range op.V {
					b = append(b, byte(v))
				}
				n, err = w.Write(b)
			}
			e := "none"
			switch {
			case errors.Is(err, errSink):
				e = "sink"
			case err != nil:
				e = "other"
			}
			got := make([]int, 0, len(sink.got))
			for _, b := range sink.got {
				got = append(got, int(b))
			}

			return obj{"n": clamp(int64(n)), "err": e, "got": got}
		}))
	}

	return obj{"res": out}
}

// values of several kinds, and their codes: 0 stands for nil
var trieValues = []interface{}{nil, 1, 0, "", false, -1, 0.0, "x", struct{}{}, [0]int{}, (*int)(nil), []int(nil), []int{}, true, rune(0), uint8(0)}

func trieValue(code int) interface{} { return trieValues[code] }

func trieCode(v interface{}) int {
	switch x := v.(type) {
	case []int:
		if x == nil {
			return 11
		}

		return 12
	default:
		for code, y := range trieValues {
			if _, isSlice := y.([]int); !isSlice && x == y {
				return code
			}
		}
	}

	return -1
}

func trieSession(raw json.RawMessage) interface{} {
	var s struct {
		Ops []struct {
			O string `json:"o"`
			K []int  `json:"k"`
			V int    `json:"v"`
		} `json:"ops"`
	}
	must(json.Unmarshal(raw, &s))
	var t trieT = newTrie()
	out := make(list, 0, len(s.Ops))

	for _, opv := range s.Ops {
		op := opv
		out = append(out, protect(func() interface{} {
			window, _ := guarded(op.K)
			switch op.O {
			case "put":
				return obj{"b": t.Put(window, trieValue(op.V))}
			case "del":
				return obj{"b": t.Delete(window)}
			case "get":
				if v := t.Get(window); v != nil {
					return obj{"v": trieCode(v)}
				}

				return obj{"v": 0}
			}
			panic("driver: bad op")
		}))
	}

	return obj{"res": out}
}
