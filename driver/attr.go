package main

import (
	"encoding/json"
	"strings"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
)

func init() {
	handlers["attr"] = attrSession
}

type attrDef struct {
	Nil   bool  `json:"nil"`
	Start []int `json:"start"`
	Text  []int `json:"text"`
	Stop  []int `json:"stop"`
}

// interned runes: equal sequences are one and the same slice, as constants of a caller would be
type interned map[string][]rune

func (in interned) get(v []int) []rune {
	key := string(runesOf(v))
	s, ok := in[key]
	if !ok {
		s, _ = guarded(v)
		in[key] = s
	}

	return s
}

func (a attrDef) renderer(in interned) attributes.Renderer {
	if a.Nil {
		return nil
	}
	t := in.get(a.Text)
	b := in.get(a.Start)
	e := in.get(a.Stop)

	return attributes.New(t, b, e)
}

func describe(r attributes.Renderer) obj {
	if r == nil {
		return obj{"nil": true, "text": []int{}, "level": 0, "hasStart": false, "hasStop": false}
	}

	return obj{"nil": false, "text": ints(r.Runes()), "level": r.Level(), "hasStart": r.HasStart(), "hasStop": r.HasStop()}
}

// attrSession is a history of operations on one attributes state, and its iterators.
func attrSession(raw json.RawMessage) interface{} {
	var s struct {
		Ops []struct {
			O     string    `json:"o"`
			A     attrDef   `json:"a"`
			I     int       `json:"i"`
			V     []int     `json:"v"`
			Items []attrDef `json:"items"`
		} `json:"ops"`
	}
	must(json.Unmarshal(raw, &s))
	state := attributes.NewState()
	var (
		pushed []attributes.Renderer
		iters  []*attributes.StateIterator
		shared = make(interned)
	)
	out := make(list, 0, len(s.Ops))
	written := func(f func(runesio.Writer)) obj {
		b := new(strings.Builder)
		f(runesio.AsRunesWriter(b))

		return obj{"w": ints([]rune(b.String()))}
	}

	for _, opv := range s.Ops {
		op := opv
		out = append(out, protect(func() interface{} {
			switch op.O {
			case "push":
				r := op.A.renderer(shared)
				state.Push(r)
				if r != nil {
					pushed = append(pushed, r)
				}

				return describe(r)
			case "setstop":
				pushed[op.I].SetStop(shared.get(op.V))

				return describe(pushed[op.I])
			case "iter":
				iters = append(iters, state.Iterator())

				return obj{}
			case "first":
				iters = append(iters, state.First())

				return obj{}
			case "next":
				return obj{"b": iters[op.I].Next()}
			case "item":
				return describe(iters[op.I].Item())
			case "sol":
				return written(iters[op.I].StartOfLine)
			case "eol":
				return written(iters[op.I].EndOfLine)
			case "start", "stop", "render": // on a collection
				c := make(attributes.Renderers, 0, len(op.Items))
				for _, d := range op.Items {
					c = append(c, d.renderer(shared))
				}
				switch op.O {
				case "start":
					return written(c.Start)
				case "stop":
					return written(c.Stop)
				default:
					return written(c.Render)
				}
			}
			panic("driver: bad op")
		}))
	}

	return obj{"res": out}
}
