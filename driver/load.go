package main

import (
	"encoding/json"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
)

func init() {
	handlers["load"] = loadOp
}

// loadOp loads pattern files, and hyphenates words with each of them.
func loadOp(raw json.RawMessage) interface{} {
	var s struct {
		Names []string `json:"names"`
		Words [][]int  `json:"words"`
	}
	must(json.Unmarshal(raw, &s))
	one, zero := 1, 0
	out := make(list, 0, len(s.Names))
	for _, name := range s.Names {
		d, err := hyphenator.LoadPatterns(name)
		r := obj{"err": err != nil, "nil": d == nil, "id": []int{}, "parts": list{}}
		if d != nil {
			r["id"] = ints([]rune(d.String()))
			h := hyphCfg{MinLen: &zero, Left: &one, Right: &one}.make()
			h.Dictionary = d
			parts := make(list, 0, len(s.Words))
			for _, w := range s.Words {
				parts = append(parts, intss(h.BreakWord(runesOf(w))))
			}
			r["parts"] = parts
			d.Identifier = "renamed by the caller" // the next one to load this file does not see it
		}
		out = append(out, r)
	}
	listed, err := hyphenator.SupportedPatterns()
	must(err)
	for i := range listed {
		listed[i] = "changed by the caller"
	}
	listed, err = hyphenator.SupportedPatterns()
	must(err)
	names := make(list, 0, len(listed))
	for _, n := range listed {
		names = append(names, ints([]rune(n)))
	}

	return obj{"res": out, "listed": names}
}
