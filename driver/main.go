// Command zzverif executes stimuli against the public API of go-typeset and records what is observed.
//
// It reads one JSON stimulus per line on stdin and writes one JSON record per line on stdout, in order.
// It takes no decision: verdicts are given by TLC on the TLA+ specifications in /verif/spec.
//
// It is built from /repo with an overlay, as a virtual package below wordbreak/hyphenator, so that it may also
// import the internal trie.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"time"
)

type (
	obj  = map[string]interface{}
	list = []interface{}
)

var handlers = map[string]func(json.RawMessage) interface{}{}

// protect runs f and reports its panic, if any.
func protect(f func() interface{}) (out interface{}) {
	defer func() {
		if e := recover(); e != nil {
			fmt.Fprintln(os.Stderr, "panic:", e)
			out = obj{"panic": true}
		}
	}()

	return f()
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(9)
	}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	dec := json.NewDecoder(in)
	limit := 60 * time.Second

	for dec.More() {
		var raw json.RawMessage
		must(dec.Decode(&raw))
		var head struct {
			Op string `json:"op"`
		}
		must(json.Unmarshal(raw, &head))
		h, ok := handlers[head.Op]
		if !ok {
			must(fmt.Errorf("unknown op %q", head.Op))
		}

		done := make(chan interface{}, 1)
		go func() { done <- protect(func() interface{} { return h(raw) }) }()

		var res interface{}
		select {
		case res = <-done:
		case <-time.After(limit):
			res = obj{"hang": true}
			b, _ := json.Marshal(res)
			_, _ = out.Write(append(b, '\n'))
			_ = out.Flush()
			os.Exit(7)
		}

		b, err := json.Marshal(res)
		must(err)
		_, _ = out.Write(append(b, '\n'))
		_ = out.Flush()
	}
}

// ints converts runes to non-nil ints.
func ints(in []rune) []int {
	out := make([]int, 0, len(in))
	for _, r := range in {
		out = append(out, int(r))
	}

	return out
}

func intss(in [][]rune) [][]int {
	out := make([][]int, 0, len(in))
	for _, r := range in {
		out = append(out, ints(r))
	}

	return out
}

func runesOf(in []int) []rune {
	out := make([]rune, 0, len(in))
	for _, r := range in {
		out = append(out, rune(r))
	}

	return out
}

const sentinel = rune(0xE000)

// guarded places some runes in a larger buffer, with spare capacity.
func guarded(in []int) (window []rune, buffer []rune) {
	buffer = make([]rune, 0, len(in)+12)
	for i := 0; i < 4; i++ {
		buffer = append(buffer, sentinel)
	}
	buffer = append(buffer, runesOf(in)...)
	for i := 0; i < 8; i++ {
		buffer = append(buffer, sentinel+1)
	}

	return buffer[4 : 4+len(in)], buffer
}

// clamp keeps integers within 32 bits, for TLC.
func clamp(v int64) int64 {
	const max = 1<<31 - 1
	if v > max {
		return max
	}
	if v < -max {
		return -max
	}

	return v
}
