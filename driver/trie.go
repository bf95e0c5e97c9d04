//go:build !verif_notrie

package main

import (
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/internal/trie"
)

type trieT interface {
	Get(key []rune) interface{}
	Put(key []rune, value interface{}) bool
	Delete(key []rune) bool
}

const hasTrie = true

func newTrie() trieT { return trie.NewRuneTrie() }
