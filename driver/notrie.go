//go:build verif_notrie

package main

// trieT stands for the internal trie of the library, when it can no longer be built with.
type trieT map[string]interface{}

const hasTrie = false

func newTrie() trieT { return trieT{} }

func (t trieT) Get(key []rune) interface{} { return t[string(key)] }
func (t trieT) Put(key []rune, value interface{}) bool {
	_, ok := t[string(key)]
	t[string(key)] = value

	return !ok
}
func (t trieT) Delete(key []rune) bool {
	_, ok := t[string(key)]
	delete(t, string(key))

	return ok
}
