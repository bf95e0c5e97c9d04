#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the list of properties)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
LB = ["linebreak/linebreaker.go", "linebreak/knuth_plass.go", "linebreak/knuth_plass_types.go", "linebreak/options.go"]
p("C01", "No wrapped line exceeds the requested width",
  "When the line breaker sets a paragraph in left-aligned lines of uniform width, the visible width of every line it returns (escape sequences excluded, the hyphen shown at a broken word and the spaces included, wide and zero-width runes measured by the configured measurer) is at most the requested width. This holds for every tolerance, penalty, measurer, hyphenator, punctuator and word-breaking option.",
  ["inputs", "configurations"], "all paragraphs of non-empty tokens, all finite non-negative widths (fractions included), all line breaker options; measures add up over runes, that of a space is positive, and scaled measures are integers",
  "the package's tests check a handful of widths on two texts and look for the expected strings; width is an invariant of every line of every paragraph under every option",
  LB + ["terminal/runes/width.go"], [("adjustment ratio: a line that cannot shrink is not feasible", "linebreak/knuth_plass.go adjustmentRatio"), ("the width of a penalty node counts the hyphen", "linebreak/linebreaker.go pushHyphen")],
  ["LineBreaker.LeftAlignUniform return value"])
p("C02", "Wrapping preserves the text and breaks words only at legal points",
  "The lines returned by the line breaker carry exactly the runes of the tokens, in order: two tokens that share a line are separated by exactly one space, and no line starts or ends with an added space. A token is split between two lines only after a punctuation mark, or, when word breaking is enabled and in parts longer than 4 runes, at a point given by the hyphenator or after an explicit hyphen; a '-' is added exactly at the end of the lines that split a word at a hyphenation point, and only if hyphens are rendered.",
  ["inputs", "configurations"], "all paragraphs of non-empty tokens, all options; with and without escape sequences (a token made only of these has no width and no text); the measure of a space is positive",
  "tests compare a few rendered paragraphs; loss, duplication or reordering of a token can need a particular combination of punctuation, hyphens, escape sequences and break choice",
  LB + ["wordbreak/punctuator/punctuator.go", "wordbreak/hyphenator/hyphenator.go", "terminal/ansi/ansi.go"],
  [("boxNodes builds boxes in order; render() walks nodes between breaks", "linebreak/linebreaker.go")], ["LineBreaker.LeftAlignUniform return value"])
p("C03", "Wrapping fails exactly when no feasible set of breaks exists",
  "Setting a paragraph returns the error ErrCannotBeSet if and only if no choice of legal break points gives only feasible lines; otherwise it returns lines and no error. A line is feasible when its natural width w (with the hyphen, if it ends with a rendered one) is at most the requested width W and, unless it is the last line, (W-w)/6 is at most the tolerance (both widths being multiplied by the scale factor, 1 by default, and W then rounded down); every line that is returned is feasible. The empty paragraph has no line and no error.",
  ["inputs", "configurations"], "all paragraphs of non-empty tokens, all non-negative tolerances (0 and infinity included), all finite non-negative widths, all options; hyphen penalties from 0 to 9999",
  "feasibility quantifies over all the ways to break a paragraph; the tests only exhibit a few paragraphs",
  LB, [("list of active break points; a break is deactivated when too wide", "linebreak/knuth_plass.go mainLoop")], ["LineBreaker.LeftAlignUniform error"],
  [("active break points", "feasible ways to set the text so far", "linebreak/knuth_plass.go activeNodes")])
p("C04", "Line breaks have minimal total demerits (Knuth-Plass optimality)",
  "The breaks chosen by the line breaker minimize the sum over lines of the Knuth-Plass demerits, among all choices of legal breaks with feasible lines. A line of ratio r=(W-w)/6 (0 for the last line) costs (10+100r^3+p)^2, where p is 0 for a break between tokens, the hyphen penalty (default 300) for a soft hyphen, 200 after an explicit hyphen, 400 after a punctuation mark; plus 100 (or the hyphen penalty when it was set by an option) for two consecutive breaks inside tokens (the end of the paragraph counting as one), plus 200 when the fitness classes (r<=0.5, r<=1, r>1; the paragraph starting in the first) of consecutive lines differ by more than one.",
  ["inputs", "configurations"], "all non-empty paragraphs of non-empty tokens, all non-negative tolerances, all scale factors (multiplying both widths), hyphen penalties from 0 to 9999",
  "optimality compares the result with all other ways to break the paragraph, exponentially many; tests only compare with a recorded result",
  LB, [("dynamic programming over (position, fitness class)", "linebreak/knuth_plass.go mainLoop, demeritsAndClass, insertNewActiveBreak, findBestBreak")], ["LineBreaker.LeftAlignUniform return value"])
p("C05", "Wrapping is deterministic and independent of history",
  "The result of setting a paragraph depends only on the options, the tokens and the width: the same call repeated on the same line breaker, after any other successful or failed calls on it, on a fresh line breaker with the same options, or in another process, returns the same lines or the same error.",
  ["histories", "inputs", "schedules"], "all sequences of calls on one or several line breakers, with and without escape sequences, with failures in between, and several goroutines each with their own line breaker",
  "tests use each line breaker once, and one order of calls",
  LB + ["attributes/state.go"], [("state reset by LeftAlignUniform and breakPoints", "linebreak/linebreaker.go, linebreak/knuth_plass.go")], ["LineBreaker.LeftAlignUniform return value over a session"],
  [("nodes, activeNodes, attrList", "state kept by the line breaker between calls", "linebreak/linebreaker.go LineBreaker")])
p("C06", "Terminal attributes survive wrapping line by line",
  "When tokens carry start and stop escape sequences that are well paired (each stop sequence closing the latest start sequence which is still open), each line returned by the line breaker is self-contained: its own sequences are well paired, so that replayed alone on a terminal in its neutral state, every rune of the text is shown under exactly the start sequences in effect for it in the source, in the same order, and the terminal is back to its neutral state at the end of the line. A soft hyphen or a space added by the line breaker never leaves an attribute open.",
  ["inputs", "configurations"], "all paragraphs with well-nested start...stop spans (within a token, several in a token, across tokens, empty spans, tokens made of a sequence only, nested spans), all widths and options",
  "tests show a few colored paragraphs; the property depends on where the breaks fall with respect to the spans",
  LB + ["attributes/state.go", "attributes/attribute.go", "terminal/ansi/ansi.go"], [("EndOfLine closes, StartOfLine restores the attributes in effect", "attributes/state.go")], ["LineBreaker.LeftAlignUniform return value"])
p("C07", "A line boundary closes and restores exactly the open attributes",
  "For any sequence of renderers pushed to an attribute state and any position of its iterator, StartOfLine writes the start sequences of exactly the attributes started and not stopped up to and including the current item, outermost first; EndOfLine writes the stop sequences that terminate these same attributes later in the sequence, innermost first, and nothing for an attribute which is never stopped. Both write nothing before the first Next of an Iterator and after the last item, neither moves the iterator nor alters the state, and the iterator visits the pushed renderers once each, in order.",
  ["inputs", "histories"], "all sequences of renderers with any start/stop combination, and all interleavings of Next, Item, StartOfLine, EndOfLine on several iterators",
  "the tests of the package make no assertion on what is written",
  ["attributes/state.go", "attributes/iface.go"], [("walk of the linked list of renderers", "attributes/state.go")], ["runes written by StartOfLine and EndOfLine", "State.Iterator, State.First, Next, Item"],
  [("list", "renderers pushed so far", "attributes/state.go State")])
p("C08", "Attributes render start, text, stop, and know their nesting level",
  "Rendering an attribute writes its start sequence, its text and its stop sequence, in this order and nothing else; a collection of renderers does so for each non-nil member, in order, and its Start or Stop writes only the start or stop sequences. HasStart and HasStop tell whether these sequences are non-empty (SetStop replacing the latter). Pushing a non-nil renderer to a state sets its level to the number of attributes open while it is shown, its own included (for sequences whose stops are all matched), and pushing nil is a no-op.",
  ["inputs", "histories"], "all attributes and sequences of pushes with balanced starts and stops",
  "the tests only look at the level of two items and never at what is rendered",
  ["attributes/attribute.go", "attributes/iface.go", "attributes/state.go"], [("Render, Start, Stop; level computed by Push", "attributes/attribute.go, attributes/state.go")], ["runes written to the writer", "Level()"])
AN = ["terminal/ansi/ansi.go"]
p("C09", "ANSI stripping is lossless",
  "For every sequence of runes, the pieces returned by StripToken, each read as its start sequence, text and stop sequence, concatenate to exactly the input, whatever stray, truncated or malformed escape sequences it contains. The remainder of each piece is exactly the part of the input that comes after it, stripping always terminates, and it always makes progress: only the empty input yields an empty piece.",
  ["inputs"], "all sequences of runes, including malformed and truncated sequences at every position",
  "tests list about 20 well-formed strings; the parser has loops over digits and sections, rewinds, and end-of-input cases at each state",
  AN + ["terminal/runes/runesio/slice_reader.go"], [("decoders over a slice reader, with rewinds", "terminal/ansi/ansi.go StripANSIFromRunes")], ["StripToken, StripANSIFromRunes return values"],
  [("reader offset", "position of the parser in the token", "terminal/runes/runesio/slice_reader.go")])
p("C10", "ANSI sequences are recognized and classified exactly",
  "A control sequence is ESC, '[', then parameters of up to 3 ASCII digits separated by ';' or ':', then one key rune (any rune but ESC; absent if the input ends). It starts an attribute if the key is 's' or 'h', or 'm' with a non-zero first parameter; it stops one if the key is 'u' or 'l', or 'm' with an empty or zero first parameter; any other is kept verbatim as text. In the pieces returned by StripToken, a start or stop field is empty or exactly one such start or stop sequence, and no start or stop sequence of the input is left in a text.",
  ["inputs"], "all sequences of runes: control sequences well-formed, truncated or malformed, and arbitrary text",
  "the grammar has unboundedly many words; tests sample about twenty",
  AN, [("decodeANSISequence", "terminal/ansi/ansi.go")], ["StripToken return value"])
HY = ["wordbreak/hyphenator/hyphenator.go", "wordbreak/hyphenator/dictionary.go", "wordbreak/hyphenator/options.go"]
p("C11", "Hyphenation only cuts a word, within the configured limits",
  "For every word and every setting of the hyphenator, the parts returned concatenate to exactly the input; there is one part, the word itself, if the word contains an hyphen or is shorter than the minimum length. Otherwise no part is empty, every part but the last has at least the configured number of runes to the left of its break, and what follows any break has at least the configured number of runes to the right.",
  ["inputs", "configurations"], "all non-empty words (any runes, any length, any case), all languages, all values of the minimum length, left and right limits, non-negative",
  "tests check a list of words with default limits; long words, non-letters and unusual limits are not sampled",
  HY, [("splitAtPositions", "wordbreak/hyphenator/hyphenator.go")], ["Hyphenator.BreakWord return value"])
p("C12", "Hyphenation points are exactly those of the language patterns (Liang)",
  "For a word that is not an exception of the language, hyphenation breaks exactly at the positions where the highest value, over all the pattern occurrences of the language file in the lower-cased word enclosed in dots, is odd, provided that the previous retained break is at least the left limit away and the end of the word at least the right limit away. This holds for each of the bundled languages (American and British English, French, German, Spanish), for all patterns of their file including those with digits before or after, and for words of any length.",
  ["inputs", "configurations"], "all words over the alphabet of the language, of any length, all bundled pattern files",
  "tests compare a few dozen words; a language has thousands of patterns, and each overlap of patterns is a different case",
  HY + ["wordbreak/hyphenator/internal/trie/rune_trie.go", "wordbreak/hyphenator/languages"], [("isPattern / mergeBreakPoints over a trie of patterns", "wordbreak/hyphenator/hyphenator.go"), ("readPattern", "wordbreak/hyphenator/dictionary.go")], ["Hyphenator.BreakWord return value"],
  [("patterns", "trie of letter sequences to weights", "wordbreak/hyphenator/dictionary.go Dictionary")])
p("C13", "Hyphenation exceptions override the patterns, in any case",
  "A word listed as an exception in the pattern file of the language is broken exactly at the hyphens of its entry that respect the left and right limits, whatever the patterns say, and whatever the letter case of the word; no other word is affected. This holds for every entry of every exceptions section, including the first, the last and the ones on the line which closes the section.",
  ["inputs", "configurations"], "all exceptions of the bundled files and of any dictionary with the same format (patterns first, then sections of exceptions, one per line), all letter cases",
  "tests check one or two exceptions in lower case",
  HY, [("isException, readException", "wordbreak/hyphenator/hyphenator.go, dictionary.go")], ["Hyphenator.BreakWord return value"])
p("C14", "A language tag selects the dictionary of that language",
  "A hyphenator built for a language uses the pattern file of that language, however the tag is written: with a region, a script or an extension (fr, fr-FR, fr-CA use French; de, de-AT German; es, es-MX Spanish; en, en-US American English; en-GB and the Commonwealth regions British English). Unsupported languages and an empty tag use American English; the string and tag options agree.",
  ["inputs", "configurations"], "all language tags for supported and unsupported languages (English being for the US or a Commonwealth region, or without region), regions, scripts, extensions, any case of the tag",
  "tests use four tags without region",
  ["wordbreak/hyphenator/languages.go", "wordbreak/hyphenator/options.go", "wordbreak/hyphenator/cache.go"], [("langToPattern with a language matcher", "wordbreak/hyphenator/languages.go")], ["Hyphenator.Dictionary identifier", "Hyphenator.BreakWord return value"])
p("C15", "Concurrent use is safe: one shared dictionary per language",
  "Hyphenators may be created and used from any number of goroutines at once, for the same or different languages, without data race or corruption. All the hyphenators of a language share one and the same fully loaded dictionary, and every concurrent call (hyphenation, width computation, ANSI stripping, line breaking with one breaker per goroutine) returns what it returns when run alone.",
  ["schedules", "histories"], "all interleavings of concurrent creations and calls, first uses included",
  "one test run explores one schedule and tests do not use goroutines on a cold cache",
  ["wordbreak/hyphenator/cache.go", "terminal/runes/width.go", "terminal/runes/lookup.go", "terminal/ansi/ansi.go"], [("mutex around the cache of dictionaries", "wordbreak/hyphenator/cache.go"), ("sync.Once around the width table", "terminal/runes/width.go")], ["results and identity of dictionaries in concurrent calls; race detector"],
  [("loadedPatterns", "cache of dictionaries by pattern file", "wordbreak/hyphenator/cache.go"), ("lookupTable", "packed widths of all runes", "terminal/runes/lookup.go")])
p("C16", "The tokenizer returns exactly the maximal space-free runs",
  "Breaking a text into tokens (and the generic splitting of runes by a predicate) returns exactly the maximal runs of runes that are not separators, in order: no token is empty or contains a separator, nothing else is dropped, and tokens are separated in the input by at least one separator. The string and rune variants agree.",
  ["inputs"], "all texts and all separator predicates; separators are the Unicode spaces for the tokenizer",
  "tests sample some strings", ["wordbreak/tokenizer/tokenizer.go", "terminal/runes/fields.go"], [("FieldsFunc", "terminal/runes/fields.go")], ["Tokenizer.BreakWord, runes.FieldsFunc return values"])
p("C17", "The punctuator isolates every punctuation mark and loses nothing",
  "Breaking a word at punctuation returns parts that concatenate to the word: each Unicode punctuation rune that is not a hyphen, and each '|', is a part of its own, and the other parts are exactly the maximal runs in between, never empty. IsPunctuation is true exactly for the parts made of one such mark.",
  ["inputs"], "all words, all Unicode runes", "tests sample some strings",
  ["wordbreak/punctuator/punctuator.go"], [("breakAtFunc", "wordbreak/punctuator/punctuator.go")], ["Punctuator.BreakWord, IsPunctuation return values"])
p("C18", "Explicit hyphens are isolated and nothing is lost",
  "Splitting a word on explicit hyphens returns parts that concatenate to the word: each rune of the Unicode Hyphen property is a part of its own, and the other parts are exactly the maximal runs in between, never empty. IsHyphen is true exactly for the parts made of one such rune.",
  ["inputs"], "all words, all Unicode runes", "tests sample some strings",
  ["wordbreak/hyphenator/hyphenator.go"], [("SplitWord", "wordbreak/hyphenator/hyphenator.go")], ["hyphenator.SplitWord, IsHyphen return values"])
RU = ["terminal/runes/width.go", "terminal/runes/lookup.go", "terminal/runes/runes_tables.go", "terminal/runes/options.go"]
p("C19", "Every rune has its Unicode 15 terminal width, under every option",
  "The width of every rune is that of the Unicode 15.0 data: 0 for invalid, control, non-printing and combining runes (those which the East Asian width data names as combining), 3 and 4 for the two-em and three-em dashes, 2 for wide and fullwidth runes, 1 otherwise; with the East Asian option, ambiguous runes take the configured width (2 by default) and, if strict emoji neutrality is skipped, neutral emoji take 2. The result depends only on the rune and the options of the call, never on previous calls, and IsAmbiguous is true exactly on the ambiguous runes.",
  ["inputs", "configurations", "histories"], "all 1114112 code points and invalid values, all options, all orders of calls with various options",
  "tests check about a hundred runes, and there are about 1.1 million of them per option, packed in a lookup table built lazily",
  RU, [("packed lookup table; binary search in interval tables", "terminal/runes/lookup.go")], ["runes.Width, runes.IsAmbiguous"],
  [("lookupTable", "widths of all runes without East Asian option, 2 bits each", "terminal/runes/lookup.go"), ("defaultOptions", "shared by all calls without options", "terminal/runes/options.go")])
p("C20", "The width of a text is the sum of the widths of its runes",
  "For every sequence of runes and every option, Widths is the sum of the widths of the runes under the same options, and StringWidth of a string is the Widths of its runes; both are total (invalid runes and invalid UTF-8 count for 0, no panic). Width is thus additive: measuring a concatenation gives the sum of the measures.",
  ["inputs", "configurations"], "all rune sequences and strings, all options", "tests sample a few strings, without invalid runes",
  RU, [("Widths, StringWidth", "terminal/runes/width.go")], ["runes.Widths, runes.StringWidth"])
SR = ["terminal/runes/runesio/slice_reader.go"]
p("C21", "The rune reader is an exact cursor over its runes",
  "After any sequence of ReadRune, Seek and Runes calls, the reader is at a position between 0 and the number of runes: ReadRune returns the rune at the position with its UTF-8 size and advances by one, or io.EOF at the end without moving; Seek from start, current or end moves to exactly the requested position and returns it, or fails with ErrSeekOutOfRange if this is out of range, leaving the position unchanged; Runes returns exactly the runes not read yet and does not move.",
  ["histories", "inputs"], "all sequences of calls, all contents made of valid runes, all offsets, and the three origins",
  "tests follow three short sequences of calls", SR, [("offset", "terminal/runes/runesio/slice_reader.go")], ["SliceReader methods"],
  [("offset", "position in runes", "terminal/runes/runesio/slice_reader.go SliceReader")])
p("C22", "Slicing by rune or byte offsets returns exactly the designated runes",
  "For every reader over valid runes, slicing with rune offsets returns the runes in [start,end), pairs giving one slice each, in order; slicing with byte offsets that fall on rune boundaries (as given by a regular expression match on the text) returns exactly the runes encoded by these bytes, empty slices included. An odd number of offsets panics; slicing does not move the reader and does not depend on its position.",
  ["inputs", "histories"], "all contents made of valid runes, all lists of pairs with start<=end on rune boundaries, at all reader positions",
  "tests use five slices of one word with a single multi-byte rune", SR, [("walk of the runes accumulating byte lengths", "terminal/runes/runesio/slice_reader.go SliceFromByteOffsets")], ["SliceReader.Slice, Slices, SliceFromByteOffsets"])
p("C23", "The rune writer emits exact UTF-8 and reports what was written",
  "Writing a rune or runes sends to the underlying writer exactly their UTF-8 encoding, in order, each call after the previous one, invalid runes being encoded as U+FFFD. The number of bytes and the error reported are the ones of the underlying writer: when it fails after some bytes, the count is the number of bytes it accepted, what it received is a prefix of the encoding, and the error is returned as is.",
  ["inputs", "histories", "fault_sequences"], "all rune values (invalid included), all sequences of calls, all points at which the underlying writer stops accepting bytes",
  "tests write 3 times to a buffer which never fails", ["terminal/runes/runesio/writer.go"], [("EncodeRune in a buffer, single Write", "terminal/runes/runesio/writer.go")], ["Writer methods; bytes received by the sink"])
p("C24", "The pattern trie is a map from rune sequences to values",
  "After any sequence of operations, Get returns the value last put at the key if it was not deleted since, nil otherwise; Put replaces the value and returns true exactly when the key had none; Delete forgets the key and no other, and returns true exactly when the key was part of the trie as a key with a value or as a prefix of such a key (the empty key always being one).",
  ["histories", "inputs"], "all sequences of put, get, delete with keys that are prefixes of each other, the empty key included, any non-nil values",
  "tests delete a few keys; pruning depends on the exact history of insertions and deletions",
  ["wordbreak/hyphenator/internal/trie/rune_trie.go"], [("pruning of childless ancestors", "wordbreak/hyphenator/internal/trie/rune_trie.go Delete")], ["RuneTrie Get, Put, Delete"],
  [("children, value", "nodes of the trie", "wordbreak/hyphenator/internal/trie/rune_trie.go")])
p("C25", "Inputs are never modified",
  "No operation of the library writes into the runes, strings or slices passed as input: after hyphenation, tokenizing, punctuation and hyphen splitting, ANSI stripping, width computation, slicing, rendering or line breaking, the caller's runes are unchanged, including the elements between the length and the capacity of the slice. This holds after any number of successive operations on the same buffer, or on a result of a previous operation; what previous operations returned is unchanged as well.",
  ["inputs", "histories"], "all operations on all inputs, slices of a larger buffer, chains of operations on returned parts",
  "tests pass fresh slices, and never look at their inputs after the call",
  AN + HY + ["terminal/runes/fields.go", "wordbreak/punctuator/punctuator.go", "linebreak/linebreaker.go", "terminal/runes/runesio/slice_reader.go", "attributes/attribute.go"], [("results are sub-slices of the input, never appended to in place", "terminal/ansi/ansi.go, wordbreak, terminal/runes")], ["the input buffers, before and after each call"])
p("C26", "Calls end, without a panic, whatever their arguments",
  "Every call of the exported API returns, on every input: with a value, or with the error documented for it: ErrCannotBeSet for a paragraph that cannot be set, io.EOF and ErrSeekOutOfRange from the reader, the error of the underlying writer, an error for a pattern file that does not exist. No call panics or runs forever, except that slicing panics when its offsets do not come in pairs (or designate runes that do not exist). This holds for the texts, strings, integers, floating point parameters and language tags that callers happen to have: empty, truncated, invalid, very long, negative, infinite or not numbers.",
  ["inputs", "configurations", "histories"], "all texts (invalid runes, invalid UTF-8, malformed escape sequences, very long ones), all values of the options, in any sequence of calls; objects are built by the constructors of the library, and functions given by the caller return normally",
  "a panic needs one particular input or combination of options; the tests only use well-formed arguments",
  LB + AN + HY + SR + ["terminal/runes/runesio/writer.go", "terminal/runes/width.go", "terminal/runes/fields.go", "wordbreak/punctuator/punctuator.go", "wordbreak/tokenizer/tokenizer.go", "attributes/state.go", "wordbreak/hyphenator/internal/trie/rune_trie.go"],
  [("bounds of slices and loops", "terminal/ansi/ansi.go, wordbreak/hyphenator/hyphenator.go, linebreak/linebreaker.go render, terminal/runes/width.go")], ["how each call ends"])
p("C27", "A pattern file is loaded completely, or not at all",
  "Loading one of the supported pattern files returns a dictionary of its own which holds every pattern and every exception of the file (whatever the layout of its lines, its comments and its line endings) and is identified by the text of its message line, or by 'patterns: ' and the file name if it has none. Any other name, and a file which cannot be read to the end, gives an error and no dictionary. The supported pattern files are exactly those embedded in the library, each one listed once, in the order of their names.",
  ["inputs", "fault_sequences"], "all names, and all contents in the format of the bundled files (comments, TeX commands and blank lines anywhere, patterns separated by blanks, then one exception on each line), lines too long to be read included",
  "tests load the five bundled files, and look neither at what was read nor at names that do not exist",
  ["wordbreak/hyphenator/dictionary.go", "wordbreak/hyphenator/embedded.go"], [("scan of the lines of the file", "wordbreak/hyphenator/dictionary.go LoadPatterns"), ("list of embedded files", "wordbreak/hyphenator/dictionary.go SupportedPatterns")], ["LoadPatterns and SupportedPatterns results; BreakWord with the dictionary that was loaded"])
p("C28", "Embedded patterns are those of their TeX sources",
  "The pattern files embedded in the library hold exactly the patterns and the exceptions of their TeX sources (languages/tex), in the same order, under the same message. The generator of these files (languages/strip_comments.go, run by go generate) keeps this for any TeX source, or fails when a source cannot be read to its end or a file cannot be written: it writes a file of the same name for each source, and a dictionary loaded from it breaks words as the entries read by TeX in the source say, wherever the source has comments, blanks and empty lines.",
  ["inputs"], "the five bundled sources, line by line; all sources laid out like them (groups opened and closed on lines of their own, the last exception possibly followed by the brace; one exception on each line), with comments, blanks, TeX commands and line endings of any kind",
  "no test looks at the sources or runs the generator; the files have 46000 entries",
  ["wordbreak/hyphenator/languages/strip_comments.go", "wordbreak/hyphenator/dictionary.go"], [("removal of comments and blanks, line by line", "wordbreak/hyphenator/languages/strip_comments.go strip"), ("scan of the lines of the file", "wordbreak/hyphenator/dictionary.go LoadPatterns")], ["the files embedded; those written by the generator; BreakWord with a dictionary loaded from these"])
p("C29", "Options: given in any order, the last one wins; defaults otherwise",
  "What a line breaker, a hyphenator or a measure of runes does depends only on the configuration to which its options resolve: options are applied in order on top of the documented defaults, so that the last one given for a setting wins, options for different settings may be given in any order, and giving a default explicitly changes nothing (giving a hyphenator also enables word breaking; the hyphen penalty is that of a break and of two consecutive ones; a hyphenator or punctuator that is nil is the default one). Options and lists of options may be shared by several instances: making or using an instance changes neither the list that was passed nor what another instance does, and reusing the list afterwards does not change the instance.",
  ["configurations", "histories", "schedules"], "all lists of options (repeated, overridden, in any order, long) of linebreak.New, hyphenator.New and the functions of terminal/runes, the looseness excepted, shared or not, with other instances made and used before, after and in other goroutines",
  "tests give at most a few options, once and in one order, to one instance",
  ["linebreak/options.go", "linebreak/linebreaker.go", "wordbreak/hyphenator/options.go", "wordbreak/hyphenator/hyphenator.go", "terminal/runes/options.go"], [("fold of the options over the defaults", "defaultOptions in linebreak/options.go and wordbreak/hyphenator/options.go; optionsWithDefaults in terminal/runes/options.go")],
  ["LeftAlignUniform, BreakWord, Width, Widths, StringWidth results of instances made with various lists of options"],
  [("defaultOptions", "shared by all calls without options", "terminal/runes/options.go")])
p("C30", "Width tables generated from Unicode's files say what these files say",
  "The generator of the width tables (terminal/runes/build_tables.go, run by go generate) writes, for any pair of files laid out like EastAsianWidth.txt and emoji-data.txt of the Unicode Character Database, Go tables which hold exactly the code points the files give to them: doublewidth those of classes W and F, ambiguous A, narrow Na, neutral N, combining those of the lines whose comment has the word COMBINING, emoji those above Latin-1 with the property Extended_Pictographic. In each table the intervals are in increasing order, disjoint, and adjacent ones are merged, as runes are searched by dichotomy. When a file cannot be fetched entirely or the tables cannot be written, the generator fails, and a fetch that fails leaves the previous tables as they were.",
  ["inputs", "fault_sequences"], "all files in this layout with increasing code points (single code points and intervals, of 4 to 6 digits, comments and empty lines anywhere); refused requests, answers with another status than 200, answers cut at any point, a table file that cannot be written; the files published for Unicode 15.0, as known from other data",
  "no test runs the generator, which needs the network",
  ["terminal/runes/build_tables.go", "terminal/runes/runes_tables.go", "terminal/runes/lookup.go"], [("scan of the lines", "terminal/runes/build_tables.go eastasian, emoji"), ("merge of adjacent intervals", "terminal/runes/build_tables.go shapeup"), ("search by dichotomy", "terminal/runes/lookup.go inTable")], ["the file written by the generator; Width with the tables generated"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
