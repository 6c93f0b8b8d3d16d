#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (development-time; no check runs it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, technique, note, level="exploration"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
        _t=technique, _n=note, _l=level))
PK = ["graphemes", "words", "phrases", "sentences"]
def allf(*names): return [f"{k}/{n}" for k in PK for n in names]
IT, SF, TR, RD = "iterator.go", "splitfunc.go", "trie.go", "reader.go"

REFNOTE = "Trusts the reference segmenter (mon/ref, written from UAX #29 revision 47, positional, no code shared with the library) and the embedded Unicode 17 tables. Bounded by the workload: complete class sequences up to a length, then seeded texts."
ENT = "FromString / FromBytes iterators, SplitFunc, FromReader scanners, First"
why_conf = "Quantifies over all texts. The suites hold about 3,200 official break-test lines, most of three or four code points, and compare the fuzz corpus only for losslessness; a rule that goes wrong on a longer context, a rarer class or only through the ASCII fast path passes them."

p("C01", "Grapheme clusters follow UAX #29 (Unicode 17)",
  "For every valid UTF-8 text, the grapheme clusters the library yields (ANSI options off) are exactly the extended grapheme clusters of UAX #29 for Unicode 17, including emoji ZWJ sequences, regional-indicator pairs, Hangul, prepend and Indic conjuncts (GB1-GB13, GB9c). The ASCII fast path never changes the result.",
  ["inputs"], "all valid UTF-8 texts, all entry points", why_conf,
  ["graphemes/iterator.go", "graphemes/splitfunc.go", "graphemes/trie.go"],
  [("rules GB3-GB999", "graphemes/splitfunc.go splitFunc"), ("ASCII hot path", "graphemes/iterator.go Next"), ("property table", "graphemes/trie.go")],
  [ENT], "runtime conformance monitor against an independent reference segmenter", REFNOTE)
p("C02", "Words follow UAX #29 (Unicode 17)",
  "For every valid UTF-8 text, the words the library yields by default are exactly the word-boundary segments of UAX #29 for Unicode 17 (WB1-WB999, with WB4 ignoring Extend, Format and ZWJ wherever the rule says so). The ASCII alphanumeric fast path never changes the result.",
  ["inputs"], "all valid UTF-8 texts, all entry points", why_conf,
  ["words/iterator.go", "words/splitfunc.go", "words/seek.go", "words/trie.go"],
  [("rules WB3-WB999", "words/splitfunc.go"), ("look-ahead and look-behind", "words/seek.go"), ("ASCII hot path", "words/iterator.go Next")],
  [ENT], "runtime conformance monitor against an independent reference segmenter", REFNOTE)
p("C03", "Sentences follow UAX #29 (Unicode 17)",
  "For every valid UTF-8 text, the sentences the library yields are exactly the sentence segments of UAX #29 for Unicode 17 (SB1-SB998, with SB5 ignoring Extend and Format wherever the rule says so), including the unbounded look-ahead of SB8. The ASCII fast path never changes the result.",
  ["inputs"], "all valid UTF-8 texts, all entry points", why_conf,
  ["sentences/iterator.go", "sentences/splitfunc.go", "sentences/seek.go", "sentences/trie.go"],
  [("rules SB3-SB998", "sentences/splitfunc.go"), ("look-behind over Sp, Close and Extend", "sentences/seek.go"), ("ASCII hot path", "sentences/iterator.go")],
  [ENT], "runtime conformance monitor against an independent reference segmenter", REFNOTE)
p("C04", "Phrases follow the word rules plus the phrase rules",
  "For every valid UTF-8 text, the phrases the library yields are exactly the segments of the word rules of UAX #29 with the package's documented extension: pictographs count as letters, and horizontal spaces join letters, numbers and each other (a space next to anything else still breaks). The ASCII fast path never changes the result.",
  ["inputs"], "all valid UTF-8 texts, all entry points",
  "There is no official test data for phrases at all; the package's tests compare a handful of literal examples.",
  ["phrases/iterator.go", "phrases/splitfunc.go", "phrases/seek.go", "phrases/trie.go"],
  [("rules", "phrases/splitfunc.go"), ("look-ahead and look-behind", "phrases/seek.go"), ("ASCII hot path", "phrases/iterator.go")],
  [ENT], "runtime conformance monitor against an independent reference segmenter",
  REFNOTE + " The phrase rules are the library's own; the reference states them from the code's comments and documentation.")
p("C05", "Every code point has its Unicode 17 property in all four tokenizers",
  "Each of the 1,112,064 Unicode scalar values is segmented according to its Unicode 17.0 property values (Grapheme_Cluster_Break, Word_Break, Sentence_Break, Extended_Pictographic, Indic_Conjunct_Break) in every context that can tell property values apart.",
  ["inputs"], "all scalar values, in discriminating contexts, in four tokenizers",
  "The official test lines use a few representatives per property; a table with a wrong or missing block for any other code point passes.",
  allf(TR, SF), [("compressed tables", "*/trie.go lookup"), ("generation", "internal/gen/main.go")],
  ["boundaries around the code point"], "exhaustive runtime probing of all code points against embedded UCD tables",
  "Complete over code points; two property values the chosen contexts cannot tell apart through the API are not told apart. Trusts the embedded tables, which agree with ICU's segmentation of every scalar value in 29 contexts.")
p("C06", "Tokens partition any input; iteration terminates and never panics",
  "For every byte sequence, valid UTF-8 or not, under every option, the tokens are non-empty, consecutive and concatenate to exactly the input; the reported start and end positions are those of the token in the input. Iteration ends after at most as many steps as there are bytes, stays ended, and never panics.",
  ["inputs", "configurations"], "all byte sequences, all options and joiner settings, all entry points",
  "The fuzz targets in the suites only run their seed corpora under go test, compare only concatenations, and never drive options, positions, First or the split functions without EOF.",
  allf(IT, SF) + ["words/joiners.go", "graphemes/ansi.go", "graphemes/ansi8.go"],
  [("advance checks", "*/iterator.go Next"), ("invalid UTF-8 as one unit", "*/splitfunc.go lookup width handling")],
  [ENT, "Start, End"], "online invariant monitor over hostile byte workloads", "Complete over all byte strings up to a small length; beyond that seeded. Any panic inside the library is a violation.")
p("C07", "All entry points give the same tokens",
  "For every byte sequence and configuration, the string iterator, the byte iterator, an iterator given its text later, a scanner over a reader, repeated calls of the split function, and First applied repeatedly to the rest all give the same tokens. With ANSI options set on iterators the comparison is among iterators.",
  ["inputs", "configurations"], "all byte sequences; iterators, readers and split functions; options and joiners",
  "The suites test each entry point against the same few examples, never against each other on invalid bytes, with joiners or after reuse.",
  allf(IT, SF, RD) + ["words/joiners.go"],
  [("generic split function instantiated for strings and bytes", "*/splitfunc.go"), ("fast paths only in iterators", "*/iterator.go Next"), ("First through a copy", "*/iterator.go First")],
  [ENT], "differential runtime monitor over all entry points", "Bounded by the workload; agreement only (what the tokens should be is C01-C04, C13-C16).")
p("C08", "Streaming does not depend on how the data arrives, nor on faults before it",
  "For every text and every way a reader delivers it (any chunk sizes, empty reads, data together with EOF, cuts inside code points, read errors), the scanner yields the tokens of the delivered bytes, just as if they had arrived at once, and reports the error, if any. The split function, given only a prefix and told more may come, either asks for more or commits to exactly the token the whole text has there, and once a line end and a character after it are there, it no longer asks for more before that line end; a scanner gives the tokens of such a line before it reads on. The reader is only read, never closed or rewound.",
  ["inputs", "fault_sequences"], "all texts, all chunkings, all read-fault positions, all prefixes",
  "The suites read from strings.Reader, which delivers everything at once, so the not-at-EOF paths are hardly run.",
  allf(RD, SF), [("request for more data when undecided", "*/splitfunc.go atEOF handling"), ("bufio.Scanner", "*/reader.go")],
  ["Scanner.Scan, Bytes, Err; SplitFunc with atEOF false"], "fault-injecting readers with an equivalence oracle; every-prefix monitor of the split function",
  "Complete over prefixes and fault offsets of each short text tried; texts and chunkings are seeded.", "fault_enumeration")
p("C09", "Iterators behave like a simple model under any sequence of calls",
  "Under any interleaving of advancing, reading the value and positions, First, Reset, setting a new text and changing options, on any number of iterators, each iterator behaves as if it were fresh over the rest of its text: First never moves it, Reset starts over, a new text forgets everything about the old, and no iterator affects another.",
  ["histories", "configurations"], "all call histories over several live iterators of each package, string and bytes",
  "The suites call Reset, First and SetText once or twice in a fixed order on one iterator.",
  allf(IT) + ["words/joiners.go"], [("position fields", "*/iterator.go Iterator"), ("copy in First", "*/iterator.go First"), ("reset of cached state", "*/iterator.go Reset, SetText")],
  ["every exported method after every call"], "model-based history monitor (online checker)", "Seeded histories; the model's next token is what a fresh iterator over the rest gives.")
p("C10", "Independent use from many goroutines is race-free and deterministic",
  "Any number of goroutines may use their own iterators, scanners and split functions at the same time, over shared input, shared joiner definitions and the shared package-level functions, without data races, and each gets the tokens it would get alone. This includes the very first use in a process.",
  ["schedules"], "all interleavings of goroutines that share only inputs, joiners and package-level functions",
  "No test in the suites starts a goroutine, and they do not run under the race detector.",
  allf(IT, SF, TR) + ["words/joiners.go", "internal/iterators/filter/filter.go"],
  [("no mutable package state", "package-level vars in */iterator.go, */trie.go"), ("pure split functions", "*/splitfunc.go")],
  ["race reports; digests of each goroutine's tokens"], "Go race detector under stress, with digest comparison and concurrent cold starts",
  "The race detector reports races between accesses of the executed schedules; rounds are repeated and interleavings counted.")
p("C11", "Input is never modified or over-read, and tokens are parts of it",
  "No operation writes to the caller's bytes or reads outside them, and every token is the very part of the input at the reported position (no copies, no aliasing of anything else). This holds for every byte sequence, including input ending at the end of mapped memory.",
  ["inputs", "configurations"], "all byte sequences and options; input flush against an inaccessible page on either side",
  "The suites compare contents; a read past the end inside spare capacity, or a token that is a copy, is invisible to them.",
  allf(IT, SF) + ["words/bleve_compat.go"], [("sub-slicing only", "*/iterator.go Value, */splitfunc.go"), ("length checks before look-ahead", "*/trie.go lookup")],
  ["addresses of tokens; page faults"], "memory-protection monitor (guard pages, read-only input, address checks)",
  "Go's own bounds checks turn most over-reads into panics (seen too); the guard pages also see reads through capacity and unsafe.")
p("C12", "Iteration allocates nothing",
  "Setting a text, advancing, reading values, First and the split functions allocate no memory, whatever the input and options, for string and byte iterators, at their first use too, and the stack does not grow with the text; a scanner allocates only its buffer, so a bounded amount however long the stream.",
  ["inputs", "configurations"], "all inputs and options",
  "The suites have benchmarks, which nobody asserts on, and no allocation test.",
  allf(IT, SF), [("generic code without conversions", "*/splitfunc.go"), ("stack copy in First", "*/iterator.go First")],
  ["runtime allocation counters"], "allocation-counter monitor around each operation", "Counts heap objects with the installed Go compiler (escape analysis is the compiler's); best of several runs, so that runtime noise is not blamed on the library.")
A7 = "When the 7-bit option is on, each complete ECMA-48 escape sequence that starts with ESC (CSI with parameters, intermediates and a final byte; OSC ended by BEL, or ESC \\; DCS, SOS, PM and APC ended by ESC \\; nF sequences; two-byte Fe, Fp and Fs) is exactly one grapheme, and a control string cancelled by CAN or SUB ends before that byte. An incomplete or malformed sequence is not special: ESC is an ordinary control character there; text outside sequences is segmented as without the option."
p("C13", "7-bit ANSI escape sequences are exactly one grapheme each", A7,
  ["inputs", "configurations"], "all byte strings, with the option on, alone and together with the 8-bit option",
  "The suites list some sixty examples; the grammar over bytes is infinite and its interesting cases (cancellation, near misses, truncation, sequences next to combining marks) are products.",
  ["graphemes/ansi.go", "graphemes/iterator.go"], [("sequence lengths", "graphemes/ansi.go ansiEscapeLength"), ("dispatch", "graphemes/iterator.go Next")],
  ["FromBytes, FromString, First with the option"], "runtime conformance monitor against an independent grammar of escape sequences",
  "Complete over strings of grammar symbols up to a length, then seeded. The grammar (mon/cmd/mon/ansi.go) is written from the documentation.")
p("C14", "8-bit ANSI control sequences are exactly one grapheme each",
  "When the 8-bit option is on, each complete ECMA-48 sequence that starts with a C1 byte (CSI 0x9B with parameters, intermediates and final byte; OSC 0x9D ended by BEL or 0x9C; DCS, SOS, PM and APC ended by 0x9C; any other C1 byte alone) is exactly one grapheme, and a control string cancelled by CAN or SUB ends before that byte. Incomplete sequences are not special, and text outside sequences is segmented as without the option.",
  ["inputs", "configurations"], "all byte strings, with the option on, alone and together with the 7-bit option",
  "As for the 7-bit grammar; the suites have a few dozen examples.",
  ["graphemes/ansi8.go", "graphemes/iterator.go"], [("sequence lengths", "graphemes/ansi8.go ansiEscapeLength8Bit"), ("dispatch", "graphemes/iterator.go Next")],
  ["FromBytes, FromString, First with the option"], "runtime conformance monitor against an independent grammar of escape sequences",
  "Complete over strings of grammar symbols up to a length, then seeded.")
p("C15", "ANSI options are off by default and change nothing they should not",
  "New iterators, scanners and split functions treat escape sequences by the plain grapheme rules. The 7-bit option changes nothing in text without ESC, and the 8-bit option changes nothing in valid UTF-8 or in any bytes without C1 bytes (an encoded C1 code point, or a continuation byte inside a character, is not a C1 control); each option alone has only its own effect.",
  ["inputs", "configurations"], "all texts, four option combinations",
  "The suites check a few strings without sequences; the claim is about every text and every code point.",
  ["graphemes/iterator.go", "graphemes/ansi.go", "graphemes/ansi8.go"], [("dispatch on the first byte at a boundary", "graphemes/iterator.go Next")],
  ["tokens with and without each option"], "metamorphic runtime monitor (option on against off) with the grapheme reference", "Every scalar value occurs in the workload; texts are seeded.")
p("C16", "Joiners join exactly as documented",
  "With joiners set on words, a middle joiner behaves like a character that joins letters and numbers on both sides, and a leading joiner like a letter at the start of a token; text without any joiner character, and everything not adjacent to one, is segmented as by default. Joiners set before the ones in force leave nothing behind. The same holds for string and byte iterators and scanners.",
  ["inputs", "configurations"], "all texts and all sets of joiner characters without a word-break role of their own",
  "The suites have four joiner examples; sets, positions, combining marks after joiners and number contexts are untested.",
  ["words/joiners.go", "words/splitfunc.go", "words/iterator.go"], [("property amendment while splitting", "words/splitfunc.go"), ("wiring", "words/joiners.go, words/reader.go")],
  ["tokens of iterators and scanners with joiners"], "runtime conformance monitor against the reference rules with amended classes",
  "Complete over role sequences up to length 5 under 8 settings, then seeded. Joiner characters that already are letters, digits, marks, line breaks or regional indicators are outside the exact claim.")
p("C17", "Bleve-compatible token types are right for every token",
  "For every word token, the numeric predicate is true exactly for the tokens of Bleve's numeric form (runs of digits joined by single mid-number punctuation or by connectors, connectors before and after allowed, marks and format characters ignored), and the ideographic predicate exactly for tokens that begin with a Han, Hiragana or Katakana character and contain only such characters, connectors and marks or format characters. Neither panics on any bytes.",
  ["inputs"], "all word tokens, every scalar value",
  "The suites compare a dozen literals.",
  ["words/bleve_compat.go", "words/trie.go"], [("state machine over classes", "words/bleve_compat.go")],
  ["the two predicates on each token"], "runtime conformance monitor against Bleve's expression and script tables",
  "Word tokens by the reference rules; A connector after the first character is no obstacle to an ideographic token, as the package has it (WB13a, WB13b); Bleve itself types such tokens as words.")
p("C18", "No token boundary ever falls inside a code point",
  "For every valid UTF-8 text and every option and joiner setting, every token is itself valid UTF-8: no token begins or ends inside the encoding of a character, whichever entry point produced it.",
  ["inputs", "configurations"], "all valid UTF-8 texts, all options and entry points",
  "The suites check whole expected tokens on examples only.",
  allf(IT, SF) + ["graphemes/ansi8.go"], [("advance by lookup width", "*/splitfunc.go")], [ENT],
  "online invariant monitor over all code points and seeded texts", "All scalar values occur next to ASCII, controls and each other's classes; beyond that seeded.")
p("C19", "Work is linear in the size of the input",
  "Tokenizing a text of n bytes takes at most a constant times n steps in total, for every text, option and entry point over a whole text; no input makes the total work grow quadratically.",
  ["inputs", "configurations"], "all texts, including adversarial repetitions",
  "The suites have throughput benchmarks over ordinary text, which cannot show a super-linear worst case.",
  allf(SF, IT) + ["words/seek.go", "sentences/seek.go", "phrases/seek.go", "graphemes/ansi.go", "graphemes/ansi8.go"],
  [("bounded look-ahead and look-behind", "*/seek.go"), ("memory of unterminated control strings", "graphemes/iterator.go")],
  ["counts of calls and loop iterations"], "step-counting instrumentation (source overlay) under adversarial scaling workloads",
  "Growth is judged on counted steps, not time; three successive scales must all be super-linear. Families of repeated units only.")
p("C20", "Iteration can resume at any token boundary",
  "For every input and option, starting afresh at any token boundary of a text yields exactly the remaining tokens of that text. Texts put together around a line feed have the tokens of their parts.",
  ["inputs", "configurations"], "all inputs, all their token boundaries",
  "Nothing in the suites restarts at a boundary.",
  allf(IT, SF) + ["graphemes/iterator.go"], [("no state carried across tokens but position", "*/iterator.go Next")],
  ["tokens of suffixes"], "metamorphic runtime monitor over all boundaries", "Seeded texts; for invalid bytes the line-feed clause is not claimed.")
p("C21", "A custom split function alone decides the tokens of a words iterator",
  "A words iterator given a custom split function calls it with exactly the rest of the data, cuts exactly where the advances it returns say, for First too, and keeps it across Reset and new texts. If the function returns an error, a zero or negative advance, or an advance beyond the data (however large), iteration, and First, panics at that call rather than yielding a wrong token or looping.",
  ["inputs", "fault_sequences"], "all split functions, all texts, a fault at any call",
  "The suites set one split function once, and test no faulty one.",
  ["words/iterator.go"], [("validation of advance and error", "words/iterator.go Next"), ("fast path only for default rules", "words/iterator.go custom")],
  ["calls received by the split function; tokens; panics"], "recording and fault-injecting split functions with an online checker", "Eight kinds of split function; fault positions seeded over calls.", "fault_enumeration")
p("C22", "The alphanumeric filter accepts exactly tokens with a letter or number",
  "The alphanumeric filter accepts a token exactly when it contains at least one code point of a Unicode letter or number category, for every byte sequence; invalid bytes never count.",
  ["inputs"], "all byte sequences, every scalar value",
  "The suites check one text.",
  ["internal/iterators/filter/filter.go"], [("scan of the token", "internal/iterators/filter/filter.go AlphaNumeric")],
  ["the filter's result"], "exhaustive runtime probing with an independent oracle", "Go's unicode and regexp tables are trusted for the categories.")
p("C23", "Generated lookup tables return exactly the mapped values",
  "For every mapping from characters to values given to the table generator, alone or with others that share its table, the code it writes compiles, and its lookup returns for every character the mapped value (zero if none) and the length of its encoding. For bytes that are no complete character it returns zero, a length of zero when the character is cut short, and never more than the bytes given.",
  ["programs", "inputs"], "all mappings, value sizes and block encodings; all characters and malformed bytes",
  "The package's test file is excluded from the build or runs no tests, and the shipped tables only show one mapping each.",
  ["internal/gen/triegen/triegen.go", "internal/gen/triegen/print.go", "internal/gen/triegen/compact.go"],
  [("block sharing by hash", "internal/gen/triegen/triegen.go computeOffsets"), ("templates", "internal/gen/triegen/print.go")],
  ["compiled output of the generator"], "runtime monitor of compiled generator output over random mappings", "Each mapping is checked for all code points and seeded malformed bytes; mappings are seeded.")
p("C24", "Regenerating from Unicode data yields tokenizers that follow that data",
  "Running the code generator against any data files of the form that Unicode publishes yields tables with which all four tokenizers classify every code point as those files say, and test files that contain exactly the served break tests. The output is the same on every run.",
  ["programs", "inputs"], "all well-formed data files: the real ones and variants of them",
  "The generator needs the network, so nothing tests it; errors would only show after the next Unicode update.",
  ["internal/gen/main.go", "internal/gen/triegen/triegen.go"],
  [("parsing, union of properties, output", "internal/gen/main.go generateTrie, generateTests, writeTrie")],
  ["the generated files, compiled into the tokenizers"], "end-to-end runs of the generator on served data, monitored through the rebuilt tokenizers",
  "The data is served by a stand-in for the HTTP transport; the rebuilt tokenizers are judged by the monitors of C05, C01-C04 and C17 with the same data.")
p("C25", "The shared generic iterator obeys its split function",
  "The generic iterator cuts exactly where the advances its split function returns say (it may return a single last byte without asking), First asks it without moving, and Reset and a new text start over. An error, a zero or negative advance, or an advance beyond the data makes it panic at that call.",
  ["inputs", "fault_sequences"], "all split functions, all texts, a fault at any call",
  "The suites run one well-behaved split function and a few faulty ones at the first call.",
  ["internal/iterators/iterator.go"], [("validation of advance and error", "internal/iterators/iterator.go Next, First")],
  ["calls received by the split function; tokens; panics"], "recording and fault-injecting split functions with an online checker", "Eight kinds of split function; fault positions seeded over calls.", "fault_enumeration")

p("C26", "Nothing is kept of what is no longer used",
  "The library keeps no reference to a text, joiners, split function, reader or buffer once the iterator or scanner that used it is gone or has been given another one, and its functions keep none at all. However many texts a process works through, the memory held and the number of goroutines do not grow.",
  ["inputs", "histories"], "all uses of all entry points, any number of texts",
  "No test looks at memory after use; a cache, a registry or a field that remembers the last text changes no token.",
  allf(IT, RD) + ["words/joiners.go", "words/bleve_compat.go", "internal/iterators/iterator.go", "internal/iterators/filter/filter.go"],
  [("fields of iterators", "*/iterator.go SetText, Split"), ("closures", "words/joiners.go, words/reader.go Joiners")],
  ["weak pointers after garbage collection", "live heap", "number of goroutines"], "garbage-collection monitor: weak pointers to everything handed in, live heap over many texts",
  "Weak pointers are exact about reachability; growth of less than half a byte per text is not told from noise.")

SKIP = set(os.environ.get("SKIP", "").split())
P = [x for x in P if x["id"] not in SKIP]
with open(f"{V}/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
M = dict(version=1, setup_cmd="./run.sh setup", checks=[dict(property=x["id"], quick_cmd=f"./run.sh {x['id']}",
    thorough_cmd=f"VERIF_TIER=thorough ./run.sh {x['id']}", evidence_file=f"evidence/{x['id']}.json", technique=x["_t"], level=x["_l"], level_note=x["_n"]) for x in P],
    not_applicable=[], notes="No hooks in /repo: the checks are black-box, or instrument a copy of the source through a build overlay (C19).")
json.dump(M, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
