#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that anchors stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Bulk run equals feeding the bytes one at a time, for any alignment or split",
 "For every scanner type, start state and memory range [begin,end), Run() leaves the state that feeding the same bytes one by one with Step() leaves, whatever the alignment of begin and end and the length of the range, including the empty one. Consequently splitting a text at any points and running the pieces in sequence gives the same result as one run, bytes >= 0x80 are treated as unsigned, and no byte outside the range influences the result. Running two scanners at once, or a scanner pair, gives each of them exactly the state it would reach alone.",
 ["inputs", "histories"],
 "all byte ranges of any length, content and alignment, all states, all scanner tables, all ways of splitting the text",
 "Tests run a few dozen short literal strings at whatever alignment the allocator gives; head/word/tail handling has 8x8 alignment classes times unbounded length.",
 ["pire/run.h", "pire/scanners/multi.h", "pire/scanners/pair.h", "pire/scanners/slow.h", "pire/platform.h"],
 [("Step", "pire/run.h"), ("SafeRunChunk/RunChunk", "pire/run.h"), ("AlignedRunner::RunAligned", "pire/run.h, pire/scanners/multi.h"), ("DoRun/Run", "pire/run.h"), ("ScannerPair", "pire/scanners/pair.h")],
 [("state", "scanner state passed by reference", "Scanner::State")],
 ["state after Run()", "Final()/AcceptedRegexps() of that state"])

prop("C02", "Fast-forward shortcuts never skip a byte that could change the state",
 "A scanner with shortcuts skips ahead only over bytes that leave the current state unchanged: the per-state exit information it builds covers every byte on which the state has a transition elsewhere. Hence scanners with any number of exit masks (including none and the non-relocatable variant) reach the same state as each other on every text, at any position of the interesting byte within a word or a block, and they never read memory outside the words that the text touches.",
 ["inputs", "configurations"],
 "all transition tables, all states, all words and word sequences, all alignments, both mask word sizes",
 "Tests that use shortcuts check a handful of texts; soundness concerns every state of every table against all 2^64 words and every offset inside a 16-byte block.",
 ["pire/scanners/multi.h", "pire/platform.h"],
 [("ExitMasks::BuildShortcuts/FinishBuild", "pire/scanners/multi.h"), ("CheckBytes/FillSizeT/ToMaxSizeWord", "pire/platform.h"), ("MaskChecker", "pire/scanners/multi.h"), ("AlignedRunner<Scanner>::RunAligned", "pire/scanners/multi.h")],
 [("ExitMasks", "bytes that leave a state, replicated to a word", "ExtendedRowHeader")],
 ["state after Run() compared with the mask-free scanner"])

prop("C03", "Prefix and suffix searches return the exact longest or shortest position",
 "LongestPrefix returns the end of the longest prefix of the text, the empty one included, after which the scanner is in a final state, and null if there is none; ShortestPrefix returns the shortest such prefix; LongestSuffix and ShortestSuffix do the same on the text read backwards from rbegin. The begin and end marks, when requested, are fed before and after the text, and the mark after the text can only add the whole text as an answer (for the shortest search only when nothing shorter was found). The answers do not depend on alignment, length, shortcuts, or early exit through dead states.",
 ["inputs", "configurations"],
 "all scanners whose dead flag is sound, all texts, lengths and alignments, both mark settings",
 "Tests check about a dozen literal (pattern, text) pairs shorter than one machine word; the position reported depends on chunk boundaries, shortcut skips and early stops.",
 ["pire/run.h", "pire/scanners/multi.h"],
 [("LongestPrefixPred/ShortestPrefixPred", "pire/run.h"), ("LongestPrefix/ShortestPrefix", "pire/run.h"), ("LongestSuffix/ShortestSuffix", "pire/run.h"), ("RunAligned with a predicate", "pire/scanners/multi.h")],
 [], ["returned pointer"])

prop("C04", "Compiled tables encode exactly the automaton they were built from",
 "For every deterministic automaton, compiling it into a scanner, simple scanner or loaded scanner yields tables in which, for every state and every character including the begin/end/approximation marks, the next state, the final flag, the dead flag and the list of accepted regexp numbers are those of the automaton. Writing one state's row, header or final list never disturbs another state's, and all table regions lie inside the allocated buffer without overlapping, for every size.",
 ["inputs", "programs"],
 "all state counts, letter class counts, transition targets and final sets within the representable range; all states and characters",
 "Tests only observe match results of small patterns; layout arithmetic and signed 32-bit relative shifts depend on table sizes that tests never vary systematically.",
 ["pire/scanners/multi.h", "pire/scanners/simple.h", "pire/scanners/loaded.h", "pire/scanners/common.h", "pire/fsm.h"],
 [("Scanner::SetJump/Next/Go/Diff", "pire/scanners/multi.h"), ("BufSize/Markup/RowSize/Init", "pire/scanners/multi.h"), ("SetTag/SetInitial/FinishBuild/AcceptedRegexps", "pire/scanners/multi.h"), ("SimpleScanner::SetJump/Next", "pire/scanners/simple.h"), ("LoadedScanner::SetJump/Next", "pire/scanners/loaded.h"), ("BuildScanner", "pire/fsm.h")],
 [("transition table", "row per state: header then one entry per letter class", "Scanner::m_transitions")],
 ["Next()", "Final()", "Dead()", "AcceptedRegexps()"])

prop("C05", "Copying, swapping, moving and converting a scanner preserves its behaviour",
 "A copy, a move, an assignment, or a conversion between relocatable and non-relocatable representation of a scanner behaves like the original on every state and character (next state, flags, accepted regexps, initial state), and remains so after the original is changed or destroyed unless it was mapped from user memory. Swapping two scanners exchanges their behaviour completely, and copying never modifies the source.",
 ["inputs", "histories"],
 "all scanners (compiled, empty, mapped, glued), all states and characters, all sequences of copy/assign/swap/destroy",
 "Tests copy one or two scanners; correctness of the table translation depends on both representations' header sizes and on every table entry.",
 ["pire/scanners/multi.h", "pire/scanners/simple.h", "pire/scanners/loaded.h", "pire/scanners/slow.h"],
 [("Scanner::DeepCopy/Alias/Swap/operator=", "pire/scanners/multi.h"), ("SimpleScanner copy/Swap", "pire/scanners/simple.h"), ("LoadedScanner copy/Swap", "pire/scanners/loaded.h"), ("SlowScanner copy/Swap", "pire/scanners/slow.h")],
 [], ["Next()/Final()/Dead()/AcceptedRegexps() of the copy", "source object unchanged"])

prop("C06", "Saved scanners load and map back equivalent; bad or truncated data is rejected",
 "Saving any scanner and loading the bytes back, or mapping a word-aligned copy of them, gives a scanner with the same behaviour and consumes exactly the bytes saved, so that several scanners can be stored one after another. Data whose header does not match (magic, version, pointer or word size, scanner kind, relocation or shortcut type) is rejected with an exception. Data truncated at any byte is rejected with an exception, never read beyond its end, and the target object keeps its previous behaviour.",
 ["inputs", "fault_sequences", "crash_points"],
 "all scanners of every kind, every truncation length, every single header corruption, every alignment of consecutive records",
 "Tests save and restore a few patterns and check a few size errors; truncation points and header fields form a large product.",
 ["pire/scanner_io.cpp", "pire/scanners/common.h", "pire/align.h", "pire/scanners/multi.h", "pire/scanners/simple.h", "pire/scanners/slow.h", "pire/scanners/loaded.h", "pire/stub/saveload.h", "pire/stub/memstreams.h"],
 [("Scanner::Save/Load", "pire/scanner_io.cpp"), ("Mmap", "pire/scanners/*.h"), ("Header/ValidateHeader/MapPtr/AdvancePtr/AlignPtr", "pire/scanners/common.h, pire/align.h")],
 [("Header", "magic, version, ptr size, max word size, type, locals size", "pire/scanners/common.h")],
 ["loaded scanner behaviour", "pointer returned by Mmap", "exception"])

prop("C07", "Automaton operations compute the corresponding language operations",
 "Concatenation, union, intersection, complement, Kleene star, repetition, surrounding, reversal, prefix/suffix/any-continuation closure and appending of characters, alternatives, dots or special marks on automata yield exactly the language that the operation denotes, for every pair of operand automata including empty, nondeterministic, epsilon-containing, multi-final and self-looping ones. Operands other than the modified one are unchanged, and applying an operator to an object and itself is the same as applying it to a copy.",
 ["programs", "inputs"],
 "all operand automata (any number of states, transitions and finals), all words",
 "Tests check a few dozen regexps end to end; an algebraic law over all automata and all words cannot be sampled.",
 ["pire/fsm.cpp", "pire/fsm.h"],
 [("Fsm::operator+=, |=, &=, Iterate, Complement, operator*, Reverse, MakePrefix, MakeSuffix, PrependAnything, AppendAnything, AppendDot, Append, AppendStrings, Import, ConnectFinal, Connect", "pire/fsm.cpp")],
 [("m_transitions", "state x letter -> set of states", "Fsm"), ("m_final", "set of final states", "Fsm"), ("initial", "initial state", "Fsm")],
 ["language accepted by the result, via any compiled scanner"])

prop("C08", "Determinization preserves the language and yields a deterministic automaton",
 "Determinizing any automaton, with epsilon transitions or without, yields an automaton in which every state has at most one successor for each letter and which accepts exactly the same words; outputs attached to transitions are combined, not lost. When the size limit is exceeded the call reports failure and the automaton still accepts the same language as before.",
 ["programs", "inputs"],
 "all automata, all words, all size limits",
 "Tests determinize the automata of particular regexps and check a few words.",
 ["pire/determine.h", "pire/fsm.cpp"],
 [("Determine", "pire/determine.h"), ("FsmDetermineTask", "pire/fsm.cpp"), ("Fsm::RemoveEpsilons/EpsClosure/MergeEpsilonConnection", "pire/fsm.cpp")],
 [], ["language of the result", "IsDetermined()", "return value"])

prop("C09", "Minimization preserves the language, final sets, outputs and dead states",
 "Minimizing a deterministic automaton gives one that accepts the same words with the same outputs and tags, and no two of its states are equivalent. The result does not depend on state numbering up to renaming.",
 ["programs", "inputs"],
 "all deterministic automata, all words",
 "Tests check a few state counts of minimized regexps; equivalence of every pair of states on all words is not sampled.",
 ["pire/minimize.h", "pire/fsm.cpp"],
 [("Minimize/Refine", "pire/minimize.h"), ("FsmMinimizeTask", "pire/fsm.cpp"), ("Fsm::Minimize", "pire/fsm.cpp")],
 [], ["language and size of the result"])

prop("C10", "Letter classes partition the alphabet and merge only equivalent characters",
 "After any sequence of insertions, the letter partition contains each inserted character in exactly one class, two characters share a class exactly when the equivalence relation in use holds between them, class numbers are consecutive from zero, and the representative lookup returns a member of the same class. Automaton canonization therefore never conflates two characters on which some state behaves differently.",
 ["inputs", "histories"],
 "all sequences of insertions, all characters including marks and epsilon, all equivalence relations, all automata",
 "Tests do not address the partition directly; patterns used touch few classes.",
 ["pire/partition.h", "pire/fsm.cpp", "pire/fsm.h"],
 [("Partition::Append/Representative/Index/Klass/Split", "pire/partition.h"), ("Fsm::Sparse/Unsparse", "pire/fsm.cpp"), ("LettersEquality", "pire/fsm.h, pire/glue.h")],
 [("m_set", "representative -> (class number, members)", "Partition"), ("m_inv", "character -> representative", "Partition")],
 ["Representative()/Index()/Contains()", "scanner's letter table"])

prop("C11", "Gluing scanners reports exactly what each scanner would report alone",
 "Gluing two scanners gives a scanner whose accepted regexp numbers after any text are the first scanner's numbers followed by the second's shifted by the number of regexps in the first, in any nesting order; it is final exactly when one of the parts is, and dead exactly when both are. Gluing with an empty scanner returns the other one, and if the size limit would be exceeded the result is empty rather than wrong.",
 ["programs", "inputs"],
 "all scanner pairs and glue trees, all texts, all size limits",
 "Tests glue about five patterns and check about ten texts; pairs of states and class interaction are a product space.",
 ["pire/glue.h", "pire/scanners/multi.h"],
 [("ScannerGlueCommon/LettersEquality", "pire/glue.h"), ("ScannerGlueTask::AcceptStates/Finish/Next/IsRequired", "pire/scanners/multi.h"), ("GluedStateLookupTable", "pire/glue.h"), ("Scanner::Glue", "pire/scanners/multi.h")],
 [("m_final/m_finalIndex", "accepted regexp lists", "Scanner")],
 ["AcceptedRegexps()", "Empty()", "Final()/Dead()"])

prop("C12", "Counting scanners count as their step-by-step counter semantics says",
 "For every table and every text, each counting scanner's reported value for each regexp is that obtained by applying, character by character, the increments and resets its transitions prescribe: an increment bumps the current counter, a reset records the maximum and clears the current one, and regexps do not interfere with each other. Result() is the maximum of the best and current counters, and glued counting scanners report for each part what it would report alone.",
 ["inputs", "programs", "histories"],
 "all action masks, all counter values below overflow, all interleavings of increments and resets, all glued tables",
 "Tests count a few patterns in a few texts; the masks and lazily reset counters depend on the whole history.",
 ["pire/extra/count.h", "pire/extra/count.cpp"],
 [("IncrementPerformer/ResetPerformer", "pire/extra/count.h"), ("BaseCountingScanner::TakeAction/Initialize", "pire/extra/count.h"), ("AdvancedCountingScanner/NoGlueLimitCountingScanner", "pire/extra/count.h, pire/extra/count.cpp"), ("CountingScannerGlueTask", "pire/extra/count.cpp")],
 [("m_current/m_total/m_updatedMask", "counters of each regexp", "CountingState")],
 ["State::Result(i)"])

prop("C13", "Capturing scanner's begin/end positions track its actions exactly",
 "For every transition history the capturing scanner's counter equals the number of characters consumed (marks included), a begin action records the position as long as the capture is not finished, an end action records the end position, and Captured() holds exactly when both are recorded; from then on neither position changes. Positions never exceed the number of characters consumed.",
 ["inputs", "histories"],
 "all sequences of actions and characters",
 "Tests capture in a handful of strings.",
 ["pire/extra/capture.h", "pire/extra/capture.cpp", "pire/scanners/loaded.h"],
 [("CapturingScanner::TakeAction/Next/Initialize", "pire/extra/capture.h"), ("State::Captured/Begin/End", "pire/extra/capture.h")],
 [("m_begin/m_end/m_counter", "captured range, 1-based", "CapturingScanner::State")],
 ["Captured()", "Begin()", "End()"])

prop("C14", "UTF-8 encoding and decoding are exact inverses and reject ill-formed input",
 "Encoding any Unicode code point and decoding the bytes gives the code point back and consumes exactly those bytes; decoding never reads past the end of the given range, and bytes that are not a well-formed sequence (a lead byte followed by exactly its continuation bytes; overlong forms are taken as they stand) cause an exception instead of a wrong character. The dot automaton in UTF-8 mode accepts exactly one encoded character at a time.",
 ["inputs"],
 "all code points, all byte sequences and lengths",
 "Tests decode a few Cyrillic strings.",
 ["pire/encoding.cpp", "pire/encoding.h", "pire/stub/utf8.h", "pire/stub/unidata_h.h"],
 [("Utf8::FromLocal/ToLocal", "pire/encoding.cpp"), ("utf8_read_rune/utf8_put_rune", "pire/stub"), ("Utf8::AppendDot", "pire/encoding.cpp")],
 [], ["returned code point and consumed length", "exception"])

prop("C16", "Approximate matching accepts exactly the words within the edit distance",
 "For every automaton and distance k, the approximate automaton accepts every word that some word of the original language can be turned into by at most k single-character insertions, deletions or substitutions, and no word that cannot be made by at most k such edits or swaps of two adjacent characters; distance zero leaves the language unchanged.",
 ["programs", "inputs"],
 "all automata, all distances, all words",
 "Tests check a dozen literals at distances 1 to 2.",
 ["pire/approx_matching.cpp", "pire/approx_matching.h"],
 [("CreateApproxFsm", "pire/approx_matching.cpp")],
 [], ["language of the compiled scanner"])

prop("C17", "Half-final scanners count matches as the number of times a match was seen",
 "For every automaton and text, after any prefix of the text, each regexp's result in a half-final scanner equals the number of prefixes of the text (as configured: greedy or not) at which that regexp had just matched, with simultaneous matches counted with their multiplicity. Gluing keeps the counts of the parts.",
 ["inputs", "programs", "histories"],
 "all automata, all texts, all glued combinations",
 "Tests count a few patterns in short texts.",
 ["pire/scanners/half_final.h", "pire/half_final_fsm.h", "pire/half_final_fsm.cpp"],
 [("HalfFinalScanner::TakeAction/Next/Glue", "pire/scanners/half_final.h"), ("HalfFinalFsm", "pire/half_final_fsm.cpp")],
 [("MatchedRegexps", "counts", "HalfFinalScanner::State")],
 ["State::Result(i)"])

prop("C19", "The nondeterministic scanner's state is exactly the set of reachable states",
 "After any text the slow scanner's state contains exactly the automaton states reachable from the initial one by that text, it is final exactly when one of them is final, and its bit sets behave as mathematical sets for every size. It therefore accepts the same words as the deterministic scanners compiled from the same automaton.",
 ["inputs", "programs"],
 "all automata, all texts, all bit set sizes including multiples of the word size",
 "Tests run a few patterns; bit set word boundaries and transition list layout depend on state count.",
 ["pire/scanners/slow.h", "pire/vbitset.h"],
 [("SlowScanner::Next/NextTranslated/Initialize/Final/TakeAction", "pire/scanners/slow.h"), ("BitSet", "pire/vbitset.h"), ("SlowScanner(Fsm&)", "pire/scanners/slow.h")],
 [("flags/states", "duplicate-free list and membership bits", "SlowScanner::State")],
 ["Final()", "state contents"])

prop("C20", "A state is flagged dead exactly when no final state is reachable from it",
 "The set of dead states computed for any automaton is exactly the set of states from which no final state is reachable or which are not themselves reachable from the initial state (as the header documents), and a compiled scanner in a dead state never becomes final on any continuation including marks.",
 ["programs", "inputs"],
 "all automata, all continuations",
 "Tests observe dead states only through a few prefix searches.",
 ["pire/fsm.cpp", "pire/fsm.h", "pire/scanners/multi.h", "pire/glue.h"],
 [("Fsm::DeadStates/RemoveDeadEnds", "pire/fsm.cpp"), ("BuildScanner tag setting", "pire/fsm.h"), ("ScannerGlueTask dead flag", "pire/scanners/multi.h")],
 [], ["Dead()"])

prop("C15", "Lexer turns pattern text into tokens exactly as the syntax defines",
 "For every pattern, escapes, character ranges, negated and predefined classes, repetition counts and operators become exactly the tokens the syntax prescribes, every character of the pattern is consumed once, and malformed patterns raise an error rather than being misread.",
 ["inputs"],
 "all pattern strings in every encoding and feature set",
 "Tests parse some tens of patterns.",
 ["pire/re_lexer.cpp", "pire/re_lexer.h", "pire/read_unicode.cpp"],
 [("Lexer::DoLex/Lex", "pire/re_lexer.cpp"), ("CharacterRangeReader/RepetitionCountReader/UnicodeReader", "pire/re_lexer.h, pire/read_unicode.cpp")],
 [], ["token stream", "Error"])

prop("C18", "Case-insensitive and glyph features accept exactly the folded language",
 "With the case-insensitive feature a pattern accepts a text if and only if some case variant of the text, letter by letter, is accepted without the feature; with the glyph feature the same holds for look-alike letters. Features leave all other characters, repetition operators and marks alone.",
 ["inputs", "configurations"],
 "all patterns, all texts, all encodings",
 "Tests check a dozen words.",
 ["pire/re_lexer.cpp", "pire/extra/glyphs.cpp", "pire/classes.cpp"],
 [("CaseInsensitiveImpl::Alter", "pire/re_lexer.cpp"), ("GlueSimilarGlyphsImpl::Alter", "pire/extra/glyphs.cpp"), ("CharClassesImpl", "pire/classes.cpp")],
 [], ["language of the compiled scanner"])

prop("C21", "A parsed pattern denotes the language the documented syntax gives it",
 "For every well-formed pattern the automaton obtained by parsing it accepts exactly the words the documented operator precedences and meanings prescribe, and every ill-formed pattern is rejected with an error.",
 ["inputs"],
 "all patterns and all words",
 "Tests check some tens of patterns against a few words each.",
 ["pire/re_parser.y", "pire/re_lexer.cpp", "pire/fsm.cpp"],
 [("yyparse actions", "pire/re_parser.y"), ("AppendRange/ConvertToFSM", "pire/re_parser.y")],
 [], ["language of the compiled scanner", "Error"])

prop("C22", "Compile-time inlined patterns behave as the same patterns built at run time",
 "A scanner produced by the pire_inline tool from a pattern in a source file behaves on every text exactly like the scanner built at run time from that pattern with the same options.",
 ["inputs", "configurations"],
 "all patterns, option strings and texts",
 "Tests inline a few patterns.",
 ["pire/inline.lpp"],
 [("lex rules and code generation", "pire/inline.lpp")],
 [], ["generated source", "scanner behaviour"])

P.sort(key=lambda p: p["id"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
