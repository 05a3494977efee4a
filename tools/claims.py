CLAIMS = {
 "C01": "Run()/DoRun/SafeRunChunk/RunChunk/AlignedRunner, ScannerPair, RunHelper, Runner, Matches: every obligation discharged for an arbitrary scanner, every alignment, unbounded length. Assumed: the scanner's methods are functions of (state, argument).",
 "C03": "LongestPrefix/ShortestPrefix/LongestSuffix/ShortestSuffix: every obligation discharged for an arbitrary scanner with sound dead flags, all alignments, all mark flags, unbounded length; induction lemmas discharged separately.",
 "C02": "MaskChecker, CheckBytes, the mask-driven RunAligned for every number of exit masks, both relocation variants: every obligation discharged for arbitrary masks that satisfy the mask invariant (NoExit/mask bytes cover every leaving byte), every text length and alignment. BuildShortcuts, which establishes that invariant from the table, is checked by the bounded stand-in (labelled), not by proof.",
 "C14": "utf8_read_rune/utf8_put_rune/round trip/lengths, Utf8 and Latin1 FromLocal/ToLocal/AppendDot: every obligation discharged for all inputs. Assumed: std::string's contracts and the Fsm editing methods' contracts (C07).",
 "C12": "CountingScanner, AdvancedCountingScanner, NoGlueLimitCountingScanner: TakeAction/Initialize/Next/Result, the performers for every register width, the glue task's action merge: every obligation discharged for arbitrary tables, states and actions. Harness exercises whole texts and gluing as a bounded complement.",
 "C13": "CapturingScanner: Initialize/TakeAction/Next/Captured/Begin/End: every obligation discharged for arbitrary tables, states and characters.",
 "C19": "SlowScanner Initialize/Next/NextTranslated (in memory and mapped)/Run/Final/CanStop/AcceptedRegexps and BitSet construction/Set/Reset/Test/Resize/Clear/Swap: every obligation discharged for arbitrary automata, states, letters and sizes. Assumed: the table invariants that the constructor establishes (C04) and std::vector's contracts.",
 "C04": "Scanner (all four variants), SimpleScanner, LoadedScanner: RowSize/BufSize/Markup layout, SetJump/SetTag/SetInitial with their frames, Next/Final/Dead/AcceptedRegexps/StateIndex, FinishBuild's final lists: every obligation discharged for arbitrary tables and sizes. BuildScanner's loop over the automaton and Init's letter table are covered by the bounded stand-in.",
 "C17": "HalfFinalScanner Initialize/TakeAction/Next/Final/Dead/StateIndex/Result/GetMatchedRegexpsIds/BuildFinals, HalfFinalFsm GetCount/GetTotalCount: every obligation discharged for arbitrary tables, states, lists and automata. The constructions MakeScanner/MakeNonGreedyCounter/MakeGreedyCounter and Glue are covered by the bounded stand-in.",
"C05": "Swap, Alias, copy and move constructors, conversion between relocations, DeepCopy (entries, classes, flags, final lists, initial state), the flat copies of SimpleScanner and LoadedScanner: every obligation discharged for two arbitrary objects of every variant. Assumed: the layout of C04, row lemmas. Bounded: SlowScanner's copy, histories of operations, assignment.",
"C06": "Header validation, AdvancePtr/AlignPtr/CheckAlign/MapPtr, aligned arrays, Save/Load/Mmap of Scanner, ScannerNoMask, SimpleScanner and LoadedScanner: the exact bytes written, exactly which data is accepted, what is consumed, the target untouched on every throw; every obligation discharged for arbitrary objects and arbitrary data. Assumed: std::istream/ostream contracts, BufSize/Markup (C04), stored sizes in the representable range. Bounded: SlowScanner and the derived scanners, sequences of stored scanners.",
"C11": "Gluing: joint step, joint letter equality, Shift, AcceptStates (lists, indices, flags of every joint state), the bounded hash table (Search/find/insert and why it is a map), Glue's limits and empty parts: every obligation discharged for arbitrary parts. The enumeration Impl::Determine<Task> is proved for an arbitrary task. Bounded: Partition's joint classes, BuildShortcuts.",
"C07": "Automaton operations: Connect/Disconnect/Connected/SetFinal/IsFinal/ConnectFinal exactly, and the transition relation, finals and start that +=, |= (all union heuristics), Append, AppendSpecial, AppendDot, Iterate, Complement, Prepend/AppendAnything, MakePrefix, MakeSuffix leave, &=, *, *=, +, |, &, ~, Surround by their laws, alias cases, operands untouched: every obligation discharged for arbitrary automata. Bounded: Import's renumbering, Reverse, AppendStrings; that the relations denote the languages (harness).",
"C20": "BuildScanner: every state of every automaton gets its final and dead flag, every transition and action, for four scanner types; a glued state is dead only when every part is: every obligation discharged for arbitrary automata. Bounded: the graph search DeadStates itself, against reachability on random automata.",
"C10": "Partition Append/Representative/Contains/Index/Klass for an arbitrary equivalence and arbitrary partitions, the relation of an automaton's characters (equal exactly when every state goes to the same states), Sparse: every obligation discharged. Bounded: Partition::Split, Unsparse, classes of glued and compiled scanners.",
"C08": "Determine (what it returns, when the automaton is replaced, kept or left alone, the limit), the enumeration Impl::Determine<Task> (each reachable state once, every transition told, the limit), the subset construction's Initial, Next (exactly the set of successors, sorted, each once), IsRequired, TerminalStates and AcceptStates (finals, tags, self-loops of terminals) and Success (exactly the outputs on transitions remain): every obligation discharged for arbitrary automata and sets. Bounded: outputs in AcceptStates, RemoveEpsilons.",
"C09": "Minimize (when the output is taken) and AcceptStates: the quotient by the classes has exactly the transitions, finals, tags and outputs of its classes' states, their start and letters: every obligation discharged for arbitrary automata and classes. Bounded: the partition refinement Impl::Minimize<Task> and the first partition (languages, payload and pairwise inequivalence compared).",
}
NA = {
"C15": "The lexer is a hand-written recursive scanner over deques of wide characters, Any-typed tokens and virtual features; 'exactly as the syntax defines' has no machine-checkable form other than a second lexer, and the code (virtual dispatch, exceptions through std::deque/std::set/Any) is outside the subset the verifier reads.",
"C16": "Fsm construction by layers with nonlinear index arithmetic (layer * size + state) and a meaning (edit distance to a language) that is an induction over alignments of words; no contract within reach expresses it. A genuine defect found by the exploratory harness was repaired (7650159).",
"C18": "The features act on lexer tokens (Term holding Any with sets of character strings) through virtual calls and static look-up tables of Unicode case/glyph pairs: data whose correctness is a fact about Unicode, not about the code, and code outside the subset the verifier reads.",
"C21": "The parser is a yacc grammar: the generated table-driven code has no function whose contract is 'the documented syntax', and the meaning of a pattern is defined by that grammar alone. The automaton operations its actions call are decided by C07.",
"C22": "pire_inline is a lex-generated preprocessor program: the property relates two runs of the tool chain (generated C++ source text compiled later), not a function under contract. The serialization it relies on is decided by C06.",
}
