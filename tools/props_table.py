LEXNOTE = " Sampled, not exhaustive: random grammars of bounded size over small alphabets plus realistic templates, random inputs up to ~40 symbols. Trusts the harness's own ATN serializer and reference lexer."
prop("C01", "Lexer produces the maximal-munch, first-rule tokenization",
 "For every lexer grammar and every input, the lexer splits the input from left to right into tokens such that each token is the longest prefix matched by any rule of the current mode, ties going to the rule listed first, with non-greedy operators ending at the earliest point their rule allows. The token stream ends with exactly one EOF token, and no input symbol is skipped or duplicated unless a rule or an error says so.",
 ["inputs","programs"], "for every lexer grammar (fragments, sets, ranges, wildcards, negation, greedy and non-greedy loops, EOF in rules) and every input text",
 "tests run a handful of fixed grammars on one or two inputs each; the claim ranges over all grammars and texts and depends on closure order, cut-off of lower-priority configurations, and surrogate or non-ASCII symbols they never reach",
 ["src/lexer.rs","src/lexer_atn_simulator.rs","src/atn_config_set.rs","src/transition.rs","src/interval_set.rs"],
 [("closure and reach set computation with priority cut-off","src/lexer_atn_simulator.rs get_reachable_config_set/closure"),("longest-accept capture and rewind","src/lexer_atn_simulator.rs capture_sim_state/fail_or_accept")],
 ["token type, start, stop and text of every token returned by the lexer"],
 "Generated grammars are compiled to serialized ATNs and run through the real lexer; every token compared with a set-of-positions reference lexer." + LEXNOTE)
prop("C02", "Lexer commands, actions and modes take effect per matched token",
 "For every grammar, the commands and embedded actions of exactly the rule path that won a match run, in their written order and at the written input position, once per match: skip and more suppress or extend tokens, type and channel set the emitted token's fields, mode/pushMode/popMode select the rules for the following tokens. Actions of losing rules or of abandoned longer attempts never run.",
 ["inputs","programs","histories"], "for every grammar with commands and custom actions anywhere in a rule, every input, and every sequence of mode changes",
 "existing tests use no custom lexer actions in the middle of tokens and one mode; the order, position and once-only execution depend on the whole match history",
 ["src/lexer.rs","src/lexer_action.rs","src/lexer_action_executor.rs","src/lexer_atn_simulator.rs"],
 [("action executor carried by lexer configurations","src/lexer_action_executor.rs"),("mode stack and token assembly loop","src/lexer.rs next_token")],
 ["sequence of custom action calls with input position","type/channel/text of tokens","mode and mode stack after each token"],
 "The reference lexer also predicts the action trace, mode stack and token fields after every token." + LEXNOTE)
prop("C03", "Tokens carry exact offsets, line, column and source text",
 "For every input, every token's start and stop index, line and column equal the position of its first and last symbol in the input counted independently, its text equals exactly that slice of the input (unless an action overrode it), it has no token index until a stream numbers it, and consecutive tokens without skipped text tile the input. A line or column the host sets between tokens carries over to everything after it. This holds for every kind of character stream and every token factory, for multi-byte characters and for empty tokens.",
 ["inputs","configurations"], "for every input text including multi-byte, newline-heavy and empty ones, each input stream type and each token factory",
 "tests only check ASCII inputs through one stream type and one factory",
 ["src/lexer.rs","src/lexer_atn_simulator.rs","src/token_factory.rs","src/token.rs","src/input_stream.rs"],
 [("line/column tracking on consume","src/lexer_atn_simulator.rs consume"),("token creation from stream slices","src/token_factory.rs create")],
 ["token start/stop/line/column/text/channel/index"],
 "Recomputes coordinates and text from the raw input for each stream/factory combination." + LEXNOTE)
prop("C04", "Lexer error recovery reports each bad symbol once and continues",
 "For every input, a stretch where no rule matches is reported to every error listener exactly once per failed attempt, with the line, column and offending text of that attempt, and printed as 'line L:C message' on standard error unless the listeners were removed; the lexer then drops one symbol and carries on, so all other text is tokenized as if lexing had started there. Lexing always terminates with EOF and without panicking.",
 ["inputs","programs"], "for every grammar and every input with any number of unmatched symbols anywhere",
 "tests contain no input with lexical errors",
 ["src/lexer.rs","src/lexer_atn_simulator.rs","src/error_listener.rs","src/errors.rs"],
 [("notify and recover","src/lexer.rs next_token/recover/notify_listeners")],
 ["error listener calls (line, column, message)","standard error","tokens after the error"],
 "Reference lexer predicts both the tokens and the list of error reports." + LEXNOTE)
prop("C05", "Lexer results do not depend on what was lexed before",
 "For every grammar and every sequence of inputs lexed with the same shared lexer cache - fresh or warmed by any other inputs, by lexer objects used one after another or interleaved - each input yields the same tokens, actions and errors as with a brand-new cache.",
 ["histories","inputs"], "for every sequence of inputs over one shared cache, including inputs with errors, abandoned halfway, or lexed twice",
 "tests lex one input per process-wide cache; a wrong cached edge only shows after a particular earlier input",
 ["src/lexer_atn_simulator.rs","src/dfa.rs","src/dfa_state.rs","src/atn_config_set.rs"],
 [("DFA edges and states cached across tokens","src/lexer_atn_simulator.rs add_dfaedge/add_dfastate")],
 ["tokens, action traces and errors of each run in a history"],
 "Histories of lexings over one cache, each compared with the reference and with a fresh-cache run." + LEXNOTE)
prop("C06", "Lexer semantic predicates gate alternatives exactly",
 "For every lexer grammar with semantic predicates, a path is taken only if every predicate on it evaluates true at the input position where it stands, predicate results are asked for again on each use rather than remembered from earlier text, and lexing with predicates that are always true equals lexing without them.",
 ["inputs","programs","histories"], "for every placement of predicates, every predicate that depends on position or column, every input and cache history",
 "tests contain one lexer predicate on one input",
 ["src/lexer_atn_simulator.rs","src/semantic_context.rs","src/lexer.rs"],
 [("predicate evaluation during closure, suppression of cached edges","src/lexer_atn_simulator.rs evaluate_predicate / compute_target_state")],
 ["tokens and the position seen by each predicate evaluation"],
 "Reference lexer evaluates the same predicates at the same positions." + LEXNOTE)
PARNOTE = " Sampled, not exhaustive: random grammars of up to four rules (plain and left-recursive), inputs up to ~16 tokens. The parser is driven by an interpreter that makes the same calls as generated code; trusts the harness's ATN compiler, cross-checked against the ATNs the ANTLR tool generated for the repository's own test grammars."
prop("C07", "Parser accepts exactly the grammar's language and builds the specified tree",
 "For every grammar and token sequence, parsing in LL mode succeeds without error exactly when the sequence is a sentence of the grammar, and then the tree is the one obtained by always taking the lowest-numbered alternative that leads to a complete parse (greedy loops and optionals prefer continuing, non-greedy ones leaving).",
 ["inputs","programs"], "for every grammar the ANTLR tool can compile and every token sequence",
 "the tests parse a few fixed sentences of a few grammars; ALL(*) prediction (closure, context merge, full-context fallback) only matters for combinations of grammar and lookahead they never reach",
 ["src/parser_atn_simulator.rs","src/prediction_context.rs","src/prediction_mode.rs","src/atn_config_set.rs","src/parser.rs","src/ll1_analyzer.rs"],
 [("adaptive prediction","src/parser_atn_simulator.rs adaptive_predict/exec_atn/exec_atn_with_full_context"),("token matching and tree construction","src/parser.rs match_token/enter_rule/exit_rule")],
 ["errors reported","parse tree with token indices and alternative numbers","alternative returned by every prediction"],
 "Random grammars, derived and mutated sentences; verdict, tree and every prediction compared with a memoizing reference parser." + PARNOTE)
prop("C08", "Left-recursive rules follow operator precedence and associativity",
 "For every left-recursive rule, an expression is parsed into the tree given by the operators' listed order (earlier binds tighter) and their declared associativity, for binary, ternary, prefix, postfix and bracket operators, nested to any depth.",
 ["inputs","programs"], "for every table of operators and every expression over them",
 "tests check a few expressions of one grammar; precedence predicates interact with prediction caches and full-context lookahead",
 ["src/parser.rs","src/parser_atn_simulator.rs","src/semantic_context.rs","src/dfa.rs"],
 [("precedence climbing by precpred and per-precedence DFA start states","src/parser.rs precpred/push_new_recursion_context/unroll_recursion_context, src/parser_atn_simulator.rs apply_precedence_filter")],
 ["parse tree of each expression"],
 "Random operator tables; oracle is an independent precedence-climbing parser." + PARNOTE)
prop("C09", "Prediction modes agree: LL and exact-ambiguity always, SLL when it succeeds",
 "For every grammar and input, LL and LL_EXACT_AMBIG_DETECTION accept the same inputs with the same tree; SLL either reports a syntax error or gives that same result for a sentence, so two-stage parsing (SLL with bail-out, then LL) equals LL parsing.",
 ["inputs","programs","configurations"], "for every grammar, input and prediction mode",
 "tests run the default mode only",
 ["src/parser_atn_simulator.rs","src/prediction_mode.rs","src/error_strategy.rs"],
 [("conflict detection per mode","src/prediction_mode.rs has_sll_conflict_terminating_prediction/resolves_to_just_one_viable_alt")],
 ["tree and errors per mode"],
 "Each input parsed in every mode from cold caches, compared with the reference parser." + PARNOTE)
prop("C10", "The shared parser DFA cache never changes results",
 "For every sequence of parses over one decision-DFA cache (any inputs, prediction modes, error strategies, predicate outcomes), each parse of a sentence gives the same predictions, tree, errors and ambiguity reports as with empty caches; a wrong input is rejected with both.",
 ["histories","inputs","configurations"], "for every sequence of parses sharing the cache",
 "a wrong cached edge shows only after a particular earlier input, mode or predicate value; tests parse one input per cache",
 ["src/parser_atn_simulator.rs","src/dfa.rs","src/dfa_state.rs","src/atn_config_set.rs","src/prediction_context.rs"],
 [("DFA construction","src/parser_atn_simulator.rs compute_target_state/add_dfastate/add_dfaedge"),("context cache","src/prediction_context.rs PredictionContextCache")],
 ["tree, errors, predictions and reports of each parse, warm against cold"],
 "Histories of 2-7 parses over one cache, each compared with the same parse from empty caches." + PARNOTE)
prop("C12", "Default error recovery always terminates with an accounted-for parse",
 "For every grammar and every token sequence, parsing with the default error strategy returns a tree without panicking or looping, reports at least one error exactly when the input is not a sentence, reports errors at non-decreasing positions inside the input, and keeps every consumed token exactly once and in order in the tree, with tokens invented or dropped by recovery visible as error nodes. Prediction leaves the stream where it was and releases its markers.",
 ["inputs","programs","fault_sequences"], "for every grammar and every wrong input",
 "tests contain three wrong inputs; recovery sets depend on the whole rule stack and on earlier errors",
 ["src/error_strategy.rs","src/parser.rs","src/parser_atn_simulator.rs","src/atn.rs"],
 [("single-token insertion/deletion, sync and consume-until recovery","src/error_strategy.rs DefaultErrorStrategy")],
 ["reported errors","leaves of the tree","input position and markers around predictions"],
 "Damaged sentences of random grammars; invariants of the recovery checked on each." + PARNOTE)
prop("C13", "Bail-out strategy stops at the first error and only then",
 "With BailErrorStrategy, for every grammar and input, parsing succeeds exactly on sentences, and otherwise returns an error at once: at most that one error is reported, nothing is skipped, inserted or resynchronized, and no token beyond the longest prefix of the input that begins a sentence is consumed.",
 ["inputs","programs"], "for every grammar and input",
 "tests never use the bail strategy on wrong input",
 ["src/error_strategy.rs","src/parser.rs"],
 [("bail on recover/recover_inline/sync","src/error_strategy.rs BailErrorStrategy")],
 ["returned error","input position","absence of reports"],
 "Sentences and damaged sentences; oracle: reference parser and viable-prefix simulation." + PARNOTE)
prop("C14", "Parse trees are internally consistent",
 "For every parse, the tree's parent links mirror its child lists, its leaves are the on-channel tokens in input order, every node's start and stop tokens are the first and last tokens it covers (just before/at its position for empty nodes), source intervals and texts agree with the leaves, hidden tokens never appear, and the LISP rendering reflects exactly this structure. At every match during the parse the rule invocation stack lists exactly the active rules, innermost first, and a context prints as the chain of rules from itself to the root.",
 ["inputs","programs"], "for every grammar, input and placement of hidden tokens, with and without errors",
 "tests look at the printed tree of a few inputs without hidden tokens or errors",
 ["src/parser.rs","src/parser_rule_context.rs","src/tree.rs","src/trees.rs","src/common_token_stream.rs","src/utils.rs"],
 [("tree construction","src/parser.rs add_context_to_parse_tree/push_new_recursion_context/unroll_recursion_context"),("rendering","src/trees.rs string_tree")],
 ["links, intervals, texts of every node","to_string_tree"],
 "Structural invariants on every node of every generated parse." + PARNOTE)
prop("C15", "Listeners and visitors see every node exactly once in document order",
 "For every tree, the walker and visitors call enter/exit and terminal/error callbacks once per node, parents around children, in input order, and aggregate visitor results correctly; listeners attached during parsing receive properly nested enter/exit events for every rule and one event per token, all attached listeners the same events, entered in registration order and left in reverse; a listener taken off by its id is the one that was attached under that id, the others stay.",
 ["inputs","programs","configurations"], "for every grammar and input, any number of listeners, trees with errors and left recursion",
 "tests attach one listener to one small input",
 ["src/tree.rs","src/parser.rs"],
 [("listener ids","src/parser.rs add_parse_listener/remove_parse_listener/ListenerId"),("event firing","src/parser.rs trigger_enter_rule_event/trigger_exit_rule_event"),("walker and visitor","src/tree.rs ParseTreeWalker/ParseTreeVisitorCompat")],
 ["sequence of callbacks","visitor results"],
 "Expected event sequences computed from the finished tree." + PARNOTE)
prop("C16", "Parser semantic predicates gate alternatives exactly",
 "For every grammar with semantic predicates, an alternative whose predicate is false is never taken, prediction among the remaining alternatives behaves as if the excluded ones were absent, and a predicate that fails while parsing is reported as a failed predicate; predicate values are re-evaluated for every decision rather than remembered.",
 ["inputs","programs","histories"], "for every placement of predicates on left edges of alternatives, every truth assignment, every input and cache history",
 "tests contain one predicate with one value",
 ["src/parser_atn_simulator.rs","src/semantic_context.rs","src/dfa_state.rs"],
 [("predicate collection and evaluation","src/parser_atn_simulator.rs pred_transition/eval_semantic_context/get_preds_for_ambig_alts"),("and/or combination","src/semantic_context.rs")],
 ["verdict, tree and predictions"],
 "Random predicates and truth values over a shared cache; oracle: reference parser that evaluates the same predicates." + PARNOTE)
prop("C22", "Expected-token sets are exact",
 "For every ATN state, next_tokens is exactly the set of tokens that can come next inside its rule (plus epsilon if the rule can end), and get_expected_tokens is exactly the set of tokens that can come next given the chain of calling rules.",
 ["inputs","programs"], "for every state of every grammar and every call stack",
 "tests look at one or two such sets through error messages",
 ["src/ll1_analyzer.rs","src/atn.rs","src/parser.rs"],
 [("LOOK computation","src/ll1_analyzer.rs look_work"),("follow along the call stack","src/atn.rs get_expected_tokens")],
 ["token sets"],
 "Every state of random grammars, plus call stacks of real parses; oracle: exhaustive automaton walk." + PARNOTE)
prop("C23", "Ambiguity and context-sensitivity reports are truthful",
 "For every grammar and input, each report concerns the prediction in progress and a range of tokens inside the input; a context-sensitivity report names the only alternative that leads to a parse; an ambiguity report names alternatives of which the lowest is taken; in exact mode (in grammars without left recursion) ambiguities are reported exactly for the decisions and alternatives that really are ambiguous. DiagnosticErrorListener tells each report with its decision, rule, alternatives and input text.",
 ["inputs","programs","configurations"], "for every grammar and input in LL and exact mode",
 "no test observes these reports",
 ["src/parser_atn_simulator.rs","src/prediction_mode.rs","src/error_listener.rs"],
 [("conflict analysis and report calls","src/parser_atn_simulator.rs report_ambiguity/report_attempting_full_context/report_context_sensitivity")],
 ["error-listener report calls","messages of DiagnosticErrorListener"],
 "Oracle: set of alternatives leading to a complete parse at every decision, from the reference parser." + PARNOTE)
prop("C24", "Configuration that should not matter does not matter",
 "For every grammar and input, the parse result is the same with or without parse listeners, with a boxed or plain error strategy, over CommonTokenStream or UnbufferedTokenStream, with hidden tokens interspersed or not, and with generated LL(1) tests or adaptive prediction on valid input; switching tree building off changes nothing but the tree, listeners attached while parsing hear the same calls either way.",
 ["inputs","programs","configurations"], "for every grammar, input and combination of these settings",
 "tests use one configuration each",
 ["src/parser.rs","src/common_token_stream.rs","src/token_stream.rs","src/error_strategy.rs","src/error_listener.rs"],
 [("token streams","src/token_stream.rs, src/common_token_stream.rs"),("listener and tree switches","src/parser.rs")],
 ["tree, errors and final position under each configuration"],
 "Metamorphic comparison of eight configurations per input." + PARNOTE)
prop("C26", "Syntax error reports name the right token, position and expectation",
 "For every wrong input, each reported error carries the line and column of an on-channel offending token, and the standard message lists exactly the tokens that could have come (with literal or symbolic names) or the exact text whose prediction failed, up to and including the first token that no alternative could take; without listeners of its own the parser prints each as 'line L:C message' on standard error; the first error is never reported after tokens that already cannot begin a sentence have been consumed.",
 ["inputs","programs"], "for every grammar, vocabulary and wrong input",
 "tests compare three messages",
 ["src/error_strategy.rs","src/errors.rs","src/interval_set.rs","src/vocabulary.rs","src/atn.rs"],
 [("message construction","src/error_strategy.rs report_*"),("vocabulary names","src/vocabulary.rs, src/interval_set.rs to_token_string")],
 ["arguments of ErrorListener::syntax_error","standard error"],
 "Oracle: message text computed from the automaton and the token stream." + PARNOTE)
prop("C27", "Default recovery repairs single tokens and resynchronizes on callers",
 "For every wrong input, at every call the default strategy does what it documents: a failed match deletes the current token if the next one is what was expected, else supplies a missing token ('<missing X>', index -1, position of the current token) if the current one can follow it and it has not just been supplied there, else fails without consuming; recover skips to the first token that can follow any active rule invocation and forces progress when it is back at the same place and state; sync at blocks and loops deletes or skips likewise; exactly one error is reported per recovery, which ends with the next match or deletion.",
 ["inputs","programs","histories"], "for every grammar, call stack and damaged input, over the whole sequence of error-strategy calls of the parse",
 "tests contain four damaged inputs and compare the printed tree of two",
 ["src/error_strategy.rs","src/parser.rs","src/atn.rs","src/ll1_analyzer.rs"],
 [("inline repair","src/error_strategy.rs single_token_deletion, single_token_insertion, get_missing_symbol"),("resynchronization","src/error_strategy.rs recover, sync, consume_until, get_error_recovery_set")],
 ["ErrorStrategy calls, their results, the stream position and the reported errors"],
 "Oracle: executable model of the documented strategy over the automaton and the real call stack, compared at every call." + PARNOTE)
prop("C28", "Recognizers look no further ahead than the decision needs",
 "For every input, a parser decision examines no token past the first at which at most one alternative is still viable, or at which all remaining alternatives have become indistinguishable (in SLL mode judged without, otherwise also with the real callers; in LL mode it is enough that the first remaining alternative is in every situation the others are in); a lexer examines no character past the first one that no rule can continue with. In particular a decision that fails or is settled early never scans to the end of the input.",
 ["inputs","programs","histories"], "for every grammar, decision, call stack, prediction mode, cache state and input",
 "tests never observe what a prediction reads; results stay right while the cost per decision becomes linear in the input",
 ["src/parser_atn_simulator.rs","src/prediction_mode.rs","src/lexer_atn_simulator.rs"],
 [("conflict detection stops SLL and LL prediction","src/prediction_mode.rs has_sll_conflict_terminating_prediction, resolves_to_just_one_viable_alt"),("unique alternative","src/parser_atn_simulator.rs compute_reach_set, exec_atn"),("lexer scan","src/lexer_atn_simulator.rs exec_atn")],
 ["positions asked of the token / character stream"],
 "Oracle: simulation of the viable alternatives over the automaton; predicates and left recursion are left out." + PARNOTE)
prop("C29", "Prediction caches keep each learned state once",
 "For every recognizer and history of inputs, the shared automata hold at most one state per set of configurations, and recognizing an input again adds no state: memory grows with the distinct lookahead situations met, not with the amount of input.",
 ["inputs","programs","histories"], "for every grammar and sequence of inputs recognized over one cache, valid or not, in every mode",
 "a cache that never finds its states again gives the same results, so no test notices until memory runs out",
 ["src/dfa.rs","src/dfa_state.rs","src/atn_config_set.rs","src/atn_config.rs","src/prediction_context.rs","src/parser_atn_simulator.rs","src/lexer_atn_simulator.rs"],
 [("state lookup by hash and equality","src/dfa.rs states_map, src/parser_atn_simulator.rs add_dfa_state, src/lexer_atn_simulator.rs add_dfastate"),("configuration equality","src/atn_config_set.rs, src/atn_config.rs, src/prediction_context.rs")],
 ["DFA::states of the shared automata after each run"],
 "Invariant over the public automata plus idempotence of a repeated run." + PARNOTE)
prop("C30", "Dumps of the decision automata show what was learned",
 "For every grammar and history of inputs, dump_dfa prints, for exactly the decisions made so far and in order, 'Decision N:' and every edge of the learned automaton once as 'from-label->to' (accepting states as ':sK=>alternative' or with their predicates, '^' where full context is needed, tokens by display name); following the printed edges along the input leads to the alternative each prediction chose. A lexer automaton's dump leads along every token's text to that token's type.",
 ["inputs","programs","histories"], "for every grammar, with or without predicates, left recursion and full-context decisions, and every sequence of inputs",
 "no test looks at a dump",
 ["src/dfa_serializer.rs","src/dfa.rs","src/parser.rs","src/dfa_state.rs","src/semantic_context.rs"],
 [("rendering of states and edges","src/dfa_serializer.rs fmt/get_state_string"),("dump of all decisions","src/parser.rs dump_dfa, src/dfa.rs to_string/to_lexer_string")],
 ["standard output of dump_dfa","DFA::to_lexer_string"],
 "Line by line against the public fields of the automata, and read as automata against the predictions recorded." + PARNOTE)
prop("C25", "Generated recognizers deliver what their grammars define",
 "For every input, a recognizer generated with the bundled template yields the tokens its lexer grammar defines and a tree whose contexts are the variants of the matched rules and labelled alternatives; typed accessors (child, indexed child, all children, token, label, list label, start, stop, parent) return exactly the matching children, embedded actions and return values compute their results, listeners and visitors get the method of each context, and all token and stream types give the same outcome; damaged input ends with reports and a consistent tree, never a panic.",
 ["inputs","configurations"], "for every text, well-formed or damaged, fed to any of the generated recognizers with any token factory, stream and strategy",
 "tests run each generated recognizer on one to three fixed texts and mostly print what they get",
 ["src/parser_rule_context.rs","src/rule_context.rs","src/tree.rs","src/parser.rs","src/token_factory.rs","templates/Rust.stg"],
 [("typed children and tokens","src/parser_rule_context.rs child_of_type/get_token/copy_from"),("event and visit dispatch","src/tree.rs"),("action and listener plumbing","src/parser.rs, src/lexer.rs")],
 ["accessors, labels and values of generated contexts, listener and visitor calls, to_string_tree"],
 "The seven recognizers the repository ships (CSV, Labels, VisitorCalc, VisitorBasic, SimpleLR, ReferenceToATN, XMLLexer) over built inputs whose tokens, tree, values and events are known by construction, and damaged ones whose tree is read node by node. A defect of the template is a known finding. Not claimed: accessors over error nodes.",
 technique="property-based testing: inputs generated together with the expected outcome (model by construction), damaged inputs judged against the returned tree, with shrinking")
DATATECH = "property-based testing: generated operation sequences against a reference model, with shrinking (stateful / model-based)"
prop("C17", "Token streams deliver the same tokens however they are navigated",
 "For every token source and every sequence of lookahead, lookbehind, consume, seek, mark and release calls, each token stream returns the token the source produced at that on-channel position, with consecutive token indexes, EOF at and beyond the end however often asked, and marks and seeks restore the exact position; buffering never changes what is seen, and the text of a token range is the concatenation of its tokens' texts.",
 ["histories","inputs"], "for every sequence of stream operations over every token list, with hidden tokens anywhere, for each kind of token stream",
 "tests consume two fixed streams front to back and never mark, seek back, or look behind over hidden tokens",
 ["src/token_stream.rs","src/common_token_stream.rs","src/int_stream.rs"],
 [("lazy fetch, window and marks","src/token_stream.rs UnbufferedTokenStream"),("on-channel navigation","src/common_token_stream.rs lt/lb/adjust_seek_index")],
 ["results of lt/la/get/index/size/text after each operation"],
 "Up to 24 operations on random token lists, each compared with a reference over the complete list. Sampled; seeks only to positions the stream can stand at, marks released last-in first-out.", technique=DATATECH)
prop("C18", "Character streams deliver exactly the input's symbols",
 "For every input and every sequence of la, consume, seek, mark, release and get_text calls, each kind of character stream returns the input's symbols in order at every offset, EOF at and beyond both ends, its size and index count the input's own units, text of an interval is exactly the symbols whose start lies in it, and no call panics or splits a multi-byte symbol.",
 ["histories","inputs","configurations"], "for every text (multi-byte, surrogate, empty), every stream representation and every operation sequence",
 "tests read short ASCII strings and one multi-byte one through a single operation order",
 ["src/input_stream.rs","src/char_stream.rs","src/int_stream.rs"],
 [("lookahead, consume and text for each data representation","src/input_stream.rs, src/char_stream.rs InputData")],
 ["results of la/index/size/get_text after each operation"],
 "Five representations, up to 20 operations each, compared with a symbol list. Sampled; seek targets are symbol boundaries.", technique=DATATECH)
prop("C19", "Interval sets and vocabularies behave as the sets and names they stand for",
 "For every sequence of operations, an interval set contains exactly the elements ordinary set algebra gives (add, union, subtraction, removal, complement, membership, minimum, size), its intervals stay sorted, disjoint and merged so equal sets look equal, its rendering lists exactly its elements; a vocabulary gives for every token type its literal, symbolic and display name with the documented fallbacks.",
 ["histories","inputs"], "for every sequence of set operations over arbitrary intervals and every vocabulary",
 "unit tests try a dozen hand-picked unions",
 ["src/interval_set.rs","src/vocabulary.rs"],
 [("interval merge and subtraction","src/interval_set.rs add_interval/subtract/complement"),("name lookup","src/vocabulary.rs")],
 ["contents, order and rendering of sets","names"],
 "Up to 20 operations on two sets compared with ordinary sets after each step; random vocabularies. Sampled, small values plus extremes.", technique=DATATECH)
prop("C20", "ATN deserialization rebuilds exactly the serialized automaton",
 "For every valid serialized ATN, the deserialized automaton has exactly the described states, rules, modes, sets, transitions, decisions and lexer actions, plus the implied edges from rule stop states, loop-back, block-end and precedence links; data with a wrong version, wrong UUID or broken invariants is refused rather than giving a wrong automaton.",
 ["inputs","programs"], "for every automaton expressible in the serialized form",
 "tests load the ATNs of seven grammars and only observe parses that use part of them",
 ["src/atn_deserializer.rs","src/atn.rs","src/atn_state.rs","src/transition.rs"],
 [("reading and linking","src/atn_deserializer.rs deserialize/read_*/derive edges/verify_atn"),("transition matching","src/transition.rs matches")],
 ["every public field of the ATN, its states and transitions"],
 "Random ATNs written by the harness's own serializer, every part compared; the ATNs shipped in tests/gen read by an independent reader; damaged data. Version 3 with the newest UUID only.",
 technique="property-based testing: round trip through an independent serializer, differential against an independent reader")
prop("C21", "Merged prediction stacks mean the union of their operands",
 "For every pair of prediction stacks, merging them represents exactly the union of the stacks each represents (with wildcard absorption in SLL mode), whatever the operand order, merge cache or sharing; equal results compare equal and hash equally, unequal ones do not compare equal; and/or combinations of predicates evaluate as their operands' and/or.",
 ["inputs","histories"], "for every pair of stack graphs and every predicate combination",
 "tests reach only the merges of a few grammars; unit tests cover a handful of small graphs",
 ["src/prediction_context.rs","src/semantic_context.rs"],
 [("merge of singleton and array contexts","src/prediction_context.rs merge/merge_singletons/merge_root/merge_arrays"),("sharing","src/prediction_context.rs get_shared_context"),("predicate algebra","src/semantic_context.rs and/or")],
 ["set of stacks read back from the merged graph","equality and hash","truth table of combined predicates"],
 "Random push/merge/share sequences against explicit sets of stacks; predicate algebra by truth table. Sampled; contexts as prediction builds them.",
 hook="re-export of PredictionContext (cfg vh_hooks)", technique=DATATECH)
prop("C11", "Recognizers can run at the same time over shared static state",
 "For every grammar and every set of inputs, lexers and parsers of that grammar that run at the same time on several threads over the same shared ATN and DFA caches - and recognizers started from embedded actions, parse listeners or syntax-error listeners of another one - each produce exactly the tokens, trees, errors and predictions they produce alone; there are no deadlocks and no poisoned state.",
 ["schedules","inputs","programs"], "for every grammar, every set of concurrent or nested runs, and every interleaving of them over the shared caches",
 "no test runs two recognizers at once; a lost edge, a stale state number or a lock held during user code only shows in particular interleavings",
 ["src/lexer_atn_simulator.rs","src/parser_atn_simulator.rs","src/dfa.rs","src/prediction_context.rs","src/atn_simulator.rs"],
 [("DFA lock: upgradable read, upgrade, downgrade","src/parser_atn_simulator.rs Local::upgrade_lock, src/lexer_atn_simulator.rs compute_target_state"),("shared context cache","src/prediction_context.rs PredictionContextCache")],
 ["tokens, tree, errors, predictions and reports of every concurrent run","completion within a time limit"],
 "Threads taking turns by a generated schedule (deterministic), free-running threads with generated noise, nested runs; oracle: the same run alone over cold caches. Free-running interleavings are only sampled; predicates and diagnostic-report listeners that start recognizers of the same grammar are not claimed (they run under the DFA lock).",
 technique="property-based testing: generated schedules and noise over real threads, differential against isolated runs")
