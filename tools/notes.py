"""Per property: what is proved, what stays bounded (drivers), what is assumed.  Goes into MANIFEST.json and DESIGN.md."""
N = {
"C01": dict(
 proved="RegexBuilder::build, build_bytes and build_impl, end to end: a matcher is returned only if every text parses, and then for every sequence of symbols its verdict is the smallest tag of the expressions whose syntax tree matches the sequence, and no tag if none does (unit build: the contracts of all the phases below composed, with lemmas from the table through the automata and key words back to the trees); EmptyBuilder is returned only for no texts, Regex(e, t) only if the text tagged t does not parse, Mir(e) only for unsupported parts or empty classes. The phases: the construction from regex-syntax's syntax tree on. Mir::new, new_from_hir_kind, new_n_repeats and the char and byte builders: for every tree (repetitions with min <= max) they terminate, and the intermediate representation they build matches exactly the sequences of symbols the tree stands for (empty, literal, class, repetition with every bound, capture, concatenation, alternation; greediness does not matter to a language), with closed ranges and no tags; an error is returned only for a tree with an unsupported part (assertions, bytes that are not UTF-8). Mir::optimize and everything under it (normalize_ranges, symbol_set, collect_symbols, split_ranges, ranges_contains, into_triple, rebuild, opt_without_rebuild, optimize_concat, optimize_alter, optimize_kleene): for every expression whose ranges are closed and whose tags stand at tails it terminates, does not panic, and its result matches exactly the same sequences of symbols with the same tags, while its range keys are sorted and pairwise apart (which is what the automata and the table build on); it reports 'matches nothing' only if some list or some range set is empty. Thompson construction (NFA::new, alter, concat, normalize, new_nfa_with_symbol; recursion terminates): for every expression of the intermediate representation whose lists are non-empty and whose tags stand at tails, the automaton accepts a word of range keys exactly when the expression does. The deterministic half, for every nondeterministic automaton (any states, edges, final states, tags): MultiFA and DenseFA operations, epsilon closure, subset construction (construct, construct_normal, construct_par, new_from_nfa), minimize, rebuild and DFA::new do not panic and DFA::new's result is well formed (which is what the table of C06 and the lookups of C03 require) and accepts a word of range keys exactly when the nondeterministic automaton accepts it",
 bounded="text -> syntax tree (regex-syntax), and the whole pipeline again, run: about 1900 small expressions (all shapes up to a size, every operator pair) and random ones, each against a derivative-based oracle on all words up to a length over the symbols that matter; counters up to 520, 300 keywords, classes of 700 ranges, words of 6000 symbols",
 assumed="regex-syntax parses the expression into the tree it documents (its data types are modelled with their documented fields: sorted closed ranges, min <= max), str::from_utf8 decodes; HashMap, HashSet, BTreeSet, BTreeMap, VecDeque are maps, sets and queues; the counter of state numbers, a static, is a parameter; BinaryHeap pops one of its elements, BTreeMap range and range_mut, binary_search_by_key, sort_unstable, Vec drain and mem::take, the order of Option as documented; S::prev is the predecessor (proved for char and u8 in C05); rayon's par_iter visits every element once; unboxing a Box moves its content"),
"C02": dict(
 proved="as C01, end to end: the verdict is the smallest tag of the expressions that match; from the syntax tree on: splitting of ranges and rewriting keep every tag on every word; the Thompson automaton has tag t after a word of range keys exactly when the intermediate representation puts t on that word; after every word DFA::new's result has the smallest of the tags which the nondeterministic automaton has after that word, through closures, subset construction, merging of states and rebuilding",
 bounded="lists of up to four expressions in every order, overlapping and equal languages, tags of several types, against the minimum over a derivative-based oracle",
 assumed="as C01; the order of the tag type is a total order"),
"C03": dict(
 proved="RegexMatcher (all methods), StateTransTable accessors and next_state, is_str_match of both modes: verdict of the whole-input match equals feeding symbol by symbol; a rejected symbol changes nothing; whole-input matching does not disturb the state; their precondition, a well-formed table, holds of every matcher the builder returns (units dfatable and build, over the contracts of the phases proved for C01)",
 bounded="the same clauses on the real crate, over the catalogue of C01",
 assumed="BTreeMap::range yields the entry of the smallest key not below the bound; str::chars/bytes"),
"C04": dict(
 proved="RegexBuilder::build and build_bytes do not panic, and their contract (see C01) determines the verdict on every input independently of enable_par; the errors are given only for the reasons named there. construct_normal and construct_par have one contract, so DFA::new gives, whichever is chosen, the same verdict after every word; neither they nor closure, minimize, rebuild panics or runs forever (the work lists are bounded by the sets of states still to be met, the blocks by the states), for every nondeterministic automaton; the conversion of the syntax tree, the splitting of ranges, the rewriting of the intermediate representation and the Thompson construction before them neither panic nor run forever",
 bounded="the syntax parser before it: grammar-generated and mutated expression texts in both modes, serial/parallel/automatic building compared on words; regex-syntax is an external parser of 60k lines, totality over every string cannot be put under contract",
 assumed="as C01"),
"C05": dict(
 proved="next and prev of char and u8 for every value, inverse lemma, no panic and no overflow",
 bounded="all 1 112 064 characters and all bytes are also run",
 assumed="char::from_u32 and from_u32_unchecked follow their documentation"),
"C06": dict(
 proved="StateTransTable::new and everything below it (TempTable::new, OptimizedTable, merging of equal rows and of neighbouring ranges, the flat table): from every well-formed automaton (keys proper ranges, pairwise apart, edges functional) the table built represents it: the ranges are disjoint and map to classes, the dimensions fit, and for a numbering of the states every lookup gives the automaton's edge, every tag its state's tag; next_state, is_final, accessors: for every state and symbol the answer is what the table parts say; an invalid state yields nothing; the automata the builder makes are well formed (unit build, over the contracts of the phases proved for C01)",
 bounded="that ranges/classes read back from the exported parts agree with the matcher, run over the catalogue of C01",
 assumed="BTreeMap::range, HashMap and BTreeMap are maps, sort_unstable permutes"),
"C07": dict(
 proved="the code `#[derive(Tokenize)]` generates for the two declarations of gen/src/l.rs (a lexer of characters: skips, unit, empty-tuple and value variants, FromStr and named conversions, overlapping expressions, an end token and a variant without an expression in between; a lexer of bytes without one), expanded on every run: for every input stream and every conversion function the call consumes the longest run that still has a continuation in some definition, yields the first definition that matches it with the conversion applied to exactly that text, goes on after a skipped run, yields the end token (or an error) at and only at the end, an error otherwise; the generated table, symbol classes and final states are proved to be the automaton of those languages by lemmas over all words; Lexer hands this through",
 assumed="the two declarations stand for all; String and Vec push/is_empty; conversion functions are functions of the text; the source of the stream satisfies the contract of InputStream (proved in units input and reader)",
 bounded="32 derived lexers (definitions in every order, the end and what is skipped anywhere, with parameters, one of 320 definitions), all inputs up to a length over their alphabet plus random ones of up to 4000 symbols, against a tokenizer oracle built on derivatives"),
"C08": dict(
 proved="for the declarations of gen/src/l.rs the span of every token covers exactly the run consumed, whose end is where the next one starts, for every input; the embedded table decides as the reference automaton of the expressions on every word; `table_ty` of the macro: the stored entries fit the chosen integer type for every number of states",
 assumed="as C07; usize::ilog2",
 bounded="the same lexers, spans compared with positions; lexers of 2 to 601 states, among them 253..257, one of 320 definitions and more than 256 classes"),
"C09": dict(
 proved="Reader::peek/read/fill, next_char_loc: for every byte sequence and every split into reads the characters delivered are those of the longest valid prefix, then end or a fatal error that stays; buffer arithmetic in bounds; loops terminate",
 bounded="the same clause on the real crate: all byte strings up to length 4 over representative bytes, all splits; characters around the buffer limit; readers made from texts, slices and files",
 assumed="Read delivers bytes in order; from_utf8 / str::chars follow the UTF-8 definition written in the unit"),
"C10": dict(
 proved="ByteReader: for every byte sequence and split the bytes delivered are the bytes of the source in order, end stays, an error loses no byte",
 bounded="fault sequences on the real crate",
 assumed="Read delivers each byte once, errors lose none"),
"C11": dict(
 proved="Span::update of char and u8, next_char_loc of both readers, set_line_col: exact line and column after every read",
 bounded="long histories on the real crate, with runs of 150 lines and columns at the limits",
 assumed="line and column numbers stay below 2^32 (precondition, as in the source type u32)"),
"C12": dict(
 proved="peek, peek_with_span, unread, next_span of InputStream against the abstract stream (rest, location), incl. end of input and several items put back",
 bounded="random histories on the real crate", assumed="cloning a symbol yields an equal one"),
"C13": dict(
 proved="skip_until, collect_until, collect_with_span_until for every stream and every pure predicate: exactly the symbols before the first hit, in order; the span as stated; the loops terminate",
 bounded="random streams on the real crate", assumed="the predicate is a function of the symbol (Fn instead of FnMut)"),
"C14": dict(
 proved="int_literal, signed_int_literal and the integer implementations: the answer is Some(v) exactly for the texts of the property, for every text; no panic",
 bounded="all texts up to length 5 over the relevant characters, every type's limits",
 assumed="from_str_radix and wrapping_neg of the primitive integers; str::chars and slicing at ASCII boundaries"),
"C15": dict(
 proved="parse_char_literal, str_literal, char_literal: accepted texts and values exactly as stated, for every text; no panic; loops terminate",
 bounded="all texts up to length 6 over the relevant characters", assumed="str::chars, to_digit, char::from_u32"),
"C16": dict(
 proved="every method of TokenBuffer against the abstract sequence (put back ++ tokenizer), including errors part way",
 bounded="all operation sequences up to a length on the real crate, streams of 1500 tokens with look-ahead of 900", assumed="VecDeque follows vstd's specification; cloning a token yields an equal one"),
"C17": dict(
 proved="peek, peek2, peek_n, skip_until, collect_until, expect, ... of TokenStream for every stream satisfying the trait's contract",
 bounded="all operation sequences up to a length on the real crate", assumed="token equality is decided by PartialEq as vstd specifies it; the predicate is a function of the token"),
"C18": dict(
 proved="Lookahead: construction, next_token, peek_next, maybe chains and Drop restore the stream; the result is the conjunction",
 bounded="chains of up to four checks on the real crate", assumed="Rust runs Drop at the end of `maybe` and `result` (written out as a call of the extracted drop)"),
"C19": dict(
 proved="parse and maybe of NonEmptySeq, SepSeq, NonEmptySepSeq, OptSepSeq, NonEmptyOptSepSeq and [] / Vec forms, for arbitrary element and separator types that satisfy Parse's contract",
 bounded="all token strings up to a length on the real crate", assumed="component parsers satisfy the trait's contract (relation parses/checks)"),
"C20": dict(
 proved="parse and maybe of the list types, Option, Vec, Box, tuples of 1 to 26 components, quoted and prefixed types",
 bounded="all token strings up to a length", assumed="as C19"),
"C21": dict(
 proved="maybe of every provided type and of derived types (the declarations of gen/src/p.rs, expanded by the macro on every run) leaves the stream as it was and answers as documented",
 bounded="further derived types and errors part way on the real crate", assumed="as C19; the declarations stand for all declarations"),
"C22": dict(
 proved="the code `#[derive(Parse)]` generates for the declarations of gen/src/p.rs (structs and enumerations of every field shape, unit and tuple variants, starting tokens, type and const parameters), expanded on every run: parse takes exactly the tokens of the declared grammar, chooses the first variant that may start here, reports an error otherwise, for every token stream and all component types",
 assumed="components satisfy the contract of the trait `Parse`; the declarations stand for all declarations",
 bounded="declarations of every shape (structs, enumerations, unit/tuple/named variants, starting tokens, const generics), all token strings up to a length, against a grammar interpreter"),
"C23": dict(
 proved="the code `token_ast!` generates for the declaration of gen/src/t.rs (13 arms: with and without prompt, guards, alternatives, ranges, nested patterns), expanded on every run, and Token's AsRef, Spanned and PartialEq: parse takes exactly an accepted token and holds it, reports an error otherwise; maybe answers the same and leaves the stream; span; unwrap and unwrap_ref yield the value",
 assumed="derived Clone and PartialEq of the kind are structural; TryInto is TryFrom; the declaration stands for all declarations",
 bounded="that exactly one error with the stated text is logged; token_ast declarations of every arm, all tokens of the kind, with and without guards"),
"C24": dict(
 proved="the code `#[token_kind]` generates for the declaration of gen/src/k.rs, expanded on every run: From, TryFrom, AsRef-like conversions there and back for every variant and value, display text exactly documentation or value as declared",
 assumed="conversions of the standard library have the shape of the unit's traits; the declaration stands for all declarations",
 bounded="token kinds of every variant shape with names and documentation of many styles, conversions of every variant, display texts against the declaration"),
"C25": dict(
 proved="span/try_span of tuples (1 to 26 components), Box, Option, sequences, lists, quoted and prefixed types: first start, last end",
 bounded="composite values on the real crate", assumed="component spans satisfy their trait's contract"),
"C26": dict(
 proved="the code `#[derive(Spanned)]`/`#[derive(TrySpan)]` generates for the declarations of gen/src/s.rs, expanded on every run: span from the first to the last present component, try_span none exactly if nothing is present",
 assumed="component spans satisfy their trait's contract; the declarations stand for all declarations",
 bounded="derived spans for structs and enumerations with every pattern of present and absent optional fields"),
"C27": dict(
 proved="every Span operation, including join, update, end_update, is_in_same_line_as, eq, Display",
 bounded="exhaustive small spans on the real crate", assumed="Rc::ptr_eq is identity of the source"),
"C28": dict(
 proved="each log function changes exactly one counter by one (atomic_fetch_add on the shared counter, by id), returns the right error kind and message, with and without feature `logger`; log_summary prints the numbers of errors and warnings",
 bounded="thread counts on the real crate", assumed="fetch_add is indivisible and additions of several threads add up (std::sync::atomic); print_file_info only prints"),
"C29": dict(
 proved="for every span and every content of the file, print_file_info, both excerpt functions and the log functions return without panic or overflow and print exactly the stated text: the place, the lines of the span with their numbers, the marks; lemmas: for ordinary characters the marks are exactly the span's columns, under several lines its first and its last column; with tabs and wide characters marks and shown text take the same cells; numbers fit their field, so rows are aligned",
 assumed="format strings append what they say (core::fmt); colours only add escape sequences; a character is at most two cells wide (unicode-width); Lines yields the lines; memory suffices",
 bounded="spans inside, beyond and across files with tabs, wide and invalid characters, missing and changed files; messages compared with an independent renderer"),
}

def note(p):
    n = N[p]
    s = []
    if n.get("proved"):
        s.append("proved (all inputs): " + n["proved"])
    if n.get("bounded"):
        s.append("bounded, not proved: " + n["bounded"])
    if n.get("assumed"):
        s.append("assumed: " + n["assumed"])
    return ". ".join(s)
