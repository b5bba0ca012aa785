"""The properties and what their checks cover. gen.py derives properties.jsonl and MANIFEST.json."""

COMMON_TRUST = [
    "Kani 0.68 (rustc MIR to CBMC), CBMC 6.11, CaDiCaL",
    "harness/src/model.rs: the contracts of Stream and Parser as nondeterministic implementations",
]
COMMON_ASSUME = [
    "Sub parsers and streams respect the trait contracts written down in harness/src/model.rs "
    "(a parser that reports success without commit left the input where it was)",
    "Generic code is parametric in token, output and position types: outputs are checked through unique tags",
    "Termination is not verified",
]

VERUS_TRUST = ["Verus 0.2026.09.13 with Z3", "verus/extract.py: the functions are taken from /repo on every run, without attributes and comments"]

PROPS = []


def prop(**k):
    k.setdefault("level", "proof")
    k["trusted"] = COMMON_TRUST + k.get("trusted", [])
    k["assumptions"] = COMMON_ASSUME + k.get("assumptions", [])
    PROPS.append(k)


prop(
    id="C01", title="Sequencing runs parts in order and combines their outcomes exactly",
    statement="A sequence of parsers (tuples, with, skip, between, then, and struct builders) runs each part "
    "exactly once, left to right, each from where the previous one stopped, and stops at the first failure. "
    "It succeeds with the documented combination of the parts' outputs, leaving the input where the last part "
    "stopped; it counts as having consumed input exactly if some part did, also when it fails. "
    "Output transformers apply their function exactly once to a successful output and keep the outcome.",
    over=["inputs", "programs"],
    quant="all inputs, all part parsers with any outcomes, every entry point through which a parser can be run",
    why="The tests run a few fixed grammars on fixed inputs; the guarantee is over all parsers and all combinations "
    "of committed, uncommitted, failing and suspended parts, of which tests reach a handful.",
    files=["src/parser/sequence.rs", "src/parser/combinator.rs", "src/parser/mod.rs"],
    mech=[("tuple parser", "src/parser/sequence.rs tuple_parser!"), ("then family", "src/parser/sequence.rs Then, ThenPartial, ThenRef"),
          ("output transformers", "src/parser/combinator.rs Map, FlatMap, AndThen")],
    state=[("first_empty_parser", "whether and which part committed last", "src/parser/sequence.rs PartialStateN")],
    functions=["<(A,..) as Parser>::parse_mode_impl (1, 2, 3, 5 parts)", "With", "Skip", "between", "Then", "ThenPartial",
               "ThenRef", "Map", "MapInput", "FlatMap", "AndThen", "struct_parser!", "Parser::parse", "Parser::parse_stream",
               "Parser::parse_lazy", "Parser::parse_stream_partial", "ParseMode::parse_committed"],
)

prop(
    id="C02", title="Alternatives try the next branch exactly when the previous failed without consuming",
    statement="choice (tuples, arrays, slices), or, optional and dispatch run alternatives in order, each from the "
    "original input position; the first alternative that succeeds or that fails after committing decides the outcome "
    "and no later alternative runs; only when every alternative fails without committing does the choice fail without "
    "committing (optional instead succeeds with None and leaves the input where it was). Failure of all alternatives "
    "reports what each of them expected.",
    over=["inputs", "programs"],
    quant="all alternatives with any outcome, all inputs, every entry point",
    why="Which alternative may still run depends on whether earlier ones consumed input; tests exercise a few literal "
    "grammars, not all combinations of committed and uncommitted outcomes at every index.",
    files=["src/parser/choice.rs", "src/lib.rs"],
    mech=[("choice", "src/parser/choice.rs tuple_choice_parser!, slice_parse_mode"), ("or", "src/parser/choice.rs Or"),
          ("optional", "src/parser/choice.rs Optional"), ("dispatch", "src/parser/choice.rs dispatch!")],
    state=[("choice state", "index of the suspended alternative and its state", "src/parser/choice.rs PartialState of choice")],
    functions=["ChoiceParser for tuples (1, 2, 3, 4, 6 alternatives)", "ChoiceParser for slices and arrays (slice_parse_mode)",
               "Or", "Optional", "dispatch!", "Parser::or", "add_error of each"],
    verus=["choice"], trusted=VERUS_TRUST,
)
prop(
    id="C03", title="attempt, look_ahead and not_followed_by backtrack completely",
    statement="attempt turns a committed failure into an uncommitted one and restores the input; look_ahead never "
    "consumes input on success; not_followed_by never consumes and succeeds exactly when its parser fails. None of "
    "them leaves anything behind (input position or partial state) that a later run could observe, and a parser that "
    "only lacks input is not treated as failed.",
    over=["inputs", "programs"],
    quant="all inner parsers with any outcome and any amount of consumed input, all inputs, both modes",
    why="Backtracking must undo whatever the inner parser did, over all inner parsers; tests check two or three.",
    files=["src/parser/combinator.rs"],
    mech=[("attempt", "src/parser/combinator.rs Try"), ("look_ahead", "src/parser/combinator.rs LookAhead"),
          ("not_followed_by", "src/parser/combinator.rs NotFollowedBy")],
    functions=["Try", "LookAhead", "NotFollowedBy", "composition with Optional, Or, many"],
    cases=True,
)
prop(
    id="C04", title="Repetition applies its parser the right number of times and keeps every output once, in order",
    statement="many, many1, skip_many, skip_many1, count, skip_count, count_min_max, skip_count_min_max, iter and iterate "
    "run their parser until it fails without consuming (or the maximum is reached), each run starting where the previous "
    "one stopped; outputs are collected exactly once in order; too few repetitions fail, a committed failure of a run "
    "is a committed failure of the whole; afterwards the input is right behind the last successful run, and the whole "
    "commits exactly if some run did. Nothing of a failed repetition is seen by a later run of the same parser.",
    over=["inputs", "programs"],
    quant="all sub parsers with any outcomes, all bounds, all inputs",
    why="The number of runs and which run failed how is unbounded; tests sample short lists.",
    files=["src/parser/repeat.rs", "src/parser/mod.rs"],
    mech=[("Iter", "src/parser/mod.rs Iter::next, into_result, fail"), ("many family", "src/parser/repeat.rs Many, Many1, SkipMany"),
          ("count family", "src/parser/repeat.rs Count, CountMinMax, SkipCount"), ("iterate", "src/parser/repeat.rs Iterate")],
    state=[("partial elements", "elements collected before a suspension", "src/parser/repeat.rs PartialState of the repeaters")],
    functions=["Many", "Many1", "SkipMany", "SkipMany1", "Count", "SkipCount", "CountMinMax", "SkipCountMinMax", "Iterate",
               "Parser::iter, iter_partial", "Iter::next", "Iter::into_result", "Iter::fail"],
    cases=True,
    verus=["repeat"], trusted=VERUS_TRUST,
)
prop(
    id="C05", title="Separated lists, operator chains and parsing up to an end marker have the documented shape",
    statement="sep_by, sep_by1, sep_end_by, sep_end_by1 alternate elements and separators and keep every element in order; "
    "chainl1 folds from the left and chainr1 from the right, keeping every operand and operator; take_until, skip_until, "
    "repeat_until and repeat_skip_until stop right before the first place where their end parser matches; escaped "
    "stops at the first token that is neither a plain part nor an escape sequence. A separator or operator that consumed "
    "input but is not followed by an element is an error (or, for sep_end_by, belongs to the list), never silently dropped.",
    over=["inputs", "programs"],
    quant="all element, separator, operator and end parsers with any outcomes, all inputs",
    why="List length, position of the failing part and commit status combine without bound; tests use comma lists of letters.",
    files=["src/parser/repeat.rs"],
    mech=[("sep_by family", "src/parser/repeat.rs SepBy, SepBy1, SepEndBy, SepEndBy1"), ("chains", "src/parser/repeat.rs Chainl1, Chainr1"),
          ("until family", "src/parser/repeat.rs TakeUntil, SkipUntil, RepeatUntil, RepeatSkipUntil"), ("escaped", "src/parser/repeat.rs Escaped")],
    functions=["SepBy", "SepBy1", "SepEndBy", "SepEndBy1", "Chainl1", "Chainr1", "TakeUntil", "SkipUntil", "RepeatUntil",
               "RepeatSkipUntil", "Escaped"],
    cases=True,
    verus=["lists", "escaped"], trusted=VERUS_TRUST,
)
prop(
    id="C06", title="Parsing in chunks gives what parsing the whole input at once gives",
    statement="A parser that is fed its input in chunks, being resumed with its saved partial state whenever more input is "
    "needed, returns the same outcome, output, commit status and end position as when it is run once on the whole input, "
    "however the input is cut. No part is run again on input it has already consumed, skipped, or resumed at another "
    "position than where it was suspended.",
    over=["inputs", "histories"],
    quant="all inputs, all ways to cut them into chunks, all sub parsers",
    why="The resume tests feed a handful of grammars through random readers; which part is suspended where, with which "
    "parts already done, is a space of histories that tests sample thinly (fourteen defects were found here).",
    files=["src/parser/sequence.rs", "src/parser/choice.rs", "src/parser/repeat.rs", "src/parser/combinator.rs", "src/parser/mod.rs", "src/lib.rs"],
    mech=[("partial state", "Parser::PartialState, parse_partial, ParseMode"), ("sequence state", "src/parser/sequence.rs PartialStateN"),
          ("any_partial_state", "src/parser/combinator.rs AnyPartialStateParser"), ("parser!/opaque!", "src/lib.rs")],
    state=[("PartialState", "what has been parsed before the suspension", "each combinator")],
    functions=["tuples", "With", "Skip", "between", "Then", "ThenPartial", "ThenRef", "Optional", "choice (tuple, array)", "Or", "Many", "Many1",
               "CountMinMax", "SepBy", "SepBy1", "SepEndBy", "SepEndBy1", "Chainl1", "Chainr1", "Escaped", "Iterate", "RepeatUntil", "TakeUntil", "LookAhead",
               "NotFollowedBy", "Try", "Map", "FlatMap", "AndThen", "Expected", "Message", "Silent", "Box<P>", "Ignore", "AnyPartialStateParser",
               "NoPartial", "Lazy", "FactoryParser", "Opaque", "dispatch!"],
    assumptions=["Suspending more often than the chunk bound adds nothing: the state after several suspensions is one that a single "
                 "suspension further on produces too"],
    cases=True,
)
prop(
    id="C07", level="model_checking", title="The end of a chunk is never taken for the end of the input",
    statement="On a partial stream every leaf parser either gives the answer it would give whatever input follows, or asks for "
    "more input and then goes on as if it had seen everything at once; matches that could still become longer, or "
    "prefixes that may still match, are not decided early.",
    over=["inputs", "histories"],
    quant="all inputs, all chunk boundaries, all leaf parsers",
    why="The boundary has to fall at one particular token of one particular parser for the mistake to show; tests place few.",
    files=["src/parser/token.rs", "src/parser/range.rs", "src/stream/mod.rs", "src/parser/combinator.rs"],
    mech=[("uncons, uncons_range, uncons_while", "src/stream/mod.rs input_at_eof, wrap_stream_error, uncons*"),
          ("token parsers", "src/parser/token.rs"), ("range parsers", "src/parser/range.rs")],
    functions=["any", "satisfy", "satisfy_map", "token", "tokens", "tokens_cmp", "bytes", "one_of", "none_of", "eof", "take", "take_while",
               "take_while1", "range", "take_until_range", "TakeFn", "recognize", "recognize_with_value", "combinator::recognize", "be_u16",
               "length_prefix", "stream::uncons", "uncons_range", "uncons_while", "uncons_while1"],
    cases=True,
    verus=["ends"], trusted=VERUS_TRUST,
)
prop(
    id="C08", title="Token parsers accept exactly the tokens they name and consume exactly those",
    statement="any, satisfy, satisfy_map, token, one_of, none_of and the byte and character class parsers (digit, letter, space, "
    "hex_digit, ...) accept exactly the tokens of their documented class, consume exactly one token and return it; anything "
    "else, and the end of the input, is refused without committing. tokens, string, bytes and their _cmp forms succeed exactly "
    "when every token matches in order, consuming exactly those; a mismatch after at least one match is a committed failure, before it "
    "an uncommitted one. spaces skips exactly the leading white space. position, value, produce and unexpected consume nothing; eof "
    "succeeds exactly at the end.",
    over=["inputs"], quant="every byte and every Unicode character (those marked below U+0400 otherwise), every token sequence",
    why="The tests try a few characters per class; the class must be right for each of the 256 bytes and 1.1 million characters.",
    files=["src/parser/token.rs", "src/parser/byte.rs", "src/parser/char.rs"],
    mech=[("token parsers", "src/parser/token.rs"), ("byte classes", "src/parser/byte.rs"), ("char classes", "src/parser/char.rs")],
    functions=["any", "satisfy", "satisfy_map", "token", "one_of", "none_of", "tokens", "tokens_cmp", "position", "value", "produce", "eof",
               "unexpected", "unexpected_any", "byte::{byte, digit, space, spaces, newline, crlf, tab, upper, lower, alpha_num, letter, "
               "oct_digit, hex_digit, bytes, bytes_cmp}", "char::{char, digit, space, spaces, newline, crlf, tab, upper, lower, alpha_num, "
               "letter, oct_digit, hex_digit, string, string_cmp}"],
    verus=["tokens"], trusted=VERUS_TRUST,
)
prop(
    id="C09", title="Range parsers return exactly the input they matched, without copying",
    statement="take, take_while, take_while1, range, take_until_range, take_until_byte(2,3)(s), take_fn, recognize, recognize_with_value and "
    "length_prefix return the part of the input from where they started up to where they stop: the same memory, not a copy, "
    "of exactly the documented length (the longest prefix matching a predicate; everything before the first occurrence of a "
    "marker; n elements), and leave the input right behind it. When there is no such part they fail; nothing is lost or "
    "returned twice.",
    over=["inputs"], quant="all inputs on byte slices and text, all markers, lengths and inner parsers",
    why="Off-by-one lengths at the end of input, overlapping marker prefixes and multi-byte characters appear only for particular inputs.",
    files=["src/parser/range.rs", "src/parser/byte.rs", "src/stream/mod.rs"],
    mech=[("range parsers", "src/parser/range.rs"), ("byte searches", "src/parser/byte.rs take_until_byte*, take_until_bytes"),
          ("range streams", "src/stream/mod.rs RangeStreamOnce")],
    functions=["range::{take, take_while, take_while1, range, take_until_range, take_fn, recognize, recognize_with_value, length_prefix}",
               "byte::{take_until_byte, take_until_byte2, take_until_byte3, take_until_bytes}"],
    trusted=["harness/memchr: the memchr crate replaced by its contract (first position of the bytes searched for)"] + VERUS_TRUST,
    verus=["ranges"],
    cases=True,
)
prop(
    id="C10", title="Slice and text streams hand out their elements exactly once, in order, and never split a character",
    statement="uncons returns the next element and moves past it; uncons_range(n) returns the next n units or fails without moving; "
    "uncons_while returns the longest matching prefix, calling its predicate in order on consecutive elements; uncons_while1 fails without "
    "moving if the first element does not match. What a stream has handed out followed by what is left is always the original input. Ranges of text "
    "end only between characters, whatever length is asked for. distance is the number of units passed.",
    over=["inputs"], quant="all contents, all lengths (also out of range), all predicates",
    why="The unrolled scanning loops and char boundary arithmetic depend on content and length combinations (multi-byte characters, unroll borders).",
    files=["src/stream/mod.rs"],
    mech=[("slice scanning", "src/stream/mod.rs slice_uncons_while, slice_uncons_while1"), ("text scanning", "src/stream/mod.rs str_uncons_while"),
          ("ranges", "src/stream/mod.rs uncons_range, Range, RangeStream impls")],
    functions=["StreamOnce, RangeStreamOnce for &[T], &str, SliceStream", "IteratorStream", "slice_uncons_while", "slice_uncons_while1",
               "str_uncons_while", "test_next!", "uncons", "distance"],
    verus=["slices", "strs"], trusted=VERUS_TRUST,
)
prop(
    id="C11", level="model_checking", title="Resetting a stream to a checkpoint restores it exactly",
    statement="After any operations on a stream, resetting it to a checkpoint taken earlier restores exactly what was seen then: the same "
    "elements follow, at the same positions, with the same distance to other checkpoints; checkpoints are not changed by later use, and "
    "a reset stream can be reset again.",
    over=["inputs", "histories"], quant="all stream types (slices, text, wrappers, positions, references, nested), all contents, all operations in between",
    why="All backtracking relies on it; a wrapper that restores only part of its state shows only when that part matters afterwards.",
    files=["src/stream/mod.rs", "src/stream/position.rs", "src/stream/easy.rs", "src/stream/span.rs", "src/stream/state.rs"],
    mech=[("reset", "ResetStream impls in src/stream"), ("positions", "src/stream/position.rs Stream::checkpoint, reset, Positioner::reset")],
    functions=["ResetStream for &[T], &str, SliceStream, &mut S, PartialStream, CompleteStream, MaybePartialStream, position::Stream, "
               "easy::Stream, span::Stream, state::Stream", "Positioner::{checkpoint, reset} of IndexPositioner, SourcePosition, &mut P"],
)
prop(
    id="C12", title="A buffered stream gives back the tokens it has read, or says that it cannot",
    statement="buffered::Stream reads each token of its source exactly once and in order. After a reset to any place at most `lookahead` tokens back it gives "
    "the same tokens at the same positions again before reading on; a reset further back, if it cannot be served, is reported as an error and "
    "changes nothing. It never gives a token at the wrong place, and never panics.",
    over=["inputs", "histories"], quant="all sources, all lookaheads, all histories of reads and resets",
    why="Which token is in the ring buffer depends on the whole history of reads and resets; the tests try one or two.",
    files=["src/stream/buffered.rs"],
    mech=[("ring buffer", "src/stream/buffered.rs Stream::uncons, position, reset")],
    state=[("offset, buffer_offset, buffer", "where the stream stands, how far the source has been read, the last tokens", "src/stream/buffered.rs Stream")],
    functions=["buffered::Stream::{uncons, position, reset, checkpoint, new, is_partial} (Verus, unbounded)"],
    verus=["buffered"],
    verus_search={"buffered": ["c12_nat::again1", "c12_nat::again2", "c12_nat::lookahead1", "c12_nat::lookahead2", "c12_nat::lookahead3"]},
    trusted=VERUS_TRUST,
)
prop(
    id="C13", title="Positions tell exactly how much has been consumed",
    statement="A position stream reports the position that follows from the tokens consumed so far: IndexPositioner the number of tokens (of a range: its length), "
    "SourcePosition line and column (a line feed starts a line, any other character moves one column), pointer offsets the number of bytes; consuming a range moves the position "
    "as consuming its tokens one by one does. A failed read does not move it. Positions compare in the order of the input.",
    over=["inputs", "histories"], quant="all contents, all read operations, all positioners obeying their trait",
    why="Positions must agree for every mix of token and range reads and every placement of line feeds.",
    files=["src/stream/position.rs", "src/stream/mod.rs"],
    mech=[("positioners", "src/stream/position.rs Positioner::update, RangePositioner::update_range"), ("position stream", "src/stream/position.rs Stream"),
          ("pointer offsets", "src/stream/mod.rs PointerOffset")],
    functions=["SourcePosition::{update, update_range, Ord, Default}", "IndexPositioner::{update, update_range}", "position::Stream::{uncons, uncons_range, uncons_while, "
               "uncons_while1, position, checkpoint, reset}", "PointerOffset::translate_position", "Positioned for slices and text"],
    verus=["positions"], trusted=VERUS_TRUST,
)

prop(
    id="C14", title="Merging errors keeps the furthest one, and at the same place everything, once",
    statement="When errors of alternatives are merged, the one further into the input wins; at the same position the result holds every distinct "
    "part of both, each once, except that saying what was expected replaces what was expected before. Setting the expectation, clearing it and "
    "mapping errors keep the position and every part they do not speak of, with its kind (unexpected, expected, message) and contents. Converting an error to "
    "another error type keeps its position and the kind and contents of what it still says.",
    over=["inputs"], quant="all errors with all kinds of parts, all positions, all orders of merging",
    why="Merging depends on position order and on duplicates of each kind; tests look at the final rendering of a few messages.",
    files=["src/stream/easy.rs", "src/error.rs"],
    mech=[("errors", "src/stream/easy.rs Errors::merge, add, add_error, set_expected, clear_expected, map_*, into_other"), ("error traits", "src/error.rs ParseError, StreamError, Tracked")],
    functions=["easy::Errors::{empty, new, merge, add, add_error, set_position, set_expected, clear_expected, map_token, map_range, map_position, into_other, "
               "is_unexpected_end_of_input}", "easy::Error::{unexpected*, expected*, message*, into_other, map_token, map_range, eq}", "easy::Info", "UnexpectedParse, StringStreamError ParseError/StreamError"],
    assumptions=["Errors of more than two parts per operand are covered by the fixed-length harnesses only up to the stated bounds"],
    verus=["errors"], trusted=VERUS_TRUST,
)
prop(
    id="C15", title="A failed parse reports where it failed, what it found and everything it expected there",
    statement="When a parse fails, the error is at the position where the part that failed began, names the token found there (or the end of the input), and lists exactly "
    "what the parts tried at that place since input was last consumed expect: the failing part of a sequence together with the optional parts and ended repetitions before it, nested sequences "
    "included, and all alternatives of a choice. If alternatives fail at different places, the furthest one is reported. An error after input was consumed passes through unchanged by "
    "enclosing alternatives and repetitions. expected replaces what is expected, message adds to it, silent removes it. Not included: what an optional part at the end of an already "
    "completed nested sequence, or of a successful choice, could have accepted.",
    over=["inputs", "programs"], quant="all outcomes of the parts of sequences of up to three parts, choices, repetitions and their nestings to depth two",
    why="What has to be reported depends on which parts consumed input and which were tried at the failing place; the tests compare the messages of a few grammars.",
    files=["src/parser/sequence.rs", "src/parser/choice.rs", "src/parser/error.rs", "src/parser/repeat.rs", "src/parser/mod.rs", "src/parser/combinator.rs"],
    mech=[("sequence errors", "src/parser/sequence.rs add_errors, add_sequence_error"), ("choice errors", "src/parser/choice.rs do_choice!, merge!"),
          ("decorations", "src/parser/error.rs Expected, Silent, Message; src/parser/mod.rs add_error")],
    state=[("ErrorOffset", "how many parts of a failed sequence have yet to be asked what they expect", "src/lib.rs ErrorOffset, src/error.rs Tracked")],
    functions=["tuple add_errors and add_sequence_error (2 and 3 parts, nested)", "choice, or, optional error merging", "Expected, Message, Silent parse and add_error",
               "many, many1, sep_by, skip_many error merging", "Parser::parse, parse_stream, parse_with_state (found token)"],
    trusted=["harness/src/c15.rs: bitset error type standing for easy::Errors (its merging is C14)"],
    cases=True,
)
prop(
    id="C16", title="Results keep their commit status through every conversion and combination",
    statement="Converting a result between ParseResult, standard results and their references keeps whether it succeeded, whether input was committed, and its "
    "contents. map changes outputs only, map_err errors only. Whatever follows a committed result (and_then, combine, merge) is committed; an error passes on unchanged; "
    "ctry! and functions used as parsers behave the same.",
    over=["inputs"], quant="all results with all contents",
    why="The algebra is used by every combinator and user written parser; the tests exercise it only through a few of them.",
    files=["src/error.rs", "src/lib.rs", "src/parser/function.rs"],
    mech=[("ParseResult, Commit", "src/error.rs ParseResult, Commit"), ("ctry!", "src/lib.rs ctry!"), ("function parsers", "src/parser/function.rs FnParser")],
    functions=["ParseResult::{is_ok, is_err, as_ref, and_then, map, map_err, into_result, From, Into}", "Commit::{is_peek, into_inner, as_ref, as_mut, into_commit, into_peek, "
               "map, merge, combine, combine_commit}", "ctry!", "FnParser"],
)
prop(
    id="C17", title="Numbers are read from exactly their bytes, in the order named",
    statement="The parsers be_u16 to be_f64 and le_u16 to le_f64 consume exactly the bytes of their type and return the number these bytes encode in "
    "big or little endian; with fewer bytes they consume nothing and fail at the end of the input, or ask for more when the input is partial.",
    over=["inputs"], quant="all byte contents, all input lengths, all sixteen parsers",
    why="A test with one number per type cannot see a wrong width, order or sign for other bytes.",
    files=["src/parser/byte.rs"],
    mech=[("numbers", "src/parser/byte.rs num::integer_parser!")],
    functions=["byte::num::{be,le}_{u16,u32,u64,i16,i32,i64,f32,f64}"],
)
prop(
    id="C18", level="model_checking", title="Decoding from a reader consumes every byte once and in order, and loses none",
    statement="decode! and the asynchronous decode_tokio!, decode_tokio_02!, decode_tokio_03! and decode_futures_03! hand the bytes of the reader to the parser once each, in order, however the reader "
    "splits them, delays them or fails in between. After each call the bytes read are exactly those consumed followed by those kept in the decoder (or BufReader), "
    "position tells how many were consumed, and the next call goes on there. An output is that of the parser; a failing read is reported as one with its position and can be retried; more input is asked for exactly when the parser asks for it. "
    "BufReader as a reader gives its bytes once, in order. decode and decode_tokio report how much was consumed and ask for more only when the parser does and the input is partial "
    "(decode_tokio also at the end of empty input).",
    over=["inputs", "schedules", "faults"], quant="all ways in which a reader splits, delays or fails, all parsers with any consumption, suspension and failure",
    why="The tests read one file in a handful of ways and never fail a read in the middle.",
    files=["src/stream/mod.rs", "src/stream/decoder.rs", "src/stream/buf_reader.rs"],
    mech=[("decode loops", "src/stream/mod.rs decode!, decode_tokio!, decode_tokio_02!, decode_tokio_03!, decode_futures_03!, decode, decode_tokio"),
          ("buffers", "src/stream/buf_reader.rs extend_buf_sync, poll_extend_buf, tokio_read_buf, Buffer, Bufferless, BufReader"), ("decoder", "src/stream/decoder.rs Decoder")],
    state=[("buffer", "bytes read and not yet consumed", "src/stream/buf_reader.rs Buffer, BufReader.buf"), ("end_of_input", "the reader gave no more", "src/stream/decoder.rs Decoder")],
    functions=["decode!", "decode", "decode_tokio", "Decoder::{new, buffer, position, advance, __inner, __before_parse}", "Buffer::{buffer, advance, extend_buf_sync}", "BufReader::{read, fill_buf, consume, buffer}",
               "(native bounded search only) decode_tokio!, decode_tokio_02!, decode_tokio_03!, decode_futures_03!, Bufferless, AsyncRead/AsyncBufRead for BufReader"],
    trusted=["harness/bytes: contract standing in for BytesMut, Buf and BufMut (the same harnesses also run natively with the real crate)",
             "harness/src/c18.rs: Pieces, a reader giving any data in any pieces of one or two bytes, failing at any time"],
    assumptions=["Asynchronous readers are beyond the verifier and only searched natively (bounded, harness_io)", "After a parse error the bytes consumed by the failing run stay in the buffer, as documented by the decoder"],
    native_crates=[("harness_io", "c18_io"), ("harness_io", "c18")],
)

prop(
    id="C19", title="Stream adaptors change nothing but what they are there to change",
    statement="PartialStream, CompleteStream, MaybePartialStream, state::Stream, span::Stream, easy::Stream, position::Stream and mutable references pass every operation to the wrapped stream once, "
    "with the same arguments, and its answer back unchanged: tokens, ranges, the tokens shown to predicates and what these say, checkpoints, distances, what is left, positions and (converted) errors with their commit status. "
    "Only PartialStream, CompleteStream and MaybePartialStream decide whether the input is partial; the others pass that on too. The functions uncons, uncons_range, uncons_while and uncons_while1 over any stream "
    "report what it gives, commit exactly if something was taken, turn running out of partial input into a committed request for more, and undo looking ahead. Readers and iterators as streams give their items once, in order, then the end.",
    over=["inputs", "programs"], quant="all streams with any answers, all operations and arguments, any predicate of up to two tokens per call",
    why="The tests use the adaptors around slices only and never look at all operations of each, nor at streams whose operations fail.",
    files=["src/stream/mod.rs", "src/stream/easy.rs", "src/stream/span.rs", "src/stream/state.rs", "src/stream/position.rs", "src/stream/read.rs"],
    mech=[("partiality", "src/stream/mod.rs PartialStream, CompleteStream, MaybePartialStream"), ("adaptors", "src/stream/{easy,span,state,position}.rs Stream"),
          ("operations", "src/stream/mod.rs uncons, uncons_range, uncons_while, uncons_while1, input_at_eof"), ("readers, iterators", "src/stream/read.rs Stream, src/stream/mod.rs IteratorStream")],
    functions=["StreamOnce, Positioned, ResetStream, RangeStreamOnce for &mut S, PartialStream, CompleteStream, MaybePartialStream, state::Stream, span::Stream, easy::Stream, position::Stream",
               "From<S> and From<&mut S>", "RangeStreamOnce::uncons_while1 (default)", "uncons, uncons_range, uncons_while, uncons_while1, wrap_stream_error, input_at_eof", "read::Stream", "IteratorStream"],
    trusted=["harness/src/c19.rs: a stream that logs what it is asked and answers anything"],
)

prop(
    id="C20", title="No input, count or history makes the library panic, overflow or misuse memory",
    statement="Whatever the input, the outcomes of user supplied parsers and predicates, the counts and sizes a grammar computes from its input (count, count_min_max, take, iterate), the number of parts of a grammar "
    "and the history of a partial state (any number of failed, suspended and completed parses with it), the library does not panic, overflow, read outside of its input or reach code it declared unreachable; "
    "what a collection is told to make room for ahead of time never exceeds 4096 elements. A view of a stream as a complete one is that stream.",
    over=["inputs", "histories"], quant="all counts and sizes, all outcomes of sub parsers, all histories of up to three parses with one state, all byte strings up to 4 bytes and texts up to 3 characters",
    why="Counts taken from hostile input, stale states and unsafe shortcuts (unwrap without check, get_unchecked) fail on values no test picks.",
    files=["src/parser/repeat.rs", "src/parser/sequence.rs", "src/stream/mod.rs", "src/lib.rs"],
    mech=[("size hints", "src/parser/repeat.rs suggest_size_hint"), ("values of a sequence", "src/parser/sequence.rs SequenceState::unwrap_value"),
          ("unchecked access", "src/stream/mod.rs slice_uncons_while"), ("counting parsers", "src/parser/sequence.rs parser_count")],
    functions=["suggest_size_hint via CountMinMax, count, many, many1, Iterate", "<(A,..)>::parse_mode_impl, unwrap_value", "choice (tuples, arrays)", "Then, ThenPartial, ThenRef", "Optional, Try, LookAhead, Either, AnyPartialState",
               "SepBy, SepEndBy1, Chainl1, RepeatUntil, CountMinMax with any old state", "take", "uncons_while, uncons_while1 of &[u8], SliceStream", "From<&mut S> for &mut CompleteStream<S>"],
    cases=True,
    note="Kani's own obligations (panics, overflow, pointer validity, unreachable code) are discharged in every harness of every property; those here add arbitrary counts, sizes and old states. "
    "Histories are those callers can make: one first run, then runs in partial mode.",
)

prop(
    id="C21", title="A wrapped parser behaves exactly as the parser itself",
    statement="A parser that is boxed, borrowed, put into Either, built lazily or by a factory, made opaque, given another partial state (any_partial_state and its Send variants), mapped, given a span or put into a parser! function "
    "makes the same calls at the same places as the parser itself, with the same result, commit status, position and errors (apart from the span asked for), continues the same way after a suspension, "
    "and tells the sequence it is part of the same expectations. A factory builds its parser once per run, from the input where it starts. Parsers without a state (no_partial, functions) have the outcome of what they wrap "
    "and are given back their input when more is needed.",
    over=["inputs", "programs", "schedules"], quant="all inner parsers with any outcomes, alone and as the first or last part of a sequence, through every entry point, with one suspension",
    why="Every wrapper forwards up to nine methods; tests call a wrapped parser through one or two of them and compare no errors of wrapped parts.",
    files=["src/parser/combinator.rs", "src/parser/mod.rs", "src/parser/function.rs", "src/lib.rs"],
    mech=[("forwarding", "src/lib.rs forward_parser!, src/parser/mod.rs forward_deref!"), ("lazily built", "src/parser/combinator.rs Lazy, Factory, Opaque"),
          ("states", "src/parser/combinator.rs Either, AnyPartialStateParser, NoPartial"), ("functions", "src/parser/function.rs"), ("parser!", "src/lib.rs combine_parser_impl!")],
    functions=["&mut P, Box<P>, Box<dyn Parser>", "Either", "Lazy", "Factory", "Opaque", "NoPartial", "AnyPartialStateParser, AnySendPartialStateParser, AnySendSyncPartialStateParser", "Map, MapInput, FlatMap",
               "parser! with and without PartialState", "Spanned", "InputConverter", "FnParser, EnvParser, fn and dyn FnMut parsers"],
    cases=True,
    trusted=["harness/src/c21.rs: scripted parsers that do the same in the bare and in the wrapped run"],
    note="A complete proof by comparing two runs of the same script. Known finding wrapped_then_part is left out of the lazy, opaque and parser! harnesses: a completed nested sequence followed by a part that fails.",
)



BY_ID = {p["id"]: p for p in PROPS}
NOT_APPLICABLE = []
