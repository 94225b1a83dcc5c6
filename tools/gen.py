#!/usr/bin/env python3
"""Single source of truth for properties.jsonl and MANIFEST.json (run from /verif)."""
import json, sys

MSG = "fyi_msg/src/msg/mod.rs"
KIND = "fyi_msg/src/msg/kind.rs"
ANSI = "fyi_msg/src/ansi.rs"
FIT = "fyi_msg/src/fitted.rs"
PRO = "fyi_msg/src/progress/mod.rs"
STE = "fyi_msg/src/progress/steady.rs"
SIG = "fyi_msg/src/progress/signals.rs"
BA = "fyi_msg/src/progress/ba.rs"
LIB = "fyi_msg/src/lib.rs"
FA = "fyi_ansi/src/lib.rs"
CLI = "fyi/src/cli.rs"
MAIN = "fyi/src/main.rs"
ERR = "fyi/src/error.rs"

SEQ = ("exhaustive bounded enumeration of operation sequences / inputs on the real code, "
       "checked step by step against a reference model")
CONC = ("stateless model checking of the unmodified implementation under a controlled scheduler "
        "(all interleavings up to a deviation bound, virtual clock, fault choices)")
SCRIPT = ("exhaustive bounded enumeration of histories and inputs on the real code under a controlled runtime "
          "(scripted standard streams, virtual clock), checked step by step against a reference model")
CLIT = "exhaustive enumeration of command lines up to a bounded length, real binary vs reference model"

def P(id, title, statement, over, text, why, files, mech, tech, note, observe=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, tech=tech, note=note, observe=observe, state=state)

PROPS = [
P("M01", "A message always equals the concatenation of its current parts",
  "After any history of edits, a message's text is exactly indentation (four spaces per level, at most eight levels), timestamp if enabled, prefix, body, suffix and optional line break, concatenated in that order, each as last set. Changing or clearing one part never alters, moves or duplicates any other part. In-place and builder-style edits behave identically.",
  ["histories", "inputs"],
  "Every sequence of edits (any part, any order, with and without the timestamp feature) applied to a message built in any way, with part contents of any length including empty and multi-byte text.",
  "Unit tests and doctests edit one or two parts once on ASCII text; part-boundary bookkeeping goes wrong only after particular sequences of growing, shrinking and clearing different parts.",
  [MSG], [("partition table and in-place part replacement", "Msg::replace_part, Toc::{part_rng,part_len,resize_part}"), ("setters and builders", "Msg::{set_*,with_*,new,from}")],
  SEQ, "All edit sequences up to the stated depth over a small alphabet of part contents; both timestamp feature configurations. Longer sequences and other contents are outside the bound.",
  observe="Msg::as_str", state="part offsets inside Msg"),
P("M02", "Message prefixes render the same from every prefix type and entry point",
  "A non-empty custom prefix renders as text plus \": \" when plain, and as the bold sequence of its colour, the text, a colon, a full reset and a space when coloured; an empty prefix renders as nothing. The result is the same whichever string type, colour form (enum or number) or entry point (constructor, in-place setter, builder) supplies it. Built-in kinds render as their fixed coloured label, and each kind's shorthand constructor equals constructing that kind with a trailing line break.",
  ["inputs"],
  "All 256 colours times every supported string type times every entry point times prefix texts including empty, multi-byte and ANSI-bearing; all built-in kinds.",
  "Doctests check a handful of colour/type pairs; each string type and colour form is a separately generated implementation, and a wrong declared length corrupts a later edit rather than the immediate text.",
  [KIND, MSG], [("prefix trait implementations", "IntoMsgPrefix"), ("constructor", "Msg::new"), ("prefix setter", "Msg::set_prefix")],
  SEQ, "The colour, type and entry-point domains are enumerated completely; prefix texts come from a fixed alphabet, each followed by later edits that expose a wrong recorded length.",
  observe="Msg::as_str"),
P("M03", "Stripping ANSI removes every escape sequence and nothing else",
  "Stripping removes every CSI and OSC sequence (properly terminated or cut short) contained in the timestamp, prefix, body or suffix, keeps every other character in place, and leaves later edits working on the correct parts. It reports whether anything changed, a second strip changes nothing, and it never panics.",
  ["inputs", "histories"],
  "Every text built from a token alphabet of escape openers, parameters, terminators, ordinary, multi-byte and control characters up to a length bound, in every part, including edits before and after stripping.",
  "Tests strip well-formed sequences only; unterminated sequences, terminators cut at part boundaries and sequences formed by an earlier removal are never sampled.",
  [MSG, ANSI], [("strip loop with running offsets", "Msg::strip_ansi"), ("sequence finder", "next_ansi")],
  SEQ, "All token strings up to the stated length in each part and in pairs of parts; sequences that straddle a part boundary are treated as the parts' own text (per-part semantics).",
  observe="Msg::as_str"),
P("M04", "Message comparison, hashing and conversion agree with the rendered text",
  "Two messages are equal, ordered and hashed exactly as their rendered texts are, no matter how their parts are divided. Comparison with any supported string or byte type agrees with comparing the text, in both directions. Length, emptiness, display formatting and every borrowing or consuming conversion yield exactly that text.",
  ["inputs", "histories"],
  "All ordered pairs of messages from a set built through different edit histories (including equal texts with different part divisions) and all supported comparison and conversion types.",
  "Comparison impls are macro-generated per type and doctests touch a few of them with one value.",
  [MSG], [("comparison impls", "PartialEq/Ord/Hash for Msg"), ("conversions", "From/AsRef/Borrow/Display, as_*, into_*")],
  SEQ, "All pairs from the enumerated message set; the trait impl list is the public one."),
P("M05", "Printing delivers the message's bytes exactly once, whole, to the right stream",
  "Printing a message to standard output or standard error delivers exactly its bytes, once, to that stream and none to the other, and has reached the stream when the call returns. Messages printed concurrently from several threads never interleave within one another on the same stream. Short or interrupted writes are continued, and a failing stream never causes a panic.",
  ["schedules", "fault_sequences", "inputs"],
  "All interleavings of a few printing threads up to the deviation bound, combined with every placement of short, interrupted and failing writes up to a fault bound.",
  "Tests never capture the process streams, never print concurrently and never see a short write.",
  [MSG], [("locked whole-message write plus flush", "Msg::print, Msg::eprint")],
  CONC, "Exhaustive within the deviation and fault bounds for 2-3 threads; the standard streams are stand-ins with the standard library's locking and buffering behaviour.",
  observe="bytes written to the two streams"),
P("M06", "Yes/no prompts return what the typed answer means",
  "A prompt prints the question with a yes/no hint that marks the default, then reads lines until one is, ignoring case and surrounding whitespace, empty (or end of input: the default), y/yes (true) or n/no (false); every other line prints an error and asks again. Question and errors go to the stream the caller chose and nothing goes to the other. The message prompted with is unchanged.",
  ["inputs", "histories"],
  "Every sequence of answer lines up to a bound drawn from an alphabet of valid, invalid, padded, mixed-case, multi-byte and unterminated lines and end of input, for both defaults, both streams and all prompting entry points including the convenience macro.",
  "Interactive input cannot be exercised by the existing tests at all: prompting has no test.",
  [MSG, LIB], [("prompt loop", "Msg::prompt__"), ("macro forms", "confirm!")],
  SCRIPT, "All answer sequences up to the stated length over the alphabet, run against the real code with scripted standard input.",
  observe="bytes on both streams and the returned bool"),
P("M07", "Before/after differences and the bytes-saved suffix are right for all values",
  "For every pair of before/after values the smaller/larger differences are the exact difference when both values are non-zero and the change goes in that direction, otherwise absent, with percentages equal to difference over before. The bytes-saved suffix states the exact saved amount and that percentage when something was saved, says there were no savings otherwise, and replaces any previous suffix without touching other parts.",
  ["inputs"],
  "All pairs over a value set covering zero, small values, equal pairs, digit-group boundaries and the 64-bit extremes, applied to messages with and without an existing suffix.",
  "Doctests check one pair each; zero, equal and extreme pairs are untested.",
  [BA, MSG], [("difference getters", "BeforeAfter::{less,more,less_percent,more_percent}"), ("suffix", "Msg::with_bytes_saved")],
  SEQ, "All ordered pairs from the boundary-value set; arithmetic between boundary values is outside the set."),
P("F01", "Fitting text to a width keeps every line within it and loses nothing else",
  "For any positive width, each line of fitted text displays no wider than that width and keeps the longest prefix of its visible characters that fits; every ANSI escape sequence of the line and its line break survive exactly once and in order. Text that already fits is returned unchanged, fitting twice equals fitting once, and it never panics. Fitting a message gives the same result as fitting its text.",
  ["inputs"],
  "Every string over a token alphabet (narrow, wide, zero-width and control characters, escape sequences whole and cut short, both line-break styles) up to a length bound, for every width from 1 up.",
  "Unit tests use a dozen hand-picked strings with well-formed sequences and none with unterminated ones.",
  [FIT, ANSI], [("line-wise fit", "fit_to_width"), ("longest fitting prefix", "length_width"), ("iterators that skip or keep sequences", "NoAnsi, OnlyAnsi")],
  SEQ, "All token strings up to the stated length times all widths; sequences spanning a line break follow the documented line-by-line semantics."),
P("F02", "Display width counts visible columns only, and prefix lengths are valid cuts",
  "The measured width is the sum of the display widths of the characters that remain once escape sequences are removed; escape sequences, line breaks and control characters count as zero. The prefix length reported for a width is always a character boundary, its prefix fits the width, and no longer prefix does; when everything fits it is the whole length.",
  ["inputs"],
  "Every string over the token alphabet up to a length bound, for every width from 0 up.",
  "Unit tests sample seven strings; multi-byte characters next to partial sequences are not sampled.",
  [FIT, ANSI], [("width fold", "width"), ("prefix length", "length_width"), ("byte position tracking", "NoAnsi::byte_pos")],
  SEQ, "All token strings up to the stated length times all widths; per-character widths are taken from the same width table the library documents."),
P("A01", "Formatting macros expand to exactly the requested escape sequences",
  "For every supported style, colour keyword or number, their negations and any ordered combination, the sequence macro yields one escape sequence whose codes appear in the order given; with no argument it yields the full reset. The wrapping macros yield that opening sequence, all contents in order and a full reset, and each named shortcut equals the general macro with that style.",
  ["programs"],
  "Every keyword alone (all 256 numbers, all names, all styles, all negations), all ordered pairs and triples over a representative keyword set, and every wrapper with one to three contents.",
  "Doctests show a few combinations; the macros are recursive token munchers whose arms differ between first, middle and last position and between plain and negated keywords.",
  [FA], [("sequence macro and merger", "csi!, ansi_merge!"), ("wrappers", "ansi!, bold!, dim!, italic!, underline!, blink!, strike!")],
  SEQ, "Generated program containing every invocation in the enumerated set, compiled against the real macros."),
P("A02", "Every colour number maps to one colour with the right sequences",
  "Each of the 256 numbers converts to a distinct colour that converts, compares and orders back to the same number. Its sequence is the short form for the 16 basic colours and the 256-colour form otherwise; its bold form is the same with bold added, and displaying a colour prints its sequence.",
  ["inputs"],
  "All 256 colours and all 65,536 ordered pairs, through every conversion, comparison, hash and display path.",
  "Tests check single colours; the table is generated and each comparison direction is its own implementation.",
  [ANSI], [("generated colour enum", "AnsiColor"), ("conversions and comparisons", "From<u8>, PartialEq<u8>, Hash, Display")],
  SEQ, "The whole finite domain is enumerated."),
P("K01", "Command names and message kinds correspond one to one",
  "Each subcommand name, ignoring surrounding ASCII whitespace, selects exactly its kind (with one alias for the confirmation kind), and any other text selects none. Each kind's name, label, colour, emptiness and default agree with one another across all access paths.",
  ["inputs"],
  "All kinds; all documented names with every single-character deletion, duplication, case change, truncation and padding, and all short byte strings over a small alphabet.",
  "The tests check only that each kind's static label matches its name and colour.",
  [KIND], [("name parsing", "From<&[u8]> for MsgKind"), ("kind tables", "MsgKind::{as_str,command,prefix_color,is_empty,into_msg}")],
  SEQ, "All kinds and the full mutation neighbourhood of all names."),
P("P01", "The progress count never loses, duplicates or overshoots an update",
  "With any number of threads updating one progress instance, the done count behaves as if the updates had been applied one at a time in an order consistent with the calls: increments add exactly their amount, an explicit set replaces the value, and removing an active task adds one. The count never exceeds the total, reaching the total ends the run, and once ended no concurrent update can change the count. An update made while a reset is in progress counts towards the old run, the new one, or not at all.",
  ["schedules", "histories"],
  "All interleavings up to the deviation bound of small groups of threads each performing a few updates (increment, bulk increment, set, task add/remove, finish, read), including amounts that overflow 32 bits.",
  "Existing tests never touch a running instance from two threads; lost updates need a particular interleaving of two read-modify-write steps.",
  [PRO], [("packed done/total cell", "ProglessInner::done_total"), ("updates", "ProglessInner::{increment_n,set_done,remove,stop}")],
  CONC, "Linearizability of every complete execution against a sequential reference, for 2-3 threads within the deviation bound; sequentially consistent interleavings (the code uses only SeqCst atomics and locks).",
  observe="summary text and painted frames", state="done/total pair and run flags"),
P("P02", "A finished bar is erased for good and counts as complete",
  "Once finishing (explicitly or by the update that reaches the total) has returned in any thread, the bar has been erased from the screen and the done count equals the total. Nothing of the bar is painted afterwards until the instance is reset, even with a paint in progress or messages being pushed at that moment.",
  ["schedules", "histories"],
  "All interleavings up to the deviation bound of finishing or completing calls with the background ticker, pushed messages and other updates.",
  "A late paint needs the ticker or a pushed message to be between its running check and its write exactly when another thread finishes; no test runs a ticker against a terminal.",
  [PRO, STE], [("stop under the output lock", "ProglessInner::stop"), ("paint", "ProglessInner::tick"), ("message insertion", "ProglessInner::push_msg")],
  CONC, "All schedules within the deviation bound; the screen is a terminal emulator fed with the bytes actually written.",
  observe="bytes on standard error via terminal emulation"),
P("P03", "An ended run stays frozen until reset, and a reset starts fresh",
  "After a run ends, updates to the count and the task list have no effect and adding a task is refused. Resetting makes the count zero of the new total with no active tasks, keeps the title and the elapsed clock, and the new run counts, accepts tasks, paints and finishes like a first one; resetting to zero fails and changes nothing. This holds however often runs are ended and restarted.",
  ["histories"],
  "Every sequence of update, finish, reset and failed-reset operations up to a depth bound, from fresh, default, ended and previously reset instances.",
  "No test resets an instance; stale state (flags, tasks, painted parts) only shows after particular end/restart histories.",
  [PRO, STE], [("stop and reset", "ProglessInner::{stop,reset}"), ("ticker restart", "ProglessSteady::start")],
  CONC, "All operation sequences up to the depth bound, each run on the real code under the virtual clock with frames compared to a reference model."),
P("P04", "Progress calls never deadlock, hang or panic",
  "Every call on a progress instance returns, in every interleaving of any set of threads using it and its clones, with the background ticker running. This covers updates, task and title changes, pushed messages, finishing, resetting, dropping and summaries, at any terminal size, with output failing, and for any values. None of them panics.",
  ["schedules", "inputs", "fault_sequences"],
  "All interleavings up to the deviation bound over all pairs of public operations and selected triples, with terminal sizes and write failures as choices; extreme counts and totals.",
  "Deadlocks between the ticker, its shutdown handshake and the output and task locks need particular schedules, and arithmetic panics need particular values.",
  [PRO, STE], [("shutdown handshake", "ProglessSteady::{start,stop}, spawn_ticker"), ("lock order", "ProglessInner::{tick,stop,push_msg}"), ("bar arithmetic", "ProglessBuffer::set_bars")],
  CONC, "All pairs of operations within the deviation bound; deadlock, livelock (step horizon) and panics are detected by the scheduler."),
P("P05", "Active tasks behave as a set of sanitised labels",
  "Adding a task is accepted exactly when the run is active and its label, after trimming trailing whitespace, removing escape sequences and control characters and turning whitespace into spaces, is non-empty and not already listed; removing an equivalent label takes it off the list and counts one done, and removing an unknown label does nothing. Listed labels never contain escape sequences, control characters or line breaks. With several threads adding or removing the same label, exactly one succeeds.",
  ["histories", "schedules", "inputs"],
  "All add/remove sequences up to a depth bound over colliding labels, all label strings over a token alphabet, and all interleavings of concurrent adds and removes.",
  "No test adds a task; label equivalence classes and concurrent double removal are unsampled.",
  [PRO], [("task set", "ProglessInner::{add,remove}"), ("label clean-up", "progless_task")],
  CONC, "All label strings up to the stated length, all operation sequences up to the depth bound, all 2-3 thread interleavings within the deviation bound."),
P("P06", "The painted bar catches up with the current state",
  "Whenever an active run is left alone, within a few tick intervals the screen shows the current count, total, percentage, title and tasks, and elapsed whole seconds advance with the clock; no update is ever permanently missing from the display, whatever its timing relative to a paint in progress. A run that has nothing new to show is not repainted.",
  ["schedules", "histories"],
  "All sequences of count, task, title and size changes up to a depth bound with ticks in between, and all interleavings of a change with a running tick up to the deviation bound.",
  "A lost change flag needs an update to land between the paint's reading of the state and its clearing of the flag; no test ticks a bar.",
  [PRO, STE], [("change flags", "ProglessInner::tick_set_drawable, TICK_* flags"), ("partial buffers", "ProglessBuffer")],
  CONC, "All schedules within the bound; the screen reached at quiescence is compared with a rendering of the model state.",
  observe="terminal emulation of standard error"),
P("P07", "Painted frames fit the terminal and return the cursor to their origin",
  "At every terminal size a painted frame (of titles whose own escape sequences, if any, are complete) stays within the width and height it was painted for: no line wraps or scrolls, and the cursor ends where the frame began, so the next paint replaces it exactly. The parts shown have the documented layout: title first, bar proportional to done over total, counts exact, percentage to the nearest hundredth; parts that do not fit (tasks, title, bar, finally everything but the percentage) are dropped rather than overflowing. Nothing of it goes to standard output.",
  ["inputs", "configurations"],
  "All terminal widths and heights up to past the cut-offs, times done/total pairs including 32-bit extremes, times titles and task lists with wide, multi-byte, ANSI-bearing and over-long text, including resizes between paints.",
  "Rendering has no test because it needs a terminal; overflow appears only for particular combinations of size, digits and text.",
  [PRO, FIT], [("frame writer", "ProglessBuffer::print"), ("part sizing", "ProglessBuffer::{set_bars,set_doing,set_title}"), ("size query", "term_size")],
  CONC, "Exhaustive over the size grid and content alphabet; checked by a terminal emulator and an independent renderer."),
P("P08", "Messages pushed past a running bar appear once, whole, above it",
  "Every message pushed through a progress instance is written to standard error exactly once, uninterrupted, on its own line(s) starting at column one and never overwritten by later paints, and an active bar is restored below it. With an active run, a message that could not be written is handed back to the caller; with none it is simply printed.",
  ["schedules", "fault_sequences"],
  "All interleavings up to the deviation bound of pushed messages with the ticker, other pushes, updates and finishing, with short and failing writes.",
  "No test pushes a message; loss or garbling depends on where a paint or finish lands between erase, write and repaint.",
  [PRO], [("message insertion", "ProglessInner::push_msg"), ("forced repaint", "ProglessInner::tick")],
  CONC, "All schedules within the bound, checked on the emulated screen and scrollback."),
P("P09", "Short and interrupted writes never corrupt a painted frame",
  "However the operating system splits or interrupts the writes of a frame, an erase or a pushed message, the bytes that arrive are exactly the intended ones in order, without loss or repetition. When a write fails outright the call still returns, later paints are complete again, and counts and tasks are unaffected.",
  ["fault_sequences"],
  "Every placement of up to the bounded number of short writes (each length class), interruptions, zero writes and errors over the writes of a history of paints.",
  "The hand-written partial-write loop only runs on short vectored writes, which tests never produce.",
  [PRO], [("vectored write loop", "ProglessBuffer::print")],
  CONC, "All fault placements within the fault bound over the scenario's writes."),
P("P10", "Totals of every integer type are accepted or refused correctly",
  "Creating a progress instance from any integer succeeds exactly when the value is between one and the 32-bit maximum, with that total; zero is refused as an empty total and anything negative or larger as an overflow, identically for every integer type and its non-zero form. The error texts and published constants match these outcomes.",
  ["inputs"],
  "All values of the 8- and 16-bit types, and boundary values of every wider type, signed and unsigned, plain and non-zero.",
  "Each conversion is generated per type; a few are exercised by examples only.",
  [PRO, "fyi_msg/src/progress/error.rs"], [("conversions", "TryFrom/From for Progless and ProglessInner"), ("errors", "ProglessError")],
  SCRIPT, "Complete for 8- and 16-bit types; boundary neighbourhoods for wider ones."),
P("P11", "Progress summaries state the true count, noun form and elapsed time",
  "A summary names the current done count with digit grouping, uses the singular noun exactly for one, states the elapsed time since creation, carries the requested kind's prefix and ends in a line break; converting an instance to a message gives the generic finished form. Elapsed time keeps counting across resets.",
  ["inputs", "histories"],
  "All kinds times counts around digit-group and singular boundaries times elapsed durations around second, minute and hour boundaries, before and after resets.",
  "No test summarises an instance because elapsed time is not controllable there.",
  [PRO], [("summary", "Progless::summary"), ("message conversion", "From<Progless> for Msg")],
  SCRIPT, "All combinations over the boundary sets, with a virtual clock."),
P("P12", "The background ticker never outlives its progress instance",
  "When finishing, resetting or dropping the last handle returns, the previous background ticker has fully stopped; a run that completes by itself stops ticking within a tick. There is never more than one ticker per instance, and dropping one of several clones leaves the others' run alone.",
  ["schedules", "histories"],
  "All interleavings up to the deviation bound of finish, reset, drop and clone from several threads with the ticker at any point of its cycle.",
  "A leaked or duplicated ticker needs the shutdown request to fall in a particular window of the ticker's wait; tests never look at threads.",
  [STE, PRO], [("shutdown handshake", "ProglessSteady::{start,stop,drop}"), ("ticker loop", "spawn_ticker")],
  CONC, "All schedules within the bound; live threads are counted by the scheduler."),
P("P13", "Progress instances are independent of one another",
  "Any number of progress instances in one program, one after another or at once, behave as each would alone: each has its own count, total, tasks, title, clock and ticker, and what happened to an earlier one — finishing, completing, being dropped, an interrupted terminal — does not change a later one. While several are active, everything painted is a whole frame of one of them, each notices resizes, and finishing, resetting or dropping one leaves the others painting.",
  ["histories", "schedules"],
  "All sequences of operations on one instance followed by all on another, or interleaved on two; numbers of instances across powers of two, before and at once; two instances driven by two threads with their tickers at any point.",
  "Every test uses one instance at a time and none looks at the output; state shared between instances shows only after a particular history of another one.",
  [PRO, STE, SIG], [("per-instance state", "ProglessInner::default, TryFrom, Progless::reset"), ("tickers", "ProglessSteady, TICK state"), ("shared state", "signals: SIGINT, SIGWINCH registrations")],
  CONC, "All sequences and schedules within the bounds; up to 300 instances in a row and 40 at once."),
P("S01", "Interrupt signals follow the chosen policy and always restore the cursor",
  "With interrupt handling enabled, the first policy requested stays in force: the default policy ends the process with status 1 at the first interrupt, two-strike survives the first and ends it at the second, keepalive never ends it; the shared flag turns true at the first interrupt. Whenever the process ends or the run is over, the cursor is visible, wherever the interrupt landed. While a surviving run is still active its title changes to the early-shutdown notice.",
  ["schedules", "crash_points"],
  "Interrupts delivered at every step of every thread of a run (zero to three of them), for each policy and registration order, within the deviation bound.",
  "Signals cannot be delivered at chosen points by tests; no test covers this feature.",
  [SIG, STE], [("handlers", "sigint_default, sigint_two_strike, sigint_keepalive"), ("cursor hide/show", "ProglessSignals::{default,drop}"), ("title switch", "ProglessInner::sigint")],
  CONC, "All delivery points within the bound, with handlers run on the interrupted thread as the OS does; the kernel's signal masking is modelled."),
P("S02", "Terminal resizes are picked up by the running bar",
  "After the terminal size changes during an active run, the bar is repainted for the new size within a few tick intervals: with resize-signal support once the signal arrives, otherwise by polling. A resize at any moment never leaves the display permanently formatted for an old size, and once no run is active resize signals are no longer listened for.",
  ["schedules", "histories"],
  "Resizes and their signals at every step of a run, including during a paint, sequences of several resizes, and unknown sizes, with and without resize-signal support.",
  "Needs a terminal whose size changes mid-paint; no test covers this.",
  [PRO, SIG], [("size cache", "ProglessInner::{tick_resize,tick_set_size}"), ("resize listener", "ResizeHandler")],
  CONC, "All delivery points within the bound in both feature configurations."),
P("T01", "Timestamps show the current local time in the fixed format",
  "An enabled timestamp renders as the dimmed-bracket form around YYYY-MM-DD hh:mm:ss of the local time when it was enabled, followed by a space; disabling removes it completely, and enabling again refreshes it in place.",
  ["configurations", "histories"],
  "All toggle sequences up to a bound combined with other edits, under a set of time zones on both sides of UTC.",
  "Examples only show the shape in comments; the test suite never checks the rendered time.",
  [MSG], [("timestamp part", "Msg::set_timestamp")],
  SEQ, "All toggle sequences up to the bound in each zone; the time itself is compared to the system clock read before and after."),
P("C01", "The command-line tool prints the requested message to the requested stream",
  "For every message subcommand and every combination and order of options, the tool prints exactly one line: the optional indentation, optional timestamp, the subcommand's prefix (for the custom printer: the given prefix in the given or default colour, or none) and the message, followed by one line break. It goes to standard error when asked, otherwise to standard output, with nothing on the other stream; repeated options take their last valid value and invalid numbers are ignored.",
  ["inputs"],
  "Every argument sequence up to a length bound over an alphabet of all options in all spellings with valid, invalid and extreme values and messages.",
  "The tests cover only the static tables; the argument parser as a whole and the binary's output have no test.",
  [CLI, MAIN], [("argument loop", "parse_msg, Settings"), ("stream choice", "main__")],
  CLIT, "All argument sequences up to the bound; longer ones are outside it."),
P("C02", "The command-line tool exits with the status the arguments ask for",
  "After printing a message the tool exits with the last valid exit status given, or zero; help and version exit zero; usage errors exit one after one error message on standard error and nothing on standard output.",
  ["inputs"],
  "All 256 statuses and invalid values in every option spelling, and every argument sequence of the message, blank and error families up to a length bound.",
  "No test runs the binary.",
  [CLI, MAIN, ERR], [("exit setting", "Settings::exit"), ("error mapping", "main")],
  CLIT, "Complete over the status domain; argument sequences up to the bound."),
P("C03", "The blank subcommand prints exactly the requested number of line breaks",
  "It prints as many line breaks as the largest valid positive count given, or one if none is, to standard error when asked and to standard output otherwise, with nothing on the other stream, and exits zero; unrecognised arguments are ignored.",
  ["inputs"],
  "Every argument sequence up to a length bound over counts (zero, small, large, invalid, padded, negative), spellings, stream switch and junk.",
  "No test runs the binary.",
  [CLI], [("blank parser", "parse_blank")],
  CLIT, "All argument sequences up to the bound."),
P("C04", "The confirm subcommand turns the typed answer into the exit status",
  "It asks on standard output, keeps asking until the answer is valid, and exits zero for yes and one for no; an empty answer or end of input takes the default, which is no unless yes was requested. Indentation and timestamp options apply to the question.",
  ["inputs", "histories"],
  "Every sequence of answer lines up to a bound over the answer alphabet, times every option combination.",
  "No test runs the binary interactively.",
  [CLI, MAIN, MSG], [("confirm branch", "main__"), ("prompt loop", "Msg::prompt__")],
  CLIT, "All answer sequences and option combinations up to the bound."),
P("C05", "Help, version and misuse are always answered as documented",
  "Asking for help anywhere among a subcommand's arguments before an earlier usage error prints that subcommand's help to standard output; no, unknown or malformed subcommands print the general help, and the version switch prints name and version. Surplus or undecodable arguments and a missing message are reported as usage errors naming the subcommand's help where applicable, never a panic.",
  ["inputs"],
  "Every argument sequence up to a length bound over subcommands (valid, misspelt, padded), help/version switches in all spellings and positions, surplus, empty and non-UTF-8 arguments.",
  "No test runs the binary.",
  [CLI, MAIN, ERR], [("kind parser", "parse_kind"), ("help dispatch", "main, helper")],
  CLIT, "All argument sequences up to the bound."),
]

NOT_APPLICABLE = {}

def main():
    claimed = [l.strip() for l in open("tools/claimed.txt") if l.strip()]
    with open("properties.jsonl", "w") as f:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]: a["state"] = [{"name": p["state"]}]
            if p["observe"]: a["observe_at"] = [p["observe"]]
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
    checks = [{"property": p["id"], "quick_cmd": f"./check {p['id']}",
               "thorough_cmd": f"./check {p['id']} --tier thorough",
               "technique": p["tech"], "level": "model_checking", "level_note": p["note"]}
              for p in PROPS if p["id"] in claimed]
    na = [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "check under construction")}
          for p in PROPS if p["id"] not in claimed]
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: the concurrency checks compile the unmodified sources against a replacement for the standard library's sync/thread/time/io modules (see DESIGN.md)."},
              open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open("MANIFEST.json", "a").write("\n")
main()
