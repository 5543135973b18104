import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="src/lib.rs"; MR="src/meta_rules/mod.rs"
p("C01","Concurrent calls sharing one grammar do not interfere",
 "Any number of threads may use one shared grammar value at the same time, in any interleaving, while other threads read new grammars, convert metadata, format errors, write JSON, search metadata, or drop results. Every call gives exactly what the same call gives when it runs alone in a fresh process: the same success, or the same error at the same place, and the same metadata entries with the same source ranges in the same order.",
 ["schedules","inputs"],"all interleavings of concurrent library calls over shared rules and shared metadata, for all grammars and documents",
 "The existing tests are single-threaded; the only thread-safety tests check that types are Send and Sync at compile time, which says nothing about hidden shared state reached through statics, thread-locals, reference counts or interior mutability.",
 [L,MR,"src/meta_rules/rule.rs","src/meta_rules/lines.rs","src/meta_rules/node.rs","src/meta_rules/fast_select.rs","src/tokenizer.rs","src/optimize.rs","src/bootstrap/convert.rs"],
 [("parser state is passed by value or by exclusive reference per call; rules are only read","src/meta_rules/*.rs parse methods"),("text and names are shared through atomic reference counts","src/lib.rs MetaData, src/meta_rules/*.rs property fields"),("indentation settings are copied per call","src/meta_rules/mod.rs parse_with_indent")],
 ["return value of each call","metadata vector after each call"],
 [("shared rules","the grammar value read by all threads","src/lib.rs Syntax"),("indentation","per-call copy of the caller's settings","src/meta_rules/indent_settings.rs")])
p("C02","Racing first uses of the meta language all get the right grammar",
 "Whichever threads are the first in a process to read a grammar text, in any interleaving and whether those texts are valid or not, every such call completes and gives the same result as if it were the only call in a fresh process. No interleaving deadlocks, crashes, or lets a caller see a partly built meta grammar, and grammars read later are unaffected by how the first ones raced.",
 ["schedules","inputs"],"all interleavings of the first grammar reads of a process, for all grammar texts",
 "The meta grammar is built lazily once per process, so one test process exercises its first use once, in one arbitrary interleaving it does not control.",
 [L,"src/bootstrap/rules.rs","src/bootstrap/convert.rs","src/optimize.rs"],
 [("one-time lazy initialisation of the bootstrap rules","src/lib.rs syntax()"),("bootstrap rules built and optimized before they are published","src/lib.rs syntax(), src/bootstrap/rules.rs rules()")],
 ["return value of each first call","behaviour of the returned grammar on probe documents"],
 [("bootstrap rules","process-wide meta grammar, built on first use","src/lib.rs BOOTSTRAP_RULES")])
p("C03","A stalled or abandoned call never blocks or corrupts other calls",
 "Once the meta language has been used in a process, a thread that is suspended forever at any point inside a library call on memory or on its own writer, or a call abandoned by unwinding at any point (a panicking writer or callback, a failed allocation that unwinds), leaves every other call able to finish within a bounded number of its own steps. Those other calls, and later calls on the same thread, return exactly what they return when run alone in a fresh process.",
 ["schedules","crash_points","fault_sequences"],"all suspension points and unwinding points inside a call, combined with all interleavings of the other calls",
 "No test suspends a thread inside the library, makes an allocation fail, or continues after a panic; each needs a chosen instant inside a call.",
 [L,MR,"src/meta_rules/rule.rs","src/json.rs","src/parse_error_handler.rs","src/optimize.rs","src/bootstrap/convert.rs","src/search/src/lib.rs"],
 [("no lock or shared mutable state is held during a call after first use","whole crate"),("shared rules are never written while parsing","src/meta_rules/*.rs")],
 ["completion and return value of the other calls","return value of later calls on the same thread"])
p("C04","A call's result does not depend on the calls made before it",
 "The result of any call (reading a grammar, parsing, converting, writing JSON, formatting an error, searching) is determined by its arguments alone: after any history of earlier calls in the same process, successful, failed, abandoned by unwinding, made by threads that have since ended, or on grammars and texts since freed, and also when it is made by the caller's own writer or callback while another call of the same thread is still in progress, it equals the result of the same call made first in a fresh process. Indentation settings, grammars and metadata passed in by shared reference are never changed.",
 ["histories","fault_sequences","inputs"],"all sequences of calls, of any length, with failures, unwinding and freeing of earlier arguments in between",
 "Unit tests make one or two calls per case in a process and never compare a call made after a long or faulty history with the same call in a fresh process.",
 [L,MR,"src/meta_rules/lines.rs","src/meta_rules/indent_settings.rs","src/optimize.rs","src/bootstrap/convert.rs","src/json.rs","src/parse_error_handler.rs"],
 [("no process-wide state other than the immutable bootstrap rules","src/lib.rs"),("indentation settings are cloned before parsing","src/meta_rules/mod.rs parse_with_indent")],
 ["return values along the history"])
p("C05","Parsing appends to the caller's metadata and never damages it",
 "Entries already in the metadata vector when a parse starts are still there, unchanged and in the same place, after that parse succeeds, fails, or is unwound by a failed allocation at any point. When it succeeds, what follows them is exactly the metadata the grammar gives for the document, with nothing left over from alternatives that were tried and abandoned and regardless of what earlier failed parses left in the same vector.",
 ["histories","crash_points","inputs"],"all sequences of parses into one vector with failures and unwinding at any allocation in between, for all grammars and documents",
 "Tests start every parse from an empty vector and drop it after a failure; none reuses a vector after a failed parse or interrupts one.",
 [MR,"src/tokenizer.rs","src/meta_rules/node.rs","src/meta_rules/optional.rs","src/meta_rules/not.rs","src/meta_rules/select.rs","src/meta_rules/fast_select.rs"],
 [("tokenizer state counts accepted entries; stale entries are truncated before each append and at the end","src/tokenizer.rs read_data, src/meta_rules/mod.rs parse_with_indent"),("the state starts at the caller's length","src/meta_rules/mod.rs parse_with_indent")],
 ["the metadata vector before and after each call"],
 [("tokenizer state","number of accepted entries; anything beyond is abandoned","src/tokenizer.rs TokenizerState")])
p("C06","Writing JSON survives and reports every writer fault",
 "Writing metadata or a string as JSON delivers the complete rendering to the caller's writer exactly once and in order, whatever mixture of short and interrupted writes the writer makes. When the writer fails, the call returns that failure unchanged, the bytes the writer accepted are an exact prefix of the complete rendering, and success is never reported unless every byte was accepted.",
 ["fault_sequences","inputs"],"all metadata sequences with balanced nodes and all sequences of short, interrupted, zero-length and failing writes at any byte offset",
 "Tests only write to an in-memory vector, which never fails, never writes short and is never interrupted.",
 ["src/json.rs"],[("every write result is propagated with ?","src/json.rs write, write_string"),("write_all semantics of formatted writes","std io::Write through write!/writeln!")],
 ["bytes accepted by the writer","returned io::Result"])
p("C07","Writing an error report survives and reports every writer fault",
 "Writing an error report or a message about a place in a text delivers the complete report to the caller's writer exactly once and in order, whatever mixture of short and interrupted writes the writer makes. When the writer fails, the call returns that failure unchanged and the bytes accepted are an exact prefix of the complete report; a report written afterwards with the same handler is complete and the same as from a new handler.",
 ["fault_sequences","histories","inputs"],"all texts, ranges and errors, and all sequences of short, interrupted, zero-length and failing writes at any byte offset, in any sequence of reports from one handler",
 "No test writes a report to anything but memory or standard error, and none injects a write failure or reuses a handler after one.",
 ["src/parse_error_handler.rs","src/parse_error.rs"],[("every write result is propagated with ?","src/parse_error_handler.rs write, write_msg"),("the handler keeps only the line table","src/parse_error_handler.rs ParseErrorHandler")],
 ["bytes accepted by the writer","returned io::Result"])
p("C08","Printing to the process streams never loses output silently",
 "Printing metadata to standard output and error reports to standard error delivers the complete text exactly once and in order despite short and interrupted writes, and when the operating system refuses the output the call panics instead of returning. The unwrap helper writes nothing and returns the value when there is no error, and otherwise delivers the full report and then panics; when several threads print at once, each caller's text arrives complete and in its own order.",
 ["fault_sequences","schedules"],"all sequences of short, interrupted and failing write system calls and all interleavings of printing threads",
 "Tests never make standard output or standard error fail or write short, and cannot control how printing threads interleave.",
 ["src/json.rs","src/parse_error_handler.rs",L],[("errors from the stream are unwrapped","src/json.rs print, src/parse_error_handler.rs error"),("report is written before panicking","src/parse_error_handler.rs stderr_unwrap")],
 ["bytes received by descriptors 1 and 2","return or panic of the call"])
p("C09","Loading files under I/O faults is exact or panics, never partial",
 "Loading data from a grammar file and a document file returns exactly the metadata of the complete contents of both files or panics; it never returns metadata computed from part of a file. Short reads, interrupted calls and missing or wrong file size information do not change the result, any other failure to open or read either file makes the load panic, and once faults stop the same load succeeds with no descriptor left open by the earlier attempts.",
 ["fault_sequences","histories"],"all sequences of open, stat, seek and read faults at any byte offset of either file, over repeated loads",
 "Nothing in the test suite calls the file loader at all, and real files on a healthy disk never give short, interrupted or failing reads.",
 [L],[("both files are read to the end before use and every I/O result is unwrapped","src/lib.rs load_syntax_data"),("files are owned values closed on return and unwinding","src/lib.rs load_syntax_data")],
 ["returned metadata or panic","bytes delivered per descriptor","open descriptors after the call","standard error"])
p("C10","Loading a damaged file is never silently wrong or partial",
 "Whatever bytes a crash while saving, a torn, lost or stale block, a flipped bit or an overwrite during loading leaves in the grammar file or the document file, loading either returns exactly the metadata which the bytes it read mean under the meta language as documented, with the whole of both texts accounted for, or panics after writing the parse error to standard error. It never ignores an unread remainder, hangs, aborts, or treats invalid UTF-8 as text; this holds for grammars that cannot recurse or repeat without consuming input.",
 ["crash_points","fault_sequences","inputs"],"all torn, stale, lost, flipped and concurrently overwritten contents of both files",
 "Tests parse a few intact literals; none feeds damaged contents through the loader or compares the outcome with an independent meaning of the bytes.",
 [L,MR,"src/bootstrap/rules.rs","src/bootstrap/convert.rs","src/optimize.rs","src/meta_rules/fast_select.rs"],
 [("end-of-text check after the last rule","src/meta_rules/mod.rs parse_with_indent"),("UTF-8 validation while reading","src/lib.rs load_syntax_data"),("errors are reported and then panic","src/parse_error_handler.rs stderr_unwrap")],
 ["returned metadata or panic","standard error"])
p("C11","Calls keep no memory or descriptors once their results are dropped",
 "After the values returned by calls are dropped, repeating the same kinds of calls, successful, failing, interrupted by writer or file errors, or unwound by a failed allocation, does not increase the memory or file descriptors held by the process, however long the history and even when every document and grammar is new.",
 ["histories","fault_sequences"],"all repeated histories of successful, failed and unwound calls",
 "Tests never measure what a call leaves behind, and a leak on an error or unwinding path shows only as growth over a long faulty history.",
 [L,MR,"src/optimize.rs","src/bootstrap/convert.rs"],[("all state is owned by values with destructors; nodes refer to rules by index, so no reference cycles","src/meta_rules/node.rs, src/lib.rs Syntax"),("only one process-wide value, built once","src/lib.rs BOOTSTRAP_RULES")],
 ["live heap bytes and blocks per round","open descriptors per round"])
p("C12","Searching metadata is exact under failing callbacks and shared use",
 "A search over metadata behaves as a cursor over an unchanging list: a successful typed read returns the next entry's value and advances by one, while a failed read, a failed or panicking callback, or another thread searching the same metadata leaves the cursor and the metadata as they were. A search-anywhere call runs its callback exactly once, positioned just after the first matching entry at or after the cursor, and passes the callback's result or error through unchanged; when nothing matches it fails without running the callback. An error the search makes itself points at the next entry, or, when none is left or nothing was found, at the entry the cursor passed last (the start of the text if none).",
 ["histories","fault_sequences","schedules"],"all sequences of reads and nested searches with wrong names, failing or panicking callbacks, and concurrent searches of one metadata list",
 "Tests cover one or two successful reads per type with callbacks that never fail, and no retry after a failed read.",
 ["src/search/src/lib.rs"],[("reads advance the slice only on a match","src/search/src/lib.rs bool, f64, string, node, end_node"),("searches take the cursor by shared reference and give the callback a new one","src/search/src/lib.rs for_*")],
 ["return values","remaining data and range of the cursor","callback invocations"],
 [("cursor","remaining entries and the range of the last entry read","src/search/src/lib.rs Search")])
p("C13","Conversion cursors read exactly, in any number of copies and threads",
 "A cursor over metadata may be copied, kept and passed between threads: a typed read succeeds exactly when the next entry has that type and that name, gives that entry's value and a range of one entry, and like every read leaves the cursor where it was, and moving one copy moves no other. Skipping gives the range of one entry, or of one whole node with everything nested in it, and the difference of two copies gives the entries between them and their place in the text. Failed reads, other copies, conversions that were abandoned, unwound or suspended, and other threads change none of this.",
 ["histories","schedules","fault_sequences"],"all sequences of reads, skips and moves by any number of copies of cursors in any number of threads, over all metadata, with conversions abandoned at any point in between",
 "Tests use the cursor only inside the conversion of valid grammars, in one thread, and never go on after an abandoned conversion or with an old copy.",
 ["src/bootstrap/convert.rs"],[("the cursor is a slice and a depth, copied by value","src/bootstrap/convert.rs Convert"),("reads look at the first entry only and return the range to move by","src/bootstrap/convert.rs start_node, end_node, meta_bool, meta_f64, meta_string"),("nodes are skipped by counting starts and ends","src/bootstrap/convert.rs ignore")],
 ["return values","what each copy reads afterwards"],
 [("cursor","remaining entries and number of entries already passed","src/bootstrap/convert.rs Convert")])
p("C14","A call gives the same result on every machine and at every moment",
 "The result of any call, and everything it writes to a writer or a standard stream, depends only on its arguments, the files it is asked to read and the faults it meets. It does not depend on the date or time, jumps of the clock, the speed of the machine, random numbers, environment variables, the number of processors, the process id, the working directory, whether a stream is a terminal, which descriptor numbers are free, or the date, mode or identity of a file. Nor does it depend on where memory lies, what it held before, how it is reused, how text is aligned in it, or how deep the stack is.",
 ["configurations","inputs","histories"],"all environments of the process, including clocks that jump during a call, for all calls and histories of calls",
 "Tests run on one machine in one environment per run; none controls the clock, the random seed of hash tables or the addresses the allocator hands out, and none repeats a call in a different environment.",
 [L,MR,"src/optimize.rs","src/meta_rules/fast_select.rs","src/bootstrap/convert.rs","src/json.rs","src/parse_error_handler.rs","src/search/src/lib.rs"],
 [("no clock, randomness, environment variable or address enters a result","whole crate"),("names map to indices in order of appearance, never by order of a hash table","src/bootstrap/convert.rs, src/meta_rules/mod.rs update_refs")],
 ["return values","bytes written to writers and standard streams"])
p("C15","A call has no effect but its result and the output it was asked for",
 "Whatever its input and outcome and whatever faults it meets, a call changes nothing outside the process and nothing in it but its result, the values it was given to change, and the writer or stream it was asked to write to. Only printing JSON writes to standard output, only printing errors, unwrapping errors and loading write to standard error, and only loading opens files: exactly the two it was given, for reading, and it leaves both as they were. No call creates, changes or removes a file, opens a connection, starts a process or a thread that goes on, or changes environment variables, the working directory, the panic hook, signal handling or limits of the process.",
 ["inputs","fault_sequences","histories","schedules"],"all calls on all inputs in all histories and interleavings, with every kind of fault of writers, callbacks, files, streams and allocations",
 "A test looks at the value it asserts on; none watches descriptors, files, the environment or the panic hook while a call runs, and most effects of this kind would hide on paths only faults reach.",
 [L,"src/json.rs","src/parse_error_handler.rs",MR,"src/search/src/lib.rs"],
 [("output goes only through the writer given, or a standard stream in the functions named for it","src/json.rs print, src/parse_error_handler.rs error and stderr_unwrap"),("files are opened for reading only, in one place","src/lib.rs load_syntax_data")],
 ["system calls made during the call","panic hook, environment and working directory after it"])
p("C16","A failed allocation never gives a wrong result",
 "When an allocation fails at any point inside a call, whether that one alone or every one from then on, the call either is abandoned, by unwinding or a panic, or gives exactly the result it gives with enough memory; it never gives another result, and bytes it wrote before are a beginning of what it writes with enough memory. The same call made again with enough memory, and every later use of the same grammar, metadata or error handler, gives what it gives if the failure had never been.",
 ["crash_points","fault_sequences","histories"],"all allocations of all calls as points of failure, one or all from one on, in all histories of further calls",
 "No test makes an allocation fail; each failure point is one instant inside one call, and there are thousands per call.",
 [L,MR,"src/tokenizer.rs","src/json.rs","src/parse_error_handler.rs","src/bootstrap/convert.rs","src/optimize.rs","src/search/src/lib.rs"],
 [("infallible allocation: failure unwinds or aborts, nothing handles it locally","whole crate"),("values are built before they are published to the caller","src/tokenizer.rs read_data, src/meta_rules/mod.rs parse_with_indent")],
 ["return value and bytes written of the call that failed","return values of later calls"])
p("C17","A rejected text is reported where and why it was rejected",
 "Whenever a text is refused, by reading it as a grammar, by parsing it with a grammar or by loading it, the reported place is the farthest in the text at which any rule that was tried failed, or where the grammar ended if text is left over there; failures inside a negative look-ahead do not count. What is reported is one of the failures at exactly that place and of exactly that extent: what the rule expected or did not expect there, and a debug id in the range of the numbered grammar rule it stands in. This holds for errors returned, formatted, and written by loading, and regardless of optimization, of what was parsed, read or refused before, of other threads, and of failed allocations and interrupted reads on the way.",
 ["histories","inputs","programs","fault_sequences"],"all grammars and all texts they refuse, in all histories of calls, with failing allocations, file faults and other threads",
 "Tests check the error of a few literals under a few rules, one at a time; the reason reported is merged from every rule that was tried, so it depends on combinations of rules no test has.",
 [MR,"src/meta_rules/select.rs","src/meta_rules/fast_select.rs","src/meta_rules/separate_by.rs","src/meta_rules/repeat.rs","src/meta_rules/lines.rs","src/meta_rules/not.rs","src/meta_rules/optional.rs","src/parse_error.rs","src/parse_error_handler.rs","src/bootstrap/convert.rs"],
 [("the deepest error wins","src/meta_rules/mod.rs err_update, ret_err"),("rules that succeed pass on the deepest error they met","src/meta_rules/*.rs opt_error"),("debug ids are the number of the rule times 1000 and a count","src/bootstrap/convert.rs read_node")],
 ["returned error and its range","formatted error","standard error of a load"])
# not applicable
p("C20","Every rule reads text as the README table documents",
 "For every grammar and every document, parsing succeeds exactly when the documented meaning of the rules (ordered choice, sequence, repetition, separation, lines, look-ahead, optional, text, number, whitespace, until) matches the text, and yields exactly the named entries the rules describe.",
 ["programs","inputs"],"all grammars and documents","Tests sample one or two literals per rule kind.",
 ["src/meta_rules","README.md"],[("one parse method per rule kind","src/meta_rules/*.rs")])
p("C21","Optimizing a grammar preserves its meaning",
 "For every grammar and document, the optimized grammar accepts exactly the documents the original accepts and yields the same metadata; optimizing twice changes nothing.",
 ["programs","inputs"],"all grammars and documents","Four unit tests look at the lookup table of a few literal selects.",
 ["src/optimize.rs","src/meta_rules/fast_select.rs"],[("first-byte table, built only while first bytes are unique","src/optimize.rs unique_table_from_select")])
p("C22","The meta language describes itself",
 "Reading the self-describing syntax with the built-in meta grammar gives a grammar that accepts the same grammar texts and gives them the same rules as the built-in one.",
 ["programs"],"all grammar texts","Tests use the bootstrapped syntax on two one-line grammars.",
 ["src/bootstrap/rules.rs","src/bootstrap/convert.rs","assets/self-syntax.txt"],[("hand-written bootstrap rules mirror the self syntax","src/bootstrap/rules.rs")])
p("C23","Metadata is well nested and its ranges follow the text",
 "After every successful parse, node starts and ends match and nest by name, every range lies inside the text on character boundaries, and entries of one node appear in text order within it.",
 ["inputs"],"all grammars and documents","Tests look at a handful of small outputs.",
 ["src/meta_rules/node.rs","src/tokenizer.rs"],[("start and end entries are pushed around the sub rule","src/meta_rules/node.rs")])
p("C25","Reading a grammar or document always returns",
 "For every text, reading it as a grammar or parsing it with a grammar returns a value or an error in bounded time and stack, without panicking.",
 ["inputs"],"all texts, including left-recursive and deeply nested grammars","Tests use a few short texts.",
 ["src/lib.rs","src/optimize.rs","src/meta_rules/repeat.rs"],[("none: recursion and empty repetition are not bounded","src/optimize.rs unique_byte, src/meta_rules/repeat.rs")])
p("C26","JSON output is well-formed and faithful",
 "For every metadata sequence the JSON text, once wrapped in braces, is well-formed JSON with the same names, values and nesting, whatever characters the strings contain.",
 ["inputs"],"all metadata","Tests render a few literals.",
 ["src/json.rs"],[("escaping of special characters","src/json.rs write_string")])
p("C27","Converting any metadata to rules is total and accounts for every entry",
 "Converting any metadata sequence either gives rules built from it together with the ranges it ignored, or fails; it never panics or loops, and no entry is silently neither used nor reported as ignored.",
 ["inputs"],"all metadata sequences","Tests convert only metadata produced by valid grammar texts.",
 ["src/bootstrap/convert.rs"],[("unknown entries are skipped as whole nodes and recorded","src/bootstrap/convert.rs ignore")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
