"Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."
import json, os

P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

S = "shellous/"
p("C01", "Commands, pipelines and contexts are immutable values",
  "Every method, modifier, call or operator applied to a context, command or pipeline returns a new object in which exactly the requested settings changed and every other setting and argument kept its value, and it leaves every existing object (and any dict or list passed in) unchanged. env() merges into the existing environment with values converted to str, set(env=...) replaces it, a call with no arguments is the identity. Objects with equal arguments and settings are equal and have equal hashes however they were built, differ when any setting differs, and survive pickling when their settings can be pickled.",
  ["inputs", "histories"], "all sequences of builder calls over contexts, commands and pipelines with all option values",
  "Tests check single calls on fixed objects; the claim is about every composition of calls and about all earlier objects staying intact.",
  [S+"command.py", S+"pipeline.py", S+"util.py"],
  [("frozen dataclasses with dataclasses.replace", S+"command.py Options/CmdContext/Command"), ("EnvironmentDict", S+"util.py"), ("Pipeline replace", S+"pipeline.py")],
  ["public attributes args/options/commands", "==, hash, pickle", "behaviour of the child process"])
p("C02", "Arguments reach the child exactly as given, flattened in order",
  "The child process receives exactly the arguments given, in order and byte for byte: str and path-like arguments in the filesystem encoding, bytes-like values (bytes, bytearray, memoryview, BytesIO/StringIO contents) as such, lists and tuples flattened recursively, other objects via str(), and arguments of repeated calls appended. coerce_arg is applied to each top-level argument before conversion. None, Ellipsis, mappings, sets, ranges and generators raise TypeError when the command is built, at any nesting depth.",
  ["inputs"], "all argument trees of supported and unsupported Python values, split over any number of calls",
  "Tests use a dozen literal argument lists; the claim covers all nestings, empty strings, shell metacharacters, non-UTF-8 bytes and surrogates.",
  [S+"command.py", S+"runner.py"], [("coerce", S+"command.py coerce"), ("argument passing", S+"runner.py _RunOptions")],
  ["Command.args", "argv seen by the child"])
p("C03", "The child's environment and program lookup follow the settings",
  "The child's environment is exactly the parent's environment (unless inherit_env is False) overridden by the command's own variables, and running a command never changes the parent's environment. A program name without a directory is resolved along the path setting (or PATH when unset), taking the first executable match as find_command reports; a name that cannot be found raises FileNotFoundError and one that cannot be executed raises PermissionError or FileNotFoundError, never running anything else.",
  ["inputs", "configurations"], "all environments, inherit_env/env/set sequences, PATH layouts with executable and non-executable candidates",
  "Tests check one or two variables and one PATH; resolution order and isolation depend on the layout and on combinations.",
  [S+"command.py", S+"runner.py", S+"util.py"], [("runtime_env", S+"command.py Options"), ("which", S+"command.py Options"), ("lookup at launch", S+"runner.py _RunOptions.__enter__")],
  ["environ and executable path seen by the child", "find_command()", "os.environ"])
p("C04", "| and >> build pipelines and bind redirections by type only",
  "a|b concatenates the commands of its operands in order whatever the grouping, so all groupings of the same operands are equal; a supported stdin object on the left binds to the first command's stdin, a supported stdout object on the right binds to the last command's stdout, with append exactly for >>, and nothing else changes. A value whose type is not supported on that side raises TypeError (in particular str or bytes as an output), None is rejected, and STDOUT is rejected for stdin and stdout. stdin()/stdout()/stderr()/.result/.writable on a pipeline touch only the first or last command.",
  ["inputs", "programs"], "all operator expressions over commands, pipelines and redirection objects",
  "Tests enumerate a few expressions; the claim is algebraic.",
  [S+"command.py", S+"pipeline.py", S+"redirect.py"], [("operators", S+"command.py, pipeline.py __or__/__ror__/__rshift__"), ("STDIN_TYPES/STDOUT_TYPES", S+"redirect.py")],
  ["the Command/Pipeline objects built", "data flow of the executed expression"])
p("C05", "Standard input is delivered complete, in order, then EOF",
  "Whatever the source of standard input (str, bytes, bytearray, Path, open file, StringIO, BytesIO, file descriptor, StreamReader, DEVNULL, INHERIT, CAPTURE or the default), the child reads exactly that content, encoded with the command's encoding, followed by end-of-file; by default it is empty. If the child exits without reading all of its input the command never hangs: it either gives its true result or raises BrokenPipeError.",
  ["inputs", "schedules"], "all input kinds, sizes (0 to several pipe buffers), encodings, chunkings and child read behaviours",
  "Tests use short inputs that fit one pipe buffer; partial reads, early exit of the child and chunk boundaries are not enumerable.",
  [S+"runner.py", S+"redirect.py"], [("_setup_input", S+"runner.py"), ("write_stream/write_reader", S+"redirect.py")],
  ["bytes read by the child", "result of the command"])
p("C06", "Output and error go completely and only to the configured sinks",
  "Every byte the child writes to stdout and stderr arrives, in order and without loss or duplication, in the sink configured for that stream (Result buffers, bytearray, BytesIO, StringIO, Path, open file, descriptor, Logger lines, StreamWriter, INHERIT, DEVNULL, CAPTURE) and nowhere else by the time the command completes, however the two streams interleave. Sinks are overwritten by default and extended with append; descriptors given with close=True are closed and others stay open; stderr=STDOUT merges the streams in write order, and stdout=DEVNULL with stderr=STDOUT yields only stderr.",
  ["inputs", "schedules", "configurations"], "all pairs of sinks, previous sink contents, append/close flags, output sizes and write interleavings",
  "Tests cover sinks one by one with short output; pairs of sinks with large interleaved output can block or drop data only in combination.",
  [S+"runner.py", S+"redirect.py"], [("_setup_output/_setup_output_sink", S+"runner.py"), ("copy_*", S+"redirect.py"), ("close_fds", S+"util.py")],
  ["sink contents after completion", "open descriptors"])
p("C07", "Buffered stderr is exactly the first error_limit bytes and never blocks",
  "When stderr goes to the buffer, the result's error bytes are exactly the first min(error_limit, n) of the n bytes written (1024 by default, all for None), regardless of how the writes are chunked or how much more is written, and the command still runs to completion with its stdout complete. The limit applies to the buffer only, never to another sink, to CAPTURE or to merged streams.",
  ["inputs", "schedules"], "all limits, output sizes around the limit and the internal chunk size, and chunkings",
  "Tests use two or three sizes; off-by-one at the limit depends on how reads are split.",
  [S+"runner.py", S+"redirect.py"], [("copy_bytearray_limit", S+"redirect.py"), ("limit selection", S+"runner.py _start")],
  ["Result.error_bytes", "completion of the child"])
p("C08", "Text encoding and decoding do not depend on chunking",
  "For every codec and error handler set with encoding, text given as input is encoded once as a whole, and text results (awaited output, Result.output/error, StringIO sinks, lines from iteration) equal decoding the child's whole byte output with that codec and error handler, however the bytes are split into writes. Undecodable data raises UnicodeDecodeError (and unencodable input UnicodeEncodeError) under 'strict' instead of silently changing data, with raw bytes still available on Result.",
  ["inputs", "schedules"], "all byte strings, codecs, error handlers and write chunkings",
  "Tests use a few UTF-8/latin-1 samples; split code points need adversarial chunk boundaries.",
  [S+"util.py", S+"redirect.py", S+"result.py"], [("encode_bytes/decode_bytes", S+"util.py"), ("copy_stringio/read_lines/copy_logger", S+"redirect.py")],
  ["returned text", "Result.output_bytes"])
p("C09", "Results report the true exit status; ResultError iff not allowed",
  "A command that runs to completion reports the child's true exit status: its exit code, or the negated number of the signal that killed it, with bool(result) true exactly for 0 and exit_signal set exactly for signals. Awaiting raises ResultError, carrying the complete Result with output and error bytes, exactly when the status is not in exit_codes (default {0}); otherwise it returns the output text, or the Result under .result, which never raises for any status. run.result(check=True/False) inside async with behaves the same, and raises TypeError before exit.",
  ["inputs"], "all exit codes 0-255, all fatal signals, exit_codes containers, return modes and run modes",
  "Tests use a handful of codes; the full matrix of status, container and mode is not covered.",
  [S+"runner.py", S+"result.py"], [("Runner.result/returncode", S+"runner.py"), ("check_result", S+"result.py")],
  ["return value or exception"])
p("C10", "Pipelines report failure like pipefail, and launch errors never hang",
  "A pipeline succeeds only if every stage exits with an allowed status; otherwise the reported exit status and stderr are those of a failing stage (the first failing one that was not cancelled), while output is the last stage's. If any stage cannot be launched, whatever its position and however the pipeline is run (await, async with, async for, prompt), the launch exception is raised promptly and all other stages are terminated.",
  ["inputs", "fault_sequences"], "all pipelines of 2-5 stages with every combination of exit statuses, signals and launch failures, in each run mode",
  "Tests cover launch failure in one or two positions with await only; position and mode combinations hang or mask errors.",
  [S+"runner.py", S+"result.py", S+"pipeline.py"], [("convert_result_list", S+"result.py"), ("PipeRunner", S+"runner.py")],
  ["Result/ResultError/launch exception", "processes left running"])
p("C11", "A pipeline computes the composition of its stages",
  "The output of a pipeline equals the composition of its stages' byte transformations applied to its input, for any number of stages, any data size and any relative speed or early exit of stages; only the last stage's output is returned, each stage's stderr goes to its own sink. The result is the same whether the pipeline is awaited, iterated, used with async with or prompt, and it always terminates.",
  ["inputs", "schedules"], "all stage lists (transformers, truncating and early-closing stages), inputs up to many pipe buffers, and delays",
  "Tests use two or three fixed coreutils stages on short data.",
  [S+"runner.py", S+"pipeline.py"], [("_setup_pipeline", S+"runner.py PipeRunner")],
  ["pipeline output", "per-stage sinks"])
p("C12", "Process substitution connects exactly the named processes",
  "A command or pipeline passed as an argument is replaced by a readable path that yields exactly its standard output (then EOF), or, with .writable, by a path whose written bytes are exactly its standard input, for any number of substitutions in any argument order, together with redirections, pipelines and pass_fds. The command completes only when its substitutions have, and a substitution's failure to launch or its failing status is raised rather than lost, with everything else terminated.",
  ["inputs", "fault_sequences"], "all numbers, orders and directions of substitutions, nested in pipelines, with failing substitutions",
  "Tests use one or two substitutions with short data.",
  [S+"runner.py"], [("_setup_process_substitution", S+"runner.py _RunOptions")],
  ["bytes seen on each side", "exception raised"])
p("C13", "No run leaks descriptors, processes or tasks, even on failure",
  "When a command or pipeline finishes in any way other than cancellation (success, error status, signal, launch failure, invalid redirection, exception in the async with body, partial reads), every descriptor it opened is closed, every child it started has exited and been reaped, and no background task, timer or child handler of it remains. Descriptors the caller handed over with a close flag are closed exactly once and all other descriptors of the caller stay open and untouched.",
  ["inputs", "fault_sequences", "configurations"], "all commands and pipelines mixing redirections, pty, process substitution and pass_fds, with faults at each setup step",
  "Tests check leaks after the scenarios they run; combinations of a failing setup step with other open resources are not enumerated.",
  [S+"runner.py", S+"pty_util.py", S+"util.py"], [("_RunOptions enter/exit", S+"runner.py"), ("Runner._close", S+"runner.py"), ("PtyFds.close", S+"pty_util.py"), ("PipeRunner._start", S+"runner.py")],
  ["/proc/self/fd", "child processes", "asyncio.all_tasks()"])
p("C14", "Cancelling at any moment kills the processes and leaks nothing",
  "If the task running a command or pipeline (await, async with, async for, prompt, with redirections, pty or process substitution) is cancelled at any point of its lifetime, CancelledError is raised out of it (for async with, by run.result() after the block) - never a normal return or another error, unless the run had already completed - and only after every process it started has exited and been reaped. No descriptor, task or process is left behind, and the same command can be run again.",
  ["schedules", "crash_points"], "every event-loop step and every time offset at which cancellation can be delivered, for every kind of run",
  "Tests cancel at one or two sleep offsets; each await is a distinct cancellation point.",
  [S+"runner.py", S+"harvest.py", S+"util.py", S+"command.py"], [("_start/_finish/_kill", S+"runner.py"), ("uninterrupted", S+"util.py"), ("harvest", S+"harvest.py")],
  ["outcome of the task", "children, /proc/self/fd, tasks"])
p("C15", "A cancelled process gets cancel_signal, then SIGKILL after the timeout",
  "When a run is cancelled (or its async with body raises, or run.cancel() is called), the process receives exactly the configured cancel_signal first; if it has not exited cancel_timeout seconds later it receives SIGKILL, and not before. cancel_signal=None means SIGKILL at once. A process that exits by itself on the first signal gets to finish its handler, its status is reported truthfully, and the exception raised in the body is the one that propagates.",
  ["inputs", "schedules", "configurations"], "all signals, cancel timeouts, and child reactions (default, exit, ignore, slow handler) and triggers",
  "Tests use one signal and one reaction at a time.",
  [S+"runner.py"], [("Runner._kill/_signal/_kill_wait", S+"runner.py")],
  ["signals logged by the child and their times", "exit status", "propagated exception"])
p("C16", "timeout raises TimeoutError when it expires and never otherwise",
  "A command whose process is still running when its timeout elapses is terminated and TimeoutError is raised, in every run mode and at every position of a pipeline; a run that completes before its timeout is unaffected and its result is the same as without a timeout. TimeoutError is never raised before the timeout has elapsed, an outer cancellation still raises CancelledError, and under .result the timeout still raises instead of returning a result.",
  ["inputs", "schedules"], "all timeouts, child durations, run modes and pipeline positions",
  "Tests use a single command with one timeout in await mode; pipelines and iteration are not covered.",
  [S+"runner.py", S+"result.py"], [("_start_timer", S+"runner.py"), ("check_result", S+"result.py")],
  ["exception and elapsed time"])
p("C17", "audit_callback sees exactly start, signals, stop for each process",
  "For every command executed, alone, in a pipeline or as a substitution, audit_callback is called with start exactly once and first, then one signal event for each signal shellous sends to a started process, naming it, then stop exactly once and last, after the process has exited with its final status available from the runner; failure names the exception class exactly when the process could not be started or was cancelled while starting, and is empty otherwise. Each launch also raises the sys.audit event 'shellous.exec' with the resolved program before the process starts, and a hook that raises prevents the launch.",
  ["histories", "fault_sequences"], "all outcomes: success, error, signal, launch failure, cancellation, timeout, pipelines and substitutions",
  "Tests check a few fixed traces.",
  [S+"runner.py"], [("_audit_callback", S+"runner.py"), ("sys.audit", S+"runner.py _subprocess_exec")],
  ["callback trace", "sys audit hook"])
p("C18", "expect() matches the stream exactly and loses no character",
  "Over any sequence of expect/read_pending/read_all/command calls, the concatenation of returned text, matched text and the pending buffer equals the decoded output so far: nothing is lost, duplicated or reordered, including across timeouts, EOF and cancellation. expect returns the leftmost match of the pattern (exact strings and lists matched literally) in the earliest buffer state that contains one, with the text before it; EOFError is raised only when the stream has ended without a match and the unread text remains pending.",
  ["inputs", "schedules", "histories"], "all streams, chunkings, pattern sequences and call sequences",
  "Tests follow a few dialogues whose chunking is decided by the OS.",
  [S+"prompt.py"], [("_read_to_pattern/_search_pending", S+"prompt.py")],
  ["values returned by Prompt", "pending, at_eof"])
p("C19", "A prompt session is lossless and deadlock-free in both directions",
  "In a prompt session everything sent reaches the process in order with the requested line ending, and everything the process writes can be read back, whatever the sizes, even when both directions are full at once; a timeout or cancellation of send or expect raises TimeoutError or CancelledError without losing data already received. Leaving the block closes stdin (or sends EOF to a pty), waits for the process and makes its Result available, which is refused inside the block; a non-zero exit does not raise.",
  ["inputs", "schedules", "histories"], "all dialogues with data volumes up to many pipe buffers, process behaviours, timeouts and exits",
  "Tests use small interactive dialogues; deadlock needs both pipes to be full.",
  [S+"prompt.py", S+"command.py", S+"pipeline.py"], [("send/_drain", S+"prompt.py"), ("prompt()", S+"command.py, pipeline.py")],
  ["data seen by the process", "data read from the prompt", "cli.result"])
p("C20", "Prompt decoding and newline normalization ignore chunk boundaries",
  "The text a prompt delivers equals the incremental decoding of the whole byte stream with the command's encoding and error handler, independent of how the bytes arrive; with normalize_newlines every CR and CR-LF becomes a single LF even when a pair or a character is split between reads, and otherwise text is passed unchanged. Invalid bytes raise UnicodeDecodeError under 'strict' and truncated final characters are handled at EOF.",
  ["inputs", "schedules"], "all byte strings, encodings, error handlers and chunkings",
  "Tests feed a few strings; boundaries inside a character or CR-LF pair are rarely hit.",
  [S+"prompt.py"], [("_make_decoder", S+"prompt.py")],
  ["text returned by read_all/expect"])
p("C21", "Iteration yields exactly the output lines, and may stop at any point",
  "async for over a command, pipeline or open run yields exactly the lines of the captured stream in order, each with its terminator, the last possibly without, as soon as they are written; concatenated they equal the whole output. Leaving the loop early and closing the iterator terminates the process and releases everything; the iterator ends normally whatever the exit status and captures stderr instead when stdout is DEVNULL and stderr is STDOUT; capturing both streams is refused.",
  ["inputs", "schedules"], "all byte outputs and chunkings, stop positions, and capture configurations",
  "Tests iterate over short fixed output.",
  [S+"runner.py", S+"redirect.py", S+"command.py", S+"pipeline.py"], [("read_lines/aiter_preflight", S+"redirect.py"), ("_readlines", S+"runner.py, command.py, pipeline.py")],
  ["lines yielded", "state after early exit"])
p("C22", "A pty command gets a real terminal and loses no data",
  "With pty set, the child runs as leader of a new session whose controlling terminal is its stdin, stdout and stderr unless redirected, with the requested size and cooked, cbreak or raw mode and echo setting; input is delivered followed by end-of-file in canonical mode whether or not it ends in a newline. All output is received complete, transformed only by the terminal's line discipline, end of terminal output is a normal EOF, and exit status, cancellation and redirections work as without a pty.",
  ["inputs", "configurations"], "all modes, sizes, echo settings, redirections, input and output data",
  "Tests use a few commands under one or two modes.",
  [S+"pty_util.py", S+"runner.py", S+"redirect.py"], [("open_pty/PtyStreamReaderProtocol", S+"pty_util.py"), ("_setup_pty1", S+"runner.py"), ("eof writing", S+"redirect.py")],
  ["terminal state reported by the child", "bytes received on both sides"])
p("C23", "Harvest helpers never return with unfinished tasks",
  "harvest, harvest_results and harvest_wait return or raise only when every awaitable is done: they finish normally when all succeed, cancel and collect the rest as soon as one raises, raise TimeoutError after cancelling everything when the timeout passes first, and on their own cancellation cancel (or with cancel_finish let finish) all awaitables and then raise CancelledError, or report cancelled=True from harvest_results (awaitables that do not end within cancel_timeout of being cancelled raise RuntimeError). harvest raises the first awaitable's exception in argument order, and harvest_results returns one result or exception per awaitable in argument order.",
  ["schedules", "fault_sequences"], "all sets of awaitables with every order of completion, failure, self-cancellation, slow cleanup, timeout and outer cancellation",
  "Tests use hand-picked orders; correctness is about all interleavings.",
  [S+"harvest.py"], [("harvest_wait/_cancel_wait", S+"harvest.py")],
  ["task states at return", "returned results or exception, virtual time"])
p("C24", "Concurrent and nested use of one command object is isolated",
  "The same command or pipeline object may be awaited, iterated and entered with async with any number of times, concurrently from different tasks and nested within one task, and each use gets its own process, streams, result and output exactly as if run alone with nothing mixed up, and blocks may be left in any order across tasks.",
  ["schedules", "histories"], "all interleavings of entering, using and leaving several uses of shared command objects in several tasks",
  "Tests run two or three simple concurrent uses.",
  [S+"util.py", S+"command.py", S+"pipeline.py"], [("context_aenter/context_aexit", S+"util.py")],
  ["streams and results of each use"])
p("C25", "The child inherits exactly the intended descriptors",
  "With the default close_fds the child has open exactly stdin, stdout, stderr, the pass_fds and its process-substitution descriptors, whatever the parent has open or concurrently opens for other runs, so no pipe end leaks between stages, substitutions or concurrent commands. pass_fds refer to the same open files in the child, are closed in the parent exactly when pass_fds_close is set, and remain usable otherwise.",
  ["configurations", "schedules"], "all combinations of inheritable parent descriptors, pass_fds, redirections, pipelines and substitutions",
  "Tests list descriptors for a few fixed configurations.",
  [S+"runner.py"], [("_setup_pass_fds", S+"runner.py"), ("close_fds option", S+"runner.py")],
  ["descriptor table of the child and of the parent"])
p("C26", "DefaultChildWatcher reports each child exactly once and correctly",
  "For every child registered with DefaultChildWatcher, with either strategy and from any thread or loop, the callback is called exactly once with the pid, its true exit status (negative for signals) and its arguments, whether the child exits before, during or long after registration and however many exit at once; no zombie or descriptor remains, and close() ends the watcher so that it can be used again. All command semantics hold under it.",
  ["schedules", "histories", "configurations"], "all batches of children with all exit statuses, exit times and registration orders, both strategies, close and reuse",
  "Tests watch a few children with fixed timing.",
  [S+"watcher.py", S+"util.py"], [("EPollStrategy/ThreadStrategy", S+"watcher.py"), ("wait_pid", S+"util.py")],
  ["callbacks received", "process table, /proc/self/fd"])
p("C27", "Tracing never changes behaviour and hides no_echo secrets",
  "With any SHELLOUS_TRACE setting, every command, pipeline, iteration and prompt session gives the same results, exceptions and data as without it. Prompt tracing records what is sent and received except text sent with no_echo, which appears in no log record, and send(no_echo=True) writes its text only once terminal echo is off.",
  ["configurations", "inputs"], "all trace settings crossed with all kinds of runs and outcomes, and all secrets",
  "The suite runs with one trace setting at a time and compares nothing between settings.",
  [S+"log.py", S+"prompt.py", S+"runner.py"], [("log_method", S+"log.py"), ("_log_send/_log_receive/_wait_no_echo", S+"prompt.py")],
  ["outcomes with and without tracing", "log records"])

p("C28", "Ending an event loop ends its runs; event loops are independent",
  "Commands and pipelines may be run from any number of event loops, one after another or in several threads at once, also when the loops share the command objects: every run gives the result it would give alone. When asyncio.run (or asyncio.Runner) ends with runs in progress - the main coroutine returned, raised, was cancelled or interrupted by SIGINT, a task raised SystemExit, or the loop was stopped - the reason is what comes out of it, and by then every process started in that loop (also by an iterator that was left or dropped without being closed) has been terminated and reaped, every runner has completed, and no descriptor or thread remains.",
  ["schedules", "histories", "fault_sequences"], "all programs of several event loops with runs in progress, and all moments and reasons of a loop's end",
  "Tests run in one event loop at a time and wait for everything they start.",
  [S+"runner.py", S+"command.py", S+"watcher.py", S+"harvest.py"], [("Runner.__aexit__/_kill", S+"runner.py"), ("_readlines", S+"command.py"), ("DefaultChildWatcher", S+"watcher.py")],
  ["outcome of asyncio.run", "audit history", "processes, descriptors and threads left"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
