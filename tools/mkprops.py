#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay in one readable place)."""
import json, os
P = []
SG = "src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py"
BPU = "src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_breakpoints.py"
REPL = "src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py"
VAR = "src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_variables.py"
CB = "src/ansibug/ansible_collections/ansibug/dap/plugins/callback/debug.py"
DBG = "src/ansibug/_debuggee.py"
DA = "src/ansibug/_debug_adapter.py"
AD = "src/ansibug/dap/_adapter.py"
MSG = "src/ansibug/dap/_messages.py"
SOCK = "src/ansibug/_socket_helper.py"
MPQ = "src/ansibug/_mp_queue.py"

def p(id, title, statement, over, text, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    kw.pop("state", None)
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Outgoing DAP messages are framed exactly and numbered 1, 2, 3, ...",
  "Every message queued on a DebugAdapterConnection is written as 'Content-Length: N\\r\\n\\r\\n' followed by exactly N bytes of UTF-8 JSON carrying that message's fields, also when the text contains non-ASCII characters. "
  "The k-th queued message carries seq k, queue_msg returns that number, and the seq is stored on the message. "
  "However data_to_send is called (any limits, any number of times), the concatenation of what it returns is exactly the queued bytes in order, none lost or repeated, and each call returns at most the requested number of bytes.",
  ["inputs", "histories"], "all sequences of queue_msg/data_to_send calls, all message contents, all limits n",
  "Tests send a few ASCII messages one at a time; byte length versus character length, partial drains and long sequences are never combined.",
  [AD], [("DebugAdapterConnection.queue_msg", AD), ("DebugAdapterConnection.data_to_send", AD), ("_seq_no_out", AD)])

p("C02", "Incoming DAP messages are recovered independently of how bytes arrive",
  "Feeding a well formed stream of framed messages (any header order, extra headers, any header values) to receive_data in any chunks, next_message returns exactly the messages sent, in order, and None while the next message is incomplete, without consuming any byte of it. "
  "Each returned message consumes exactly its own header block and body, so bytes after it are kept for the next message. "
  "A message whose seq is not the next expected number, or a header block without Content-Length, is rejected with an exception and never returned as a message.",
  ["inputs", "histories"], "all byte streams of framed messages, all splits into chunks, all interleavings of receive_data and next_message",
  "Tests feed a message in one or two pieces; the property quantifies over every split point, header layout and backlog.",
  [AD], [("DebugAdapterConnection.receive_data", AD), ("DebugAdapterConnection.next_message", AD), ("_seq_no_in", AD)])

p("C03", "DAP message objects and their wire form correspond field by field",
  "For every DAP message and type class, pack() produces exactly the property names the Debug Adapter Protocol defines for it, each carrying the corresponding attribute (nested under body/arguments where the protocol does), and unpack() of such a wire object yields an instance of the class with the same attribute values, converting enums and nested objects, ignoring unknown properties and treating null as absent. "
  "ProtocolMessage.unpack selects the class by type plus command/event, a response whose success is false becomes an ErrorResponse, and an unknown type, command or event raises ValueError.",
  ["inputs", "programs"], "every message class and all field values, including absent optional fields, nulls and unknown properties",
  "Tests pack a few messages with sample values; the mapping is table driven over more than sixty classes and a wrong key or swapped attribute shows only for the untested ones.",
  [MSG, "src/ansibug/dap/_requests.py", "src/ansibug/dap/_responses.py", "src/ansibug/dap/_events.py", "src/ansibug/dap/_types.py"],
  [("DAPObjectMeta.default_pack/default_unpack", MSG), ("ProtocolMessage.unpack", MSG), ("dap= tables of each class", "src/ansibug/dap/_requests.py")])

p("C04", "Path mappings translate source paths in both directions, first match wins",
  "With the configured path mappings, a client source path of a setBreakpoints request is rewritten by the first mapping (in list order) whose local root is a prefix of it, to that mapping's remote root followed by the unchanged rest, and a playbook path sent to the client in a stack frame is rewritten by the first mapping whose remote root is a prefix of it, to the local root followed by the rest. "
  "A path no mapping applies to, or any path when no mappings are configured, is passed through unchanged.",
  ["inputs", "configurations"], "all mapping lists and all paths",
  "Tests use one mapping with one path; overlapping roots, order and several mappings are not explored.",
  [DBG, SG], [("AnsibleDebugger.convert_to_client_path", DBG), ("SetBreakpointsRequest handler", DBG), ("AnsibleStackFrame.to_dap", SG)])

p("C05", "A breakpoint resolves to the task range that contains its line",
  "For a file Ansible has loaded, a requested breakpoint line is answered with the line range of the registered entry it falls into: line is the last registered line at or before the requested line (or at or before the last registered line when the request is past the end), end_line is the line before the next registered line (or the last registered line of the file). "
  "It is verified exactly when that entry is a task line (not a block line and not before the first entry), otherwise it is unverified with a message; for a file not loaded yet it is unverified and keeps the requested line.",
  ["inputs", "histories"], "all sets of registered lines, registration orders and requested lines",
  "Tests check a handful of lines of fixed playbooks; gaps, later registrations and lines beyond the end form an unbounded space.",
  [DBG], [("AnsibleDebugger._calculate_breakpoint", DBG), ("AnsibleDebugger.register_path_breakpoint", DBG), ("SetBreakpointsRequest handler", DBG)], state="AnsibleDebugger._source_info")

p("C06", "Breakpoint bookkeeping: ids unique, replaced per source, changes announced",
  "Each setBreakpoints request is answered with one breakpoint per requested one, in request order, with ids never used before, and replaces all earlier breakpoints of that source while leaving those of other sources unchanged; if the source is marked modified all are unverified and none are kept. "
  "When lines of a file are registered later, every kept breakpoint of that file whose line, end line or verified state thereby changes is updated and announced by exactly one changed BreakpointEvent carrying its id, and breakpoints that do not change, or belong to other files, cause no event.",
  ["histories", "inputs"], "all sequences of setBreakpoints requests and line registrations",
  "Tests set breakpoints once or twice; the property relates arbitrary sets of existing breakpoints to arbitrary registrations.",
  [DBG], [("SetBreakpointsRequest handler", DBG), ("AnsibleDebugger.register_path_breakpoint", DBG)], state="AnsibleDebugger._breakpoints, _breakpoint_counter")

p("C07", "A task stops exactly when a breakpoint covers it and its condition holds",
  "When a thread that is running freely starts a task, it stops if and only if some breakpoint of the task's file covers the task's line and that breakpoint's condition, if any, evaluates to true (a condition that fails to evaluate counts as false); the stop is one StoppedEvent with reason breakpoint, that thread's id and that breakpoint's id. "
  "A stopped thread stays in the waiting state, and the task does not begin, until a client request resumes it; a task without a path never stops on a breakpoint.",
  ["inputs", "histories", "schedules"], "all breakpoint sets, task paths and lines, conditions and thread states",
  "Tests hit a few fixed breakpoints; the equivalence must hold for every breakpoint set, location and condition outcome.",
  [SG, DBG], [("AnsibleDebugState.start_task", SG), ("AnsibleThread.should_break", SG), ("AnsibleDebugger.get_breakpoint", DBG)])

p("C08", "Step over, in and out stop at the task the user expects",
  "The enclosing include of a task is its innermost include_tasks or include_role (import_* and blocks do not count). "
  "After step over from a stopped task, the thread stops at the next started task that has the same enclosing include as the stopped one, and at no task before it except on a breakpoint. "
  "After step in from an include task it stops at the very next task, from any other task it behaves as step over. "
  "After step out it ignores breakpoints and stops at the first task that is not inside the stopped task's enclosing include, at any depth; without an enclosing include it behaves as continue.",
  ["histories", "programs"], "all task nestings (blocks, includes), all stop positions and step requests",
  "Tests step through a few fixed playbooks; block and include nesting combine without bound.",
  [SG], [("AnsibleThread.set_state", SG), ("AnsibleThread.should_break", SG), ("_break_step_over/_in/_out", SG)], state="AnsibleThread.state, _stopped_task")

p("C09", "Exception breakpoints stop exactly on the enabled, unhandled outcomes",
  "When a task result arrives, the thread stops with one exception StoppedEvent if and only if the result failed, is not ignored by ignore_errors, is not inside a block with a rescue section, and the on_error filter is enabled; or it is unreachable, not ignored by ignore_unreachable, and on_unreachable is enabled; or it was skipped and on_skipped is enabled. "
  "The enabled filters are exactly those of the last setExceptionBreakpoints request, the event's text carries the result's message, and the result is available as a scope of the stopped frame.",
  ["inputs", "programs", "histories"], "all task results, block nestings and filter sets",
  "Tests cover a few outcome and filter combinations in fixed playbooks.",
  [SG, DBG, BPU], [("AnsibleThread.should_stop_on_exception", SG), ("AnsibleDebugState.end_task", SG), ("SetExceptionBreakpointsRequest handler", DBG), ("get_on_failed_details", BPU)])

p("C10", "Stack frames mirror running tasks and release everything when they end",
  "Starting a task first removes the frames of earlier includes the task is not a part of, then pushes a fresh frame with a never used id on top of its host's thread and on no other thread, and ending a non-include task removes exactly that thread's top frame together with every variable handle created for it, leaving other threads, frames and variables unchanged. "
  "A stack trace lists the thread's frames innermost first, one entry per frame with the frame's id, task name, line and client path, and total_frames equal to their number.",
  ["histories", "programs"], "all sequences of task starts and ends over any hosts",
  "Leaked or misattributed frames show only after particular histories of several hosts and includes.",
  [SG], [("AnsibleDebugState.start_task", SG), ("AnsibleDebugState.end_task", SG), ("AnsibleDebugState.get_stacktrace", SG)], state="AnsibleDebugState.stackframes, threads, variables")

p("C11", "Threads are announced once when they start and once when they exit",
  "The first task of a host creates a thread with a never used id above 1 and queues exactly one started ThreadEvent with that id, later tasks of the host reuse it, and a threads request lists the main thread 1 and every live host thread with the host's name. "
  "exit_threads removes every thread except the main one and queues exactly one exited ThreadEvent for each, and the strategy does so when a play ends for any reason and after refresh_inventory.",
  ["histories"], "all sequences of hosts, tasks, refreshes and play endings",
  "Tests run one or two hosts through one play.",
  [SG], [("AnsibleDebugState._add_thread", SG), ("AnsibleDebugState.exit_threads", SG), ("StrategyModule.run", SG), ("StrategyModule._execute_meta", SG)])

p("C12", "Continue, disconnect and terminate resume exactly the right threads",
  "A continue request resumes only its thread when single_thread is set and every thread otherwise, and the response says which; waiting threads are notified. "
  "A disconnect or terminate request clears all breakpoints and path mappings and resumes every thread: ending them (the play stops at each thread's current stop or task end by EndStrategy, reported as a failed play break) if termination of the debuggee was requested, otherwise letting them run to completion without stopping again.",
  ["histories", "schedules", "inputs"], "all thread populations and states, all requests",
  "Tests use one or two threads; the frame condition over all other threads is not sampled.",
  [SG, DBG], [("AnsibleDebugState._resume_threads", SG), ("AnsibleDebugState.continue_request/disconnect", SG), ("AnsibleDebugger._disconnect", DBG), ("StrategyModule.run", SG)])

p("C13", "Variable views show the real data and edits reach it",
  "A variables request lists every entry of the referenced container once, in order, with its name as text, its repr and its canonical type, and gives each nested mapping, sequence or dataclass (and nothing else) a fresh non-zero reference whose listing is that child. "
  "set_variable and the repl set/remove commands change exactly the named entry of the targeted container, a module option also in the task's raw arguments, a host variable also in the variable manager for that host, and report the new value's repr and type. "
  "The scopes of a frame are module options, task, host and global variables (plus the result first, when stopped on an exception), with references to those containers.",
  ["inputs", "histories"], "all variable trees, names and values",
  "Tests inspect a few values; containers, key types and nesting are unbounded.",
  [SG, VAR], [("AnsibleDebugState.get_variables/get_scopes/set_variable", SG), ("AnsibleVariable classes", SG), ("get_canonicalized_variable_type", VAR)])

p("C14", "Every request forwarded to the debuggee gets exactly one matching response",
  "For every request the debuggee receives, it queues exactly one response whose command and request_seq match the request (a disconnect is answered by the adapter instead), delegating once to the active strategy where the request concerns it. "
  "If handling it raises, or the message type is not supported, exactly one ErrorResponse with that request's command and seq is queued and the debuggee keeps serving; configurationDone additionally releases the waiting playbook, and the debug configuration event stores the mappings and is answered by one InitializedEvent.",
  ["inputs", "fault_sequences"], "every request class, all field values, any exception raised while handling",
  "Tests send each request once on the success path.",
  [DBG], [("AnsibleDebugger.process_message", DBG), ("DAProtocol.on_msg_received", DBG)])

p("C15", "The adapter answers every client request and ends with one TerminatedEvent",
  "Every request read from the client is recorded until a response with its seq is sent, is forwarded to the debuggee once one is connected and handled by the adapter otherwise, and every message from the debuggee is written to the client. "
  "On stop, an outstanding disconnect request is answered successfully, with an exception every other outstanding request gets an ErrorResponse with its command and seq, the debuggee and launch queues are stopped, and exactly one TerminatedEvent is sent over the adapter's lifetime, after those responses. "
  "The read loop ends on disconnect and at end of input.",
  ["histories", "fault_sequences", "inputs"], "all request sequences, stop causes and orders of stop calls",
  "Tests follow the normal session order; stop may be reached from either side, with any set of outstanding requests.",
  [DA], [("DAServer.start", DA), ("DAServer.stop", DA), ("DAServer.send_to_client", DA), ("DAServer._send_disconnect", DA)], state="DAServer._incoming_requests, _terminated_sent")

p("C16", "The adapter-debuggee queue delivers messages whole, in order, and closes once",
  "Each message sent is transmitted as a 4 byte little-endian length followed by that many bytes, and the receiving side, however the socket splits the bytes, hands on exactly the sent objects in order. "
  "When the peer closes, reading fails, a message cannot be decoded or handled, or the queue is cancelled, receiving ends with exactly one connection_closed call: with the exception if it ended by an error, with None on a clean end or cancellation.",
  ["inputs", "fault_sequences", "histories"], "all message sequences, all splits of recv, all failure points",
  "Tests exchange a few messages over a local socket which rarely splits reads; failure points are not enumerated.",
  [MPQ, SOCK], [("MPQueue.send", MPQ), ("MPQueue._recv_handler", MPQ), ("SocketHelper.recv", SOCK)])

p("C17", "Cancelling a socket token reaches every pending operation and all later ones",
  "cancel() runs the cancel function of every operation in progress exactly once, even if one of them fails, and afterwards every operation on the token raises CancelledError without touching the socket. "
  "An operation that completes or fails removes its own cancel function and no other; a socket error is reported as CancelledError exactly when the token was cancelled, timeouts raise TimeoutError, and a positive timeout is the one waited for.",
  ["schedules", "fault_sequences", "histories"], "all sets of operations in progress, all outcomes of the socket calls",
  "Tests cancel one operation at a time.",
  [SOCK], [("SocketCancellationToken.with_cancel", SOCK), ("SocketCancellationToken.cancel", SOCK), ("accept/connect/recv_into/sendall", SOCK)], state="SocketCancellationToken._cancel_funcs, _cancelled")

p("C18", "Socket addresses parse to what they denote and format back to the same address",
  "parse_addr_string maps tcp://host:port to (host, port), tcp://:port to ('', port), tcp:// to ('', 0), uds://name to that file in the temporary directory, uds:/path and uds:///path to that path, and uds:// to a fresh path in the temporary directory; any other scheme, a tcp host without port, or a uds address with both name and path raises ValueError. "
  "The address a queue reports (IPv4, IPv6 in brackets, or uds) parses back to the same endpoint.",
  ["inputs"], "all host names, ports, paths and names",
  "Tests check sample strings for each form.",
  [SOCK, MPQ], [("parse_addr_string", SOCK), ("MPQueue.address", MPQ)])

p("C19", "TLS contexts verify peers exactly as configured",
  "A client context verifies certificate and host name unless verification is explicitly set to ignore; 'verify' uses the default trust, any other value must be an existing file or directory which is loaded as a CA file or CA path, and a missing path raises ValueError. "
  "A server context loads the given certificate, key and password and requires and verifies client certificates exactly when a client CA is given; attach uses a TLS client context exactly when TLS was requested and the debuggee a server context exactly when TLS is enabled in listen mode.",
  ["configurations", "inputs"], "all verification settings, certificate options and path kinds",
  "Tests cover a few setting combinations; a fail-open combination would pass them.",
  ["src/ansibug/_tls.py", CB, DA], [("create_client_tls_context", "src/ansibug/_tls.py"), ("create_server_tls_context", "src/ansibug/_tls.py"), ("CallbackModule.v2_playbook_on_start", CB)])

p("C20", "Launching ansible-playbook keeps the user's settings and adds ansibug's",
  "The launched process runs 'python -m ansible playbook' with exactly the given arguments and the current environment, in which only ansibug's own variables change: address, mode, wait flag, TLS and log settings reflect the options given, and TLS file options appear exactly when set. "
  "The user's enabled callbacks, collection paths and PYTHONPATH entries are all kept in order after ansibug's own entry, whatever order the Ansible configuration reports them in.",
  ["inputs", "configurations"], "all option combinations, environments and Ansible configurations",
  "Tests check a few option sets and one configuration dump.",
  ["src/ansibug/_exec_playbook.py", "src/ansibug/__main__.py"], [("_exec_playbook", "src/ansibug/_exec_playbook.py"), ("_configure_ansible_env", "src/ansibug/_exec_playbook.py"), ("main", "src/ansibug/__main__.py")])

p("C21", "Debug console commands parse to the command, name and raw expression typed",
  "parse_repl_args maps 'template'/'t' to the raw text after the command word, 'set_option'/'so' and 'set_hostvar'/'sh' to the (possibly quoted) name and the raw remaining text, and 'remove_option'/'ro' to the name, always reporting the full command name. "
  "Any text that is not a valid command (unknown command, missing argument, help, unbalanced quotes) yields a message string rather than an exception; plain repl, watch, clipboard and variables expressions are evaluated and errors become the result text.",
  ["inputs"], "all strings",
  "Tests parse sample commands; quoting and repeated words in arbitrary text are unbounded.",
  [REPL, SG], [("parse_repl_args", REPL), ("AnsibleDebugState.evaluate", SG)])

p("C22", "Unix sockets are private to the user and the umask is always restored",
  "The Unix domain socket of a server queue is restricted to the owner (mode 0700) before it is bound, by fchmod or, where that is unsupported, by a umask that allows exactly that mode. "
  "On every path, including failures of fchmod or bind, the process umask afterwards equals the one before, and the socket file is removed when the queue is stopped.",
  ["fault_sequences", "inputs"], "all masks, all outcomes of fchmod and bind",
  "Tests run on Linux where fchmod succeeds and bind does not fail.",
  [SOCK, MPQ], [("create_uds_with_mask", SOCK), ("ServerMPQueue.__init__/stop", MPQ)])

p("C23", "Attach and launch arguments are honoured, defaulted and validated",
  "Attach and launch arguments take exactly the values given by the client under their documented names and the documented defaults otherwise, path mappings keep their order; launch without a playbook or with an unknown console raises ValueError. "
  "Attach by process id uses the address and TLS setting from that process's info file and fails if there is none, otherwise it uses the given address and TLS setting and fails without one; launch runs the script with the playbook and the given arguments, cwd, console and env, and answers only after the process connected, then sends the mappings.",
  ["inputs", "configurations"], "all argument objects",
  "Tests give a few argument objects.",
  [DA, DBG], [("AttachArguments.from_json/get_connection_tuple", DA), ("LaunchArguments.from_json", DA), ("AttachRequest/LaunchRequest/RunInTerminalResponse handlers", DA)])

p("C24", "Every task that can run is registered as a breakpoint location",
  "Registering a play registers the play's own line, and every task in its blocks, including rescue and always sections and nested blocks at any depth, handlers and role handlers, as a task line, and every explicit block as a block line, each under its own file; tasks and blocks without a path are skipped. "
  "Included files and, for include_role, the role's tasks and handlers are registered before their tasks are started.",
  ["programs"], "all block trees",
  "Tests register fixed playbooks; nesting is unbounded.",
  [BPU, SG, CB], [("register_block_breakpoints", BPU), ("register_play_breakpoints", BPU), ("StrategyModule._load_included_file", SG)])

p("C25", "The debuggee cleans up after itself and never blocks the play on shutdown",
  "In listen mode, and only then, the process info file is written with the pid, the actual bound address, the TLS flag and the playbook, such that reading it back yields the same values; shutdown removes it. "
  "shutdown, from either side, clears breakpoints and mappings, releases the wait for configuration, resumes a running strategy unless it was already terminated, drains the send thread (cancelling it if no adapter ever connected), and the send thread sends queued messages in order until the end marker and stops its queue on every exit.",
  ["histories", "fault_sequences"], "all orders of connection, termination and shutdown, all send outcomes",
  "Tests exercise the normal orders only.",
  [DBG], [("AnsibleDebugger.start", DBG), ("AnsibleDebugger.shutdown", DBG), ("AnsibleDebugger._send_task", DBG), ("PlaybookProcessInfo", DBG)])

p("C26", "Concurrent senders never interleave messages to the client",
  "The main loop and the debuggee receive thread may both send to the client at any time; each framed message reaches stdout whole and the sequence numbers appear in increasing order.",
  ["schedules"], "all interleavings of the two sender threads",
  "A race of a few instructions is not reached by tests.",
  [DA, AD], [("DAServer.send_to_client", DA), ("DebugAdapterConnection.queue_msg", AD)])

p("C27", "No request or stop can block a debug session forever",
  "Whatever the order of client requests, play starts and ends and disconnects, no thread of the debuggee waits forever for a strategy, a response or a lock.",
  ["schedules", "histories"], "all interleavings of the client, the send and receive threads and the strategy",
  "Deadlocks depend on interleavings which tests do not control.",
  [DBG, SG, MPQ], [("AnsibleDebugger._get_strategy", DBG), ("AnsibleDebugState.start_task", SG), ("MPQueue.stop", MPQ)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for d in P:
        fh.write(json.dumps(d) + "\n")
