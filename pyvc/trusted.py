"""What is trusted; printed in every evidence file."""

BASE = [
    "CPython 3.12 (control flow, exceptions, generators, class creation are executed, not modelled)",
    "pyvc/instrument.py: the mechanical source transformation applied on every run",
    "pyvc/{engine,rt,sym,text,cont}.py: verifier values, loop summaries and models of Python builtins",
    "z3 (and cvc5 where named in back_ends)",
]
ASSUME = [
    "single interpreter thread unless a contract says otherwise: interference by other threads happens only at the modelled waits",
    "integers are mathematical (as in Python)",
    "loops: partial correctness (termination is only observed by the bounded battery)",
]
JSON = "json: loads(dumps(x)) == x and dumps of a message is text without interpretation here (assumed contract; the concrete battery runs the real json)"
SOCKET = "socket.socket: recv_into returns 1..n bytes of the stream or 0 at its end, sendall writes all or raises (assumed contract)"
THREAD = "threading.Lock/RLock/Condition/Event and Thread: assumed contracts; a wait lets the other thread act once, at any point the contract names"
STRAT = "ansible StrategyBase/TaskExecutor/PlayIterator: objects with the attributes ansible-core 2.18 gives them (hosts, tasks, results are opaque)"
ADAPTER = "DebugAdapterConnection: the framing contract of C01/C02 (data_to_send, receive_data, next_message)"
MODELS: dict = {
    "C01": [JSON],
    "C02": [JSON, "a header block holds at most one header before and one after Content-Length; bytes arrive in up to three pieces per message (shape-bounded in addition to the unbounded number of messages)"],
    "C03": ["queue.Queue: unbounded FIFO of one thread (specs/common.FakeQueue)", "the table caches of the metaclass are filled by a concrete warm-up of the real code before the symbolic run"],
    "C04": ["text of paths: unbounded unicode strings; prefix tests and slicing are z3/own text theory"],
    "C05": [STRAT],
    "C06": [STRAT, THREAD],
    "C07": [STRAT, THREAD, "Templar/evaluate_conditional: any result or any error (assumed: no side effect on the debugger)"],
    "C08": [STRAT, THREAD],
    "C09": [STRAT, THREAD],
    "C10": [STRAT, "uuid.uuid4 of tasks: distinct"],
    "C11": [STRAT, THREAD],
    "C12": [STRAT, THREAD, "the strategy plugins' own run loop: calls the patched callbacks once per task (assumed)"],
    "C13": [STRAT, "dataclasses/HostVars: the values are opaque; listings are dictionaries of unknown size"],
    "C14": [STRAT, THREAD, "MPQueue: the contract of C16"],
    "C15": [ADAPTER, "MPQueue: the contract of C16", "sys.stdin/stdout of the adapter: reads return any bytes or end; writes do not fail"],
    "C16": [SOCKET, THREAD, "pickle.loads(pickle.dumps(x)) == x (assumed contract; the battery runs the real pickle)"],
    "C17": ["select.select and the socket calls: may return, raise or be interrupted by a cancel at the call (assumed contract)"],
    "C18": ["urllib.parse.urlsplit: model of the tcp/uds shapes, compared with the real function by the bounded harness urlsplit_model; bracketed host syntax trusted"],
    "C19": ["ssl.SSLContext: records what is configured; create_default_context verifies peers (assumed contract)"],
    "C20": ["os.environ/execve/subprocess: recorded, never executed", "json of the parameters (assumed contract)", "ansible.constants of a fresh process"],
    "C21": ["Templar.template: opaque result", "argparse and shlex are executed, not modelled, in the bounded harness"],
    "C22": ["os.umask/fchmod/socket.bind: model of the process umask and file modes; each call may fail (assumed contract)"],
    "C23": [JSON, "tempfile/mkstemp and the queues to the client: recorded"],
    "C24": ["ansible Block/Task/Role/Play.compile: trees with the attributes of ansible-core 2.18; nested blocks by the contract of the recursive call (induction)"],
    "C25": [THREAD, "file system: a map from paths to contents (specs/common.Fs)", "MPQueue: the contract of C16"],
    "C26": [ADAPTER, "meta-argument: operations inside one lock shared by all senders are atomic to each other; the obligations are that every numbering and every write happens while it is held"],
}
PER: dict = {
    "C08": ["enclosing chains of includes are split by shape (none, one, nested, any number of stale frames)"],
    "C09": ["a task in a rescue/always section of a block that has rescue counts as covered by it (the code's documented reading)"],
    "C16": ["shape bounds: the client tries up to three addresses, the server sees up to two failed TLS handshakes"],
    "C20": ["inherited ANSIBUG_TLS_*/LOG_* variables are absent; empty PYTHONPATH entries are dropped; playbook arguments do not begin with an option"],
    "C21": ["parse_repl_args is only checked up to a bound (argparse and shlex are outside of the verifier's reach); evaluate is proved"],
    "C26": ["the schedule is not explored: the argument is by lock discipline"],
}
