"""C21 debug console commands parse to the command, name and raw expression typed."""
from __future__ import annotations

import itertools

import ansibug.ansible_collections.ansibug.dap.plugins.plugin_utils._repl_util as R
import ansibug.ansible_collections.ansibug.dap.plugins.strategy.debug as S
from ansible import constants as C
from ansible.errors import AnsibleError, AnsibleUndefinedVariable
from ansibug import dap
from pyvc.api import harness

from specs.common import req
from specs.strat import make_state

FULL = {
    "t": "template",
    "template": "template",
    "so": "set_option",
    "set_option": "set_option",
    "sh": "set_hostvar",
    "set_hostvar": "set_hostvar",
    "ro": "remove_option",
    "remove_option": "remove_option",
}


def word(text, i):
    """the first word from i on, as a shell reads it: (value or None, where it ends);
    ValueError if a quote or an escape is not finished"""
    n = len(text)
    while i < n and text[i] in " \t\r\n":
        i += 1
    if i == n:
        return None, n
    out = ""
    while i < n and text[i] not in " \t\r\n":
        ch = text[i]
        i += 1
        if ch == "\\":
            if i == n:
                raise ValueError("escape")
            out += text[i]
            i += 1
        elif ch == "'":
            end = text.find("'", i)
            if end < 0:
                raise ValueError("quote")
            out += text[i:end]
            i = end + 1
        elif ch == '"':
            while True:
                if i == n:
                    raise ValueError("quote")
                ch = text[i]
                i += 1
                if ch == '"':
                    break
                if ch == "\\":
                    if i == n:
                        raise ValueError("escape")
                    if text[i] not in '"\\':
                        out += ch
                    ch = text[i]
                    i += 1
                out += ch
        else:
            out += ch
    return out, i


def finished(text):
    """every quote is closed"""
    i = 0
    try:
        while True:
            w, i = word(text, i)
            if w is None:
                return True
    except ValueError:
        return False


def number(w):
    return len(w) > 1 and w[0] == "-" and w[1:].replace(".", "", 1).isdigit()


def option(w):
    """a word that is read as an option instead"""
    return len(w) > 1 and w[0] == "-" and not number(w) and " " not in w


def want(text):
    """(command, name, expression), None for a message, or "any" where it is not said"""
    if not finished(text):
        return None
    cmd, i = word(text, 0)
    if cmd not in FULL:
        return "any" if cmd is not None and cmd[:1] == "-" else None
    cmd = FULL[cmd]
    first, j = word(text, i)
    if first is not None and first[:2] in ("-h", "--"):
        # a request for help, or options
        return None if first in ("-h", "--help") else "any"
    if cmd == "template":
        return cmd, None, text[i:].lstrip()
    if first is None:
        return None
    if option(first):
        return "any"
    return cmd, first, None if cmd == "remove_option" else text[j:].lstrip()


def check(c, text):
    try:
        r = R.parse_repl_args(text)
    except Exception as e:
        c.prove("any text is parsed or answered", False, f"{text!r}: {e!r}")
        return "message"
    w = want(text)
    if isinstance(r, str):
        c.prove("a message says something", len(r) > 0, repr(text))
        c.prove("commands are understood", w is None or w == "any", repr(text))
        return "message"
    c.prove("a command is the result", isinstance(r, (R.TemplateCommand, R.SetVarCommand, R.RemoveVarCommand)), repr(text))
    c.prove("other texts are answered with a message", w is not None, f"{text!r}: {r}")
    kind = {"template": R.TemplateCommand, "remove_option": R.RemoveVarCommand}.get(r.command, R.SetVarCommand)
    c.prove("the class of its command", type(r) is kind, f"{text!r}: {r}")
    if w == "any":
        return r.command
    c.prove("the full command name", r.command == w[0], f"{text!r}: {r}")
    if w[1] is not None:
        c.prove("the name", r.name == w[1], f"{text!r}: {r}")
    if w[2] is not None:
        c.prove("the raw text after it", r.expression == w[2], f"{text!r}: {r}")
    return r.command


ALPHABET = "t so'\"\\-h"
HEADS = ("", "t ", "so ", "sh '", "ro ")
TEXTS = (
    "template foo", "t  foo.bar | default('x y') ", "template 'template'", "set_option t t", "so so so", "so o so", "set_hostvar hostvar set_hostvar",
    'so "a b" c', "sh 'a b' 'c d'", 'so "a\\"b" c', 'so a"b" "c"', "so '' x", "so ''", 'so "" ""', "ro 'a b'", "ro a b", "ro", "so", "sh", "t", "x", "",
    "templat x", "T x", "set-option a b", "-h", "--help", "t --help", "so -h", "t a -h", "t a - h", "t a -host", "so a -h", "so a --x=1", "ro a -h", "t it's", "so it's x", "so a it's", 'so a "', "so a \\",
    "so 'a", "so\ta\tb", " \n so \n a \n b\n c", "'so' a b", '"t" x', "s'o' a b", "\\so a b", "so \\a b", "so a\\ b c", "so a'b c'd e", "so a{{b}} c", "so é ü", "t\u00a0x", "so \u00a0 \u00a0",
    "so -1 2", "sh a #b", "sh #a b", "t #", "so a; b", "so a|b c", "template template x", "t t t", "so sh ro", "ro ro", "ro template", "so a=b c", "sh @x y", "t {{ x }}", "t '-h'", "so name '-h'", "t " + "x " * 500,
)


@harness(covers=("template", "set_option", "set_hostvar", "remove_option", "message"), runs=1, bounded=True, hang=150)
def commands(c):
    """the listed texts, and all texts of up to four characters of a small alphabet after each head"""
    for x in TEXTS:
        c.cover(check(c, x))
    for n in range(5):
        for x in itertools.product(ALPHABET, repeat=n):
            x = "".join(x)
            for h in HEADS if n < 4 else HEADS[:3]:
                check(c, h + x)


class Broken(Exception):
    """an error in a template"""


class Templar:
    """contract: the value of a text is the one of the world"""

    def __init__(self, w, loader=None, variables=None):
        self.w = w
        self.loader = loader
        self.available_variables = variables
        self.native = C.DEFAULT_JINJA2_NATIVE

    def copy_with_new_env(self, environment_class=None, **k):
        t = Templar(self.w, self.loader, self.available_variables)
        t.native = environment_class is S.AnsibleNativeEnvironment
        return t

    def template(self, text, *a, **k):
        return self.w.template(self, text)


class World:
    def __init__(self, c, variables, error, value):
        self.c = c
        self.variables = variables
        self.error = error
        self.value = value
        self.texts = []

    def template(self, t, text):
        c = self.c
        c.prove("with the variables of the frame", t.available_variables is self.variables)
        c.prove("as native types", t.native)
        c.prove("as an expression", text.startswith("{{ ") and text.endswith(" }}"))
        self.texts.append(text[3 : len(text) - 3])
        if self.error is not None:
            raise self.error
        return self.value


class Var:
    """the container of a scope"""

    def __init__(self, name, log):
        self.name = name
        self.log = log

    def set(self, name, value):
        self.log.append(("set", self.name, name, value))

    def remove(self, name):
        self.log.append(("remove", self.name, name, None))


EXPRS = ["x", "a b", "'q' ~ \"w\"", "", "{{ x }}", "%s", "!t x", " x "]
VALUES = (1, "text", None, True, [1], {"a": 1})


def scene(c):
    d, st = make_state(c)
    tv = {"x": 1}
    w = c.build(World, c, tv, c.choose("error", (None, AnsibleUndefinedVariable("not defined"), Broken("br"), AnsibleError("bad"))), c.choose("value", VALUES))
    c.patch(S, "Templar", lambda loader=None, variables=None: Templar(w, loader, variables))
    c.patch(S.traceback, "format_exc", lambda *a: "Traceback")
    fid = c.uid("frame")
    log = []
    frame = c.new(S.AnsibleStackFrame, id=fid, task_vars=tv, variables_options_id=11, variables_taskvar_id=12, variables_hostvars_id=13)
    c.put(st, stackframes={fid: frame}, variables={i: c.build(Var, n, log) for i, n in ((11, "options"), (12, "task"), (13, "host"))})
    return d, st, w, frame, log


def check_value(c, w, resp, expr):
    c.prove("the expression is evaluated once", len(w.texts) == 1 and w.texts[0] == expr)
    if w.error is None:
        c.cover("value")
        c.prove("the result is the repr of its value", resp.result == repr(w.value))
        c.prove("with its type", resp.type == S.get_canonicalized_variable_type(w.value))
    else:
        c.cover("error")
        c.prove("an error is the result", len(resp.result) > 0 and resp.type is None)
        if isinstance(w.error, AnsibleUndefinedVariable):
            c.prove("an undefined variable is named", "not defined" in resp.result)


@harness(covers=("value", "error", "command"), runs=300)
def plain_expressions(c):
    """an expression of any text in the contexts the client uses"""
    d, st, w, frame, log = scene(c)
    expr = c.text("expression", cands=EXPRS)
    context = c.choose("context", ("repl", "watch", "clipboard", "variables"))
    if context == "repl" and expr.startswith("!"):
        c.cover("command")
        return
    c.patch(S, "parse_repl_args", lambda x: "not a command")
    r = req(c, dap.EvaluateRequest, expression=expr, frame_id=frame.id, context=context)
    resp = st.evaluate(r)
    c.prove("it is answered", isinstance(resp, dap.EvaluateResponse) and resp.request_seq == r.seq)
    check_value(c, w, resp, expr)
    c.prove("nothing is changed", len(log) == 0)


@harness(covers=("value", "error", "template", "set_option", "set_hostvar", "remove_option", "message", "raised"), runs=400)
def console_commands(c):
    d, st, w, frame, log = scene(c)
    typed = c.text("typed", cands=EXPRS)
    name = c.text("name", cands=EXPRS)
    expr = c.text("expression", cands=EXPRS)
    kind = c.choose("kind", ("template", "set_option", "set_hostvar", "remove_option", "message"))
    if kind == "template":
        cmd = R.TemplateCommand(command=kind, expression=expr)
    elif kind == "remove_option":
        cmd = R.RemoveVarCommand(command=kind, name=name)
    elif kind == "message":
        cmd = "usage"
    else:
        cmd = R.SetVarCommand(command=kind, name=name, expression=expr)
    c.cover(kind)
    parsed = []

    def parse(x):
        parsed.append(x)
        return cmd

    c.patch(S, "parse_repl_args", parse)
    r = req(c, dap.EvaluateRequest, expression="!" + typed, frame_id=frame.id, context="repl")
    resp = err = None
    try:
        resp = st.evaluate(r)
    except Exception as e:
        err = e
    c.prove("what follows the ! is parsed", len(parsed) == 1 and parsed[0] == typed)
    setting = kind in ("set_option", "set_hostvar")
    if err is not None:
        c.cover("raised")
        c.prove("only the errors of a value to set are raised", err is w.error and setting and len(log) == 0)
        return
    c.prove("it is answered", isinstance(resp, dap.EvaluateResponse) and resp.request_seq == r.seq)
    if kind == "template":
        check_value(c, w, resp, expr)
    elif kind == "message":
        c.prove("the message is the result", resp.result == "usage")
    elif kind == "remove_option":
        c.prove("the option is removed", len(log) == 1 and log[0][:2] == ("remove", "options") and log[0][2] == name)
    else:
        c.prove("the value is evaluated", len(w.texts) == 1 and w.texts[0] == expr)
        scopes = ["options"] if kind == "set_option" else ["task", "host"]
        c.prove("it is set where it belongs", [x[1] for x in log] == scopes)
        c.prove("to the value, by its name", all(x[0] == "set" and x[2] == name and x[3] is w.value for x in log))
    if kind in ("template", "message"):
        c.prove("nothing is changed", len(log) == 0)


@harness(covers=("context", "frame"), runs=100)
def elsewhere(c):
    """other contexts, and expressions outside of a frame"""
    d, st, w, frame, log = scene(c)
    where = c.choose("where", ("context", "frame"))
    c.cover(where)
    if where == "context":
        r = req(c, dap.EvaluateRequest, expression="x", frame_id=frame.id, context=c.choose("context", ("hover", None, "other")))
    else:
        r = req(c, dap.EvaluateRequest, expression=c.choose("expr", ("x", "!t x")), frame_id=None, context=c.choose("context", ("repl", "watch")))
    resp = st.evaluate(r)
    c.prove("it is answered", isinstance(resp, dap.EvaluateResponse) and resp.request_seq == r.seq)
    c.prove("that it is not done", len(resp.result) > 0 and len(w.texts) == 0 and len(log) == 0)
