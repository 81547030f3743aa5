"""The callback plugin and what Ansible gives it."""
from __future__ import annotations

import os

import ansibug.ansible_collections.ansibug.dap.plugins.callback.debug as cb


class Debugger:
    """contract of AnsibleDebugger as the callback uses it"""

    def __init__(self):
        self.starts = []
        self.events = []
        self.places = None  # the one that registers
        self.at = None

    def start(self, addr, mode, *, ssl_context=None, playbook_file=None):
        if self.at is not None:
            self.at()
        self.starts.append((addr, mode, ssl_context, playbook_file))
        self.events.append("start")
        return "bound"

    def register_path_breakpoint(self, path, line, bp_type):
        self.places.register_path_breakpoint(path, line, bp_type)

    def wait_for_config_done(self, timeout=10.0):
        self.events.append("wait")

    def shutdown(self):
        self.events.append("shutdown")


class Playbook:
    def __init__(self, plays, file):
        self.plays = plays
        self._file_name = file

    def get_plays(self):
        return self.plays


class Display:
    def display(self, *a, **k):
        pass


def start_playbook(c, opts, plays=(), file="play.yml", places=None, at=None):
    d = c.build(Debugger)
    c.put(d, places=places, at=at)
    mod = c.new(cb.CallbackModule, _debugger=d)
    c.model(os.getpid, lambda: 4242)
    c.patch(cb, "display", c.build(Display))
    c.patch(cb.CallbackModule, "get_option", lambda self, name, *a: opts[name])
    mod.v2_playbook_on_start(c.build(Playbook, plays, file))
    return d
