#!/usr/bin/env python3
"""Writes known-findings.json (the repaired defects; none is left unrepaired unless listed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("C08", "f26da1f", "step over/out: an import_* was treated like an include with a frame of its own, so a step from inside an import did not stop at the task after it"),
 ("C08", "49904f9", "step out of a task without an enclosing include ignored every later breakpoint"),
 ("C08", "92345da", "after an exception stop, step requests were relative to an earlier stop instead of the failed task"),
 ("C12", "23d45ca", "disconnect with terminateDebuggee: shutdown resumed the threads it had just ended"),
 ("C07", "87eca68", "a breakpoint with a false condition hid another breakpoint that covers the same task"),
 ("C10", "983c4e7", "frames of finished includes stayed on the stack and an include_role followed by a task without role raised"),
 ("C08", "f299109", "step out stopped inside an include nested in the one stepped out of"),
 ("C12", "21e46d5", "exception breakpoints survived a disconnect: a later failing task waited forever for a client"),
 ("C12", "b43a895", "disconnect/terminate before the configuration was done or between plays blocked the playbook or was lost"),
 ("C25", "25f0aa2", "a request waiting for the next play when the playbook ended blocked the shutdown forever"),
 ("C02", "8847ace", "a message with a header value that contains ': ' made next_message raise"),
 ("C13", "bb55ac8", "setting a variable whose key is not a string added an entry with the text of the key instead of changing that entry"),
 ("C17", "be48887", "cancel() stopped at the first cancel function that failed, the remaining operations were not cancelled"),
 ("C17", "8beffa1", "a socket error of a cancelled connect or recv was reported as that error and not as a cancellation"),
 ("C18", "61869e9", "a uds address whose path contains '?', '#', '[' or a control character was cut or rejected by the URL parsing"),
 ("C15", "d3a628c", "end of input on stdin made the read loop spin forever"),
 ("C15", "338037a", "with debug logging, data that ends inside a multi-byte character ended the adapter"),
 ("C21", "d3a9795", "debug console: an unbalanced quote in the text raised, words of the expression that look like options were parsed (-h), a command after an option-like word or a name that also occurs in the command word cut the expression at the wrong place"),
 ("C03", "2a0033a", "the targetId of a StepInRequest replaced its thread_id"),
 ("C03", "a87d5db", "a null noDebug of a LaunchRequest became None instead of False"),
 ("C03", "5d97778", "a property named __types in a message body raised or overwrote the cached type information"),
 ("C26", "3a274a9", "two threads sending to the client could write messages out of order, or answer a request twice on stop"),
]
out = [dict(property=p, harness="", obligation="", status="fixed", commit=c, what=f"fixed: property={p} {c} {w}") for p, c, w in F]
# a finding left unrepaired is listed with status "known", its harness and obligation
KNOWN = []
json.dump({"findings": out + KNOWN}, open(os.path.join(V, "known-findings.json"), "w"), indent=1)
