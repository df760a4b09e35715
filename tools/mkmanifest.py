"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection"
W = {
 "C01": "seeded search over damaged argument streams and deviating field parsers, refinement against an executable model of the documented binding rules",
 "C02": "seeded search over failure points of field parsers; the surfaced error must be the injected one, calls must stop there",
 "C03": "seeded search over lost, duplicated and reordered arguments, refinement against an executable model",
 "C04": "seeded search over failure points inside enum alternatives and rollbacks, refinement against an executable model",
 "C05": "seeded search over peek outcomes (honest and flipped) and failures after commitment, refinement against an executable model",
 "C06": "seeded search over delimiter, leftover and stream-cut faults at every nesting level, refinement against an executable model",
 "C07": "seeded search over values, sinks, renderer panics and re-renders; token-exact check of the sink",
 "C08": "seeded schedules of interleaved, nested and aborted operations; each outcome must equal that operation's outcome alone in a fresh process",
 "C09": "seeded search over zero-progress, failing, panicking field parsers and cut streams; step budget, panic, crash and deadlock monitors",
 "C10": "seeded compiler sessions (order, threads, hash seeds, aborted and failing expansions); each expansion must equal its own in a fresh process",
 "C11": "seeded compiler sessions with definitions breaking one rule each; accept/reject/panic oracle, plus rustc on generated valid definitions",
 "C12": "seeded search over rollbacks and unusual reads, token-exact comparison of consumed and rendered streams",
 "C14": "seeded search over character faults in argument names on their way to generated parsers; hint oracle computed from an independent edit-distance model",
}
NOTE = "Sampled, not exhaustive: clean runs are evidence over the seeds explored. Real derived code, helpers and syn run; field parsers, peeks, renderers, scheduling, allocation preemption and hash keys are the simulator's. Trusts the executable model (DESIGN.md) and proc-macro2's non-compiler token streams."
NA = {
 "C13": "Pure function of the written form of a type at expansion time: no schedule, fault, stream or history in it. (Its effects on parsing are exercised as part of C01 for the spellings the generator uses.)",
 "C15": "Operators on plain values, pure functions without I/O, scheduling or faults.",
 "C16": "Static property of generated source, settled by compiling it; no run-time nondeterminism or fault is involved.",
 "C17": "Content of a compile-time message, a pure function of the definition. (Aborted dump expansions are injected as faults under C10 and C11.)",
}
m = {
 "version": 1,
 "setup_cmd": "./check setup",
 "checks": [
  {
   "property": p,
   "quick_cmd": f"./check {p} --tier quick",
   "thorough_cmd": f"./check {p} --tier thorough",
   "technique": f"{T}: {w}",
   "level": "exploration",
   "level_note": NOTE,
  }
  for p, w in W.items()
 ],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: every seam the simulator needs (field types' Parse/Peek/ToTokens, token streams, the global allocator, getrandom, threads) already exists at the API boundary. Replay a failure with: ./check replay FILE",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
