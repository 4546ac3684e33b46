#!/usr/bin/env python3
"""Writes MANIFEST.json (claimed checks and not-applicable properties)."""
import json
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent

SIM_NOTE = (
    "Seeded search, not proof. Real code: the proc macro, the generated parsers and peg-runtime, all rebuilt from "
    "/repo. Simulated: the input device, all user code, (where named) threads, allocator-visible values and fd 1. "
    "Trusts the reference model (sim/simlib/src/model.rs), written from the documentation, and rustc."
)
C = {
    "C01": ("seeded baton scheduler over real client threads and re-entrant parses, differential against each parse run alone", "exploration", SIM_NOTE),
    "C02": ("panic injected at each user-code call and input access in turn, then later parses compared with untouched ones", "fault_enumeration",
            "Every crash point up to a cap (60 calls per pass, 80 accesses) of each seeded run is taken; runs themselves are sampled. " + SIM_NOTE),
    "C03": ("simulated user values with live/clone accounting under injected failures and panics", "exploration", SIM_NOTE),
    "C04": ("environment changed between and during the two passes, protocol checked over the recorded history", "exploration", SIM_NOTE),
    "C05": ("seeded environment answers and device faults against an executable PEG reference model", "exploration", SIM_NOTE),
    "C06": ("seeded operand/operator failures in precedence expressions against a reference climber", "exploration", SIM_NOTE),
    "C07": ("environment that changes its answers between uses of a memoised rule, checked over the call history and against the model", "exploration", SIM_NOTE),
    "C08": ("growing/shrinking/failing left-recursive growth steps under injected answers, against the model", "exploration", SIM_NOTE),
    "C09": ("failures injected mid-parse, reported location and expected set against an independent failure ledger", "exploration", SIM_NOTE),
    "C10": ("input device with shuffled position spacing that fails, truncates and grows, asserting every access", "exploration", SIM_NOTE),
    "C11": ("simulated fragmenting, stalling, restarting, cutting and corrupting connection, exactly-once delivery against the sent messages", "exploration",
            "Seeded search. Real code: peg-runtime's str/byte/slice inputs and generated #[no_eof] parsers. Stub: the connection. Trusts the hand-written encoders and decoders of the frame formats."),
    "C12": ("trace captured through a simulated fd 1 with short, interrupted and refused writes, compared with the model's rule log", "exploration", SIM_NOTE),
    "C13": ("write, flush and allocation faults injected into the rust-peg process at every kind of point, prefix and exit-status oracle", "exploration",
            "The real rust-peg binary runs under an interposed libc seam that decides every read/write/alloc result from a plan; fault points are sampled plus an enumerated sweep of write calls. Trusts the shim and the fault-free output as reference."),
    "C14": ("process run under controlled hash seeds, address layout, clock, environment, heap contents and delivery, outputs compared byte for byte", "exploration",
            "The real rust-peg binary; getrandom, clocks, environment, cwd, allocator contents and read sizes come from the seed. Sampled."),
    "C15": ("torn, unreadable and fragmented grammar delivery to the rust-peg process, exit-status and empty-output oracle", "exploration",
            "The real rust-peg binary with an interposed read/open seam; cut points sampled (small grammars: all token boundaries). Trusts the shim."),
    "C16": ("step counting of user-code calls and input accesses under faults, against the model's step count and a progress bound, and of the stack depth of each call against the model's chain of rules", "exploration", SIM_NOTE),
    "C17": ("histories of simultaneous, killed and failing rust-peg processes in one place, interleaved by a seeded scheduler at every call that touches a file", "exploration",
            "The real rust-peg binary; libc is interposed, effects on files are confined to a scratch tree. Sampled histories. Trusts the shim and the undisturbed run as reference."),
    "C18": ("errors of seeded failing parses rendered into simulated sinks that refuse, fill up, panic or re-enter at every piece in turn", "fault_enumeration",
            "Every piece of every rendered error up to 24 is refused (once and for good) and panicked at in turn; the parses themselves are sampled. Real code: peg-runtime's error types and generated parsers. Stub: the sink, the input device, user code."),
    "C19": ("the macro's own sources expanding several grammars on threads interleaved by a seeded scheduler at every allocation, against a fresh process per grammar", "exploration",
            "Seeded search. Real code: all of peg-macros (entry point as a plain function) and peg-runtime. Stub: the compiler's proc_macro bridge (proc-macro2's fallback), hash seeds, thread scheduler."),
}
NA = {
    "C20": "Acceptance by a compile-time analysis is a pure function of the grammar text: no schedule, clock, I/O or fault takes part.",
    "C21": "Name resolution happens inside rustc on fixed source text; there is nothing to schedule or fail.",
    "C22": "A statement about one fixed pair of files and the grammar syntax; no environment is involved (that the generator's output is independent of its environment is C14).",
    "C23": "Diagnostics are a pure function of the grammar text; generation under I/O faults and torn texts is covered by C13-C15.",
    "C24": "Type checking of signatures is decided by rustc at compile time; nothing runs.",
    "C25": "A question of which feature combinations compile; nothing runs under a simulator.",
    "C26": "A pure function of content and position; its failure modes with partial and damaged data are covered by C11.",
}
TODO = {}
def main():
    have = {p for p in C}
    for mod, ids in (("stream", ["C11"]), ("genproc", ["C13", "C14", "C15"])):
        if not (HERE / "tools" / (mod + ".py")).exists():
            for i in ids:
                have.discard(i)
                TODO[i] = "Check under construction."
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py setup",
        "checks": [
            {
                "property": i,
                "quick_cmd": "python3 run.py %s --tier quick" % i,
                "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": "deterministic simulation: " + C[i][0],
                "level": C[i][1],
                "level_note": C[i][2],
            }
            for i in sorted(have)
        ],
        "not_applicable": [
            {"property": i, "reason": r} for i, r in sorted({**NA, **TODO}.items())
        ],
        "notes": "No hooks in /repo: every seam used is public API (input traits, grammar arguments) or libc (interposed). See DESIGN.md.",
    }
    (HERE / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")

main()
