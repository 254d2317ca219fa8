#!/usr/bin/env python3
# Writes MANIFEST.json from the list of built checks.
import json, subprocess
notes = {
 "C01": "every seeded request runs the real prover binary and the real verifier script; small traces through the circuit; within the explored programs, row counts and cache states only",
 "C02": "seeded deviating provers against the real constraint system, real proofs for a share; bounded traces and cell range 16 for most runs",
 "C03": "seeded corruption of committed witness cells, judged by an evaluator of the real constraint system and by real proofs for a share",
 "C04": "seeded channel faults on transactions of the real prover, judged by the real verifier script",
 "C05": "seeded malformed witnesses and failing loads against the real verifier script",
 "C06": "seeded crash points, torn writes and power-loss outcomes over the real prover binary's file operations",
 "C07": "seeded errno, short and interrupted operations over the real prover binary",
 "C08": "seeded interleavings of several real prover processes in one directory",
 "C09": "seeded faulty devices under the real serialisation code",
 "C10": "seeded transcript sessions with tampering over the real transcripts",
 "C11": "seeded openings and deviating provers over the real multi-open schemes",
 "C12": "seeded batches over the real accumulation strategies",
 "C13": "seeded circuits, witnesses and deviations over the real keygen, prover and verifier",
 "C14": "seeded circuits and faults over the real mock prover against an independent evaluator",
 "C15": "seeded process environments over the real prover binary, plus in-process recomputation",
 "C16": "seeded arrival schedules over the real sponges against a plain reference",
 "C17": "seeded gadget circuits with corrupted cells, spliced runs and repairs over the real gadgets",
 "C18": "seeded curve, Sinsemilla and Merkle circuits with corrupted cells, spliced runs, other encodings and repairs over the real gadgets",
}
import sys
built = open('/verif/bin/built.txt').read().split()
unbuilt = [i for i in notes if i not in built]
na = {
 "C20": "pure arithmetic: no schedule, time, I/O, randomness or multi-party behaviour for the property to depend on; a simulator would only be a random-input test",
 "C21": "pure functions on one input (the parallel code paths are compiled out: the crate's multicore feature is absent), so nothing for a simulator to schedule or fail",
 "C22": "a pure function of its input text, with no schedule, time, I/O or party to simulate (what the prover proves for a text is decided by C01)",
 "C23": "a statement about distributions over all randomness; seeded single executions cannot decide it, and the shipped prover fixes its seed on purpose",
}
m = {
 "version": 1,
 "setup_cmd": "bash bin/build.sh",
 "hooks": {"guard": "rustc cfg flag dst", "enable": "RUSTFLAGS=\"--cfg dst\" (set in bin/env.sh for every build of the checks)",
           "source_commits": subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%H", "--grep=^Hooks for simulating a deviating prover"], text=True).split()},
 "checks": [
  {"property": i, "quick_cmd": f"bash bin/check.sh {i} quick", "thorough_cmd": f"bash bin/check.sh {i} thorough",
   "technique": "deterministic simulation with fault injection (seeded search)", "level": "exploration", "level_note": notes[i]}
  for i in sorted(notes) if i in built],
 "not_applicable": [{"property": k, "reason": v} for k, v in na.items()] + [{"property": i, "reason": "check not built yet"} for i in unbuilt],
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
