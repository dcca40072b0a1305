#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
TECH = "deterministic simulation with fault injection: the real program runs on a simulated kernel, clock and goroutine scheduler; seeded search over schedules and faults; "
C = {
 "C01": ("invariant after every system call plus sampled power-loss images", "Every state between two system calls of a save is checked, and torn writes and power-loss images of a disk model with a volatile cache are sampled."),
 "C02": ("fault at each system call of a save, reference model afterwards", "Every system call class of a save is failed at sampled positions; trusts the reference model of ed."),
 "C03": ("comparison of the whole file tree before and after", "Trees with names next to the target, modes and umasks are sampled."),
 "C04": ("invariant after every system call over interleaved sessions", "Interleavings are at system-call granularity and sampled."),
 "C05": ("history check of answers against the model, at every moment of quiescence", "Goroutine choices at every blocking point, channel operation and system call are sampled."),
 "C06": ("refinement against an executable line-buffer model", "Sessions are sampled; trusts the reference model of ed."),
 "C07": ("refinement against the line-buffer model under foreign changes and failing disks", "Placements of foreign operations are sampled from the run's own trace."),
 "C08": ("bounded-progress and no-crash check on arbitrary input with faults", "Inputs are sampled from raw bytes, mutated sessions and the command alphabet."),
 "C09": ("refinement of edit histories against a byte string with a misbehaving reader", "Histories and reader behaviours are sampled."),
 "C10": ("reference model (concatenation)", "Inputs, chunkings and fault positions are sampled."),
 "C11": ("reference model (bitwise POSIX CRC)", "Inputs, chunkings and fault positions are sampled."),
 "C12": ("reference model (byte comparison)", "Inputs, chunkings and fault positions are sampled."),
 "C13": ("reference model (first lines) and bounded progress with a stalled writer", "Inputs, chunkings and fault positions are sampled."),
 "C14": ("script applied by an independent interpreter", "Inputs, chunkings and fault positions are sampled; minimality of the script is not claimed."),
 "C15": ("linear-extension check under varied map orders", "Relations, map orders and fault positions are sampled."),
 "C16": ("verdict must match the file state at one instant of the recorded history", "Trees and placements of foreign operations are sampled; the file-type model is shared with the simulated kernel."),
 "C17": ("recorded deliveries against the command line", "Command lines, process tables and placements of exits are sampled; signals never leave the simulator."),
 "C18": ("success and prefix check under failing writes", "Fault positions are sampled from each run's own trace."),
 "C19": ("success and output check under failing opens and reads", "Fault positions are sampled from each run's own trace."),
 "C20": ("comparison of perturbed runs with a benign run", "Perturbations are sampled; the benign run itself is not judged."),
}
NA = {
 "C21": "pure function of two strings (regular expression and text): no concurrency, time, I/O or other party for a simulator to control; no utility calls the package apart from ed's /word/ searches, which C06 covers",
 "C22": "pure function of an argument list, and no utility uses the package: nothing for a simulator to schedule or to fail",
 "C23": "pure function of the environment variables; the only I/O, writing the result, is covered by C18 and C20",
 "C24": "the verdict is a function of one text: the lexer runs in a goroutine of its own, but it and the parser only share one channel, so no schedule can change what one text gives, there is no I/O to fail, and no utility parses locale definitions",
 "C25": "pure function of the argument list; these primaries make no system call whose behaviour a simulator could vary",
}
import subprocess
have = subprocess.run(["/verif/.build/vsim", "list"], capture_output=True, text=True).stdout.split()
checks = []
for i in sorted(have):
    how, note = C[i]
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {i}",
        "technique": TECH + how,
        "level": "exploration",
        "level_note": note + " Searches, does not prove. Trusts the simulated kernel (a model of the Linux calls used) and that system calls go through Go's package syscall.",
    })
missing = [{"property": i, "reason": "check not built yet"} for i in sorted(C) if i not in have]
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": r} for i, r in sorted(NA.items())] + missing,
     "notes": "No hooks in /repo: the seams are laid over the Go standard library with 'go build -overlay' (sim/build). Repaired defects are listed in KNOWN_FINDINGS.txt. Replay: ./run.sh replay FILE. Determinism: ./run.sh determinism ID..."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
