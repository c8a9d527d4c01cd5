#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = ("pure sequential function of its arguments: no scheduling, time, I/O, randomness or second party for a simulator to decide, "
        "so a simulated run would only be an ordinary randomized unit test")
NA = {"C30": PURE, "C31": PURE,
      "C32": PURE + " (what is shared between concurrent expansions is decided under C10)",
      "C33": PURE + " (interference between processes' scopes is decided under C10 and C08)",
      "C34": PURE + " (truncated and partially read sources are decided under C14 and C16)"}
TRUST = ("Seeded search, not exhaustive: schedules at the granularity of shared accesses and synchronisation operations, "
         "sequentially consistent memory, simulated Go runtime primitives and I/O (simrt), a source rewriting that preserves meaning.")
NOTE = {
 "C01": "Every recorded channel history is checked for linearizability against a bounded FIFO queue; blocked operations are checked against the queue state at quiescence.",
 "C02": "Every recorded history of atomic operations is checked for linearizability against a 64-bit register per atomic.",
 "C03": "Process bodies, results, joins and left-over processes of every run are checked against what was forked.",
 "C04": "Run times of scheduled functions on the simulated clock are checked against the set of deadlines the abandon and reset calls allow.",
 "C05": "Sleep results and durations are checked against a one-token mailbox with timeouts.",
 "C06": "Frame operation histories are checked for linearizability against frames as maps with parent lookup.",
 "C07": "Every whole-frame result is checked against the sequence of states the frame went through; deadlocks and crashes are detected by the simulator.",
 "C08": "Environment histories are checked for linearizability per name, enumerations against the bindings present before and during them.",
 "C09": "Symbol identities and generated names of all processes are compared.",
 "C10": "Each generated program's result and effects in concurrent runs are compared with its solo run.",
 "C11": "Every method body reports the frame it runs on, compared with the frame the message was sent to.",
 "C12": "A failure is injected at every evaluation step of generated programs in turn and the outcome compared with the failure-free run.",
 "C13": "Failures and panics are injected at every step of process bodies; what other processes observe is compared with the failure-free run.",
 "C14": "Read results per port are compared with the file's expressions under split reads, injected read errors and interleaved ports.",
 "C15": "File contents at every crash point are compared with the acknowledged operations under short writes, errors and full disks.",
 "C16": "Effect logs of loads are compared with the forms of the (cut) file under read errors, short reads and concurrent loads.",
 "C17": "Every effect performed by restricted code is recorded at the simulated operating system and must be empty.",
 "C18": "Durations on the simulated clock are compared with requested delays and reported times under stalls and wall clock jumps.",
 "C19": "Random programs over shared objects under the simulator's crash, race-abort and deadlock detection.",
 "C20": "Scripted sessions are compared line by line with the expected transcript, with background processes.",
 "C21": "Profile files are parsed and compared with the calls the program makes.",
 "C22": "Process starts recorded at the simulated operating system are compared with the exec calls, under injected start failures.",
 "C23": "Each program runs under several map enumeration orders and all printed results are compared.",
 "C24": "Console and sink contents are compared with the messages logged, under failing sinks.",
 "C25": "Each generated program's results and effects beside tracing, profiling, breakpoints and scripted debugger sessions are compared with its solo run without them.",
 "C26": "Open files, processes, commands and the reachable content of the interpreter's tables are compared between repetitions of the same work under I/O faults.",
}
d = subprocess.run([os.path.join(root, "build.sh")], capture_output=True, text=True, check=True).stdout.strip()
claimed = subprocess.run([d + "/simcheck", "list"], capture_output=True, text=True, check=True).stdout.split()
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./build.sh",
     "hooks": {"guard": "none needed", "enable": "./build.sh rewrites a copy of /repo's Go sources so that scheduling, clocks, I/O, map order and randomness go through the simulator; /repo carries no hooks", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Every check: ./check <id> [quick|thorough]. Replay a violation with ./replay.sh FILE. Genuine defects repaired by fix: commits and remaining known findings are in known-findings.txt."}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
            "technique": "deterministic simulation with fault injection (seeded schedule search, history checking)",
            "level": "exploration", "level_note": NOTE[i] + " " + TRUST})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
