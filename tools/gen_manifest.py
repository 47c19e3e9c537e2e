#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of claimed properties below.
import json, subprocess
CLAIMED = {
 'C01': "exact reference model for every event sequence a mouse can produce, admissible-effect model for disturbed ones, board invariants after every event",
 'C02': "verdict recomputed from the visible board after every event, with board swaps during the game",
 'C03': "exact counter model for undisturbed sequences, step bounds and recomputed flag / solved-3BV values for all",
 'C04': "independent recomputation of every time and stamp from the simulated clocks, with stalls, wall jumps and reused sessions",
 'C05': "field-by-field comparison of the replay read back from the simulated disk with the live session, and every torn prefix refused",
 'C06': "directory contents after saving, with concurrent savers interleaved at system calls and injected disk errors, short writes and interrupts",
 'C07': "damaged, truncated and hostile replay files served by the simulated disk to every reader, with bounded steps and memory",
 'C08': "every seek compared with the live session's own log of the game (boards, counters, positions), for arbitrary seek histories",
 'C09': "analysed replay compared event by event with the live session's log, and every indicator with its definition",
 'C10': "a reused object and a fresh one driven in lockstep by the same later history",
 'C11': "legality of every board, goodness of fit over all arrangements or over cells and pairs, independence of concurrent generators",
 'C12': "boards and verdicts judged by exhaustive logic under drawn worker schedules, attempt limits and geometries",
 'C13': "totals, range, independence and distribution against boards drawn by the harness under drawn schedules of the workers",
 'C14': "protected and plain board driven in lockstep by drawn histories of reads, iterations, clones and replacements, with the random source under the simulator's control",
 'C15': "positions reached by simulated games, judged by exhaustive logic over fronts of up to 55 cells, with drawn query orders and repetitions",
 'C16': "positions reached by simulated games, probabilities compared with exact counting of all arrangements",
 'C17': "phase table of accepted operations, with every observation compared before and after a refused one",
 'C18': "remarks recomputed from their definitions on the harness's own record of simulated games and exhaustive logic, for drawn histories of analyses, queries and seeks",
 'C19': "every statistic recomputed from its definition, with drawn orders and repetitions of the cached queries",
 'C20': "every cell of positions reached by simulated games put to both referees and judged by exhaustive logic, with right and wrong player flags",
 'C21': "round trips of every replay format through independently written encoders on the simulated disk",
 'C23': "verdict recomputed from its definition for replays of all formats, recorded under drawn wall clocks, with drawn histories before the audit",
 'C24': "everything a session tells compared before and after the helpers, called at drawn moments of histories over several games",
 'C25': "an embedded interpreter with the real extension module driven in lockstep with the library by drawn histories of calls",
 'C27': "replays of every format converted on the simulated disk and compared with the encoder's game and the first reading",
 'C29': "equation systems and tables of positions met in simulated games, with drawn markings, compared with the visible numbers, graph search and plain enumeration",
 'C28': "the C interface called by its symbols in drawn histories, compared with the library, every allocation on a ledger of a simulated allocator",
 'C26': "the sources of the package compiled natively on the library as built for JavaScript, driven in lockstep with the library by drawn histories; goodness of fit of its own mine laying",
}
NA = {
 'C22': "optical recognition is a pure function of a picture: no schedule, clock, fault, history or second party influences it, so simulation with fault injection adds nothing over plain input generation, and rendering screenshots the network accepts would be a different technique",
}
checks = [{
  "property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
  "technique": "deterministic simulation with fault injection", "level": "exploration",
  "level_note": f"Seeded search over simulated executions of the real library code; {n}. Trusts the simulator's seams (threads, clocks, entropy, files) and the oracle written in sim/src/check; a clean batch is evidence, not proof.",
} for p, n in CLAIMED.items()]
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
for p in props:
    if p not in CLAIMED and p not in NA:
        NA[p] = "no check has been built yet"
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks,
  "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
  "notes": "No hooks are added to /repo: the simulator interposes below the library (symbol interposition of libc/pthread/clock/entropy/file calls plus compiler-inserted edge callbacks), see DESIGN.md."},
  open('/verif/MANIFEST.json', 'w'), indent=1)
