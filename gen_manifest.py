#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
TECH = {
 "C25": "complete enumeration of the finite base cell space against a derived geometric model",
 "C07": "explicit-state enumeration of the index automaton, counts against the model",
 "C19": "bounded exhaustive enumeration of write sequences against a record model",
 "C20": "bounded exhaustive enumeration of argument lattices against an oracle model",
 "C21": "bounded exhaustive enumeration of call words and iterator interleavings",
 "C28": "stateless model checking of the real code under a controlled scheduler that switches threads at machine instructions",
 "C22": "bounded exhaustive enumeration of malformed indexes under a crash and hang monitor",
}
NOTE = {
 "C01": "Every cell of resolutions 0-6 (thorough: 7) is decoded and encoded; above that, all digit paths within the stated deviation bounds plus pentagon, face-edge, pole and antimeridian neighborhoods. Trusts the host's f64 functions.",
 "C02": "All exponents and signs of both coordinates, lattices and special points at all 16 resolutions; mantissas are the stated ones.",
 "C03": "Containment is decided by an independent exact lattice model on the unfolded icosahedron; points within the stated rounding bound of a boundary are skipped and counted.",
 "C04": "The model's exact lattice position of every enumerated cell, projected independently, against the reported center; tolerance 2e-14 rad.",
 "C05": "Every listed spelling of every listed point at all 16 resolutions; points within rounding distance of a boundary are skipped and counted.",
 "C06": "548 million values classified by code and specification automaton; every header, every pair of digit deviations, every digit window.",
 "C07": "All digit strings to length 6, all cells to resolution 7 and bounded families above; totals above use the counts that C09 decides.",
 "C08": "Complete enumerations of all cells to resolution 5 and bounded families above, against the model's odometer; long ones for a prefix.",
 "C09": "Every (cell, child resolution) pair of the families; the count depends on the cell only through resolution and pentagon status in the model.",
 "C10": "Every position of short enumerations and all subtree boundaries of long ones, with errors.",
 "C11": "Every parent/child relation of the families, decoded and encoded at all finer resolutions.",
 "C12": "Every move from every cell to resolution 6 and bounded families above, against adjacency on the model's unfolded icosahedron (integer arithmetic, no tolerance).",
 "C13": "All direction lookups, turns and walk words of the stated length against frames of the model; frames at pentagons are ambiguous and not compared.",
 "C14": "Breadth-first search over the model's adjacency is the oracle; origins and radii are those of the phases.",
 "C15": "As C14, with the pentagon verdict decided by the model, also at the exact distance of the nearest pentagon for cells all over the faces.",
 "C16": "As C15, plus walking order; all radii until every disk contains a pentagon at low resolutions, radii around the distance of the nearest pentagon to 200 000.",
 "C17": "Every ordered pair of neighbors and of cells two steps apart in the families.",
 "C18": "2.6 billion values classified by code and specification automaton; all edge lists of the cell families.",
 "C19": "All single writes over every header, all pairs of writes over 585 prior values, triples over reduced ones.",
 "C20": "Lattices of angles, distances and points with every exponent for the normalizations; tolerances follow the conditioning of the formulas.",
 "C21": "All pairs of 309 calls in new processes, all words of 3 (a part: 4) within a process, repetitions, sweeps in three orders, all interleavings of two and three iterators.",
 "C22": "3.8 million malformed or valid values to every query, panics, aborts and hangs confirmed by a supervising process; overflow checks are on.",
 "C24": "Every turn of every enumerated cell; on pentagon base cells the oracle is a rotation of the sphere, independent of digits.",
 "C26": "Every cell of the families against exact lattice positions; all lattice positions of every face to resolution 4 and around marked places above. Positions just off a face are not compared.",
 "C27": "Every header, digit deviations and all cell families; every range of digits over 366 values; iterators over every pair of resolutions.",
 "C28": "Every call of the alphabet is single-stepped with static memory watched at each instruction; calls that write none are independent. Pairs run with a switch at every instruction, and, where static memory is written, with a single switch at each instruction, from both starting states, and, as the first calls of a process, with one or two switches around the writes. The library is built without optimization for this. Two threads, sequentially consistent memory.",
 "C25": "Complete: all 32-bit numbers, all base cells, all positions on all faces; turns listed for pentagons are a convention and not compared.",
 "C23": "All 2^32 radii in 128-bit arithmetic, plus counted disks.",
}
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append({
        "property": p,
        "quick_cmd": f"bash check.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": "model checking: " + TECH.get(p, "explicit-state enumeration of the model with every trace replayed on the implementation"),
        "level": "model_checking",
        "level_note": NOTE[p],
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks are needed: every property is observed through the public interface. Repairs in /repo are listed in known_findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
