#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
T = "TLA+ specification checked with TLC; "
INFO = {
 "C01": (T + "TLC-enumerated triangulations built by the real reader and mesh classes, connectivity compared with the specification",
         "Exhaustive over the enumerated triangulations and boundary assignments, sampled for larger meshes; the real reader, metadata and mesh construction are executed."),
 "C02": (T + "write/read round trips of real files, contents compared by a TLC conformance specification",
         "Sampled and enumerated meshes; coordinates compared to 15 significant digits, identities exactly."),
 "C03": (T + "TLC-enumerated sections and mixed configurations replayed into the real readers and the real serial and distributed programs, judged by a TLC specification of what a file means",
         "Every choice of keys and of known/unknown words of every section, plus sampled mixtures; read back from an independent reading of the written file."),
 "C04": (T + "TLC-enumerated partitions replayed through the real partitioner with a METIS stand-in, its files checked by a TLC specification",
         "Exhaustive over assignments on small meshes, sampled on larger; METIS itself is outside (any assignment it may return is covered by enumeration)."),
 "C05": (T + "exhaustive model checking of the exchange protocol, plus MPI call traces of real distributed runs validated against it",
         "The protocol model is explored exhaustively for small rank/submesh/thread counts; real runs are observed through the MPI profiling interface."),
 "C06": (T + "states recorded from real serial and distributed runs checked by a TLC refinement specification",
         "Every element of every recorded step is compared, to a rounding tolerance, over varied cuts, ranks and threads."),
 "C07": (T + "volume ledger recorded from whole real runs checked by a TLC trace specification",
         "Ledger of every recorded step against the specification of permitted changes, to rounding tolerance."),
 "C08": (T + "states recorded from whole real runs checked by a TLC trace specification",
         "Every element and step of the sampled lakes, to rounding tolerance."),
 "C09": (T + "clock traces and tree-equation values of the real steppers checked by TLC trace specifications",
         "Model exhaustive; all offered and refused schemes; order conditions up to order 4 cover every ODE to that order, numerically to 5e-9."),
 "C10": (T + "TLC-computed output schedules compared with files of real runs; file contents compared with recorded states",
         "Schedules over sampled (dt, frequency, length, format) combinations in serial and distributed runs."),
 "C11": (T + "TLC-enumerated nodal depth patterns replayed into the real wetting-drying kernel; a decision specification in TLA+",
         "Exhaustive over the lattice of depth patterns given to the kernel for one step, whole-run traces in addition."),
 "C12": (T + "TLC-enumerated neighbourhoods replayed into the real limiter; whole-run records checked by a TLC trace specification",
         "Integer model of the limiter's bounds on enumerated neighbourhoods; numeric agreement to a tolerance."),
 "C13": (T + "TLC-enumerated two-sided levee states replayed into the real levee fluxes",
         "Exhaustive over the lattice of heads, crests and depths; discharge compared with the weir law to a tolerance."),
 "C14": (T + "TLC-enumerated boundary data and times replayed into the real boundary conditions",
         "Superposition decided by the specification on an exact lattice of phases; whole runs for the ramp and data lookup."),
 "C15": (T + "TLC-checked snapshot machine, traces of the real parser validated against it",
         "Parser states over sampled steps, schemes and frequencies; forcing values per node compared to a tolerance."),
 "C16": (T + "numbering extracted from real discretizations checked by a TLC specification",
         "All faces of the sampled meshes and cuts, for every polynomial order offered."),
 "C17": (T + "operator traces and states of real Green-Naghdi runs checked by a TLC trace specification",
         "Sampled flows; sequencing compared exactly, invariants to rounding tolerance."),
 "C18": (T + "records of pairs of real runs on transformed inputs checked by a TLC relation specification",
         "Sampled meshes; every listed transformation; agreement to rounding tolerance."),
 "C19": (T + "TLC-enumerated face states replayed into the real flux and interface code",
         "Exhaustive over a lattice of states and Pythagorean normals; tolerance 1e-9 relative."),
 "C20": (T + "fault enumeration: non-numbers injected into real runs at every enumerated place, endings checked against the specification",
         "Injection per element, variable, stage position and submesh of the enumerated runs."),
 "C21": (T + "TLC-enumerated generator inputs run through the real generator, its mesh checked by a TLC specification",
         "Exhaustive over small subdivisions, patterns and boundary types; geometry in exact integers."),
 "C22": (T + "TLC-enumerated monomials and triangles replayed into the real rules, bases and transforms",
         "All orders offered; all monomials up to the stated degree on sampled triangles, exact rational integrals in the specification."),
 "C23": (T + "TLC-enumerated states and beds replayed into the real source kernel",
         "Exhaustive over a lattice of states; tolerance 1e-9 relative."),
}
LEVEL = {"C20": "fault_enumeration"}
checks, na = [], []
for p in ALL:
    if os.path.exists(os.path.join(root, "checks", p.lower() + ".py")):
        t, n = INFO[p]
        checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": LEVEL.get(p, "model_checking"),
                       "level_note": n})
    else:
        na.append({"property": p, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ / TLC; see DESIGN.md"}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
