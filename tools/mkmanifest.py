#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property modules present in mc/props (run: python3 tools/mkmanifest.py)."""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "bounded exhaustive state enumeration of the real code against a reference model (shapes x assignments)",
    "C02": "bounded exhaustive state enumeration (all superpixel value tuples) against a reference model",
    "C03": "stateless model checking: full operation-sequence tree on the real images against a reference image",
    "C04": "stateless model checking: full operation-sequence tree over a pool of live images, non-interference invariant",
    "C05": "bounded exhaustive state enumeration (operand pairs x operators x operand kinds) against a reference model",
    "C06": "bounded exhaustive state enumeration (pixel/dark/flat triples x application orders x types) against a reference model",
    "C07": "bounded exhaustive state enumeration (shapes x binnings x impulse basis) against a reference model",
    "C08": "bounded exhaustive state enumeration (shapes x impulse basis x modes) against a reference model",
    "C09": "bounded exhaustive state enumeration (shapes x all shifts) against a reference model",
    "C10": "bounded exhaustive state enumeration (shapes x target sizes, angles) against a reference model",
    "C11": "bounded exhaustive enumeration of regions plus stateless exploration of call histories against a reference model",
    "C12": "bounded exhaustive enumeration of parameters plus stateless exploration of call histories against a reference model",
    "C13": "bounded exhaustive enumeration of sensors x configurations x file orders against the Malus-law model",
    "C14": "stateless model checking under a controlled worker scheduler (all schedules of small grids) on the real code",
    "C15": "fault enumeration: all file subsets, listing orders and crash points of the real writer, load compared with a model",
    "C16": "bounded exhaustive state enumeration (matrices, flags, modes) against a reference model",
    "C17": "bounded exhaustive enumeration of Stokes states and error tuples against first-order finite differences",
    "C18": "bounded exhaustive enumeration of saves x pixel types x clamps x histories, files read back with an independent parser",
    "C19": "bounded exhaustive enumeration of file sets x orders x dates against a reference model",
    "C20": "bounded exhaustive enumeration of raw files x names x orders, all 65536 pixel values, against a reference model",
    "C21": "fault enumeration: every crash point, torn write and failing call of the real conversion under a fault injector",
    "C22": "bounded exhaustive enumeration of all segments and rays on small frames against geometric invariants",
    "C23": "bounded exhaustive enumeration of angles and lists against a reference model",
    "C24": "bounded exhaustive enumeration of flag maps and frames against a reference model",
    "C25": "bounded exhaustive state enumeration (impulse basis x shapes x matrices) against a reference model",
    "C26": "bounded exhaustive enumeration of frames, centres and binnings with closure over repeated application",
    "C27": "stateless model checking: full operation-sequence tree interleaved with default changes against a reference state machine",
    "C28": "bounded exhaustive product of pixel types x layouts x operations, differential against the float64 execution",
    "C29": "bounded exhaustive enumeration of disc positions and radii against ground truth",
    "C30": "bounded exhaustive enumeration of display calls x assignments x shapes, figure contents compared with the maps",
    "C31": "fault enumeration: every failing or short file-system call of every real writer under a fault injector",
    "C32": "bounded exhaustive enumeration of dead pixels, occulters and grids against a reference model",
    "C33": "exhaustive enumeration of all 2^24 byte triples through the real decoder",
    "C34": "bounded exhaustive exploration of rotation/flip sequences against a reference model",
    "C35": "bounded exhaustive enumeration of permutations x phase offsets against a reference model",
    "C36": "bounded exhaustive enumeration of signal distributions and calibration inputs against a reference model",
    "C37": "fault enumeration: every failing worker part, failing call and unreadable input of the real calibration",
    "C38": "bounded exhaustive enumeration of all small arrays and settings against exact rational arithmetic",
    "C40": "stateless model checking under a controlled thread scheduler (all schedules within a preemption bound) on the real code",
    "C41": "fault enumeration: every refused call and an exception before every library line of every operation, on live images",
    "C42": "fault and configuration enumeration: every call under every process setting and ended at every library line, on the real code",
    "C44": "exhaustive enumeration of patterns of noisy readings through the real calibration against the closed-form weighted least-squares solution",
    "C46": "exhaustive enumeration of operations x symmetries x units of the real library, each execution compared with that of the original scene",
    "C45": "exhaustive enumeration of unusable readings in every element of every operand of every operation, against the dependences found with finite values",
    "C43": "closed-loop enumeration of all routes through the real data reduction against a sensor model and against each other",
    "C39": "bounded exhaustive enumeration of two- and three-level frames against Otsu's criterion over every split",
}
NA = {
}
LEVEL = {"C42": "fault_enumeration", "C41": "fault_enumeration", "C37": "fault_enumeration", "C15": "fault_enumeration", "C21": "fault_enumeration", "C31": "fault_enumeration"}
NOTE = ("Runs the real code of /repo on every case within the bounds stated in the evidence file and compares each step with an independent "
        "reference model; nothing is claimed beyond those bounds. Trusts numpy, astropy and the reference models in /verif/mc.")
NOTES = {
    "C14": "All worker schedules of the stand-in pool for small grids (fork-isolated tasks, every pick-up and completion order), plus the "
           "real pool; assumes workers share nothing but the arguments (which the fork isolation reproduces).",
    "C15": "Every subset of the files, permuted directory listings and a crash before/after/inside every file-system write of the real "
           "writer; assumes writes reach the disk in program order.",
    "C21": "Crash before/after/inside every file-system call of the real conversion, each failing call and short write; assumes program-order "
           "persistence (no reordering by the file system).",
    "C31": "Each single failing, short or persistently failing file-system call of every writer, through a libc interposer; assumes the "
           "writers reach the file system through libc.",
}


def bounds_of(pid):
    return ""


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        f = os.path.join(HERE, "mc", "props", p.lower() + ".py")
        if p in NA:
            na.append(dict(property=p, reason=NA[p]))
        elif os.path.exists(f):
            checks.append(dict(property=p, quick_cmd=f"./check.sh {p}", thorough_cmd=f"./check.sh {p} --thorough",
                               evidence_file=f"evidence/{p}.json", technique="model checking: " + T[p],
                               level=LEVEL.get(p, "model_checking"), level_note=NOTES.get(p, NOTE)))
        else:
            na.append(dict(property=p, reason="no check built yet"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="No hooks: the checks drive the public interface of /repo as it is. VERIF_TIER selects the bounds.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not claimed")


main()
