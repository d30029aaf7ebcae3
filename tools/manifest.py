#!/usr/bin/env python3
"""Source of MANIFEST.json: run to regenerate it."""
import json, os

TECH = "deterministic simulation with fault injection: seeded search over schedules, histories and fault sequences, checked online and at quiescence against independent reference models"
CLAIMED = {
    "C01": "real triangulators run on every observation state a faulty network and storage produce; cameras and network simulated",
    "C02": "quiescent states after faults stop are compared with the simulated ground truth",
    "C03": "delivery orders permuted, iteration budgets varied, results compared with an independent optimum",
    "C04": "a deadline scheduler hands every solver arbitrary iteration budgets; answers compared with the ample-budget answer and the truth",
    "C05": "every drawn sample judged against the simulated motion and an independent Jacobi SVD; consensus must settle once faults stop",
    "C06": "every drawn sample judged against the simulated pose; consensus must settle once faults stop",
    "C07": "every drawn sample judged against the simulated motion; a watchdog turns non-termination into a violation",
    "C08": "residuals of every candidate on every held match compared with independent references",
    "C09": "a node optimizes in batches, crashes and resumes from saved poses; every step compared with an independent reference step",
    "C10": "as C09 for two poses relative to a third; improvement judged on the median of a fleet of scenes",
    "C11": "real serializers against a simulated disk that tears, fails and interrupts; crash and restart at any point",
}
CLAIMED["C12"] = "a fleet exchanges poses and landmarks through every form over a faulty, partitioned network; compared with rigid motions in bare matrices and finite differences"
CLAIMED["C13"] = "a mapping session from simulated pixels through crashes and restarts, compared with the simulated motion, map and pixels"
CLAIMED["C14"] = "a seeded scheduler decides the order of every parallel task of the extractor; each frame of a session compared bit for bit with one thread"
CLAIMED["C15"] = "a faulty camera (torn, blank, saturated, cropped, non-numeric frames in ten pixel formats) feeds the extractor; every frame must be survived and every feature well formed"
CLAIMED["C16"] = "frames of a faulty camera over a drawn scene; features compared with an independent double-precision model of the method"
CLAIMED["C17"] = "a mapping node lives through frames of faulty cameras, operations on its map and crashes in a seeded order; its map is checked after every step, and what operations do is compared with independent references"
CLAIMED["C18"] = "sessions over simulated worlds; after every step the map is compared with the world, and tracking must recover once faults stop"
CLAIMED["C19"] = "the map is saved, torn, crashed and restored at any step and compared bit for bit; settings files with any part left out"
CLAIMED["C20"] = "every frame's features and every export, at any step of a session, are compared with the simulated image, lens and map"
NA = {
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {
    "version": 1,
    "setup_cmd": "(cd sim && cargo build --release --offline) && (cd slam && cargo build --release --offline -p slamsim -p mapsim)",
    "hooks": {"guard": "none", "enable": "no hooks: every source of nondeterminism is outside the library crates, behind their public API or in a dependency that the simulator replaces"},
    "checks": [
        {
            "property": id,
            "quick_cmd": f"./check.sh {id} quick",
            "thorough_cmd": f"./check.sh {id} thorough",
            "technique": TECH,
            "level": "exploration",
            "level_note": note,
        }
        for id, note in sorted(CLAIMED.items())
    ],
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
