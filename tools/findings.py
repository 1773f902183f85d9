#!/usr/bin/env python3
"""Regenerates known_findings.json from /repo's fix: commits (run by hand; no check runs it)."""
import json, subprocess
PROP = {"99f75f6": "C22", "247a63d": "C20", "e410b82": "C22", "9a10ad9": "C24", "06c5084": "C25", "9cc4035": "C23", "83254cc": "C21", "a2c40e4": "C21", "b25c543": "C20", "b0fe0da": "C20", "26329b7": "C20", "042aeb3": "C20", "0d09eb2": "C19", "a42aed1": "C19", "a07f1f0": "C19", "70776f4": "C13", "8c2b2e3": "C11", "2b9c9c5": "C11", "36bf750": "C11", "7f98ead": "C11", "4035964": "C01", "f3d2f90": "C01", "2a55645": "C01", "346e290": "C05", "8c8f0c0": "C02", "81452e8": "C02", "0eccb8b": "C01", "0023dfd": "C02", "d9912a4": "C02", "145a573": "C02", "76e5518": "C02", "f8bf8f6": "C04", "3aef04f": "C05", "87c0f32": "C05", "31b85e5": "C01", "67dcfda": "C05", "9db166d": "C05", "ea6f80f": "C04", "eb090cd": "C05", "6c721c1": "C05", "c34b038": "C05", "a23222f": "C05", "2fecd48": "C05", "be5a45a": "C05", "49f8014": "C05", "d5b109a": "C05", "cee100c": "C05", "91fc095": "C06", "6ca7212": "C05", "9cc0a2b": "C08", "33dbea8": "C09", "d0cdbbe": "C09", "d2d2462": "C07", "f7393b2": "C08", "f8741d6": "C14", "8bb1d4f": "C16", "0791549": "C15", "1e4e4a2": "C18", "28c6ec0": "C17", "0a1cde2": "C27", "b07a9d9": "C27", "bb54c83": "C28", "b7446e5": "C28", "dc4fafb": "C28", "2a3a711": "C29", "2eccd96": "C29", "c5de281": "C29", "68d3a33": "C29", "bf4c101": "C10", "27265bc": "C31", "402ea56": "C31", "0f5027a": "C31", "f40254a": "C17"}
OPEN = [
 {"property": "C12", "harness": "samples", "id": "sample-level-lowered", "status": "open", "what": "refining by sample levels skips a cell whose sample lies within the search circle of a neighbouring cell that is handled first: on 4x4-wide cells with samples of level 1 at (1,5) or (1,9) and (4.5,6), the cell holding the second sample is not refined, because AveragingInterpolation lowers the level of every sample in the circle before the next cell is looked at. Repairing it changes the stored outcome of MeshRefinement.MeshRefinementRefinementLevels_OnWindowOfRefinementFile_ShouldRefinemesh"},
 {"property": "C02", "harness": "casulli", "id": "casulli-partial", "status": "open", "what": "Casulli refinement of a 5x5 mesh whose node 5 was deleted reports an algorithm error half-way and leaves the mesh half modified, without an undo step"},
 {"property": "C02", "harness": "locate", "id": "orthogonalise-hole", "status": "open", "what": "orthogonalising a 4x4 mesh whose node 5 was deleted crashes while computing the smoother's operators"},
]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "20b7be9..HEAD"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "): fixed.append(f"fixed: property={PROP[h]} {h} {s[5:]}")
json.dump({"findings": OPEN, "fixed": fixed}, open("/verif/known_findings.json", "w"), indent=1)
print(len(OPEN), "open", len(fixed), "fixed")
