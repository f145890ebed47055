#!/usr/bin/env python3
"""writes known_findings.json and the defect table of DESIGN.md from /repo's fix commits and the notes below"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject prefix -> (properties, what failed)
N = [
 ("RGBDImages.depth_image setter failed", "C05", "assigning RGBDImages.depth_image raised AttributeError"),
 ("RGBDImages.valid_depth_mask went stale", "C05 C06", "after setting depth or converting the layout, valid_depth_mask still described the old depth/layout"),
 ("RGBDImages.to(copy=True)", "C07", "a copy shared all tensors with its source"),
 ("RGBDImages indexing rejected", "C07", "documented slices, lists, boolean tensors and 1-tuples were rejected"),
 ("Pointclouds list setters", "C08", "assigning points_list etc. left the padded representation stale or dropped it"),
 ("Pointclouds.clone of a padded", "C08", "a clone forgot which rows are padding"),
 ("Pointclouds has_normals", "C08", "has_normals/has_colors/has_features went stale when an attribute was assigned"),
 ("inverse_transfom_3d and compose", "C15", "wrong results for batches of transforms"),
 ("transform_pts_3d returned", "C10 C15", "an empty tensor for N x 3 points"),
 ("RGBDImages.detach", "C07", "the detached object shared its tensors with the source"),
 ("Pointclouds.detach/to", "C12", "detach/to shared padded tensors with the source; to('cpu') copied"),
 ("unhomogenize_points had NaN", "C35 C14", "NaN gradients for points at infinity"),
 ("pointquaternion_to_homogeneous normalised", "C16", "the caller's tensor was normalised in place"),
 ("transform44 raised", "C16", "TypeError for a (near) zero quaternion"),
 ("read_trajectory raised", "C30 C32", "NameError on a line with NaNs"),
 ("associate ordered", "C30", "matches were ordered alphabetically instead of by time"),
 ("fuse_with_map(inplace=False)", "C21 C23", "the given map was modified"),
 ("fusion and downsampling misread", "C19 C20 C21 C22 C27", "channels-first frames were read with the wrong axes"),
 ("ICP rejected the documented", "C26", "initial_transform=None raised AttributeError"),
 ("ICP with no iterations", "C26", "UnboundLocalError"),
 ("gauss_newton_solve compared", "C24", "the distance threshold was compared with squared distances"),
 ("out-of-place ICPSLAM.step", "C23", "the live frame's poses were overwritten"),
 ("Scannet sequences of different", "C29", "scenes of different lengths served frames of each other / failed"),
 ("ICL reads the poses", "C29", "poses ignored start (off by start frames); missing poses off by one"),
 ("merging a node from an override list", "C33", "the whole node was replaced"),
 ("merging changed frozen", "C34", "merges changed frozen nodes"),
 ("quaternion_to_axisangle had NaN", "C35", "NaN gradients (and wrong sign for w < 0) at zero rotation"),
 ("pixels without valid neighbors", "C04", "a unit normal made of rounding errors where the tangents are dependent"),
 ("small-angle branch of se3_exp", "C17 C35", "wrong linearisation of V, wrong gradient at zero rotation"),
 ("plotly of channels-first", "C37", "channels-first frames were read with the wrong axes"),
 ("plotly of frames without any depth", "C37", "OverflowError"),
 ("exporting an empty colored cloud", "C37", "RuntimeError"),
 ("config text of a literal", "C33", "TypeError for texts like {[0]}"),
 ("merging into a node open", "C34", "text values such as None or {1, 2} were stored as values of unsupported types"),
 ("features_list accepted", "C08", "reading features_padded raised afterwards"),
 ("ICP against a map without", "C24 C26 C36", "index_select raised; one empty element broke the whole batch"),
 ("fusion used wrong point", "C18 C20", "indices went through float32"),
]
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()]
fixed, rows = [], []
for h, s in reversed(log):
    if not s.startswith("fix: "):
        continue
    m = [n for n in N if s[5:].startswith(n[0])]
    if len(m) != 1:
        raise SystemExit("no note for %s" % s)
    for p in m[0][1].split():
        fixed.append("fixed: property=%s %s %s" % (p, h, m[0][2]))
    rows.append("| %s | %s | %s |" % (h, m[0][1].replace(" ", ", "), s[5:] + ("" if m[0][2].lower() in s.lower() else " – " + m[0][2])))
json.dump({"findings": [], "fixed": fixed}, open(V + "/known_findings.json", "w"), indent=1)
D = V + "/DESIGN.md"
t = open(D).read()
B, E = "<!-- fixes -->\n", "<!-- /fixes -->"
tab = B + "| commit | property | what failed |\n|---|---|---|\n" + "\n".join(rows) + "\n" + E
if "@@FIXES@@" in t:
    t = t.replace("@@FIXES@@", tab)
else:
    i, j = t.index(B), t.index(E)
    t = t[:i] + tab + t[j + len(E):]
open(D, "w").write(t)
print(len(rows), "fixes")
