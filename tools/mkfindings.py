"""Write the list of repaired defects in known_findings.json from the commits of /repo."""
import json
import subprocess

FIXED = {
    "measure tesseroid dimensions along arcs": ("C06", "tesseroids wider than half a turn (their length was the great-circle distance between west and east) and tiny ones near the poles (arccos rounded to zero) were not discretized, or raised ZeroDivisionError"),
    "discard zero-volume tesseroids also": ("C07", "zero-volume tesseroids with a density function raised ZeroDivisionError instead of contributing nothing"),
    "check the size of every component": ("C08", "magnetic moments or magnetizations whose second or third component had another size were accepted and read out of bounds"),
    "longitudinal seam inside full-turn": ("C08", "points on the longitudinal seam inside a full-turn tesseroid were not rejected"),
    "broadcast the coordinates of the observation points in forward": ("C09", "coordinates of different but broadcastable shapes read out of bounds or gave the wrong shape"),
    "support descending coordinates in layers": ("C12", "layers with decreasing coordinates had negative spacing and inverted boundaries (also C10, C11)"),
    "avoid truncating the boundaries": ("C12", "integer surfaces or references truncated the decimals of the other one"),
    "ignore prisms with zero volume in the gravity": ("C10", "cells of zero thickness on the observation point gave NaN in layers of prisms"),
    "allow layers of tesseroids that span": ("C11", "global layers of tesseroids were rejected by rounding errors of their longitudinal span"),
    "demagnetization of ellipsoids with anisotropic": ("C14", "the magnetization of anisotropic ellipsoids multiplied susceptibility and demagnetization tensors in the wrong order"),
    "elliptic integrals of almost spherical": ("C13", "almost spherical prolate ellipsoids lost all digits or gave NaN"),
    "leave the pad_kwargs": ("C17", "pad_kwargs given by the user were emptied by the first call"),
    "pad grids with less than four": ("C17", "grids with fewer than four rows or columns failed with default padding"),
    "keep the order of grids with decreasing": ("C17", "grids with decreasing coordinates were returned misplaced (also C16)"),
    "field direction as default magnetization": ("C18", "the default magnetization direction of reduction_to_pole was not the direction of the main field"),
    "integer thicknesses in isostatic": ("C22", "layers with integer thicknesses raised a casting error"),
    "integer components in magnetic_vec": ("C20", "integer components overflowed"),
    "units of the columns read from ICGEM": ("C23", "usecols assigned units of other columns"),
    "invalid sign flags": ("C24", "invalid sign flags raised an unrelated error instead of a clear one"),
    "single point given by arrays": ("C25", "arrays with a single point failed"),
    "heights given by an array": ("C25", "heights given by an array failed in grids"),
    "dates with a time zone": ("C26", "dates with a time zone failed"),
    "Legendre functions of maximum degree 0": ("C27", "maximum degree 0 wrote out of the bounds of the array"),
    "arrays of structural indices": ("C29", "structural indices given by an array failed"),
    "broadcast coordinates when predicting": ("C30", "predict with broadcastable coordinates read out of bounds (also C31)"),
    "integer longitudes": ("C31", "predictions on integer longitudes were truncated to integers"),
    "memory estimation of EquivalentSourcesSph": ("C33", "the estimate for EquivalentSourcesSph used the element size of the coordinates instead of that of the Jacobian"),
    "estimate memory of equivalent sources without": ("C33", "estimating memory changed the sources of a fitted estimator and ignored custom points"),
    "default window size": ("C32", "default windows larger than elongated regions raised an error"),
    "dimensions of layers regardless": ("C10", "transposed layers or variables gave wrong gravity, bodies and meshes (also C11, C12)"),
    "tesseroids in double precision": ("C09", "single precision results of tesseroids used boundaries rounded to half a meter; dtype given by name failed"),
    "windows of EquivalentSourcesGB that leave": ("C32", "some data and sources fell in no window"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for line in reversed(log.splitlines()):
    commit, title = line.split(" ", 1)
    if not title.startswith("fix:"):
        continue
    key = [k for k in FIXED if k in title]
    assert len(key) == 1, (title, key)
    pid, what = FIXED[key[0]]
    fixed.append(f"fixed: property={pid} {commit} {what}")
path = "/verif/known_findings.json"
data = json.load(open(path))
data["fixed"] = fixed
json.dump(data, open(path, "w"), indent=2)
open(path, "a").write("\n")
print(len(fixed))
