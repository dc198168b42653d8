"""Per-property settings of the checks: what each one assumes beyond the common list of check.py."""
PROPS = {f"C{i:02d}": {} for i in range(1, 24)}

WITH_FRAME = {"C13", "C16"}

_EOS = "the equation of state is used through its contract, proved on the real functions under C01/C02"
_CFT = "vc/libs.py: assumed contracts of cftime (calendar lengths, range construction, arithmetic of dates) and of xarray's group-by over a calendar axis"


def _a(ids, trusted=(), assumptions=()):
    for i in ids:
        p = PROPS[i]
        p["trusted"] = p.get("trusted", []) + list(trusted)
        p["assumptions"] = p.get("assumptions", []) + list(assumptions)


_a(["C03", "C04", "C06", "C07", "C08", "C10", "C18"], assumptions=[_EOS])
_a(["C07", "C10"], assumptions=["global sea level: reference mean density, reference volume and the masses are positive (precondition); log(ab) = log a + log b and log(a/b) = log a - log b for those positive arguments"])
_a(["C08"], assumptions=["every spatial dimension has at least two points (the code squeezes extents of one)"])
_a(["C11", "C12"], trusted=[_CFT])
_a(["C13", "C14"], trusted=["vc/libs.py: assumed contract of xarray's polyfit (least-squares slope and intercept of the non-missing samples of each series) and of get_clean_interp_index (ns since 1970 for calendar axes)"],
   assumptions=["axes along which a trend is taken increase strictly"])
_a(["C15"], trusted=["assumed contract of numpy.linalg.pinv (an uninterpreted function of the whole model matrix: only its equality for equal matrices is used) and of dask's block map for arrays with one block along time"])
_a(["C16", "C17"], trusted=["vc/spd.py: assumed contracts of the pandas operations and of sklearn's haversine BallTree (for each query row the position of a model row with the smallest great-circle distance, and that distance in radians)"])
_a(["C17"], assumptions=["coordinate arrays and mask carry the array's dimension labels, coordinates are named and not missing, one-dimensional coordinates are dimension coordinates, gauge names are distinct, at least one point is wet"])
_a(["C18"], assumptions=["adjust_negative_n2 is used by its callers through its contract; for a leading dimension other than the vertical one see known_findings.txt", "calc_n2 with interfaces needs numba (xgcm.transform), which this installation does not have: not covered"])
_a(["C18", "C19", "C21"], assumptions=["sin, cos, arctan and sqrt are uninterpreted functions with the axioms of vc/prover.py (ranges, signs, sqrt squared, addition theorems)"])
_a(["C21"], assumptions=["global sum: sine is monotone on [-pi/2, pi/2] and takes -1 and 1 at its ends; the telescoping of the row sums is proved by induction over the rows (two lemma obligations)"])
_a(["C19"], trusted=["vc/libs.py: assumed contract of xgcm Grid.diff and Grid.interp on center/right and center/outer axes with zero fill"])
