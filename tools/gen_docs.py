"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/momlevel/"
TEST = "The tests compare a few fixed random fields with stored sums; "
P = []


def prop(id, title, statement, over, qtext, why, files, mech, level_note, level="proof", technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, level_note=level_note, level=level, technique=technique))


prop("C01", "Wright equation of state: density, derivatives, expansion coefficients",
     "For every temperature, salinity and pressure, the Wright equation of state returns the density of Wright (1997), its temperature and salinity derivatives are the exact partial derivatives of that density, and the thermal expansion and haline contraction coefficients are -1/rho times the former and 1/rho times the latter. "
     "This holds elementwise for scalars and arrays of any mutually broadcastable shapes, for integer as well as floating inputs, and a missing input gives a missing output at that element only.",
     ["inputs"], "all real T, S, p (missing values included), all array shapes and sizes",
     TEST + "they evaluate each function at a handful of points and never relate the derivatives to the density.",
     [SRC + "eos/wright.py"], [("density, drho_dtemp, drho_dsal, alpha, beta", SRC + "eos/wright.py")],
     "every obligation discharged for all real inputs and all sizes; real arithmetic for floats")
prop("C02", "Linear equation of state: density, derivatives, expansion coefficients",
     "For every temperature and salinity, the linear equation of state returns 1000 - 0.2 T + 0.8 S minus the optional reference density, constant derivatives -0.2 and 0.8, and expansion and contraction coefficients equal to 0.2/rho and 0.8/rho, independent of pressure. "
     "This holds elementwise for scalars and arrays of any mutually broadcastable shapes, for integer as well as floating inputs, and a missing input gives a missing output at that element only.",
     ["inputs"], "all real T, S, all array shapes and sizes, float and integer element types",
     TEST + "one point per function, always floating point.",
     [SRC + "eos/linear.py"], [("density, drho_dtemp, drho_dsal, alpha, beta", SRC + "eos/linear.py")],
     "every obligation discharged for all real inputs and all sizes")
prop("C03", "Labelled density, expansion and potential density fields",
     "In situ density, thermal expansion, haline contraction and potential density of labelled arrays equal the chosen equation of state applied pointwise by dimension name, for any dimension order, names, chunking and coordinates, keeping the coordinates and reporting the documented units; the equation of state is chosen case-insensitively and an unknown one raises ValueError. "
     "Potential density uses the pressure level x 10^4 Pa plus the surface pressure (101325 Pa by default) at every point, and a level outside 0-7500 m raises an assertion error.",
     ["inputs", "configurations"], "all field values, sizes, dimension orders and broadcast patterns; both equations of state; every level and surface pressure",
     TEST + "one 5x5 layout with the default equation of state and default level.",
     [SRC + "derived.py", SRC + "util.py"], [("calc_rho, calc_alpha, calc_beta, calc_pdens", SRC + "derived.py"), ("eos_func_from_str", SRC + "util.py")],
     "equation of state used through its contract (C01/C02); all obligations discharged")
prop("C04", "Inverse barometer height",
     "The inverse barometer height is -p / (rho g) at every point, where rho is the chosen equation of state evaluated at the surface temperature, salinity and that same pressure, with the given gravity (9.8 by default), missing exactly where an input is missing, in metres, named ibh, for any layout of the inputs.",
     ["inputs", "configurations"], "all field values, layouts, gravity values and both equations of state",
     TEST + "one field with default gravity.",
     [SRC + "dynamic.py"], [("inverse_barometer", SRC + "dynamic.py")],
     "all obligations discharged against the density contract")
prop("C05", "Partial-cell layer thickness",
     "For non-negative depths, each cell's thickness is the length of the part of the cell that lies between the upper bound and the smaller of the local sea-floor depth and the lower bound, and zero if there is none; a missing sea-floor depth counts as zero, and every cell at or above the sea floor and within the bounds is full. "
     "With the fraction option the result is that thickness divided by the cell's full thickness and missing where either is zero; negative depths, levels or interfaces raise an assertion error.",
     ["inputs", "configurations"], "all increasing interface sets, all bathymetries (missing included), all upper and lower bounds, all sizes and dimension names",
     TEST + "two fixed columns with hand-computed thicknesses.",
     [SRC + "derived.py"], [("calc_dz", SRC + "derived.py")],
     "all obligations discharged; recorded defect: both bounds inside one cell (known_findings.txt)")
prop("C06", "Local steric, thermosteric and halosteric sea level",
     "The local sea level change at each time and column is -1/rho0 times the depth integral, over the wet part of each cell, of density minus reference density, where the thermosteric variant holds salinity and the halosteric variant holds temperature at the reference state; cells missing in the reference volume contribute nothing and columns missing at the surface are missing. "
     "Density uses the pressure depth x 10^4 plus surface pressure and the chosen equation of state for both the state and a derived reference; the density change field is returned alongside; unknown variants raise ValueError.",
     ["inputs", "configurations"], "all fields, bathymetries, vertical grids and sizes; supplied or derived reference; both equations of state; every rho0 and surface pressure",
     TEST + "one small random dataset per variant, single-column bathymetry.",
     [SRC + "steric.py", SRC + "derived.py", SRC + "reference.py"], [("steric, thermosteric, halosteric", SRC + "steric.py"), ("calc_dz, calc_rho", SRC + "derived.py")],
     "all obligations discharged for every grid size")
prop("C07", "Global steric, thermosteric and halosteric sea level and ocean totals",
     "The global sea level change at each time is the reference height (reference volume over total reference area) times the logarithm of reference mean density over (current mass / reference volume), where current mass is the sum over all cells of density times reference volume, ignoring missing cells, and the thermosteric and halosteric variants hold salinity or temperature at the reference. "
     "Total volume is the sum of all cell volumes of a three-dimensional field, total mass the sum over all non-time dimensions of density times volume, and mean density their ratio.",
     ["inputs", "configurations"], "all fields and sizes; supplied or derived reference; both equations of state; every surface pressure",
     TEST + "one small random dataset per variant.",
     [SRC + "steric.py", SRC + "derived.py", SRC + "reference.py"], [("steric", SRC + "steric.py"), ("calc_masso, calc_volo, calc_rhoga", SRC + "derived.py")],
     "all obligations discharged for every grid size")
prop("C08", "Reference state",
     "The reference state taken from a dataset holds temperature, salinity and volume of exactly the requested time level (the first by default) without a time coordinate, the density of that state at pressure depth x 10^4 plus surface pressure with the chosen equation of state, the total volume, mass and mean density of that state, and the cell area unchanged.",
     ["inputs", "configurations"], "all datasets with at least two points per spatial dimension, every time index (negative included), both equations of state, every surface pressure, any coordinate names",
     TEST + "time level 0 of one random dataset.",
     [SRC + "reference.py"], [("setup_reference_state", SRC + "reference.py")],
     "all obligations discharged for every grid size and time index")
prop("C09", "Validation gate for datasets and ocean area",
     "A dataset is accepted exactly when it has every required variable (temperature, salinity, volume, area, any additional ones asked for, and for a reference also density, total volume, mass and mean density), each with the required number of dimensions, and, when strict, a total area within the tolerance (2 % of 3.6111092e14 m2 by default); a reference must carry no time coordinate in any capitalisation. "
     "Otherwise ValueError is raised, except that with strict off an area out of range only warns; the sea level routines refuse incomplete input or reference datasets, requiring bathymetry and interfaces only for local calculations.",
     ["inputs", "configurations"], "every missing variable, wrong rank and area total, for input and reference datasets, strict and not",
     TEST + "only a few of the missing-variable and wrong-rank cases, and never a reference with a time coordinate.",
     [SRC + "util.py", SRC + "steric.py"], [("validate_dataset, validate_areacello", SRC + "util.py")],
     "all obligations discharged; rank and presence cases enumerated")
prop("C10", "Results do not depend on coordinate and variable names",
     "Sea level calculations on a dataset whose time, depth, depth-interface and horizontal dimensions or whose variables have other names, described by the name mappings, give the same values as on the dataset with default names, with the results labelled by the caller's own dimension names; unmapped coordinates fall back to time, z_l and z_i.",
     ["configurations", "inputs"], "every renaming, for all three variants, local and global, with and without annual averaging",
     TEST + "only one renaming of two coordinates.",
     [SRC + "util.py", SRC + "steric.py", SRC + "reference.py"], [("default_coords", SRC + "util.py"), ("steric", SRC + "steric.py")],
     "all obligations discharged for a generic renaming")
json.dump  # keep


def load(path):
    exec(compile(open(path).read(), path, "exec"), globals())


extra = os.path.join(HERE, "tools", "props2.py")
if os.path.exists(extra):
    load(extra)

TECH = ("contract-based deductive verification: symbolic execution of the functions loaded from /repo's current source against pre/postconditions, "
        "obligations discharged by z3 and a rational-function normal form for all inputs and sizes; counter-models replayed on the real code")


def main():
    claimed = set(json.load(open(os.path.join(HERE, "tools", "claimed.json"))))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                                    why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    m = dict(version=1, setup_cmd="true", hooks=dict(guard="none", enable="no hooks: the checks read /repo's source as it is", source_commits=[]),
             checks=[dict(property=p["id"], quick_cmd=f"python3-vt check.py {p['id']} --tier quick", thorough_cmd=f"python3-vt check.py {p['id']} --tier thorough",
                          technique=p["technique"] or TECH, level=p["level"], level_note=p["level_note"]) for p in P if p["id"] in claimed],
             not_applicable=[dict(property=p["id"], reason="check under construction") for p in P if p["id"] not in claimed])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
