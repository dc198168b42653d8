"""The functions under the names that users import: the package re-exports the steric,
inverse-barometer and tide-gauge functions, and util keeps the deprecated linear_detrend."""
from .base import SCN, register


def as_(prop, name, target, new):
    old = SCN[prop][name]["fn"]

    def scn(S):
        c = old(S)
        assert c.target == target, (name, c.target)
        c.target = new
        return c

    register(prop, f"{name} as {new.replace(':', '.')}", scn, trials=0.5)


as_("C04", "inverse_barometer[default]", "momlevel.dynamic:inverse_barometer", "momlevel:inverse_barometer")
as_("C04", "inverse_barometer[gravity]", "momlevel.dynamic:inverse_barometer", "momlevel:inverse_barometer")
for _v in ("steric", "thermosteric", "halosteric"):
    as_("C06", f"{_v}[local]", f"momlevel.steric:{_v}", f"momlevel:{_v}")
    as_("C07", f"{_v}[global]", f"momlevel.steric:{_v}", f"momlevel:{_v}")
as_("C06", "steric[local, reference]", "momlevel.steric:steric", "momlevel:steric")
as_("C17", "extract_tidegauge[threshold]", "momlevel.tidegauge:extract_tidegauge", "momlevel:extract_tidegauge")
for _n in ("remove", "None", "correct", "remove, dataset", "None, dataset, other dimension"):
    as_("C14", f"linear_detrend[{_n}]", "momlevel.trend:linear_detrend", "momlevel.util:linear_detrend")
