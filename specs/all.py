from . import eos, xeos, sealevel, strat, grids, times, trends, gauges, whole, words, helpers, alias  # noqa: F401
