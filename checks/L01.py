"""L01: the msat command shows, crops and converts what it is asked, of the files it is given."""
from msats import *


def run(c):
    c.build("d_gdal", "t_msat")
    env = {"T_msat": c.drivers["t_msat"]}
    c.model("MsatMC", "MsatMC.cfg", "every short command of a few parts over every list of at most two of the files", workers=8)
    cases = [neat_case(c.rng) for _ in range(c.pick(100, 1500))]
    cases += [tif_case(c.rng) for _ in range(c.pick(80, 1500))]
    cases += [stats_case(c.rng) for _ in range(c.pick(50, 800))]
    cases += [usage_case(c.rng) for _ in range(c.pick(20, 200))]
    cases += [xrit_case(c.rng) for _ in range(c.pick(40, 800))]
    cases += [grib_case(c.rng) for _ in range(c.pick(40, 800))]
    c.conform("d_gdal", "RasterTrace", cases, name="msat", shards=8, env=env, per_case=120)
