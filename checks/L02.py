"""L02: the msat command draws each band in the gray levels of its own values, in images of bounded size."""
import msats


def run(c):
    c.build("d_gdal", "t_msat")
    env = {"T_msat": c.drivers["t_msat"]}
    msats.ACTIONS = ["png", "png", "png", "png", "png", "png", "jpg"]
    c.model("GrayMC", "GrayMC.cfg", "all images of three pixels over a few values and missing ones, with and without ends", workers=8)
    cases = [msats.gray_case(c.rng) for _ in range(c.pick(150, 2000))]
    cases += [msats.tif_case(c.rng) for _ in range(c.pick(70, 1500))]
    cases += [msats.cap_case(c.rng) for _ in range(c.pick(30, 300))]
    cases += [msats.stats_case(c.rng) for _ in range(c.pick(20, 400))]
    cases += [msats.xrit_case(c.rng) for _ in range(c.pick(40, 600))]
    c.conform("d_gdal", "RasterTrace", cases, name="msat", shards=8, env=env, per_case=120)
