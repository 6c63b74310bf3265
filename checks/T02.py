"""T02: DB1 directories: each channel with its own counts, headers and calibration."""
import inis


def run(c):
    c.build("d_ini")
    r = c.model("Db1MC", c.pick("Db1MC.cfg", "Db1MC4.cfg"), "two directories with two channels each, some of them broken, opened and set in all ways", workers=8)
    rng = c.rng
    cases = []
    for h in r.emitted:
        ops, cur = inis.model_dirs(), ""
        for o in h:
            cur = o["ch"] or cur
            ops += [dict({k: v for k, v in o.items() if v}, **({"keys": inis.keyed(rng, cur)} if o["op"] == "setch" else {})), {"op": "ask", "keys": inis.keyed(rng, cur)}]
            if o["op"] == "setch":
                ops += [{"op": "has", "ch": x} for x in ("VIS006", "IR_039")] + [{"op": "ask", "keys": inis.keyed(rng, cur)}, {"op": "value", "count": 1, "keys": inis.keyed(rng, cur)}]
        cases.append(ops)
    c.conform("d_ini", "IniTrace", [{"ops": x} for x in cases], name="model", shards=8, per_case=20)
    c.conform("d_ini", "IniTrace", [{"ops": inis.db_case(rng)} for _ in range(c.pick(2000, 15000))], name="db1", shards=8, per_case=20)
