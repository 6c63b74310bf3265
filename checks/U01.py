"""U01: the helpers on texts."""
from vp import codes


def run(c):
    c.build("d_utils")
    a = c.model("TextsMC", c.pick("TextsMC.cfg", "TextsMC7.cfg"), "laws of splitting, joining and paths over all short texts and separators", workers=8)
    b = c.model("TextsMC", c.pick("TextsCodesMC.cfg", "TextsCodesMC5.cfg"), "encodings can be undone, over all short texts of the bytes that matter", workers=8)
    ops = [{"op": "text", "s": x["s"], "p": x["p"]} for x in a.emitted + b.emitted]
    rng = c.rng
    def word(n, alpha):
        return [rng.choice(alpha) for _ in range(rng.randint(0, n))]
    alphas = [codes("/.a"), codes("ab"), codes(" \t\n\v\f\rab\x00"), list(range(256)), codes("\\x\"0aAfFg1nt"), codes("%2fF0g+-a"),
              codes("ABCabz019+/="), codes("{|}~*,-.:@[`^_") + [127, 128, 255], codes("../x")]
    for _ in range(c.pick(4000, 60000)):
        al = rng.choice(alphas)
        k = rng.choice([3, 6, 12, 24, 40])
        s = word(k, al)
        p = rng.choice([word(2, al), word(1, al), s[:rng.randint(0, 3)], s[len(s) - rng.randint(0, min(3, len(s))):], word(4, al)])
        ops.append({"op": "text", "s": s, "p": p})
        if rng.random() < .3:
            # well formed encodings of any case
            t = []
            for _ in range(rng.randint(0, 9)):
                t += codes(rng.choice(["%%%02x", "%%%02X", "\\x%02x", "\\x%02X", "\\x%x"]) % rng.randint(0, 255)) if rng.random() < .6 else codes(rng.choice(["\\n", "\\t", "\\\\", "\\\"", "\\a", "\"", "g", " "]))
            ops.append({"op": "text", "s": t, "p": []})
        if rng.random() < .3:
            import base64
            t = list(base64.b64encode(bytes(rng.randrange(256) for _ in range(rng.randint(0, 12)))))
            ops.append({"op": "text", "s": t, "p": []})
    cases = [{"ops": ops[k:k + 50]} for k in range(0, len(ops), 50)]
    c.conform("d_utils", "TextsTrace", cases, name="texts", shards=8, per_case=10)
