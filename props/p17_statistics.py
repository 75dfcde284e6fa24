"""P17: statistics files: complete rows load exactly, torn files are not misread."""

import math

from sim import oracle as O
from sim.core import drop, rng_for
from sim.runner import Prop

WORDS = ["Step", "Time", "a", "Redshift", "Mass", "SFR of active particles", "Total energy", "Kinetic energy of gas", "Entropy", "Number of BHs", "Z", "Momentum in x"]
UNITS = [("dimensionless", None), ("1.0", "Msun"), ("9.778131e+02", "Myr"), ("1.988410e+43", "g"), ("3.08567758e+24", "cm"), ("2.5", ""), ("1.02269032e-09", "Msun / yr"), ("1.0", "km**2 / s**2")]
FORMATS = ["d", "d", "e", "e", "e", "g", "f"]


def value(rng, fmt):
    if fmt == "d":
        return str(rng.choice([0, 1, -1, rng.randrange(10 ** 6), -rng.randrange(10 ** 9), 2 ** 62]))
    r = rng.random()
    if r < 0.04:
        return rng.choice(["nan", "-nan", "inf", "-inf"])
    x = rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1) * 10 ** rng.randint(-30, 30), rng.uniform(0, 100)])
    return {"e": "%e", "g": "%g", "f": "%.4f"}[fmt] % x


def make(p):
    """(header text, rows as lists of tokens, row lines) of one file."""
    rng = rng_for("stats", p["seed"])
    cols = []
    names = rng.sample(WORDS, min(p["cols"], len(WORDS)))
    for i, nm in enumerate(names):
        cols.append((nm, rng.choice(UNITS), rng.choice(FORMATS)))
    head = ["# Statistics file", "#######"] if p["preamble"] else []
    snake = []
    for i, (nm, (uv, un), _) in enumerate(cols):
        head.append(f"# ({i}) {' ' * rng.choice([1, 2])}{nm}" + (rng.choice([".", ". More text."]) if rng.random() < 0.5 else ""))
        if uv == "dimensionless":
            if rng.random() < 0.6:
                head.append("#     Unit = dimensionless")
        else:
            head.append(f"#     Unit = {uv} {un}".rstrip() if un == "" else f"#     Unit = {uv} {un}")
        if p["preamble"] and rng.random() < 0.3:
            head.append("#     Some remark about it")
        snake.append(nm if rng.random() < 0.5 else f"c{i}")
    if p["preamble"]:
        head.append("#")
    snake = [s.replace(" ", "_" if rng.random() < 0.5 else " ") for s in snake]
    head.append("#  " + "   ".join(snake))
    rows = [[value(rng, f) for _, _, f in cols] for _ in range(p["rows"])]
    sep = p["sep"]
    lines = [p["lead"] + sep.join(r) + p["trail"] + "\n" for r in rows]
    attrs = [s.replace(".", "").replace(" ", "_").lower() for s in snake]
    return cols, attrs, "\n".join(head) + "\n", rows, lines


class P17(Prop):
    id = "P17"
    quick_runs, quick_wall = 6000, 25
    rule = ("One run = one generated statistics file (columns, units, value formats), cut at a byte by a crash during an append, left with a lost last block, or continued after such a crash, then read "
            "with I/O faults at any call; distinct = (tear kind, position class, outcome, fault) tuples.")
    real = ["swiftsimio.statistics, accelerated.list_of_strings_to_arrays", "Python file I/O"]
    stubs = ["libc file calls below the mount point", "the simulation code that appends"]
    assumptions = ["a complete row ends with a newline"]

    def gen(self, rng, tier):
        p = {"seed": rng.randrange(1 << 30), "cols": rng.choice([1, 2, 3, 5, 9]), "rows": rng.choice([1, 1, 2, 3, 10, 60, 500]), "preamble": rng.random() < 0.8,
             "sep": rng.choice([" ", "   ", "\t"]), "lead": rng.choice(["", " ", "   "]), "trail": rng.choice(["", " "])}
        tear = rng.choice(["none", "none", "cut", "cut", "cut_last", "cut_last", "cut_last", "zeros", "resumed", "blank"])
        c = {"p": p, "tear": tear, "x": round(rng.random(), 5), "more": rng.choice([1, 2, 5]), "again": rng.random() < 0.3}
        if rng.random() < 0.4:
            c["faults"] = [O.rand_read_fault(rng, 4) for _ in range(rng.choice([1, 1, 2]))]
        return c

    def shrink(self, case):
        if case.get("faults"):
            yield {k: v for k, v in case.items() if k != "faults"}
        for k, vs in (("cols", (1, 2, 3)), ("rows", (1, 2, 3, 60))):
            for v in vs:
                if v < case["p"][k]:
                    yield dict(case, p=dict(case["p"], **{k: v}))
        for k, v in (("preamble", False), ("sep", " "), ("lead", " "), ("trail", "")):
            if case["p"][k] != v:
                yield dict(case, p=dict(case["p"], **{k: v}))
        if case["more"] > 1:
            yield dict(case, more=1)

    def run(self, case, ctx):
        import swiftsimio as sw
        cols, attrs, head, rows, lines = make(case["p"])
        tear, x = case["tear"], case["x"]
        body = "".join(lines)
        complete, torn, must = rows, False, True
        if tear == "cut":               # crash during the very first run: any byte, the header included
            text = head + body
            at = int(x * (len(text) + 1))
            text = text[:at]
            n = text[len(head):].count("\n") if at > len(head) else 0
            complete = rows[:n]
            torn = not (at >= len(head) and (at == len(head) or text.endswith("\n")))
            must = n > 0 and not torn
        elif tear == "cut_last":
            at = int(x * len(lines[-1]))
            text = head + "".join(lines[:-1]) + lines[-1][:at]
            complete, torn = rows[:-1], at > 0
            must = not torn and len(complete) > 0
        elif tear == "zeros":           # the length reached the disk, the last bytes did not
            k = max(1, int(x * len(lines[-1])))
            text = head + body[:-k] + "\0" * k
            complete, torn, must = rows[:-1], True, False
        elif tear == "resumed":         # a torn row, and the run restarted from it
            import random
            at = int(x * len(lines[-1]))
            extra = make(dict(case["p"], rows=len(rows) + case["more"]))
            text = head + "".join(lines[:-1]) + lines[-1][:at] + "".join(extra[4][-case["more"]:])
            joint = lines[-1][:at] + extra[4][-case["more"]]
            broken = at > 0 and joint.split() != extra[3][-case["more"]]
            if broken and len(joint.split()) == len(cols):
                ctx.ev("ambiguous")     # reads like a complete row: nobody can tell
                return
            complete = rows[:-1] + (extra[3][-case["more"] + 1:] if case["more"] > 1 else []) if broken else rows[:-1] + extra[3][-case["more"]:]
            torn, must = broken, not broken
        elif tear == "blank":
            text = head + body + "\n"
            must = False
        else:
            text = head + body
        path = ctx.path("stats.txt")
        with open(path, "w", newline="\n") as f:
            f.write(text)
        out = self.load(ctx, sw, path, case.get("faults", []), must)
        if case["again"] or out is None:      # later, without faults
            out2 = self.load(ctx, sw, path, [], must)
            if out is None:
                out = out2
        ctx.state(tear, torn, must, None if out is None else "ok", len(case.get("faults", [])), case["p"]["cols"], min(3, len(complete)))
        if out is None:
            ctx.probe("refused_torn_file")
            return
        ctx.probe("loaded_torn_file" if torn else "loaded")
        for i, ((nm, (uv, un), fmt), attr) in enumerate(zip(cols, attrs)):
            self.column(ctx, out, nm, attr, uv, un, [r[i] for r in complete], torn)

    def load(self, ctx, sw, path, faults, must):
        ctx.arm(faults)
        err = out = None
        try:
            out = sw.load_statistics(path)
        except Exception as e:
            err = e
        fired = ctx.disarm()
        ctx.ev("load", type(err).__name__ if err else "ok", bool(fired))
        if err is not None:
            bad = fired and not O.benign(fired)
            ctx.check(bad or not must, "complete-file-refused", lambda: f"a file with complete rows only is refused: {type(err).__name__}: {err}")
            drop(err)
            if bad:
                ctx.probe("raised_on_fault")
        return out

    def column(self, ctx, out, nm, attr, uv, un, tokens, torn):
        import unyt
        arr = getattr(out, attr, None)
        ctx.check(arr is not None, "column-missing", f"no attribute {attr}")
        ctx.check(arr.shape == (len(tokens),), "row-count", lambda: f"column {attr!r} has {arr.shape} values, the file has {len(tokens)} complete rows{' (torn file)' if torn else ''}")
        got = arr.view(type(arr)).v
        for j, t in enumerate(tokens):
            e = float(t) if not t.lstrip("+-").isdigit() else int(t)
            g = got[j].item()
            ctx.check(g == e or (isinstance(e, float) and math.isnan(e) and math.isnan(g)), "values", lambda: f"column {attr!r} row {j}: got {g!r}, file has {t!r}")
        exp = unyt.dimensionless if uv == "dimensionless" else unyt.Unit(unyt.unyt_quantity(float(uv), un))
        ctx.check(arr.units.dimensions == exp.dimensions and abs(float(arr.units.base_value) / float(exp.base_value) - 1) < 1e-9, "units",
                  lambda: f"column {attr!r}: units {arr.units}, header says {uv} {un}")
        ctx.check(str(getattr(arr, "name", "")) == nm, "name", lambda: f"column {attr!r}: name {getattr(arr, 'name', None)!r}, header says {nm!r}")
        ctx.check(nm in out.header_names and attr in out.header_snake_case_names, "header-names", lambda: f"{nm!r} / {attr!r} missing from the header lists")


PROP = P17()
