"""C01: block widths."""
from common import expect, near
from docs import (AUTO, Spec, build, display, edges, lay, length, maybe, shape, walk)
from grammar import sprinkle
import ref

CASES = {"quick": 48000, "thorough": 400000}
RULE = ("Random documents of block-level boxes (lengths in every unit, percentages, auto, min/max, "
        "negative and fractional values, both directions, several displays). The monitor checks the "
        "box equation on every box after layout and compares every horizontal quantity with an "
        "independent exact-arithmetic oracle. Distinct = distinct set of S10.3.3 situations met "
        "(which of width/margins are auto, min/max active, overflow, direction, depth).")
ASSUMPTIONS = ["Cases whose unit conversion falls on a rounding tie are skipped and counted."]


def gen_style(rng, top=False):
    s = {"display": rng.choice(["block", "block", "list-item"])}
    edges(rng, s, p=rng.choice([0.2, 0.5, 0.9]), neg_v=0.0, auto_h=rng.choice([0.1, 0.4, 0.7]))
    if maybe(rng, 0.6):
        s["width"] = length(rng)
    elif maybe(rng, 0.1):
        s["width"] = AUTO
    if maybe(rng, 0.25):
        s["max_width"] = length(rng)
    if maybe(rng, 0.25):
        s["min_width"] = length(rng)
    if maybe(rng, 0.4):
        s["direction"] = rng.choice(["rtl", "ltr", "rtl"])
    if maybe(rng, 0.2):
        s["height"] = length(rng, pct=False)
    return s


def situation(spec, box, base):
    w = spec.get("width", AUTO)
    extra = float(box.b["left"] + box.p["left"] + box.width + box.p["right"] + box.b["right"])
    return (w == AUTO, spec.get("margin_left") == AUTO, spec.get("margin_right") == AUTO,
            spec.get("direction"), "max_width" in spec.style, "min_width" in spec.style,
            extra > base, box.width < 0, w.unit if w != AUTO else None)


def case(ctx, rng, idx):
    d = display(rng)
    spec = shape(rng, lambda: Spec(gen_style(rng)), lambda: Spec(gen_style(rng)),
                 max_nodes=rng.choice([6, 20, 40]))
    sprinkle(rng, spec)
    standard = rng.choice(["html4", "html5"])
    boxes = ref.solve(d, spec, standard)
    root = build(spec)
    lay(d, root, standard)
    ctx.trace("display", d, "standard", standard)
    ctx.trace(spec.show())

    # Online monitor: the box equation, on every box, from the real boxes alone.
    for n in walk(root):
        base = d.content_width if n.parent is None else n.parent.layout.content_width
        b = n.layout
        total = (b.margin_left + b.border_left_width + b.padding_left + b.content_width
                 + b.padding_right + b.border_right_width + b.margin_right)
        ctx.count("box equations checked")
        expect(near(total, base), f"#{n.spec.id} {n.spec.style}: the parts add up to {total!r},"
               f" the containing block is {base!r} wide")
        expect(near(b.content_left, b.margin_left + b.border_left_width + b.padding_left),
               f"#{n.spec.id} {n.spec.style}: content starts at {b.content_left!r}")
    bad = ref.compare(d, spec, root, boxes, "x")
    expect(bad is None, bad)
    sits = set()
    parents = {c.id: s for s in spec.walk() for c in s.children}
    for s in spec.walk():
        base = d.content_width if s is spec else float(boxes[parents[s.id].id].width)
        sits.add(situation(s, boxes[s.id], base))
    ctx.count("boxes compared with the oracle", len(boxes))
    ctx.sig(sorted(map(str, sits)))
