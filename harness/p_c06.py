"""C06: inline boxes."""
import math
from fractions import Fraction

from common import expect, near
from docs import AUTO, SIDES, Len, Spec, build, display, edges, lay, length, maybe, number
from grammar import sprinkle
import harvest
import ref

CASES = {"quick": 72000, "thorough": 400000}
RULE = ("Random block containers (at several depths and widths) holding inline boxes: non-replaced with "
        "intrinsic sizes, and replaced with every combination of intrinsic width/height/ratio and "
        "specified width/height. The monitor compares each inline box's size, margins and offset with "
        "an independent statement of S10.3.1/2 and S10.6.1/2. Distinct = distinct combination of what "
        "is specified, what is intrinsic, auto margins and which rule decided.")
ASSUMPTIONS = ["The intrinsic ratio is width/height, as documented; the opposite use for heights is the "
               "recorded finding F_RATIO."]


def gen_inline(rng):
    s = {}
    if maybe(rng, 0.6):
        s["display"] = "inline"
    edges(rng, s, p=rng.choice([0.1, 0.5, 0.9]), auto_h=0.3, auto_v=0.3, neg_h=0.1, neg_v=0.1)
    intr = {}
    if maybe(rng, 0.35):
        intr["width"], intr["height"] = number(rng), number(rng)
        if maybe(rng, 0.5):
            s["width"] = length(rng)  # has no effect on a non-replaced inline box
        if maybe(rng, 0.5):
            s["height"] = length(rng)
        return Spec(s, intr)
    intr["is_replaced"] = True
    if maybe(rng, 0.5):
        intr["width"] = number(rng)
    if maybe(rng, 0.5):
        intr["height"] = number(rng)
    if maybe(rng, 0.5):
        intr["ratio"] = rng.choice([0.5, 1, 2, 1.5, 0.75, 4, 0.3, 1.777, 10])
    if maybe(rng, 0.35):
        s["width"] = length(rng)
        if maybe(rng, 0.2):
            s["width"] = Len(0, "px")
    if maybe(rng, 0.35) and not ("width" not in s and "ratio" in intr):
        s["height"] = length(rng, pct=False)
    return Spec(s, intr)


def candidates(value):
    """A length, rounded to a whole pixel: both neighbours of an exact tie."""
    f = float(value)
    out = {round(f)}
    if abs(abs(f - math.trunc(f)) - 0.5) < 1e-9:
        out |= {math.floor(f), math.ceil(f)}
    return out


def expected(spec, d, base, m, b, p):
    """(rule, widths, height -> heights)"""
    intr = spec.intrinsic
    iw, ih, ratio = intr.get("width"), intr.get("height"), intr.get("ratio")
    if not intr.get("is_replaced"):
        return "intrinsic", {Fraction(iw)}, lambda w: ({Fraction(ih)}, None)
    auto_w, auto_h = spec.get("width", AUTO) == AUTO, spec.get("height", AUTO) == AUTO
    if not auto_w:
        rule, w = "specified", {spec.get("width").px(d, base)}
    elif iw is not None:
        rule, w = "iw", {Fraction(iw)}
    elif auto_h and ih is not None and ratio is not None:
        rule, w = "ih*ratio", candidates(Fraction(ih) * Fraction(ratio))
    elif auto_h and ratio is not None:
        rule, w = "fill", {base - sum((x["left"] + x["right"] for x in (m, b, p)), Fraction(0))}
    else:
        rule, w = "300", {300}

    def heights(width):
        if not auto_h:
            return {spec.get("height").px(d, 0)}, None
        if auto_w and ih is not None:
            return {Fraction(ih)}, None
        if ratio is not None:
            return {Fraction(width) / Fraction(ratio)}, {Fraction(width) * Fraction(ratio)}
        if ih is not None:
            return {Fraction(ih)}, None
        return {min(width // 2, 150)}, None

    return rule, w, heights


def case(ctx, rng, idx):
    d = display(rng)
    kids = [gen_inline(rng) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    box = Spec({"display": rng.choice(["block", "list-item"])}, children=kids)
    edges(rng, box.style, p=0.3)
    if maybe(rng, 0.6):
        box.style["width"] = length(rng)
    if maybe(rng, 0.4):
        box.style["height"] = length(rng, pct=False)
    root = box
    if maybe(rng, 0.5):
        root = Spec({"display": "block"}, children=[box])
        edges(rng, root.style, p=0.3)
        if maybe(rng, 0.3):
            root.children.append(Spec({"display": "block", "height": length(rng, pct=False)}))
    sprinkle(rng, root)
    index = {}
    node = build(root, index=index)
    lay(d, node, rng.choice(["html4", "html5"]))
    ctx.trace("display", d)
    ctx.trace(root.show())
    base = Fraction(index[box.id].layout.content_width)
    r = ref.Ref(d)
    seen = []
    for k in kids:
        m, b, p = r.edge_sizes(k, base)
        autos = [s for s in SIDES if m[s] == AUTO]
        for s in autos:
            m[s] = Fraction(0)
        rule, widths, heights = expected(k, d, base, m, b, p)
        got = index[k.id].layout
        label = f"inline #{k.id} {k.style} {k.intrinsic}"
        expect(any(near(got.content_width, w) for w in widths),
               f"{label}: is {got.content_width!r} wide, expected {sorted(map(float, widths))} ({rule})")
        hs, finding = heights(Fraction(got.content_width))
        if not any(near(got.content_height, h) for h in hs):
            expect(finding and any(near(got.content_height, h) for h in finding),
                   f"{label}: is {got.content_height!r} high, expected {sorted(map(float, hs))}")
            ctx.known_finding("F_RATIO")
        for s in SIDES:
            for name, want in ((f"margin_{s}", m[s]), (f"padding_{s}", p[s]),
                               (f"border_{s}_width", b[s])):
                v = getattr(got, name)
                expect(near(v, want), f"{label}: {name} is {v!r}, expected {float(want)!r}")
        want = m["top"] + b["top"] + p["top"]
        expect(near(got.content_top, want), f"{label}: content_top {got.content_top!r} != {float(want)!r}")
        if k.intrinsic.get("is_replaced"):
            want = m["left"] + b["left"] + p["left"]
            expect(near(got.content_left, want),
                   f"{label}: content_left {got.content_left!r} != {float(want)!r}")
        ctx.count("inline boxes checked")
        seen.append((rule, tuple(sorted(k.intrinsic)), "width" in k.style, "height" in k.style, len(autos)))
    ctx.sig(sorted(map(str, seen)))
