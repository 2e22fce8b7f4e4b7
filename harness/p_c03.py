"""C03: heights of block boxes."""
from common import expect, near
from docs import AUTO, Len, build, display, lay, walk
from grammar import sprinkle
from flow import gen_flow, situation
import ref

CASES = {"quick": 60000, "thorough": 400000}
RULE = ("Random documents of nested block-level boxes with auto, length and percentage heights and "
        "minimum/maximum heights. After layout the monitor checks that each auto-height container "
        "ends exactly at its last displayed child and compares every height with an exact oracle. "
        "Distinct = distinct set of height situations met.")


def case(ctx, rng, idx):
    d = display(rng)
    spec = sprinkle(rng, gen_flow(rng))
    standard = rng.choice(["html4", "html4", "html5"])
    boxes = ref.solve(d, spec, standard)
    root = build(spec)
    lay(d, root, standard)
    ctx.trace("display", d, "standard", standard)
    ctx.trace(spec.show())
    for n in walk(root):
        if n.layout is None or (n is root and standard == "html5"):
            continue
        kids = [k for k in n.children if k.layout is not None]
        if n.spec.get("height", AUTO) == AUTO and kids:
            ctx.count("auto heights checked")
            b, last = n.layout, kids[-1].layout
            want = last.border_box_bottom
            if b.border_bottom_width or b.padding_bottom:
                want += last.collapse_bottom
            expect(near(b.content_height, want), f"#{n.spec.id} is {b.content_height!r} high,"
                   f" its content ends at {want!r}")
    bad = ref.compare(d, spec, root, boxes, "h")
    expect(bad is None, bad)
    ctx.count("heights compared with the oracle", len(boxes))
    kinds = sorted({(type(s.get("height")).__name__, getattr(s.get("height"), "unit", None),
                     "min_height" in s.style, "max_height" in s.style, bool(s.children))
                    for s in spec.walk()}, key=str)
    ctx.sig(situation(spec, boxes), kinds)
