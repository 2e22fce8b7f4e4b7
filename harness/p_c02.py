"""C02: vertical stacking and margin collapsing."""
from common import expect, near
from docs import build, display, lay, walk
from grammar import sprinkle
from flow import gen_flow, situation
import ref

CASES = {"quick": 60000, "thorough": 400000}
RULE = ("Random documents of nested block-level boxes with non-negative vertical margins, with and "
        "without borders/padding, hidden siblings, empty boxes, many siblings and deep chains. After "
        "layout the monitor walks every pair of consecutive displayed siblings and every "
        "parent/first/last child pair, and compares every vertical position and collapsed margin "
        "with an exact oracle. Distinct = distinct set of stacking situations met.")


def first_last_chain(b, kids):
    return [k for k in kids if k.layout is not None]


def case(ctx, rng, idx):
    d = display(rng)
    spec = sprinkle(rng, gen_flow(rng))
    standard = rng.choice(["html4", "html5"])
    boxes = ref.solve(d, spec, standard)
    root = build(spec)
    lay(d, root, standard)
    ctx.trace("display", d, "standard", standard)
    ctx.trace(spec.show())
    for n in walk(root):
        if n.layout is None:
            continue
        kids = [k for k in n.children if k.layout is not None]
        for a, b in zip(kids, kids[1:]):
            ctx.count("sibling pairs checked")
            gap = b.layout.border_box_top - a.layout.border_box_bottom
            want = max(a.layout.collapse_bottom, b.layout.collapse_top)
            expect(near(gap, want), f"#{b.spec.id} is {gap!r} below #{a.spec.id};"
                   f" their margins collapse to {want!r}")
            expect(gap > -1e-6, f"#{b.spec.id} overlaps #{a.spec.id}")
        if kids and kids[0].spec.display in ref.BLOCKS:
            ctx.count("first children checked")
            first, box = kids[0].layout, n.layout
            sep = box.border_top_width or box.padding_top
            want = first.collapse_top if sep else 0
            expect(near(first.border_box_top, want),
                   f"first child #{kids[0].spec.id} starts at {first.border_box_top!r}, not {want!r}")
    bad = ref.compare(d, spec, root, boxes, "yc")
    expect(bad is None, bad)
    ctx.count("boxes compared with the oracle", len(boxes))
    ctx.sig(situation(spec, boxes))
