"""C08: the root box and the display."""
from common import expect, near
from docs import build, diff_snapshots, display, lay, maybe, snapshot, walk
from grammar import sprinkle
from flow import gen_flow
import ref

CASES = {"quick": 32000, "thorough": 250000}
RULE = ("Random documents laid out under both standards on random displays (including empty and very "
        "small ones). The monitor checks the root's position and fitted height against the display "
        "and the oracle, and that the standard changes nothing but the root's content height. "
        "Distinct = distinct (root style kinds, display class, collapse situation).")


def case(ctx, rng, idx):
    d = display(rng)
    spec = sprinkle(rng, gen_flow(rng, max_nodes=rng.choice([3, 10, 30])))
    html5 = "".join(["html", "5"])
    r5, r4 = build(spec), build(spec)
    if maybe(rng, 0.3):
        from colosseum.engine import layout

        layout(d, r5)  # HTML5 is the default
    else:
        lay(d, r5, html5)
    lay(d, r4, "html4")
    ctx.trace("display", d)
    ctx.trace(spec.show())
    want5, want4 = ref.solve(d, spec, "html5"), ref.solve(d, spec, "html4")
    for standard, root, boxes in (("html5", r5, want5), ("html4", r4, want4)):
        b, w = root.layout, boxes[spec.id]
        total = (b.margin_left + b.border_left_width + b.padding_left + b.content_width
                 + b.padding_right + b.border_right_width + b.margin_right)
        expect(near(total, d.content_width), f"{standard}: the root spans {total!r} of {d}")
        expect(near(b.border_box_top, w.ct), f"{standard}: the root's border starts at"
               f" {b.border_box_top!r}, its collapsed margin is {float(w.ct)!r}")
        expect(near(b.absolute_content_top, w.top) and near(b.absolute_content_left, w.left),
               f"{standard}: the root is at {b.absolute_content_left!r},{b.absolute_content_top!r}")
        expect(near(b.content_height, w.height), f"{standard}: the root is {b.content_height!r} high,"
               f" expected {float(w.height)!r}")
        ctx.count("roots checked")
    b = r5.layout
    expect(near(b.content_height, d.content_height - b.collapse_top - b.collapse_bottom),
           f"html5: the root is {b.content_height!r} high on {d}")
    for n5, n4 in zip(walk(r5), walk(r4)):
        if n5 is r5:
            continue
        bad = diff_snapshots(snapshot(n5), snapshot(n4))
        expect(bad is None, f"#{n5.spec.id} differs between the standards: {bad}")
        ctx.count("boxes compared between standards")
    w = want5[spec.id]
    ctx.sig(sorted((k, str(type(v))) for k, v in spec.style.items()), d.content_width > 100,
            d.content_height > 100, w.ct > w.m["top"], w.cb > w.m["bottom"], w.height < 0)
