"""Monitors that watch real boxes, nodes and displays."""
from common import Violation, expect, near
from docs import SIDES


def check_geometry(node, parent_abs, label):
    """Every identity between the documented attributes of one box. Returns its abs content pos."""
    b = node.layout
    l, t, w, h = b.content_left, b.content_top, b.content_width, b.content_height
    if w is None or h is None:
        raise Violation(f"{label}: no content size")
    ox, oy = parent_abs
    pt, pr, pb, pl = (getattr(b, f"padding_{s}") for s in SIDES)
    bt, br, bb, bl = (getattr(b, f"border_{s}_width") for s in SIDES)
    rects = {
        "content": (t, l + w, t + h, l),
        "padding": (t - pt, l + w + pr, t + h + pb, l - pl),
        "border": (t - pt - bt, l + w + pr + br, t + h + pb + bb, l - pl - bl),
    }
    n = 0
    for kind, (top, right, bottom, left) in rects.items():
        stem = "content" if kind == "content" else f"{kind}_box"
        pairs = [(f"{stem}_{s}", v) for s, v in zip(SIDES, (top, right, bottom, left))]
        pairs += [(f"absolute_{stem}_{s}", v + o) for s, v, o in zip(
            SIDES, (top, right, bottom, left), (oy, ox, oy, ox))]
        pairs += [(f"{stem}_width", right - left), (f"{stem}_height", bottom - top)]
        for name, want in pairs:
            got = getattr(b, name)
            n += 1
            expect(near(got, want), f"{label}: {name} is {got!r}, but the box's position, size,"
                   f" padding and border make it {want!r}")
    return (ox + l, oy + t), n


def check_tree_geometry(root, ctx):
    stack = [(root, (0, 0), "root")]
    while stack:
        node, origin, label = stack.pop()
        if node.layout is None:
            continue
        pos, n = check_geometry(node, origin, label)
        ctx.count("geometry identities checked", n)
        for i, c in enumerate(node.children):
            stack.append((c, pos, f"{label}/{i}"))
