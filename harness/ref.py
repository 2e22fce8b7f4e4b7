"""The layout oracle: CSS 2.1 normal flow as the properties state it, in exact arithmetic.

Works on Specs only.  relative positioning is parametrised by the known findings
(F_REL_DOUBLE, F_REL_HEIGHT in known_findings.json) so that a document can be compared
with the behaviour the property demands and with the recorded deviation.
"""
from dataclasses import dataclass
from fractions import Fraction

from docs import AUTO, SIDES, Len

BLOCKS = ("block", "list-item", "table")
ZERO = Fraction(0)


@dataclass
class RBox:
    left: Fraction = ZERO
    top: Fraction = ZERO
    width: Fraction = ZERO
    height: Fraction = ZERO
    m: dict = None
    b: dict = None
    p: dict = None
    ct: Fraction = ZERO  # collapsed top margin
    cb: Fraction = ZERO  # collapsed bottom margin
    abs_left: Fraction = ZERO
    abs_top: Fraction = ZERO
    fit: bool = False

    @property
    def bbox_bottom(self):
        return self.top + self.height + self.p["bottom"] + self.b["bottom"]

    @property
    def bbox_height(self):
        return self.b["top"] + self.p["top"] + self.height + self.p["bottom"] + self.b["bottom"]


class Ref:
    def __init__(self, display, rel_double=False, rel_height=False):
        self.d = display
        self.boxes = {}
        self.rel_double, self.rel_height = rel_double, rel_height

    # -- values ---------------------------------------------------------------
    def size(self, v, base):
        if v is None:
            return ZERO
        if isinstance(v, Len):
            return v.px(self.d, base)
        if v in ("thin", "medium", "thick"):
            return Fraction(self.d.sizes[v])
        return Fraction(v)

    def edge_sizes(self, spec, base):
        m = {}
        for s in SIDES:
            v = spec.get(f"margin_{s}")
            m[s] = AUTO if v == AUTO and isinstance(v, str) else self.size(v, base)
        b = {s: self.size(spec.get(f"border_{s}_width"), base) for s in SIDES}
        p = {s: self.size(spec.get(f"padding_{s}"), base) for s in SIDES}
        return m, b, p

    # -- 10.3.3 ---------------------------------------------------------------
    def block_width(self, spec, m, b, p, base):
        extra = b["left"] + p["left"] + p["right"] + b["right"]
        w = spec.get("width", AUTO)
        if w == AUTO:
            for s in ("left", "right"):
                if m[s] == AUTO:
                    m[s] = ZERO
            return base - extra - m["left"] - m["right"]
        w = self.size(w, base)
        hi, lo = spec.get("max_width"), spec.get("min_width", AUTO)
        if hi is not None:
            w = min(w, self.size(hi, base))
        if lo != AUTO:
            w = max(w, self.size(lo, base))
        free = base - extra - w
        autos = [s for s in ("left", "right") if m[s] == AUTO]
        taken = sum((m[s] for s in ("left", "right") if m[s] != AUTO), ZERO)
        if autos and free >= taken:
            for s in autos:
                m[s] = (free - taken) / len(autos)
        else:
            for s in autos:
                m[s] = ZERO
            if spec.get("direction", "ltr") == "ltr":
                m["right"] = free - m["left"]
            else:
                m["left"] = free - m["right"]
        return w

    # -- the tree -------------------------------------------------------------
    def document(self, root, standard):
        if root.display == "none":
            return self.boxes
        base = Fraction(self.d.content_width)
        box = self.block(root, base, Fraction(self.d.content_height), None)
        box.top += box.ct
        if standard == "html5":
            box.height = Fraction(self.d.content_height) - box.ct - box.cb
        self.place(root, ZERO, ZERO)
        return self.boxes

    def place(self, spec, x, y):
        box = self.boxes.get(spec.id)
        if box is None:
            return
        box.abs_left, box.abs_top = x + box.left, y + box.top
        for c in spec.children:
            self.place(c, box.abs_left, box.abs_top)

    def shift(self, spec, base):
        """9.4.3: (dx, dy) of a relatively positioned box."""
        if spec.get("position") != "relative":
            return ZERO, ZERO
        out = []
        for near_, far in (("left", "right"), ("top", "bottom")):
            a, z = spec.get(near_, AUTO), spec.get(far, AUTO)
            if a != AUTO:
                out.append(self.size(a, base))
            elif z != AUTO:
                out.append(-self.size(z, base))
            else:
                out.append(ZERO)
        return tuple(out)

    def block(self, spec, base, vbase, parent):
        m, b, p = self.edge_sizes(spec, base)
        box = RBox(m=m, b=b, p=p)
        self.boxes[spec.id] = box
        box.width = self.block_width(spec, m, b, p, base)
        for s in ("top", "bottom"):
            if m[s] == AUTO:
                m[s] = ZERO
        box.left = m["left"] + b["left"] + p["left"]
        box.ct, box.cb = max(ZERO, m["top"]), max(ZERO, m["bottom"])

        shown = [c for c in spec.children if c.display != "none"]
        auto = spec.get("height", AUTO) == AUTO
        if shown and shown[0].display in BLOCKS:
            offset = ZERO
            prev = None
            for c in shown:
                k = self.block(c, box.width, ZERO, spec)
                if prev is not None:
                    offset += max(prev.cb, k.ct)
                elif b["top"] or p["top"]:
                    offset += k.ct
                else:
                    box.ct = max(box.ct, k.ct)
                k.top += offset
                offset += k.bbox_height
                prev = k
            flow_bottom = offset
            if self.rel_height:
                flow_bottom = prev.bbox_bottom
            if auto:
                if b["bottom"] or p["bottom"]:
                    flow_bottom += prev.cb
                else:
                    box.cb = max(box.cb, prev.cb)
        elif shown:
            for c in shown:
                k = self.inline(c, box.width)
            flow_bottom = k.bbox_bottom
            if auto:
                box.cb = max(box.cb, k.cb)

        if auto:
            if shown:
                box.height = flow_bottom
            else:
                lo = spec.get("min_height", AUTO)
                box.height = ZERO if lo == AUTO else self.size(lo, vbase)
        else:
            h = spec.get("height")
            if h.unit == "%" and parent is not None:
                box.height = h.px(self.d, self.size(parent.get("height"), ZERO))
            else:
                box.height = self.size(h, vbase)
            hi, lo = spec.get("max_height"), spec.get("min_height", AUTO)
            if hi is not None:
                box.height = min(box.height, self.size(hi, vbase))
            if lo != AUTO:
                box.height = max(box.height, self.size(lo, vbase))
        box.top = b["top"] + p["top"]
        if spec.get("position") == "relative":
            dx, dy = self.shift(spec, base)
            box.left += dx
            box.top += dy
            if self.rel_double:
                box.top += b["top"] + p["top"]
        return box

    def inline(self, spec, base):
        m, b, p = self.edge_sizes(spec, base)
        for s in SIDES:
            if m[s] == AUTO:
                m[s] = ZERO
        box = RBox(m=m, b=b, p=p, ct=max(ZERO, m["top"]), cb=max(ZERO, m["bottom"]))
        self.boxes[spec.id] = box
        box.width = Fraction(spec.intrinsic["width"])
        box.height = Fraction(spec.intrinsic["height"])
        box.top = m["top"] + b["top"] + p["top"]
        return box


def solve(display, root, standard, **flags):
    r = Ref(display, **flags)
    return r.document(root, standard)


def compare(display, root_spec, root_node, boxes, facets):
    """Compare the real boxes with the oracle's; returns the first difference or None."""
    from common import near

    stack = [(root_spec, root_node)]
    while stack:
        spec, node = stack.pop()
        want, got = boxes.get(spec.id), node.layout
        if want is None:
            if got is not None:
                return f"#{spec.id}: is not displayed but has a box {got!r}"
            continue
        if got is None:
            return f"#{spec.id}: is displayed but has no box"
        pairs = []
        if "x" in facets:
            pairs += [("content_left", got.content_left, want.left),
                      ("content_width", got.content_width, want.width)]
            for s in ("left", "right"):
                pairs += [(f"margin_{s}", getattr(got, f"margin_{s}"), want.m[s]),
                          (f"border_{s}_width", getattr(got, f"border_{s}_width"), want.b[s]),
                          (f"padding_{s}", getattr(got, f"padding_{s}"), want.p[s])]
            pairs += [("absolute_content_left", got.absolute_content_left, want.abs_left)]
        if "y" in facets:
            pairs += [("content_top", got.content_top, want.top)]
            for s in ("top", "bottom"):
                pairs += [(f"margin_{s}", getattr(got, f"margin_{s}"), want.m[s]),
                          (f"border_{s}_width", getattr(got, f"border_{s}_width"), want.b[s]),
                          (f"padding_{s}", getattr(got, f"padding_{s}"), want.p[s])]
            pairs += [("absolute_content_top", got.absolute_content_top, want.abs_top)]
        if "h" in facets:
            pairs += [("content_height", got.content_height, want.height)]
        if "c" in facets:
            pairs += [("collapse_top", got.collapse_top, want.ct),
                      ("collapse_bottom", got.collapse_bottom, want.cb)]
        for name, g, w in pairs:
            try:
                ok = near(g, w)
            except TypeError:
                ok = False
            if not ok:
                return f"#{spec.id} {spec.style}: {name} is {g!r}, expected {float(w)!r}"
        stack.extend(zip(spec.children, node.children))
    return None
