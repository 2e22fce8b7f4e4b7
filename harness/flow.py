"""Documents of stacked block boxes, for the vertical properties."""
from docs import AUTO, Len, Spec, edges, length, maybe, shape


def gen_flow(rng, hidden=0.08, max_nodes=None, percent=True, root_hidden=False, relative=0.0):
    dense = rng.choice([0.15, 0.4, 0.8])
    plain_boxes = rng.choice([0.2, 0.6, 0.95])  # how often borders and padding are absent

    def style(leaf):
        s = {"display": rng.choice(["block", "block", "block", "list-item"])}
        if leaf and maybe(rng, 0.05):
            s["display"] = "table"
        kinds = ["margin"]
        if not maybe(rng, plain_boxes):
            kinds += rng.choice([["border"], ["padding"], ["border", "padding"]])
        edges(rng, s, p=dense, kinds=kinds, neg_h=0.05)
        if maybe(rng, 0.65 if leaf else 0.2):
            s["height"] = length(rng, pct=percent)
        if maybe(rng, 0.15):
            s["max_height"] = length(rng, pct=False)
        if maybe(rng, 0.2):
            s["min_height"] = length(rng, pct=False)
        if maybe(rng, 0.2):
            s["width"] = length(rng)
        if maybe(rng, 0.1):
            s["direction"] = "rtl"
        if maybe(rng, hidden):
            s["display"] = "none"
        if relative and maybe(rng, relative):
            s["position"] = "relative"
        return s

    spec = shape(rng, lambda: Spec(style(True)), lambda: Spec(style(False)),
                 max_nodes=max_nodes or rng.choice([6, 20, 40]))
    if spec.display == "none" and not root_hidden:
        spec.style["display"] = "block"
    tidy(rng, spec, None)
    return spec


def tidy(rng, spec, parent):
    """Keep the document inside the domain of the height property."""
    shown = [c for c in spec.children if c.display != "none"]
    h = spec.get("height")
    if isinstance(h, Len) and h.unit == "%" and parent is not None:
        ph = parent.get("height")
        if not isinstance(ph, Len) or ph.unit == "%":
            spec.style["height"] = Len(h.num, "px")
    if not isinstance(spec.get("height"), Len) and shown:
        spec.style.pop("min_height", None)
        spec.style.pop("max_height", None)
    if spec.display == "table":
        spec.children = []
    for c in spec.children:
        tidy(rng, c, spec)


def situation(spec, boxes):
    out = set()
    for s in spec.walk():
        b = boxes.get(s.id)
        if b is None:
            out.add("hidden")
            continue
        shown = [c for c in s.children if c.display != "none"]
        out.add((bool(shown), len(shown) > 1, s.get("height", AUTO) == AUTO,
                 b.ct > max(0, b.m["top"]), b.cb > max(0, b.m["bottom"]),
                 bool(b.b["top"] or b.p["top"]), bool(b.b["bottom"] or b.p["bottom"]),
                 b.height == 0, "max_height" in s.style, "min_height" in s.style))
    return sorted(map(str, out))
