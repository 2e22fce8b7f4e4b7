"""Documents mixing everything the engine supports, and the edits made to them."""
import harvest
from docs import AUTO, Len, Spec, Display, edges, fanout, length, maybe, number

KEYWORD_STYLES = {
    "overflow": ["visible", "hidden", "scroll", "auto"],
    "visibility": ["visible", "hidden", "collapse"],
    "white_space": ["normal", "pre", "nowrap"],
    "text_align": ["left", "right", "center", "justify"],
    "z_index": [0, 1, -5, "auto"],
    "color": ["red", "#123456"],
    "clear": ["left", "both"],
}


def offset_styles(rng, s):
    s["position"] = rng.choice(["relative", "relative", "static"])
    for name in ("left", "right", "top", "bottom"):
        if maybe(rng, 0.4):
            s[name] = length(rng, neg=True, big=False)


def block_style(rng, container=True):
    s = {"display": rng.choice(["block", "block", "list-item"])}
    edges(rng, s, p=rng.choice([0.1, 0.4, 0.7]), neg_h=0.15, neg_v=0.1)
    if maybe(rng, 0.35):
        s["width"] = length(rng)
    if maybe(rng, 0.35):
        s["height"] = length(rng)
    for name in ("min_width", "max_width", "min_height", "max_height"):
        if maybe(rng, 0.12):
            s[name] = length(rng)
    if maybe(rng, 0.15):
        s["direction"] = "rtl"
    if maybe(rng, 0.15):
        offset_styles(rng, s)
    if maybe(rng, 0.2):
        k = rng.choice(sorted(KEYWORD_STYLES))
        s[k] = rng.choice(KEYWORD_STYLES[k])
    return s


def inline_spec(rng, nested=True):
    s = {}
    if maybe(rng, 0.7):
        s["display"] = "inline"
    edges(rng, s, p=rng.choice([0.1, 0.5]), neg_h=0.1)
    if maybe(rng, 0.1):
        offset_styles(rng, s)
    intrinsic = {"width": number(rng), "height": number(rng)}
    if maybe(rng, 0.4):
        intrinsic["is_replaced"] = True
        if maybe(rng, 0.4):
            del intrinsic["width"]
        if maybe(rng, 0.4):
            del intrinsic["height"]
        if maybe(rng, 0.4):
            intrinsic["ratio"] = rng.choice([0.5, 1, 2, 1.5, 0.75, 4])
        if maybe(rng, 0.4):
            s["width"] = length(rng)
        if maybe(rng, 0.4):
            s["height"] = length(rng)
        return Spec(s, intrinsic)
    kids = []
    if nested and maybe(rng, 0.15):
        kids = [inline_spec(rng, False) for _ in range(rng.randrange(1, 3))]
    return Spec(s, intrinsic, kids)


def hide(rng, spec, p):
    if maybe(rng, p):
        spec.style["display"] = "none"
    return spec


def gen_mixed(rng, depth=None, hidden=0.06, budget=None):
    if budget is None:
        budget = [rng.choice([5, 15, 35])]
    if depth is None:
        depth = rng.randrange(1, 6)
    spec = Spec(block_style(rng))
    if depth == 0 or budget[0] <= 0:
        if maybe(rng, 0.2):
            spec.children = [hide(rng, inline_spec(rng), hidden)]
        return spec
    n = fanout(rng, heavy=False)
    if maybe(rng, 0.01):
        # a long row of children; the numbers in the code are where rows may end early
        n = rng.choice([40, 110, *harvest.COUNTS])
    budget[0] -= n
    if maybe(rng, 0.25):
        spec.children = [hide(rng, inline_spec(rng), hidden) for _ in range(n)]
    else:
        spec.children = [
            hide(rng, gen_mixed(rng, depth - 1 if maybe(rng, 0.7) else 0, hidden, budget), hidden)
            for _ in range(n)
        ]
    return spec


# ---------------------------------------------------------------------------
# Edits: each is applied to the real tree and to its Specs, which stay in step.
# ---------------------------------------------------------------------------
LENGTHS = ["width", "height", "min_width", "max_width", "min_height", "max_height",
           "margin_top", "margin_right", "margin_bottom", "margin_left",
           "padding_top", "padding_right", "padding_bottom", "padding_left",
           "border_top_width", "border_right_width", "border_bottom_width", "border_left_width",
           "left", "right", "top", "bottom"]


def inline_level(spec):
    return spec.base == "inline"


def mark(spec):
    """Remember what each Spec is when it is displayed."""
    for s in spec.walk():
        if not hasattr(s, "base"):
            inl = bool(s.intrinsic)
            s.base = "inline" if inl else "block"
    return spec


def random_style_edit(rng, spec):
    """(name, token) for a valid change; the token None means delete."""
    r = rng.random()
    if r < 0.12:
        return "display", None if inline_level(spec) and maybe(rng, 0.3) else (
            "inline" if inline_level(spec) else rng.choice(["block", "list-item"]))
    if r < 0.2:
        return "direction", rng.choice(["rtl", "ltr", None])
    if r < 0.3:
        return "position", rng.choice(["relative", "static", None])
    if r < 0.38:
        k = rng.choice(sorted(KEYWORD_STYLES))
        return k, rng.choice(KEYWORD_STYLES[k])
    name = rng.choice(LENGTHS)
    if maybe(rng, 0.25):
        return name, None
    if name.startswith("margin") and maybe(rng, 0.25):
        return name, AUTO
    if name in ("width", "height") and maybe(rng, 0.15):
        return name, AUTO
    if name.startswith("border") and maybe(rng, 0.3):
        return name, rng.choice(Display.KEYWORDS)
    return name, length(rng, big=not name.startswith("margin"),
                        neg=name.startswith("margin") or name in ("left", "right", "top", "bottom"))


def set_style(rng, node, name, token):
    """Apply through one of the interfaces of the declaration, and record in the Spec."""
    from docs import api_value

    style, spec = node.style, node.spec
    how = rng.randrange(3)
    dashed = name.replace("_", "-") if maybe(rng, 0.5) else name
    if token is None:
        spec.style.pop(name, None)
        if how == 0:
            delattr(style, name)
        elif how == 1:
            del style[dashed]
        else:
            style.update(**{name: None})
    else:
        spec.style[name] = token
        v = api_value(token)
        if how == 0:
            setattr(style, name, v)
        elif how == 1:
            style[dashed] = v
        else:
            style.update(**{name: v})


def set_intrinsic(rng, node):
    spec = node.spec
    name = rng.choice(["width", "height"])
    v = number(rng)
    if spec.intrinsic.get("is_replaced"):
        name = rng.choice(["width", "height", "ratio"])
        v = rng.choice([None, rng.choice([0.5, 1, 2, 3]) if name == "ratio" else v])
    setattr(node.intrinsic, name, v)
    if v is None:
        spec.intrinsic.pop(name, None)
    else:
        spec.intrinsic[name] = v
    return name, v
