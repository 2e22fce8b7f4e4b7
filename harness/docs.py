"""Documents: plain descriptions, the real trees built from them, and their generators.

A Spec is the harness's own description of a node; nothing in it depends on the code
under test.  build() turns it into a tree of real nodes (real CSS, Size and Box objects).
"""
import copy as _copy
from fractions import Fraction

from common import HarnessError, Skip
import harvest

AUTO = "auto"
SIDES = ("top", "right", "bottom", "left")

ABS_SCALE = {
    "pt": Fraction(1),
    "pc": Fraction(12),
    "in": Fraction(72),
    "cm": Fraction("28.3465"),
    "mm": Fraction("2.83465"),
}


def fresh(s):
    """An equal string that is a different object: nothing may depend on identity."""
    return "".join(list(s)) if len(s) > 1 else s


def fmt(num):
    return repr(num)


class Len:
    """A length or percentage, with the way in which it is handed to the API."""

    __slots__ = ("num", "unit", "form")

    def __init__(self, num, unit="px", form="str"):
        self.num, self.unit, self.form = num, unit, form

    def __repr__(self):
        return f"{self.num}{self.unit}"

    def __eq__(self, other):
        return isinstance(other, Len) and (self.num, self.unit) == (other.num, other.unit)

    def value(self):
        from colosseum import units as U

        if self.form == "str":
            return fmt(self.num) + self.unit
        if self.form == "bare":
            if self.unit != "px":
                raise HarnessError("bare numbers are pixels")
            return self.num
        if self.form == "barestr":
            return fmt(self.num)
        unit = {"in": U.inch, "%": U.percent}.get(self.unit) or getattr(U, self.unit)
        return self.num * unit

    def px(self, display, size):
        """The reference conversion, exact, rounded to the nearest 1/64 px."""
        v = Fraction(self.num)
        if self.unit == "px":
            return Fraction(round(64 * v), 64)
        w, h = Fraction(display.content_width), Fraction(display.content_height)
        if self.unit == "%":
            factors = (Fraction(size), Fraction(1, 100))
        elif self.unit in ABS_SCALE:
            factors = (ABS_SCALE[self.unit], Fraction(1, 72), Fraction(display.dpi))
        elif self.unit in ("vw", "vh", "vmin", "vmax"):
            factors = ({"vw": w, "vh": h, "vmin": min(w, h), "vmax": max(w, h)}[self.unit],
                       Fraction(1, 100))
        else:
            raise HarnessError(f"no reference for {self.unit}")
        return round_px(v, factors)


def products(leaves):
    """Every value the product can take, over all orders and associations of the operations."""
    if len(leaves) == 1:
        kind, x = leaves[0]
        return {leaves[0]} | ({("*", 1 / x)} if kind == "/" else set())
    out = set()
    first, rest = leaves[0], leaves[1:]
    for mask in range(2 ** len(rest) - 1):
        left = (first,) + tuple(r for i, r in enumerate(rest) if mask >> i & 1)
        right = tuple(r for i, r in enumerate(rest) if not mask >> i & 1)
        for k1, x1 in products(left):
            for k2, x2 in products(right):
                if k1 == k2:
                    out.add((k1, x1 * x2))
                else:
                    out.add(("*", x1 / x2 if k1 == "*" else x2 / x1))
    return out


def round_px(v, factors):
    """v times the factors, rounded to the nearest 1/64 px."""
    lu = 64 * v
    for f in factors:
        lu *= f
    if abs(abs(lu - int(lu)) - Fraction(1, 2)) < Fraction(1, 10**6):
        # A rounding tie: decided only if the order of the operations cannot matter.
        leaves = [("*", 64.0), ("*", float(v))]
        leaves += [("/", float(f.denominator)) if f.numerator == 1 and f.denominator > 1 else ("*", float(f))
                   for f in factors]
        results = {round(x) for kind, x in products(tuple(leaves)) if kind == "*"}
        if len(results) > 1:
            raise Skip("rounding tie")
        return Fraction(results.pop(), 64)
    return Fraction(round(lu), 64)


class Display:
    """A display, as documented: a content size, a resolution and border keyword sizes."""

    KEYWORDS = ("thin", "medium", "thick")

    def __init__(self, width, height, dpi=96, sizes=(1, 3, 5)):
        self.content_width, self.content_height, self.dpi = width, height, dpi
        self.sizes = dict(zip(self.KEYWORDS, sizes))
        self.fault = None  # raise at the n-th request
        self.requests = 0

    def fixed_size(self, value):
        self.requests += 1
        if self.fault is not None and self.requests >= self.fault:
            raise DisplayFault("display lost")
        return self.sizes[value]

    def __repr__(self):
        return f"{self.content_width}x{self.content_height}@{self.dpi}{tuple(self.sizes.values())}"

    def state(self):
        return (self.content_width, self.content_height, self.dpi, dict(self.sizes))


class DisplayFault(RuntimeError):
    pass


class Spec:
    """A node to be: style (name -> Len / keyword / number), intrinsic, children."""

    _next = 0

    def __init__(self, style=None, intrinsic=None, children=None):
        Spec._next += 1
        self.id = Spec._next
        self.style = dict(style or {})
        self.intrinsic = dict(intrinsic or {})
        self.children = list(children or [])

    def clone(self):
        return _copy.deepcopy(self)

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()

    def show(self, depth=0):
        out = "  " * depth + f"#{self.id} {self.style}"
        if self.intrinsic:
            out += f" intrinsic={self.intrinsic}"
        return "\n".join([out] + [c.show(depth + 1) for c in self.children])

    def get(self, name, default=None):
        return self.style.get(name, default)

    @property
    def display(self):
        return self.style.get("display", "inline")


def api_value(v):
    if isinstance(v, Len):
        return v.value()
    if isinstance(v, str):
        return fresh(v)
    return v


class Node:
    """The minimal DOM node of the documentation."""

    def __init__(self, spec=None):
        from colosseum.declaration import CSS
        from colosseum.dimensions import Box, Size

        self.parent = None
        self.children = []
        self.spec = spec
        self.intrinsic = Size(self)
        self.layout = Box(self)
        self.style = CSS().copy(self)

    def add(self, child, index=None):
        child.parent = self
        self.children.insert(len(self.children) if index is None else index, child)


class FalseNode(Node):
    """A node that is false, as an empty container class is."""

    def __len__(self):
        return 0


class SameNode(Node):
    """A node that equals every other node and cannot be hashed."""

    def __eq__(self, other):
        return True

    __hash__ = None


def node_type(rng):
    return rng.choice([Node, Node, FalseNode, SameNode])


def apply_style(node, spec):
    for name, v in spec.style.items():
        setattr(node.style, name, api_value(v))
    for name, v in spec.intrinsic.items():
        setattr(node.intrinsic, name, v)


def build(spec, cls=Node, index=None):
    node = cls(spec)
    if index is not None:
        index[spec.id] = node
    apply_style(node, spec)
    for c in spec.children:
        node.add(build(c, cls, index))
    return node


def lay(display, node, standard="html5"):
    from colosseum.engine import layout

    return layout(display, node, standard=standard)


def walk(node):
    stack = [node]
    while stack:
        n = stack.pop()
        yield n
        stack.extend(reversed(list(n.children)))


# Every public attribute documented on a layout box.
BOX_ATTRS = (
    ["visible", "content_width", "content_height", "content_top", "content_left",
     "content_bottom", "content_right"]
    + [f"margin_{s}" for s in SIDES]
    + [f"padding_{s}" for s in SIDES]
    + [f"border_{s}_width" for s in SIDES]
    + [f"collapse_{s}" for s in SIDES]
    + [f"absolute_content_{s}" for s in SIDES]
    + [f"{b}_box_{d}" for b in ("padding", "border") for d in ("width", "height", *SIDES)]
    + [f"absolute_{b}_box_{s}" for b in ("padding", "border") for s in SIDES]
)


def snapshot(node):
    if node.layout is None:
        return None
    return {a: getattr(node.layout, a) for a in BOX_ATTRS}


def snapshot_tree(node):
    return [snapshot(n) for n in walk(node)]


def diff_snapshots(a, b):
    from common import near

    if (a is None) != (b is None):
        return f"box {'missing' if a is None else 'present'} instead of {'missing' if b is None else 'present'}"
    if a is None:
        return None
    bad = [f"{k}: {a[k]!r} != {b[k]!r}" for k in a if not near(a[k], b[k])]
    return "; ".join(bad) or None


# ---------------------------------------------------------------------------
# Generators
# ---------------------------------------------------------------------------
SMALL = [0, 0, 1, 2, 3, 5, 7, 8, 10, 12, 15, 16, 20, 24, 25, 30, 33, 40, 50]
MEDIUM = [60, 64, 75, 80, 96, 100, 101, 120, 128, 150, 151, 200, 250, 255, 256, 300, 333, 400]
LARGE = [512, 640, 777, 999, 1000, 1023, 1024, 1025, 2000, 4096, 10000, 65536]
FRACTIONS = [0.5, 0.25, 1.5, 2.75, 7.5, 0.1, 0.33, 12.34, 33.3, 1 / 64, 3 / 128, 99.99, 49.015625]


def number(rng, big=True, frac=True, neg=False):
    r = rng.random()
    if r < 0.40:
        v = rng.choice(SMALL)
    elif r < 0.62:
        v = rng.choice(MEDIUM)
    elif r < 0.70 and big:
        v = rng.choice(LARGE)
    elif r < 0.82 and frac:
        v = rng.choice(FRACTIONS) if rng.random() < 0.6 else rng.randrange(0, 6400) / 64
    elif r < 0.90 and harvest.NEAR:
        v = abs(rng.choice(harvest.NEAR))
        if not frac:
            v = int(v)
    else:
        v = rng.randrange(0, 600)
    if neg and rng.random() < 0.5:
        v = -v
    return v


def length(rng, pct=True, big=True, neg=False, frac=True, units=True):
    r = rng.random()
    if r < 0.62 or not units:
        num = number(rng, big=big, neg=neg, frac=frac)
        return Len(num, "px", rng.choice(["str", "bare", "unit", "barestr"]))
    if r < 0.80 and pct:
        num = rng.choice([0, 1, 5, 10, 12.5, 20, 25, 33, 50, 75, 99, 100, 101, 120, 200, 33.3])
        return Len(-num if neg and rng.random() < 0.5 else num, "%", rng.choice(["str", "unit"]))
    unit = rng.choice(["pt", "pc", "in", "cm", "mm", "vw", "vh", "vmin", "vmax"])
    top = {"in": 3, "cm": 6, "pc": 12}.get(unit, 60)
    num = rng.choice([0, 1, 2, rng.randrange(0, top + 1), round(rng.random() * top, 2)])
    if neg and rng.random() < 0.5:
        num = -num
    return Len(num, unit, rng.choice(["str", "unit"]))


def display(rng):
    r = rng.random()
    if r < 0.5:
        w, h = rng.choice([(640, 480), (1024, 768), (1920, 1080), (320, 568), (800, 600)])
    elif r < 0.62:
        w, h = rng.choice([(0, 0), (1, 1), (7, 3), (0, 100), (100, 0), (50, 5000), (100000, 20)])
    else:
        w, h = rng.randrange(1, 3000), rng.randrange(1, 3000)
    dpi = rng.choice([72, 96, 96, 120, 144, 160, 300, rng.randrange(50, 400)])
    sizes = rng.choice([(1, 3, 5), (1, 5, 10), (2, 2, 2), (0, 1, 9), (1, 2, 40)])
    return Display(w, h, dpi, sizes)


def maybe(rng, p):
    return rng.random() < p


def edges(rng, style, p=0.5, pct=True, auto_h=0.25, auto_v=0.1, neg_h=0.15, neg_v=0.0,
          kinds=("margin", "border", "padding")):
    """Random margins, borders and padding."""
    for side in SIDES:
        horizontal = side in ("left", "right")
        if "margin" in kinds and maybe(rng, p):
            if maybe(rng, auto_h if horizontal else auto_v):
                style[f"margin_{side}"] = AUTO
            else:
                neg = maybe(rng, neg_h if horizontal else neg_v)
                style[f"margin_{side}"] = length(rng, pct=pct, neg=neg, big=False)
        if "border" in kinds and maybe(rng, p * 0.7):
            if maybe(rng, 0.35):
                style[f"border_{side}_width"] = rng.choice(Display.KEYWORDS)
            else:
                style[f"border_{side}_width"] = length(rng, pct=pct and maybe(rng, 0.5), big=False)
        if "padding" in kinds and maybe(rng, p * 0.7):
            style[f"padding_{side}"] = length(rng, pct=pct, big=False)
    return style


def fanout(rng, heavy=True):
    r = rng.random()
    if r < 0.25:
        return 1
    if r < 0.55:
        return rng.randrange(1, 4)
    if r < 0.85:
        return rng.randrange(2, 7)
    if heavy and r > 0.985:
        return rng.choice(harvest.COUNTS or [20])
    return rng.randrange(1, 12)


def shape(rng, leaf, inner, max_nodes=40, depth=None, heavy=True):
    """A random tree; leaf() and inner() make the Specs."""
    r = rng.random()
    if depth is None:
        depth = 1 + int(rng.random() ** 2 * 6)
        if heavy and r > 0.985:
            # a long chain, with a few siblings here and there
            n = rng.choice([20, 33, 50, 70])
            root = node = inner()
            for _ in range(n):
                child = inner()
                kids = [child]
                if maybe(rng, 0.2):
                    kids.insert(rng.randrange(2), leaf())
                node.children = kids
                node = child
            node.children = [leaf()]
            return root
    budget = [max_nodes]

    def grow(d):
        if d == 0 or budget[0] <= 0:
            return leaf()
        node = inner()
        n = fanout(rng, heavy)
        budget[0] -= n
        node.children = [grow(d - 1 if maybe(rng, 0.7) else 0) for _ in range(n)]
        return node

    root = grow(depth)
    return root
