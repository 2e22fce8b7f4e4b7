"""The harness's own account of the CSS properties: what each accepts, what it then holds.

Nothing here is taken from the code under test at run time.  Values are compared in a
canonical form made of plain tuples (canon()).
"""
from cssnames import NAMED
from docs import SIDES, fresh, maybe, number
import harvest

LENGTH_UNITS = ["px", "em", "ex", "ch", "pt", "pc", "in", "cm", "mm", "vh", "vw", "vmin", "vmax"]
ANGLE_UNITS = ["deg", "rad", "grad", "turn"]


# ---------------------------------------------------------------------------
# Canonical values
# ---------------------------------------------------------------------------
def kw(s):
    return ("none",) if s is None or s == "none" else ("kw", s)


def px(n):
    return ("len", n, "px")


def canon(v):
    """The canonical form of a value read from the code under test."""
    from colosseum import colors, constants, shapes, wrappers

    if v is None:
        return ("none",)
    if v is constants.default:
        return ("default",)
    if isinstance(v, str):
        return ("kw", v)
    if isinstance(v, bool):
        return ("odd", repr(v))
    if isinstance(v, (int, float)):
        return ("num", v)
    if isinstance(v, colors.rgb):
        return ("rgb", v.r, v.g, v.b, v.a)
    if isinstance(v, colors.hsl):
        return ("hsl", v.h, v.s, v.l, v.a)
    if hasattr(v, "suffix") and hasattr(v, "val"):
        return ("len", v.val, v.suffix)
    if isinstance(v, wrappers.BorderSpacing):
        return ("spacing", canon(v.horizontal), canon(v.vertical))
    if isinstance(v, shapes.Rect):
        return ("rect", canon(v.top), canon(v.right), canon(v.left), canon(v.bottom))
    if isinstance(v, wrappers.Quotes):
        return ("quotes",) + tuple((v.opening(i), v.closing(i)) for i in range(len(v)))
    if isinstance(v, wrappers.Uri):
        return ("uri", v.url)
    if isinstance(v, wrappers.ImmutableList):
        return ("list",) + tuple(canon(x) for x in v)
    if isinstance(v, tuple):
        return ("tuple",) + tuple(canon(x) for x in v)
    if isinstance(v, wrappers.Shorthand):
        return ("short", tuple(sorted((k, canon(x)) for k, x in v.to_dict().items())))
    return ("odd", f"{type(v).__name__} {v!r}")


# ---------------------------------------------------------------------------
# The properties
# ---------------------------------------------------------------------------
BORDER_STYLES = ["none", "hidden", "dotted", "dashed", "solid", "double", "groove", "ridge",
                 "inset", "outset"]
CURSORS = ["auto", "crosshair", "default", "pointer", "move", "e-resize", "ne-resize", "nw-resize",
           "n-resize", "se-resize", "sw-resize", "s-resize", "w-resize", "text", "wait", "progress",
           "help"]
DISPLAYS = ["none", "inline", "block", "list-item", "inline-block", "table", "inline-table",
            "table-row-group", "table-header-group", "table-footer-group", "table-row",
            "table-column-group", "table-column", "table-cell", "table-caption", "flex",
            "inline-flex", "grid", "inline-grid"]

PROPS = {}


def prop(name, initial, words=(), kinds=(), neg=False, inherit=False):
    PROPS[name] = dict(initial=initial, words=list(words) + (["inherit"] if inherit else []),
                       kinds=list(kinds), neg=neg)


for _s in SIDES:
    prop(f"margin_{_s}", px(0), ["auto"], ["length", "percentage"], neg=True)
    prop(f"padding_{_s}", px(0), [], ["length", "percentage"])
    prop(f"border_{_s}_width", px(0), ["thin", "medium", "thick"], ["length"])
    prop(f"border_{_s}_color", "color", ["transparent", "initial", "inherit", "unset", "revert"],
         ["color"])
    prop(f"border_{_s}_style", kw(None), BORDER_STYLES)
    prop(_s, kw("auto"), ["auto"], ["length", "percentage"], neg=True, inherit=True)
prop("display", kw("inline"), DISPLAYS)
prop("position", kw("static"), ["static", "relative", "absolute", "fixed"])
prop("float", kw(None), ["none", "left", "right"])
prop("clear", kw(None), ["none", "left", "right", "both"])
prop("z_index", kw("auto"), ["auto"], ["integer"], neg=True)
prop("direction", kw("ltr"), ["ltr", "rtl"])
prop("unicode_bidi", kw("normal"), ["normal", "embed", "bidi-override"])
for _d in ("width", "height"):
    prop(_d, kw("auto"), ["auto"], ["length", "percentage"])
    prop("min_" + _d, kw("auto"), ["auto"], ["length", "percentage"])
    prop("max_" + _d, kw(None), ["none"], ["length", "percentage"])
prop("overflow", kw("visible"), ["visible", "hidden", "scroll", "auto"], inherit=True)
prop("clip", kw("auto"), ["auto"], ["rect"], inherit=True)
prop("visibility", kw("visible"), ["visible", "hidden", "collapse"])
prop("quotes", kw("initial"), ["none", "initial"], ["quotes"], inherit=True)
for _d in ("before", "after"):
    prop(f"page_break_{_d}", kw("auto"), ["auto", "always", "avoid", "left", "right"], inherit=True)
prop("page_break_inside", kw("auto"), ["auto", "avoid"], inherit=True)
prop("orphans", ("num", 2), [], ["integer"], inherit=True)
prop("widows", ("num", 2), [], ["integer"], inherit=True)
prop("color", ("default",), [], ["color"])
prop("background_color", ("default",), ["transparent"], ["color"])
prop("text_indent", px(0), [], ["length", "percentage"], neg=True, inherit=True)
prop("text_align", "direction", ["left", "right", "center", "justify"], inherit=True)
prop("text_decoration", kw(None), ["none", "underline", "overline", "line-through", "blink"],
     inherit=True)
prop("letter_spacing", kw("normal"), ["normal"], ["length"], neg=True, inherit=True)
prop("word_spacing", kw("normal"), ["normal"], ["length"], neg=True, inherit=True)
prop("text_transform", kw(None), ["none", "capitalize", "uppercase", "lowercase"], inherit=True)
prop("white_space", kw("normal"), ["normal", "pre", "nowrap", "pre-wrap", "pre-line"], inherit=True)
prop("caption_side", kw("top"), ["top", "bottom"], inherit=True)
prop("table_layout", kw("auto"), ["auto", "fixed"], inherit=True)
prop("border_collapse", kw("separate"), ["collapse", "separate"], inherit=True)
prop("border_spacing", ("spacing", px(0), px(0)), [], ["spacing"], inherit=True)
prop("empty_cells", kw("show"), ["show", "hide"], inherit=True)
prop("cursor", ("list", kw("auto")), [], ["cursor"], inherit=True)
prop("outline_width", kw("medium"), ["thin", "medium", "thick"], ["length"], inherit=True)
prop("outline_style", kw(None), BORDER_STYLES, inherit=True)
prop("outline_color", kw("invert"), ["invert"], ["color"], inherit=True)

LONGHANDS = sorted(PROPS)
DIRECTIONAL = {
    "margin": [f"margin_{s}" for s in SIDES],
    "padding": [f"padding_{s}" for s in SIDES],
    "border_width": [f"border_{s}_width" for s in SIDES],
    "border_color": [f"border_{s}_color" for s in SIDES],
    "border_style": [f"border_{s}_style" for s in SIDES],
}
# shorthand -> part -> longhands
SHORTHANDS = {f"border_{s}": {p: [f"border_{s}_{p}"] for p in ("width", "style", "color")}
              for s in SIDES}
SHORTHANDS["border"] = {p: [f"border_{s}_{p}" for s in SIDES] for p in ("width", "style", "color")}
SHORTHANDS["outline"] = {p: [f"outline_{p}"] for p in ("width", "style", "color")}
NAMES = sorted(list(PROPS) + list(DIRECTIONAL) + list(SHORTHANDS))
ALL_WORDS = sorted({w for p in PROPS.values() for w in p["words"]} | set(CURSORS))
GLOBAL_WORDS = {"initial", "inherit", "unset", "revert"}


def targets(name):
    """The longhands behind a name."""
    if name in DIRECTIONAL:
        return DIRECTIONAL[name]
    if name in SHORTHANDS:
        return [x for part in SHORTHANDS[name].values() for x in part]
    return [name]


# ---------------------------------------------------------------------------
# Valid values: (value for the API, canonical form)
# ---------------------------------------------------------------------------
def num_text(rng, n):
    """A spelling of the number, as CSS allows it."""
    s = repr(n)
    if "e" in s:
        s = f"{n:.6f}"
    r = rng.random()
    if r < 0.1 and not s.startswith("-"):
        return "+" + s
    if r < 0.2 and "." not in s:
        return s + ".0"
    if r < 0.3 and s.startswith("0."):
        return s[1:]
    if r < 0.35:
        return s.replace("-", "-0") if s.startswith("-") else "0" + s
    return s


def make_unit(num, unit):
    from colosseum import units as U

    return num * {"in": U.inch, "%": U.percent}.get(unit, getattr(U, unit, None))


def g_length(rng, neg=False, units=LENGTH_UNITS):
    n = number(rng, neg=neg)
    if isinstance(n, float):
        n = round(n, 6)
    r = rng.random()
    if r < 0.2:
        return n, px(n)
    unit = rng.choice(units)
    if r < 0.4:
        return make_unit(n, unit), ("len", n, unit)
    if r < 0.5:
        t = num_text(rng, n)
        return t, px(float(t))
    t = num_text(rng, n)
    return t + unit, ("len", float(t), unit)


def g_percentage(rng, neg=False):
    n = number(rng, neg=neg)
    if isinstance(n, float):
        n = round(n, 6)
    if maybe(rng, 0.4):
        return make_unit(n, "%"), ("len", n, "%")
    t = num_text(rng, n)
    return t + "%", ("len", float(t), "%")


def g_integer(rng, neg=False):
    n = rng.choice([1, 2, 3, 5, 10, 99, 1000, 2**31, rng.randrange(1, 500),
                    abs(int(rng.choice(harvest.NEAR or [1]))) + 1])
    if neg and maybe(rng, 0.4):
        n = rng.choice([-n, 0])
    r = rng.random()
    return (str(n) if r < 0.3 else float(n) if r < 0.4 else n), ("num", n)


def alpha(rng):
    return rng.choice([0.0, 1.0, 0.5, 0.25, 0.1, 0, 1, 0.99, 0.333])


def pad(rng, parts):
    seps = [rng.choice([",", ", ", " , "]) if maybe(rng, 0.4) else ", " for _ in parts[1:]]
    out = parts[0]
    for s, p in zip(seps, parts[1:]):
        out += s + p
    return f" {out} " if maybe(rng, 0.1) else out


def channel(rng):
    return rng.choice([0, 1, 15, 16, 17, 127, 128, 254, 255, rng.randrange(256)])


def g_color(rng, neg=False):
    from colosseum.colors import hsl, rgb

    r = rng.random()
    if r < 0.2:
        n = rng.choice(sorted(NAMED))
        text = rng.choice([n, n, n.upper(), n.capitalize()])
        return fresh(text), ("rgb", *NAMED[n], 1.0)
    if r < 0.5:
        k = rng.choice([3, 4, 6, 8])
        digits = "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(k))
        full = "".join(c * 2 for c in digits) if k < 5 else digits
        v = [int(full[i:i + 2], 16) for i in range(0, len(full), 2)]
        return "#" + digits, ("rgb", *v[:3], v[3] / 255 if len(v) == 4 else 1.0)
    a = alpha(rng)
    if r < 0.75:
        c = [channel(rng) for _ in range(3)]
        form = rng.randrange(4)
        if form < 2:
            t, ta = list(c), a
            if maybe(rng, 0.15):
                # clipped to its range
                i = rng.randrange(3 + form)
                if i == 3:
                    ta, a = rng.choice([(-0.5, 0.0), (1.5, 1.0), (2, 1.0), (-1, 0.0), (1.0001, 1.0), (255, 1.0), ("1e3", 1.0)])
                else:
                    t[i], c[i] = rng.choice([(-1, 0), (256, 255), (300, 255), (-300, 0), (10**20, 255), (-255, 0), (257, 255)])
            if form == 0:
                return "rgb(" + pad(rng, [str(x) for x in t]) + ")", ("rgb", *c, 1.0)
            return "rgba(" + pad(rng, [str(x) for x in t + [ta]]) + ")", ("rgb", *c, a)
        return (rgb(*c), ("rgb", *c, 1.0)) if form == 2 else (rgb(*c, a), ("rgb", *c, a))
    h = rng.choice([0, 30, 59, 60, 61, 90, 120, 180, 240, 300, 359, 360, rng.randrange(361)])
    s, l = (rng.choice([0, 1, 10, 33, 49, 50, 51, 75, 99, 100, rng.randrange(101)]) for _ in "ab")
    if maybe(rng, 0.25):
        h = rng.choice([h + 0.5, round(rng.uniform(0, 360), rng.randrange(1, 9)), h])
        s, l = (rng.choice([0.5, 12.25, 99.9, round(rng.uniform(0, 100), rng.randrange(1, 13))]) for _ in "ab")
    if maybe(rng, 0.15):
        h = rng.choice([-h, h + 360, -h - 720, h * 10, h + 0.25, -0.5, -120, 480])
    form = rng.randrange(4)
    if form < 2:
        ts, tl, ta = s, l, a
        if maybe(rng, 0.1):
            ts, s = rng.choice([(-5, 0), (100.5, 100), (200, 100), (-0.5, 0), (1000, 100)])
        if maybe(rng, 0.1):
            tl, l = rng.choice([(-5, 0), (100.5, 100), (200, 100), (-0.5, 0), (1000, 100)])
        if maybe(rng, 0.1):
            ta, a = rng.choice([(-0.5, 0.0), (1.5, 1.0), (2, 1.0), (-1, 0.0)])
        if form == 0:
            return "hsl(" + pad(rng, [str(h), f"{ts}%", f"{tl}%"]) + ")", ("hsl", h, s / 100, l / 100, 1.0)
        return ("hsla(" + pad(rng, [str(h), f"{ts}%", f"{tl}%", str(ta)]) + ")",
                ("hsl", h, s / 100, l / 100, a))
    if form == 2:
        return hsl(h, s / 100, l / 100), ("hsl", h, s / 100, l / 100, 1.0)
    return hsl(h, s / 100, l / 100, a), ("hsl", h, s / 100, l / 100, a)


def g_spacing(rng, neg=False):
    from colosseum.wrappers import BorderSpacing

    if maybe(rng, 0.3):
        v, c = g_length(rng)
        r = rng.random()
        if r < 0.2:
            return [v], ("spacing", c, c)
        if r < 0.4:
            return (v,), ("spacing", c, c)
        return v, ("spacing", c, c)
    (v1, c1), (v2, c2) = g_length(rng), g_length(rng)
    if maybe(rng, 0.5):
        return rng.choice([(v1, v2), [v1, v2]]), ("spacing", c1, c2)
    sep = rng.choice([" ", "  ", "\t"])
    return f"{v1}{sep}{v2}", ("spacing", c1, c2)


def g_rect(rng, neg=False):
    from colosseum.shapes import Rect

    vs = [g_length(rng, neg=True) for _ in range(4)]
    c = ("rect", *[x[1] for x in vs])
    if maybe(rng, 0.2):
        objs = [make_unit(x[1][1], x[1][2]) for x in vs]
        return Rect(*objs), c
    sep = rng.choice([", ", ", ", ",", " ", "  ,  "])
    inner = sep.join(str(x[0]) for x in vs)
    return rng.choice(["rect({})", "rect( {} )", " rect({}) "]).format(inner), c


QUOTE_CHARS = ["<", ">", "{", "}", "[", "]", '"', "'", "«", "»", "“", "”", "<<", ">>", "'\"", "--",
               "a", "(", ")", "#", "„", " ", " <", "> ", "« ", " »", "/", ",", "\u00a0", "qq", "0", "1"]


def quote_mark(rng):
    if maybe(rng, 0.6):
        return rng.choice(QUOTE_CHARS)
    if maybe(rng, 0.1):
        return fresh(rng.choice(harvest.WORDS)).replace(";", "")[:12] or "x"
    return "".join(rng.choice("<>{}[]()|'\"«»‹›ab Z09-_.,:%\\ \t") for _ in range(rng.choice([1, 2, 2, 3, 4, 5, 8, 20])))


def g_quotes(rng, neg=False):
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 9])
    pairs = [(quote_mark(rng), quote_mark(rng)) for _ in range(n)]
    if maybe(rng, 0.15):
        pairs = [(a, rng.choice([a, b])) for a, b in pairs]
    if n > 1 and maybe(rng, 0.15):
        pairs[-1] = rng.choice(pairs)
    c = ("quotes", *pairs)
    r = rng.random()
    if r < 0.3:
        return [tuple(p) for p in pairs], c
    if r < 0.4:
        return tuple(list(p) for p in pairs), c
    if r < 0.55:
        return rng.choice([list, tuple])(x for p in pairs for x in p), c

    def lit(s):
        if ("'" in s and '"' in s) or "\\" in s or "\t" in s:
            return repr(s)
        if "'" in s or (maybe(rng, 0.5) and '"' not in s):
            return f'"{s}"'
        return f"'{s}'"

    return rng.choice([" ", "  ", "\n"]).join(lit(x) for p in pairs for x in p), c


URLS = ["some.url", "http://example.com/a/b.png", "a/b/c.cur", "cursor?x=1", "1.png", "img.svg",
        "auto.png", "../up.cur", "data", "x(y", "with space.png", "https://h.org:80/p?q=r", "é.png", "#f",
        "HTTP://Example.COM/A.PNG", "file:///C:/Img.Cur", "javascript:a", "about:blank", "//host/p", "/abs", "%20x", "a%2Fb"]


def g_uri(rng, neg=False):
    from colosseum.wrappers import Uri

    u = rng.choice(URLS)
    if maybe(rng, 0.1):
        u = rng.choice([u.upper(), u.title(), u.swapcase()])
    if maybe(rng, 0.1):
        w = "".join(c for c in rng.choice(harvest.WORDS) if c.isalnum() or c in "./:?-_#%")
        u = rng.choice([w + u, u + w, w or u])
    if maybe(rng, 0.3):
        u = rng.choice(harvest.WORDS) if maybe(rng, 0.2) else ""
        u = "".join(c for c in u if c.isalnum() or c in "./:?-_#%") if maybe(rng, 0.9) else ""
        u += "".join(rng.choice("abcXYZ019./:?&=#%-_~+@!$*([]") for _ in range(rng.choice([1, 2, 3, 8, 30])))
    if maybe(rng, 0.15):
        i = rng.randrange(len(u) + 1)
        u = rng.choice(["data:image/png;base64,iVBORw0KGgo=".replace(";", "-"), u[:i] + "," + u[i:], "," + u, "a,b,c.cur"])
    elif maybe(rng, 0.12):
        # balanced parentheses are part of the URL
        i = rng.randrange(len(u) + 1)
        u = u.replace("(", "") or "a"
        u = rng.choice([u + "(1)", u + "()", "(" + u + ")", u[:i] + "(x)" + u[i:], u + "((2))", "url(" + u + ")"])
    r = rng.random()
    if r < 0.25:
        return Uri(u), ("uri", u)
    q = rng.choice(["", "'", '"'])
    sp = rng.choice(["", "", " ", "  "])
    return f"url({sp}{q}{u}{q}{sp})", ("uri", u)


def g_cursor(rng, neg=False):
    uris = [g_uri(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 8]))]
    if len(uris) > 1 and maybe(rng, 0.2):
        uris[-1] = uris[0]
    final = [rng.choice(CURSORS)]
    if uris and maybe(rng, 0.15):
        final = []
    c = ("list", *[u[1] for u in uris], *[kw(f) for f in final])
    items = [u[0] for u in uris] + [fresh(f) for f in final]
    if maybe(rng, 0.5):
        return rng.choice([list, tuple])(items), c
    return rng.choice([", ", ",", " , "]).join(str(x) for x in items), c


GENERATORS = {"length": g_length, "percentage": g_percentage, "integer": g_integer, "color": g_color,
              "spacing": g_spacing, "rect": g_rect, "quotes": g_quotes, "cursor": g_cursor}


class Text(str):
    pass


class Whole(int):
    pass


class Real(float):
    pass


class Row(tuple):
    pass


class Items(list):
    pass


def dress(rng, v, p=0.03):
    """Now and then an instance of a subclass: it is as good as one of the class itself."""
    if rng.random() < p:
        for cls, own in ((str, Text), (int, Whole), (float, Real), (tuple, Row), (list, Items)):
            if type(v) is cls:
                return own(v)
    return v


def valid(rng, name):
    """A valid value of a longhand and what the property then holds."""
    p = PROPS[name]
    picks = []
    if p["words"]:
        picks.append("word")
    picks += p["kinds"] * 2 if p["words"] else p["kinds"]
    k = rng.choice(picks)
    if k == "word":
        w = rng.choice(p["words"])
        if w == "none" and maybe(rng, 0.5):
            return None, kw(None)
        return dress(rng, fresh(w)), kw(w)
    v, m = GENERATORS[k](rng, neg=p["neg"])
    return dress(rng, v), m


def initial(name, get=None):
    """The initial value; get() reads the properties it depends on."""
    i = PROPS[name]["initial"]
    if i == "color":
        return get("color")
    if i == "direction":
        return kw("right" if get("direction") == kw("rtl") else "left")
    return i


# ---------------------------------------------------------------------------
# Invalid values
# ---------------------------------------------------------------------------
class Opaque:
    def __repr__(self):
        return "<Opaque>"


class Duck(Opaque):
    """Looks like a value of some kind, and is none."""

    def __init__(self, text, **attrs):
        self.__dict__.update(attrs, text=text)

    def __repr__(self):
        return f"<Duck {sorted(self.__dict__)}>"

    def __str__(self):
        return self.text


def duck(rng):
    kinds = [dict(rgb=None, r=1, g=2, b=3, a=1.0), dict(rgb=(1, 2, 3)), dict(h=1, s=0.5, l=0.5, a=1.0), dict(val=3, suffix="px"),
             dict(lu=lambda **k: 64, px=lambda **k: 1, val=1), dict(url="x.png", _url="x.png"), dict(horizontal=1, vertical=2),
             dict(top=1, right=2, bottom=3, left=4), dict(_quotes=[("<", ">")], opening=len, closing=len), dict(value="auto"),
             dict(description="length"), dict(strip=lambda *a: "red", lower=lambda: "red", split=lambda *a: ["1px"],
                                              startswith=lambda x: True, endswith=lambda x: True), dict(name="red"), {}]
    return Duck(rng.choice(["10px", "red", "none", "1", "rect(1px, 2px, 3px, 4px)", "url(x)", "'<' '>'", ""]), **rng.choice(kinds))


def typo(rng, w):
    r = rng.randrange(6)
    if r == 0:
        return w + rng.choice(["x", "-", "s", "!", "0"])
    if r == 1:
        return rng.choice(["x", "-", "_"]) + w
    if r == 2 and len(w) > 2:
        i = rng.randrange(1, len(w))
        return w[:i] + w[i + 1:] if w[:i] + w[i + 1:] != w else w + "q"
    if r == 3 and len(w) > 2:
        return w[:-1]
    if r == 4 and "-" in w:
        return w.replace("-", "_")
    if r == 5 and maybe(rng, 0.6):
        return rng.choice([w.title(), w.capitalize(), w.upper(), w.swapcase(), w + "\n", " " + w, w + " ", w + ";", w + ",", f"'{w}'", f'"{w}"'])
    i = rng.randrange(len(w))
    return w[:i] + "q" + w[i:]


def g_bad_length(rng):
    n = number(rng)
    return rng.choice([
        "px", "%", "em", "", "ten", "tenpx", f"{n}foo", f"{n}p", f"{n}x", f"{n}pxx", f"px{n}", f"{n}px;",
        f"{n}px {n}px", f"{n},5px", f"#{n}", f"{n}%%", f"--{n}px", f"{n}px!", "1.2.3px", "..5",
        f"{n}{rng.choice(ANGLE_UNITS)}", f"{n}q{rng.choice(LENGTH_UNITS)}", "nan", "inf", "-inf", "nanpx", "infpx",
        "infinity%", "NaNem", "1e999px", "1_0px", "1_000", "2_5%", "1_0.5em", "\u0661\u0660px", "\uff11\uff10", "1__0px", "_1px", float("nan"), float("inf"), float("-inf"), "calc(1px)", f"{n}pixels",
        make_unit(n, rng.choice(ANGLE_UNITS)),
    ])


def mangled_color(rng):
    """A functional colour with one component missing, surplus, empty or not a number."""
    f = rng.choice(["rgb", "rgba", "hsl", "hsla"])
    comps = [str(channel(rng)) for _ in range(3)] if f[0] == "r" else [str(rng.randrange(361)), f"{rng.randrange(101)}%",
                                                                         f"{rng.randrange(101)}%"]
    if f[-1] == "a":
        comps.append(str(alpha(rng)))
    r = rng.randrange(6)
    k = rng.randrange(len(comps))
    if r <= 2:
        comps[k] = rng.choice(["", " ", "x", "1 2", "nan", "inf", "--1", "1.5.2", "%", "red", "#1", "0x1", "1px", "()", "None", "1_0",
                               "\u0661", comps[k] + "%%", comps[k] + "x", "x" + comps[k], comps[k] + " " + comps[k], "-" , "+", "."])
    elif r == 3:
        comps = comps[:rng.randrange(0, 3)]
    elif r == 4:
        comps += [rng.choice(comps)] * (5 - len(comps) + rng.randrange(3))
    body = pad(rng, comps) if comps else ""
    if r == 5:
        return rng.choice([f"{f}({body}", f"{f}{body})", f"{f} {body}", f"({body})", body, f"{f}({body})x", f"x{f}({body})",
                           f"{f}[{body}]", f"{f}(({body}))", f"{f}({body.replace(',', ';')})", f"{f}({body.replace(',', '')})"])
    return f"{f}({body})"


# letters that Python folds to ASCII ones, but CSS does not
FOLDED = [n.replace(a, b, 1) for n in sorted(NAMED) for a, b in (("k", "\u212a"), ("s", "\u017f"), ("i", "\u0130")) if a in n]


def miscoloured(rng):
    w = typo(rng, rng.choice(sorted(NAMED)))
    return w if w.strip().lower() not in NAMED else "colour"


def g_bad_color(rng):
    if maybe(rng, 0.4):
        return mangled_color(rng)
    h = lambda k: "".join(rng.choice("0123456789abcdef") for _ in range(k))
    c = lambda: str(channel(rng))
    return rng.choice([
        "#", "#" + h(1), "#" + h(2), "#" + h(5), "#" + h(7), "#" + h(9), "#" + h(10), "#xyz", "#12g", "#" + h(5) + "g",
        h(6) + "#", "#" + h(2) + "-", "#+1" + h(1), "# " + h(3), "#" + h(3) + " " + h(3), "#-" + h(5), "#0x" + h(4),
        f"rgb({c()})", f"rgb({c()},{c()})", f"rgb({c()},{c()},{c()},1,2)", f"rgb({c()},{c()},{c()}",
        f"rgb {c()},{c()},{c()}", f"rgb({c()},{c()},red)", f"rgb({c()},,{c()})", "rgb()", f"rgb({c()};{c()};{c()})",
        f"rgba({c()},{c()},{c()},x)", f"rgba({c()})", f"rgba({c()},{c()},{c()},1,1)", "rgba()", f"rgba({c()},{c()},x,1)", f"rgba({c()},{c()},{c()},nan)", f"hsla({c()},1%,1%,inf)", f"hsl({c()},nan%,1%)",
        f"rgb({c()},{c()},{c()})x",
        f"hsl({c()},x%,1%)", f"hsl({c()})", f"hsl({c()},1%)", f"hsl({c()},1%,1%,1,1)", "hsl()", "hsla()",
        f"hsla({c()},1%,1%,x)", f"hsla({c()},1%,1%,1", f"hsl(red,1%,1%)", f"cmyk({c()},{c()},{c()},{c()})",
        miscoloured(rng), rng.choice(FOLDED), "", "dark red", "light-blue", "colour", [1, 2, 3], (1, 2, 3), 12, 1.5,
    ])


def g_bad_integer(rng):
    return rng.choice(["", "abc", "1.5", "1px", "--1", "1,000", "1 2", "one", "0x10", "nan", "inf", float("nan"),
                       float("inf"), "1%", "ⅷ", "1_0", "1_000", "\u0663", "\uff13", 1.5, 3.7, -0.5, 0.999, 2.0000001, 1e-9])


def g_bad_spacing(rng):
    ok = str(g_length(rng)[0])
    return rng.choice([f"{ok} {ok} {ok}", "", "   ", (), [], (1, 2, 3), [1, 2, 3, 4], f"{ok},{ok}", ("x",), (1, "x"),
                       ["1px", None], f"x {ok}", f"{ok} x", (object(), 1), f"{ok} 3deg", "nan", (float("nan"), 1)])


def g_bad_rect(rng):
    a = [str(g_length(rng)[0]) for _ in range(5)]
    return rng.choice([
        f"rect({a[0]}, {a[1]}, {a[2]})", f"rect({', '.join(a)})", "rect()", f"rect({a[0]})", f"rect({', '.join(a[:4])}",
        f"rect {', '.join(a[:4])}", ", ".join(a[:4]), f"rect({a[0]}, {a[1]}, x, {a[3]})", f"rect({a[0]}; {a[1]}; {a[2]}; {a[3]})",
        f"rect(rect({', '.join(a[:4])}))", f"rect({', '.join(a[:4])}))", f"rectangle({', '.join(a[:4])})",
        f"rect({', '.join(a[:4])}{rng.choice(list(']}x;.,') + [' ('])}", f"({', '.join(a[:4])})", f"rect[{', '.join(a[:4])})",
        f"rect({a[0]}, {a[1]}, , {a[3]})", f"rect({a[0]}, {a[1]}, {a[2]}, 3deg)", f"rect({a[0]}, {a[1]}, nan, {a[2]})",
        f"{', '.join(a[:4])} rect()", "", (1, 2, 3, 4), [1, 2, 3, 4], 1,
    ])


def g_bad_quotes(rng):
    return rng.choice(["'<'", "'<' '>' '{'", "< >", "'<' >", "'' ''", "'' '>'", "'<' ''", "1 2", "'<", "'<' '>", "",
                       "   ", [], [("<",)], [("<", ">"), ("{",)], [("", ">")], [("<", "")], [1, 2], [(1, 2)], 1,
                       [("<", ">", "{")], [("<",), (">",)], [("<", ">", "{", "}")], [("<", ">", "{"), ("}",)], ["<>", ("{", "}")],
                       ["<", ">", "{"], ("<<", ), ("", ">"), [("<", ">"), "{}"], [["<", ">"], []], [(b"<", b">")], "None None", "a b", "'<' 1", "[1] [2]", "'<''>' '{'",
                       "1 '>'", "'<' 2.5", "'<' '>' 1 '}'", "'<' '>' '{' [1]", "'<' None", "{} '>'", "True '>'", "b'<' '>'", "'<' b'>'",
                       [(1, ">")], [("<", 1)], [("<", ">"), (None, "}")], [("<", ">"), ("{", b"}")], ["<", 1], [("<", ["x"])]])


def g_bad_uri(rng):
    q, z = rng.choice(["'", '"']), rng.choice(["x", "a/b.png", "", " y ", "data:,"])
    p = '"' if q == "'" else "'"
    return rng.choice([f"url({q}{z})", f"url({z}{q})", f"url( {q} )", f"url({q}{z}{p})", f"url {z}", f"({z})", f"url({z}", f"url{z})",
                       z, f"uri({z})", None, 1, [f"url({z})"], b"url(x)", f"x url({z})", f"url({z}) x"])


def g_bad_cursor(rng):
    opt = rng.choice(CURSORS)
    u = rng.choice(["url(x.png)", "url('y')"])
    wrong = typo(rng, opt)
    while wrong.strip(" \n,") in CURSORS:
        wrong = typo(rng, opt)
    q, z = rng.choice(["'", '"']), rng.choice(["x", "a/b.png", ""])
    return rng.choice([
        f"url({q}{z})", [f"url({z}{q})", opt], [f"url( {q} )"],
        wrong, f"{opt}, {opt}", f"{opt}, {u}", f"{u}, {opt}, {u}", f"{u}, {opt}, {rng.choice(CURSORS)}",
        [opt, opt], [opt, u], [u, opt, u], (opt, rng.choice(CURSORS)), "x.png", f"x.png, {opt}", f"url(x.png, {opt}",
        f"uri(x.png), {opt}", "", f", {opt}", f"{u}, , {opt}", f"{opt} {opt}", [1], [None, opt], 1, 2.5, [u, 1, opt],
        f"url x.png, {opt}", [[u], opt], f"{opt},", [], (), {},
    ])


BAD = {"length": g_bad_length, "percentage": g_bad_length, "color": g_bad_color, "integer": g_bad_integer,
       "spacing": g_bad_spacing, "rect": g_bad_rect, "quotes": g_bad_quotes, "cursor": g_bad_cursor}
STRUCTURED = {"spacing", "rect", "quotes", "cursor"}


def hostile(rng):
    """A value of any kind; whether a property should accept it is not decided here."""
    r = rng.randrange(12)
    if r == 1 and maybe(rng, 0.3):
        return duck(rng)
    if r == 0:
        return rng.choice([True, False, 0, -1, 10**30, -5, 1e308, -0.0, 3.7, 10**400])
    if r == 1:
        return rng.choice([b"10px", b"", bytearray(b"1"), 1j, Opaque(), object, len, Opaque, range(3), {1, 2},
                           frozenset(), {"a": 1}, {}, Ellipsis, NotImplemented, memoryview(b"ab"), (x for x in "ab")])
    if r == 2:
        return rng.choice([[], (), [[]], ((),), [None], (None, None), ["auto"], ("1px", "solid"), [1, 2], (1, 2, 3, 4),
                           ("a", "b"), [("a", "b")], [object()], (1, 2, 3, 4, 5), ["url(a)", "auto"], [[1, 2], [3, 4]]])
    if r == 3:
        return rng.choice(["", " ", "\t\n", "\0", "a" * 5000, "(" * 300, "-" * 300 + "1", "'" * 9, "\\", "'\\'", "{}",
                           "{0}", "%s", "{border_width}", "1" * 5000, "url(", "url()", "rect(", "rect()", "rgb(", "#",
                           "none none", ",", ",,,", ";", "'a' 'b'", "١٠px", "1_0px", "1e3px", "0x10", "é", "💥",
                           "'a' __import__", "[1,2] [3]", "1px/2px", "10 px", " 10px ", "inherit", "initial", "unset"])
    if r == 4:
        return fresh(rng.choice(ALL_WORDS))
    if r == 5:
        return rng.choice(ALL_WORDS).upper()
    if r == 6:
        return typo(rng, rng.choice(ALL_WORDS))
    if r == 7 and harvest.WORDS:
        return fresh(rng.choice(harvest.WORDS))
    if r == 8:
        return GENERATORS[rng.choice(sorted(GENERATORS))](rng)[0]
    if r == 9:
        return BAD[rng.choice(sorted(BAD))](rng)
    if r == 10:
        return f"{rng.choice(ALL_WORDS)} {rng.choice(ALL_WORDS)}"
    w = str(GENERATORS[rng.choice(sorted(GENERATORS))](rng)[0])
    i = rng.randrange(len(w) + 1)
    return w[:i] + rng.choice(["", "x", " ", ",", "(", ")", "'", "%", "#", "-", "\n"]) + w[i + rng.randrange(2):]


def invalid(rng, name):
    """A value that the longhand must reject."""
    p = PROPS[name]
    kinds = p["kinds"]
    r = rng.random()
    if r < 0.5 and kinds:
        k = rng.choice(kinds)
        v = BAD[k](rng)
        if k == "color" and not isinstance(v, str):
            return v
        return v
    if r < 0.7:
        # a keyword of another property
        ok = set(p["words"]) | GLOBAL_WORDS
        if "cursor" in kinds:
            ok |= set(CURSORS)
        pool = [w for w in ALL_WORDS if w not in ok]
        return fresh(rng.choice(pool))
    if r < 0.85 and p["words"]:
        ok = set(p["words"]) | GLOBAL_WORDS | set(NAMED)
        w = typo(rng, rng.choice(p["words"]))
        if w not in ok and w not in ALL_WORDS and w.strip().lower() not in (set(NAMED) if "color" in kinds else ()) and not (
                "cursor" in kinds and w.strip(" ,\n") in CURSORS):
            return w
    if not kinds:
        return rng.choice([True, False, 0, 1, 10, 2.5, "10px", "10", "", "#fff", "rgb(1,2,3)", (1, 2), [], {}, Opaque(), object(),
                           "auto auto", "none none", b"none", set(), make_unit(3, "px")])
    if maybe(rng, 0.3):
        return duck(rng)
    return rng.choice([{}, {"a": 1}, Opaque(), object(), set(), 1j, True, False, "@!", "foo(1)", "!important", object, len])


def invalid_for(rng, name):
    """Retry until the value is not accidentally valid for another of the property's kinds."""
    while True:
        v = invalid(rng, name)
        if v is None:
            continue
        if not accidentally_valid(name, v):
            return v


def accidentally_valid(name, v):
    """Conservative: True whenever the value might be meant validly for this property."""
    p = PROPS[name]
    if isinstance(v, str):
        if v in p["words"] or v in GLOBAL_WORDS:
            return True
        if v.lower() in NAMED and "color" in p["kinds"]:
            return True
        if "_" in v or not v.isascii():  # Python reads some of these as numbers, CSS does not
            return "quotes" in p["kinds"] or "cursor" in p["kinds"]
        try:
            f = float(v)
            plain = f == f and f not in (float("inf"), float("-inf"))
        except ValueError:
            plain = False
        if plain and ({"length", "percentage", "spacing"} & set(p["kinds"])):
            return True
        if plain and "integer" in p["kinds"] and f == int(f) and "." not in v:
            return True
        for u in LENGTH_UNITS + ["%"]:
            if v.endswith(u) and ({"length", "percentage", "spacing"} & set(p["kinds"])):
                try:
                    f = float(v[:-len(u)])
                    if f == f and f not in (float("inf"), float("-inf")):
                        return True
                except ValueError:
                    pass
        return False
    if isinstance(v, (int, float)):
        if v != v or v in (float("inf"), float("-inf")):
            return False
        if "integer" in p["kinds"] and v == int(v):
            return True
        return bool({"length", "percentage", "spacing"} & set(p["kinds"]))
    if hasattr(v, "suffix"):
        return v.suffix not in ANGLE_UNITS and bool({"length", "percentage", "spacing"} & set(p["kinds"]))
    return False


# ---------------------------------------------------------------------------
# Model of a declaration
# ---------------------------------------------------------------------------
class Model:
    def __init__(self):
        self.held = {}

    def clone(self):
        m = Model()
        m.held = dict(self.held)
        return m

    def get(self, name):
        if name in self.held:
            return self.held[name]
        return initial(name, self.get)

    def assign(self, name, value):
        """value: canonical for longhands, 4 canonicals for directional, dict part->canonical."""
        if name in PROPS:
            self.held[name] = value
        elif name in DIRECTIONAL:
            for n, v in zip(DIRECTIONAL[name], value):
                self.held[n] = v
        else:
            for part, names in SHORTHANDS[name].items():
                for n in names:
                    if part in value:
                        self.held[n] = value[part]
                    else:
                        self.held.pop(n, None)

    def delete(self, name):
        for n in targets(name):
            self.held.pop(n, None)

    def must_list(self, name):
        return name in self.held and self.held[name] != initial(name, self.get)


def read_all(style):
    """Everything the declaration says about itself, canonically."""
    out = {n: canon(getattr(style, n)) for n in LONGHANDS}
    out["keys"] = frozenset(style.keys())
    out["items"] = frozenset((k, canon(v)) for k, v in style.items())
    return out


def check_state(ctx, style, model, where, rng=None):
    """Compare the declaration with the model through all the ways of reading it."""
    from common import expect

    keys = set(style.keys())
    items = style.items()
    expect(len(items) == len({k for k, _ in items}), f"{where}: items() repeats a name")
    items = dict(items)
    expect(set(items) == keys, f"{where}: keys() {sorted(keys)} and items() {sorted(items)} disagree")
    unknown = keys - set(PROPS)
    expect(not unknown, f"{where}: keys() lists {sorted(unknown)}")
    for n in LONGHANDS:
        want = model.get(n)
        got = canon(getattr(style, n))
        expect(got == want, f"{where}: {n} is {got}, expected {want}")
        if n in keys:
            expect(n in model.held, f"{where}: {n} is listed although it has not been set")
            expect(canon(items[n]) == want, f"{where}: items() gives {n} as {canon(items[n])}, not {want}")
        else:
            expect(not model.must_list(n), f"{where}: {n} has been set to {want} but is not listed")
    for n, parts in DIRECTIONAL.items():
        got = canon(getattr(style, n))
        want = ("tuple",) + tuple(model.get(p) for p in parts)
        expect(got == want, f"{where}: {n} is {got}, expected {want}")
    for n, parts in SHORTHANDS.items():
        if n == "border":
            continue
        got = getattr(style, n)
        names = [x for p in parts.values() for x in p]
        for x in names:
            if model.must_list(x):
                seen = canon(getattr(got, x, "missing"))
                expect(seen == model.get(x), f"{where}: {n} shows {x} as {seen}, expected {model.get(x)}")
            elif x not in model.held:
                expect(not hasattr(got, x), f"{where}: {n} shows {x}, which has not been set")
        if not any(x in model.held for x in names):
            expect(got == "", f"{where}: {n} is {got!r} although nothing has been set")
    if rng is not None:
        n = rng.choice(NAMES)
        if n != "border":
            for spelled in (n, n.replace("_", "-")):
                got, want = canon(style[spelled]), canon(getattr(style, n))
                expect(got == want, f"{where}: [{spelled!r}] is {got}, the attribute is {want}")
    ctx.count("declaration states compared with the model")


HOW = ("attr", "item", "update")


def do_assign(rng, style, name, value, how=None):
    how = how or rng.choice(HOW)
    if how == "attr":
        setattr(style, name, value)
    else:
        spelled = name.replace("_", "-") if maybe(rng, 0.5) else name
        if how == "item":
            style[spelled] = value
        elif value is None:
            # update() takes None as "remove": spell it out
            style.update(**{spelled: "none"})
        else:
            style.update(**{spelled: value})
    return how


def do_delete(rng, style, name):
    r = rng.randrange(4)
    spelled = name.replace("_", "-") if maybe(rng, 0.5) else name
    if r == 0:
        delattr(style, name)
    elif r == 1:
        del style[spelled]
    else:
        style.update(**{spelled: None})


def valid_any(rng, name):
    """A valid value for any name: (API value, model value)."""
    if name in PROPS:
        return valid(rng, name)
    if name in DIRECTIONAL:
        return valid_directional(rng, name)
    return valid_shorthand(rng, name)


def valid_directional(rng, name, n=None):
    longhand = DIRECTIONAL[name][0]
    n = n or rng.randrange(0, 5)
    if n == 0:
        while True:
            v, c = valid(rng, longhand)
            return v, [c] * 4
    vs = [valid(rng, longhand) for _ in range(n)]
    if maybe(rng, 0.3):  # equal members, in every pattern
        pool = vs[:rng.randrange(1, n + 1)]
        vs = [rng.choice(pool) for _ in range(n)]
    idx = {1: (0, 0, 0, 0), 2: (0, 1, 0, 1), 3: (0, 1, 2, 1), 4: (0, 1, 2, 3)}[n]
    return dress(rng, tuple(v[0] for v in vs)), [vs[i][1] for i in idx]


def valid_shorthand(rng, name, max_parts=3):
    parts = ["width", "style", "color"]
    rng.shuffle(parts)
    parts = parts[:rng.randrange(1, max_parts + 1)]
    as_text = maybe(rng, 0.5)
    values, model = [], {}
    lead = "outline" if name == "outline" else "border_top"
    for p in parts:
        while True:
            v, c = valid(rng, f"{lead}_{p}")
            if isinstance(v, str) and v in GLOBAL_WORDS:
                continue  # which part it stands for is not determined
            if as_text:
                v = "none" if v is None else str(v)
                if maybe(rng, 0.5) or "(" not in v:
                    v = v.replace(" ", "")
            break
        values.append(v)
        model[p] = c
    if as_text:
        return dress(rng, rng.choice([" ", "  ", "\t", "\n "]).join(values)), model
    return dress(rng, rng.choice([list, tuple])(values)), model


# Properties the layout of the supported constructs does not depend on. (Overflow, clear and the like do
# matter in CSS; nothing is claimed about them.)
NOISE = [n for n in ("background_color", "border_bottom_color", "border_bottom_style", "border_collapse", "border_color", "border_left_color",
                     "border_left_style", "border_right_color", "border_right_style", "border_spacing", "border_style", "border_top_color",
                     "border_top_style", "caption_side", "clip", "color", "cursor", "empty_cells", "orphans", "outline", "outline_color",
                     "outline_style", "outline_width", "page_break_after", "page_break_before", "page_break_inside", "quotes", "table_layout",
                     "text_align", "text_decoration", "text_transform", "visibility", "visibility", "visibility", "white_space", "widows",
                     "z_index", "z_index")]


def sprinkle(rng, spec, intrinsic=True):
    """Set properties (and intrinsic sizes of boxes that are not replaced) that must not matter."""
    if maybe(rng, 0.5):
        return spec
    p = rng.choice([0.1, 0.5, 1])
    everywhere = rng.choice(NOISE) if maybe(rng, 0.3) else None
    same = valid_any(rng, everywhere)[0] if everywhere else None
    for s in spec.walk():
        if everywhere:
            s.style[everywhere] = same
        if maybe(rng, p):
            for _ in range(rng.choice([1, 1, 2, 4])):
                n = rng.choice(NOISE)
                s.style[n] = valid_any(rng, n)[0]
        if intrinsic and not s.intrinsic and maybe(rng, p / 2) and s.style.get("display") in ("block", "list-item"):
            for k in ("width", "height", "ratio"):
                if maybe(rng, 0.6):
                    s.intrinsic[k] = rng.choice([0, 1, 10, 50, 300, 2.5])
            for k in ("exact_width", "exact_height"):
                if maybe(rng, 0.3):
                    s.intrinsic[k] = maybe(rng, 0.5)
    return spec
