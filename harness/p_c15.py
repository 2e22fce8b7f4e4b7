"""C15: units of length, percentages and angles."""
import math
from fractions import Fraction

from common import Skip, expect, near
from docs import ABS_SCALE, Len, Spec, build, diff_snapshots, display, lay, length, maybe, number, round_px, snapshot_tree
from grammar import ANGLE_UNITS, LENGTH_UNITS, g_bad_length, make_unit, num_text
import flow
import harvest

CASES = {"quick": 40000, "thorough": 200000}
RULE = ("Numbers (small, huge, tiny, negative, fractional, near the constants of the code) in every unit and every form "
        "of input, converted on random displays, fonts and base sizes: the pixel value is compared with an exact-rational "
        "oracle rounded to 1/64 px; values are scaled, negated, compared, printed and parsed again; malformed ones must "
        "be refused; whole documents are laid out twice, with lengths in any unit and with their pixel equivalents. "
        "Distinct = distinct (unit, form, sign, whole/fraction/tie, display class) combinations per case.")
ASSUMPTIONS = ["Conversions that fall on a rounding tie which depends on the order of floating-point operations are "
               "skipped and counted."]


class Font:
    def __init__(self, em, ex, ch):
        self.em, self.ex, self.ch = em, ex, ch


def reference(n, unit, d, font, size):
    v = Fraction(n)
    w, h = Fraction(d.content_width), Fraction(d.content_height)
    if unit == "px":
        f = ()
    elif unit == "%":
        f = (Fraction(size), Fraction(1, 100))
    elif unit in ABS_SCALE:
        f = (ABS_SCALE[unit], Fraction(1, 72), Fraction(d.dpi))
    elif unit in ("em", "ex", "ch"):
        f = (Fraction(getattr(font, unit)), Fraction(1, 72), Fraction(d.dpi))
    else:
        f = ({"vw": w, "vh": h, "vmin": min(w, h), "vmax": max(w, h)}[unit], Fraction(1, 100))
    return round_px(v, f)


def numbers(rng):
    r = rng.random()
    if r < 0.6:
        return number(rng, neg=True)
    if r < 0.7:
        return rng.choice([1e-9, 1e-5, 123456.789, 1e9, 2**31, 2**33, 0.015625, 0.0078125, 0.0078126, -0.0])
    if r < 0.8:
        return rng.randrange(-10**6, 10**6) / 64
    return round(rng.uniform(-500, 500), rng.randrange(0, 7))


def case(ctx, rng, idx):
    from colosseum import parser, units

    d = display(rng)
    font = Font(rng.choice([12, 10.5, 16, 9]), rng.choice([5, 7.25, 8]), rng.choice([3, 6.5, 7]))
    seen = []
    for _ in range(12):
        n, unit = numbers(rng), rng.choice(LENGTH_UNITS + ["%"])
        size = number(rng)
        form = rng.choice(["str", "obj", "bare", "barestr"]) if unit == "px" else rng.choice(["str", "obj"])
        text = num_text(rng, n)
        if form == "str":
            v, n = text + unit, float(text)
        elif form == "barestr":
            v, n = text, float(text)
        elif form == "bare":
            v = n
        else:
            v = make_unit(n, unit)
        u = parser.units(v)
        ctx.trace(repr(v), "on", d, "size", size, "->", u)
        expect((u.val, u.suffix) == (n, unit), f"{v!r} parses as {u.val!r}{u.suffix}")
        again = u.px(display=d, font=font, size=size)
        got = u.px(display=d, font=font, size=size)
        expect(got == again, f"{u}: {got!r} px, then {again!r}")
        try:
            want = reference(n, unit, d, font, size)
            tie = False
        except Skip:
            ctx.count("ties skipped")
            want, tie = None, True
        if want is not None:
            expect(near(got, float(want)), f"{n!r}{unit} is {got!r} px, expected {float(want)!r} (display {d}, "
                   f"font {vars(font)}, size {size!r})")
            expect(got * 64 == int(got * 64), f"{n!r}{unit} is {got!r} px: not a multiple of 1/64")
            expect(isinstance(got, int) == (got == int(got)), f"{n!r}{unit} is {got!r} px: {type(got).__name__}")
        ctx.count("conversions compared")
        # algebra
        k = rng.choice([0, 1, 2, -1, 3, 0.5, -2.5, 10, 100])
        scaled = k * u
        expect((scaled.val, scaled.suffix) == (k * n, unit), f"{k} * {u} is {scaled.val!r}{scaled.suffix}")
        expect(((-u).val, (-u).suffix) == (-n, unit), f"-({u}) is {-u}")
        expect((u.val, u.suffix) == (n, unit), f"{v!r} became {u} by being used")
        expect(u == make_unit(n, unit) and not (u != make_unit(n, unit)), f"{u} differs from an equal value")
        expect(u != make_unit(n + 1, unit) and not (u == make_unit(n + 1, unit)) or n + 1 == n,
               f"{u} equals {n + 1}{unit}")
        for m in (n + rng.choice([-1, 1]) * rng.choice([1e-3, 1 / 64, 1 / 128, 1e-6, 0.1, 0.5]), math.nextafter(n, math.inf), -n):
            twin = make_unit(m, unit)
            expect((u == twin) == (m == n) and (u != twin) == (m != n), f"{u} == {m!r}{unit} is {u == twin}")
        other = rng.choice([x for x in LENGTH_UNITS + ["%"] if x != unit])
        expect(u != make_unit(n, other) and not (u == make_unit(n, other)), f"{u} equals {n}{other}")
        # print and parse
        for printed in (str(u), repr(u), f"{u}"):
            back = parser.units(printed)
            expect((back.val, back.suffix) == (n, unit) and back == u, f"{v!r} prints as {printed!r}, which reads {back.val!r}")
        if n == int(n):
            expect(str(u) == f"{int(n)}{unit}", f"{n!r}{unit} prints as {u}")
        seen.append((unit, form, n < 0, n == int(n), tie, d.content_width > d.content_height))
    for _ in range(3):
        bad = g_bad_length(rng)
        try:
            r = parser.units(bad)
            expect(False, f"{bad!r} parses as {r}")
        except ValueError:
            ctx.count("malformed refused")
    # angles
    a, n = rng.choice(ANGLE_UNITS), numbers(rng)
    v = make_unit(n, a)
    want = {"deg": n, "grad": n * 0.9, "rad": math.degrees(n), "turn": n * 360}[a]
    got = v.deg()
    expect(near(got, want), f"{n!r}{a} is {got!r} degrees, expected {want!r}")
    expect(isinstance(got, int) == (got == int(got)), f"{n!r}{a} is {got!r} degrees")
    n2, a2 = rng.choice([n, numbers(rng), n + 1, -n]), rng.choice([a, a, rng.choice(ANGLE_UNITS)])
    w = make_unit(n2, a2)
    same = (n, a) == (n2, a2)
    expect((v == w) is same and (v != w) is not same, f"{v} == {w} is {v == w}")
    expect(not v == make_unit(n, rng.choice(LENGTH_UNITS + ["%"])) and not v == n, f"the angle {v} equals a length or number")
    # the base units themselves are unharmed
    for u in LENGTH_UNITS + ["%"] + ANGLE_UNITS:
        base = {"in": units.inch, "%": units.percent}.get(u) or getattr(units, u)
        expect(base.val == 1 and base.suffix == u, f"the unit {u} has become {base.val}{base.suffix}")
    if maybe(rng, 0.35):
        same_layout(ctx, rng, d)
    ctx.sig(seen)


def same_layout(ctx, rng, d):
    spec = flow.gen_flow(rng)
    plain = spec.clone()
    n = 0
    for s in plain.walk():
        for k, v in list(s.style.items()):
            if isinstance(v, Len) and v.unit not in ("%", "px"):
                p = v.px(d, None)
                s.style[k] = Len(float(p), "px", rng.choice(["str", "bare", "unit"]))
                n += 1
    a, b = build(spec), build(plain)
    lay(d, a)
    lay(d, b)
    ctx.trace(spec.show())
    for x, y in zip(snapshot_tree(a), snapshot_tree(b)):
        bad = diff_snapshots(x, y)
        expect(bad is None, f"lengths in other units are not laid out like their pixel equivalents: {bad}")
    ctx.count("documents laid out in other units")
    ctx.count("lengths replaced by pixels", n)
