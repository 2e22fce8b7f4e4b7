"""C16: colours."""
import colorsys
import itertools
from fractions import Fraction

from common import expect, near
from cssnames import NAMED
from docs import fresh, maybe
from grammar import alpha, canon, channel, g_bad_color, g_color, pad

CASES = {"quick": 24576, "thorough": 120000}
RULE = ("Every three-digit hexadecimal colour (one per case) and every colour name in several spellings, plus random 4, 6 "
        "and 8 digit forms, rgb(), rgba(), hsl() and hsla() strings and objects, and malformed strings, through the parser "
        "and through colour properties. The four components are compared with the harness's own reading (names: the CSS "
        "Color Level 4 table) and HSL conversions with an exact-rational and a colorsys oracle. "
        "Distinct = distinct sets of colours.")


def exact_hsl(h, s, l):
    """CSS Color 4, 7.1: hslToRgb, exactly."""
    h = Fraction(h) % 360
    s, l = Fraction(s), Fraction(l)

    def f(n):
        k = (n + h / 30) % 12
        a = s * min(l, 1 - l)
        return l - a * max(-1, min(k - 3, 9 - k, 1))

    return f(0), f(8), f(4)


def case(ctx, rng, idx):
    from colosseum import CSS, parser
    from colosseum.colors import hsl, rgb

    todo = []
    d3 = f"{idx % 4096:03x}"
    if maybe(rng, 0.5):
        d3 = d3.upper()
    todo.append(("#" + d3, ("rgb", *[int(c * 2, 16) for c in d3], 1.0)))
    name = sorted(NAMED)[idx % len(NAMED)]
    todo.append((rng.choice([name, name.upper(), name.title(), fresh(name)]), ("rgb", *NAMED[name], 1.0)))
    todo += [g_color(rng) for _ in range(20)]
    props = ["color", "background_color", "border_top_color", "border_right_color", "border_bottom_color",
             "border_left_color", "outline_color"]
    style = CSS()
    for v, want in todo:
        ctx.trace(repr(v), "->", want)
        c = parser.color(v)
        expect(canon(c) == want, f"{v!r} is {canon(c)}, expected {want}")
        twin = parser.color(fresh(v)) if isinstance(v, str) else (rgb if want[0] == "rgb" else hsl)(*want[1:])
        expect(c == twin and not c != twin, f"{v!r}, read twice, gives unequal colours")
        expect(hash(c) == hash(twin), f"{v!r}, read twice, gives colours of different hashes")
        k = rng.randrange(1, 5)
        off = list(want)
        off[k] = off[k] + rng.choice([1, -1, 0.5, 0.01, 1e-6])
        other = (rgb if want[0] == "rgb" else hsl)(*off[1:])
        expect(c != other and not c == other, f"{c!r} equals {other!r}")
        for alien in (str(c), want, want[1:], None, (hsl if want[0] == "rgb" else rgb)(*want[1:])):
            expect(not c == alien, f"{c!r} equals {alien!r}")
        p = rng.choice(props)
        setattr(style, p, v)
        expect(canon(getattr(style, p)) == want, f"{p} = {v!r} holds {canon(getattr(style, p))}, expected {want}")
        check_rgb(ctx, c, want)
        if want[0] == "rgb":
            # spelling the same colour in other ways gives the same colour
            r, g, b, a = want[1:]
            same = [f"rgb({r},{g},{b})", f"#{r:02x}{g:02X}{b:02x}"] if a == 1 else [f"rgba({r}, {g}, {b}, {a!r})"]
            for t in same:
                expect(canon(parser.color(t)) == want, f"{t!r} is {canon(parser.color(t))}, {v!r} is {want}")
            expect(canon(parser.color(str(c))) == want, f"{v!r} prints as {c}, which does not read back")
        ctx.count("colours compared")
    for _ in range(8):
        h = rng.choice([rng.randrange(-720, 1080), rng.uniform(0, 360), 60 * rng.randrange(-6, 12)])
        s, l, a = rng.choice([0, 1, 0.5, rng.random()]), rng.choice([0, 1, 0.5, rng.random()]), alpha(rng)
        check_rgb(ctx, hsl(h, s, l, a), ("hsl", h, s, l, a))
    for _ in range(10):
        bad = g_bad_color(rng)
        if isinstance(bad, str) and bad.lower() in NAMED:
            continue
        for how in (parser.color, lambda v: setattr(style, "color", v)):
            try:
                r = how(bad)
                expect(False, f"{bad!r} was read as {r}")
            except ValueError:
                ctx.count("malformed refused")
    ctx.sig([repr(v) for v, _ in todo])


def check_rgb(ctx, c, want):
    r = c.rgb
    expect(canon(c) == want, f"reading .rgb changed the colour {want}")
    got = canon(r)
    expect(got[0] == "rgb", f"{want}.rgb is {got}")
    if want[0] == "rgb":
        expect(got == want, f"{want}.rgb is {got}")
        return
    h, s, l, a = want[1:]
    expect(got[4] == a, f"{want}.rgb has alpha {got[4]}")
    ideal = exact_hsl(h, s, l)
    lib = colorsys.hls_to_rgb((h % 360) / 360, l, s)
    for x, e, e2 in zip(got[1:4], ideal, lib):
        expect(near(float(e), e2), "the oracles disagree")
        expect(isinstance(x, int) and 0 <= x <= 255, f"{want}.rgb has the component {x!r}")
        expect(abs(x - 255 * e) <= Fraction(1, 2) + Fraction(1, 10**6), f"{want}.rgb is {got}, ideally "
               f"{[float(255 * i) for i in ideal]}")
    ctx.count("HSL conversions compared")
