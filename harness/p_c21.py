"""C21: structured values - rectangles, quotes, spacings, URIs and cursors."""
from common import expect
from docs import fresh, maybe
from grammar import (BAD, CURSORS, canon, g_bad_cursor, g_bad_quotes, g_bad_rect, g_bad_spacing, g_bad_uri, g_cursor, g_quotes, g_rect,
                     g_spacing, g_uri, make_unit)

CASES = {"quick": 40000, "thorough": 200000}
RULE = ("Rectangles, quotation marks, border spacings, URIs and cursors in every accepted form (strings with varied separators, "
        "quotes and white space, sequences, converted objects), read through the parsers and through the properties: the parts "
        "and their order are compared with the harness's own reading, then printed and parsed again; malformed ones must be "
        "refused. Distinct = distinct values.")


def case(ctx, rng, idx):
    from colosseum import CSS, parser

    style = CSS()
    sig = []
    table = [
        ("clip", parser.rect, g_rect, g_bad_rect),
        ("quotes", parser.quotes, g_quotes, g_bad_quotes),
        ("border_spacing", parser.border_spacing, g_spacing, g_bad_spacing),
        ("cursor", parser.cursor, g_cursor, g_bad_cursor),
        (None, parser.uri, g_uri, g_bad_uri),
    ]
    for name, parse, gen, bad in table:
        for _ in range(2):
            v, want = gen(rng)
            ctx.trace(name or "uri", repr(v), "->", want)
            got = parse(v)
            expect(canon(got) == want, f"{v!r} is read as {canon(got)}, expected {want}")
            # a converted value is accepted as such, by all its users
            expect(canon(parse(got)) == want, f"the converted value {got!r} is read as {canon(parse(got))}")
            back = parse(str(got))
            expect(canon(back) == want, f"{v!r} prints as {str(got)!r}, which is read as {canon(back)}")
            if name:
                other = CSS()
                setattr(style, name, v)
                setattr(other, name, getattr(style, name))
                for s in (style, other, style.copy()):
                    expect(canon(getattr(s, name)) == want, f"{name} = {v!r} holds {canon(getattr(s, name))}, expected {want}")
            parts(name, got, want)
            if name in ("clip", "quotes"):
                twin, (v2, want2) = parse(fresh(v) if isinstance(v, str) else v), gen(rng)
                if maybe(rng, 0.5):
                    v2, want2 = nearly(rng, name, want)
                near = parse(v2)
                expect(twin == got and not twin != got, f"{v!r}, read twice, gives unequal values")
                expect((near == got) == (want2 == want), f"{v!r} == {v2!r} is {near == got}")
                expect((near != got) == (want2 != want), f"{v!r} != {v2!r} is {near != got}")
                for alien in (want, str(got), None, 0, object()):
                    expect(not (got == alien), f"{got!r} equals {alien!r}")
                ctx.count(f"{name} comparisons")
            ctx.count(f"{name or 'uri'} values compared")
            sig.append((name, repr(v)))
        if bad:
            for _ in range(2):
                w = bad(rng)
                for how in (parse, lambda x: setattr(style, name, x)) if name else (parse,):
                    if isinstance(w, str) and w in ("initial", "none"):
                        continue
                    try:
                        r = how(w)
                        expect(False, f"{name}: {w!r} was read as {r!r}")
                    except ValueError:
                        ctx.count(f"{name} values refused")
                if name:
                    held = canon(getattr(style, name))
                    expect(held == want, f"{name} is {held} after {w!r} was refused")
    ctx.sig(sig)


def nearly(rng, name, want):
    """A value that differs from the one wanted in a single part, or not at all."""
    if name == "clip":
        from colosseum.shapes import Rect

        back = list(want[1:])
        if maybe(rng, 0.7):
            back[rng.randrange(4)] = ("len", 1.25, rng.choice(["px", "em"]))
        return Rect(*[make_unit(n, u) for _, n, u in back]), ("rect",) + tuple(back)
    levels = [list(x) for x in want[1:]]
    r = rng.randrange(4)
    if r == 0:
        levels[rng.randrange(len(levels))][rng.randrange(2)] += "!"
    elif r == 1:
        levels.append(["(", ")"])
    elif r == 2 and len(levels) > 1:
        levels.pop()
    return [tuple(x) for x in levels], ("quotes",) + tuple(tuple(x) for x in levels)


def parts(name, got, want):
    if name == "quotes":
        n = len(want) - 1
        expect(len(got) == n, f"{want} has {len(got)} levels")
        for level in (n, n + 3):
            for f in (got.opening, got.closing):
                try:
                    f(level)
                    expect(False, f"{want} has a level {level}")
                except IndexError:
                    pass
    elif name == "cursor":
        expect(len(got) == len(want) - 1, f"{want} has {len(got)} parts")
        expect([canon(x) for x in got] == list(want[1:]), f"{want} iterates as {list(got)}")
        n = len(want) - 1
        for i in range(-n, n):
            expect(canon(got[i]) == want[1:][i], f"part {i} of {want} is {got[i]!r}")
        for i in (n, n + 2, -n - 1):
            try:
                got[i]
                expect(False, f"{want} has a part {i}")
            except IndexError:
                pass
