"""C23: validators."""
import math

from common import expect
from docs import fresh, maybe, number
from grammar import (BAD, GENERATORS, canon, dress, duck, g_bad_color, g_bad_cursor, g_bad_integer, g_bad_length, g_bad_quotes, g_bad_rect,
                     g_bad_spacing, g_color, g_cursor, g_length, g_percentage, g_quotes, g_rect, g_spacing, g_uri, hostile,
                     make_unit, num_text)

CASES = {"quick": 24000, "thorough": 200000}
RULE = ("Every validator gets values of its own domain in all spellings, labelled malformed values, values of the other domains "
        "and hostile objects of every type; numeric validators with random inclusive limits get values around them, in random "
        "order and interleaved with other validators made at the same time. Accepted values are compared with the harness's own "
        "reading; refusals must be ValidationError. Choices built from random keywords and validators are asked likewise. "
        "Distinct = distinct (validator, kind of value, outcome) sequences.")


def ask(ctx, f, v, name):
    from colosseum.exceptions import ValidationError

    try:
        return True, f(v)
    except ValidationError as e:
        expect(isinstance(e, ValueError), "a ValidationError is no ValueError")
        ctx.count("refused")
        return False, None


def finite(text):
    try:
        x = float(text)
    except ValueError:
        return None
    return x if math.isfinite(x) and "_" not in text and text.isascii() else None


def numeric(ctx, rng, sig):
    from colosseum import validators as V

    made = []
    for _ in range(rng.randrange(1, 4)):
        kind = rng.choice(["number", "integer"])
        lo = rng.choice([None, 0, -5, 1, number(rng, neg=True)])
        hi = rng.choice([None, 0, 10, 255, number(rng)])
        if kind == "integer":
            lo, hi = (None if x is None else int(x) for x in (lo, hi))
        f = V.is_number if kind == "number" else V.is_integer
        limits = {k: v for k, v in (("min_value", lo), ("max_value", hi)) if v is not None or maybe(rng, 0.3)}
        limits = {k: v for k, v in limits.items() if v is not None}
        made.append((kind, lo, hi, f(**limits) if limits else f))
    for _ in range(8):
        kind, lo, hi, f = rng.choice(made)
        base = rng.choice([x for x in (lo, hi, 0, 7, number(rng, neg=True)) if x is not None])
        x = base + rng.choice([0, 0, 1, -1]) + (rng.choice([0, 0.5, -0.5, 1e-9]) if kind == "number" else 0)
        if kind == "integer":
            x = int(x)
        else:
            x = round(float(x), 6)
        v = x
        if maybe(rng, 0.4):
            v = num_text(rng, x) if kind == "number" else str(x)
            x = float(v) if kind == "number" else x
        elif maybe(rng, 0.3) and x == int(x):
            v = int(x) if kind == "number" else float(x)
        ok = (lo is None or x >= lo) and (hi is None or x <= hi)
        got, r = ask(ctx, f, v, kind)
        ctx.trace(kind, lo, hi, repr(v), "->", got, r)
        expect(got == ok, f"is_{kind} between {lo} and {hi}: {v!r} was {'accepted' if got else 'refused'}")
        if got:
            expect(type(r) is (float if kind == "number" else int) and r == x, f"is_{kind}({v!r}) is {r!r}, expected {x!r}")
            ctx.count("numbers accepted")
        sig.append((kind, lo is None, hi is None, type(v).__name__, ok))
        bad = g_bad_integer(rng)
        if kind == "number":
            bad = rng.choice(["", "abc", "1px", "--1", "1,000", "1 2", "nan", "inf", "-inf", float("nan"), float("inf"), float("-inf"),
                              "1_0", "\u0661", "1%", "0x10", None, [], {}, object(), "1e999", b"\xff", (1,)])
        got, r = ask(ctx, f, bad, kind)
        expect(not got, f"is_{kind} between {lo} and {hi} accepted {bad!r} as {r!r}")


def case(ctx, rng, idx):
    from colosseum import units as U
    from colosseum import validators as V
    from colosseum.exceptions import ValidationError

    sig = []
    numeric(ctx, rng, sig)
    table = {
        "is_length": (V.is_length, g_length, g_bad_length),
        "is_percentage": (V.is_percentage, g_percentage, None),
        "is_color": (V.is_color, g_color, g_bad_color),
        "is_border_spacing": (V.is_border_spacing, g_spacing, g_bad_spacing),
        "is_rect": (V.is_rect, g_rect, g_bad_rect),
        "is_quote": (V.is_quote, g_quotes, g_bad_quotes),
        "is_uri": (V.is_uri, g_uri, None),
        "is_cursor": (V.is_cursor, g_cursor, g_bad_cursor),
    }
    for _ in range(8):
        name = rng.choice(sorted(table))
        f, good, bad = table[name]
        v, want = good(rng)
        v = dress(rng, v)
        got, r = ask(ctx, f, v, name)
        ctx.trace(name, repr(v), "->", got, r)
        expect(got, f"{name} refused {v!r}")
        expect(canon(r) == want, f"{name}({v!r}) is {canon(r)}, expected {want}")
        again, r2 = ask(ctx, f, r, name)
        expect(again and canon(r2) == want, f"{name} does not take its own result {r!r}")
        ctx.count("structured values accepted")
        if name == "is_percentage":
            n = number(rng)
            b = rng.choice([-n - 1, f"{-n - 0.5}%", make_unit(-n - 1, "%"), f"{n}px", f"{n}", n, make_unit(n, "em"), "%", "x%", "nan%",
                            "1_0%", "", None, [], f"{n}%%", g_bad_length(rng)])
        elif name == "is_uri":
            ok = str(g_uri(rng)[0])
            while ok.count(")") > 1:
                ok = str(g_uri(rng)[0])
            b = rng.choice([ok + rng.choice(";,.x'\"!("), rng.choice(";,.x'\"!(") + ok, ok[:-1], ok[1:], ok.replace("(", " ", 1),
                            "url" + ok, f"{ok} {ok[:-1]}",
                            "url('x)", 'url(x")', "url(')", 'url( " )', """url('x")""", """url("x')""",
                            "x.png", "url(x.png", "url x", "uri(x)", "(x)", "", None, 1, [], "auto", "ur(x)", b"url(x)", ["url(x)"]])
        else:
            b = bad(rng)
        if name in ("is_length", "is_percentage", "is_border_spacing") and isinstance(b, str) and finite(b) is not None:
            b = "x" + b
        if name == "is_color" and not isinstance(b, str) and maybe(rng, 0.5):
            b = hostile(rng)
            b = b if not isinstance(b, str) and not hasattr(b, "rgb") else "@"
        if maybe(rng, 0.05):
            b = duck(rng)
        got, r = ask(ctx, f, b, name)
        if isinstance(b, str) and b in ("initial", "none"):
            pass
        else:
            expect(not got, f"{name} accepted {b!r} as {r!r}")
        sig.append((name, type(v).__name__, type(b).__name__))
        # anything else: a result or a ValidationError, nothing else
        h = hostile(rng)
        ask(ctx, rng.choice([V.is_number, V.is_integer] + [x[0] for x in table.values()]), h, "hostile")
        ctx.count("hostile values judged")
    choices(ctx, rng, sig, table)
    ctx.sig(sig)


WORDS = ["auto", "none", "left", "right", "both", "thin", "x-large", "inherit", "a"]


def choices(ctx, rng, sig, table):
    from colosseum.constants import Choices

    words = rng.sample(WORDS, rng.randrange(0, 5))
    # validators asked in the order given; only ones whose domains do not overlap are combined
    kind = rng.choice([None, "is_length", "is_color", "is_rect", "is_percentage", "is_uri"])
    extra = rng.choice([None, ["inherit"], ["initial", "unset"]])
    c = Choices(*[None if w == "none" else w for w in words], validators=[table[kind][0]] if kind else None,
                explicit_defaulting_constants=extra)
    for _ in range(4):
        r = rng.random()
        if r < 0.4 or not kind:
            v = rng.choice(WORDS + ["initial", "unset", "top", "Auto", "auto ", "", 1j, None])
            listed = v in words or (v is None and "none" in words) or (extra is not None and v in extra)
            want = None if v in ("none", None) else v
            if isinstance(v, str) and v and maybe(rng, 0.2):
                # what is not exactly a keyword is none
                v = rng.choice([v + " ", " " + v, v.upper(), v.title(), v + v, v[:-1], v.replace("-", "_") + "_", "-" + v, v + "\n"])
                listed = False if kind != "is_color" else None
                if v in words or v == "none" or (extra and v in extra):
                    listed = None
        elif r < 0.75:
            v, want = table[kind][1](rng)
            listed = True
        else:
            v = rng.choice(["@!", "foo(1)", object(), {}, "10foo", "#12", [], set(), ["auto"], bytearray(), duck(rng)])
            listed, want = False, None
        if listed is None:
            continue
        v = fresh(v) if isinstance(v, str) else v
        try:
            got = c.validate(v)
            ok = True
        except ValueError:
            ok = False
        ctx.trace("choices", words, kind, extra, repr(v), "->", ok)
        expect(ok == listed, f"Choices of {words}, {kind}, {extra}: {v!r} was {'accepted' if ok else 'refused'}")
        if ok:
            expect(canon(got) == (want if isinstance(want, tuple) else canon(want)), f"Choices of {words}, {kind}: {v!r} gave {got!r}")
        ctx.count("choices asked")
        sig.append(("choices", kind, ok))
