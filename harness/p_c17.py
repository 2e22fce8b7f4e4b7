"""C17: the printed form of a declaration describes it completely."""
from common import expect
from docs import maybe
from grammar import (DIRECTIONAL, NAMES, PROPS, SHORTHANDS, Model, canon, check_state, do_assign, do_delete, targets, valid_any)

CASES = {"quick": 50000, "thorough": 160000}
RULE = ("Declarations built by random histories are printed; the text is split into 'name: value' parts, checked for form "
        "(sorted, dashed, only set properties, every non-initial property) and assigned into a new declaration, which must "
        "hold the same values. Distinct = distinct texts.")
ASSUMPTIONS = ["Quotes and URLs containing a semicolon, and URLs containing a quotation mark, are not generated."]


def parts_of(text):
    if not text:
        return []
    out = []
    for part in text.split("; "):
        name, sep, value = part.partition(": ")
        expect(sep, f"the part {part!r} of {text!r} is not of the form 'name: value'")
        out.append((name, value))
    return out


def close(a, b):
    """Equal, up to the digits of an HSL percentage."""
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[:1] == b[:1]:
        if a[0] == "hsl":
            return all(abs(x - y) < 1e-12 for x, y in zip(a[1:], b[1:]))
    return False


def case(ctx, rng, idx):
    from colosseum import CSS

    style, model = CSS(), Model()
    for _ in range(rng.choice([0, 1, 2, 5, 12, 25])):
        n = rng.choice(NAMES)
        if maybe(rng, 0.15):
            do_delete(rng, style, n)
            model.delete(n)
            continue
        v, m = valid_any(rng, n)
        do_assign(rng, style, n, v)
        model.assign(n, m)
    text = str(style)
    ctx.trace(repr(text))
    expect(str(style) == text, "printing twice gives different texts")
    parts = parts_of(text)
    names = [n for n, _ in parts]
    expect(names == sorted(set(names)), f"the names are not sorted and distinct: {text!r}")
    under = {n.replace("-", "_") for n in names}
    expect(not any("_" in n for n in names), f"underscores in {text!r}")
    expect(under == set(style.keys()), f"{text!r} does not list keys() {sorted(style.keys())}")
    for p in PROPS:
        if model.must_list(p):
            expect(p in under, f"{p} is set to {model.get(p)} but not printed: {text!r}")
        elif p not in model.held:
            expect(p not in under, f"{p} is not set but printed: {text!r}")
    back = CSS()
    rng.shuffle(parts)
    for n, v in parts:
        try:
            back[n] = v
        except ValueError:
            expect(False, f"the printed value of {n}, {v!r}, is refused; it stands for {model.get(n.replace('-', '_'))}")
        ctx.count("values read back")
    for p in PROPS:
        got, want = canon(getattr(back, p)), model.get(p)
        expect(close(got, want), f"{p} is {want}; read back from {text!r} it is {got}")
    twice = CSS()
    for n, v in parts_of(str(back)):
        twice[n] = v
    expect(str(twice) == str(back), f"{str(back)!r} reads back as {str(twice)!r}")
    ctx.count("declarations printed and read back")
    if parts:
        ctx.sig(text)
