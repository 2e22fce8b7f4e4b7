"""C14: border, border-<side> and outline shorthands."""
import itertools

from common import expect
from docs import Node, maybe
from grammar import (GLOBAL_WORDS, NAMES, SHORTHANDS, Model, canon, check_state, do_assign, do_delete, kw, read_all, targets, valid,
                     valid_any, valid_shorthand)
from p_c10 import invalid_shorthand
from p_c17 import close

GLOBALS = {kw(w) for w in GLOBAL_WORDS}

CASES = {"quick": 18000, "thorough": 160000}
RULE = ("Shorthands get one to three parts of random kinds, in every order, as strings and sequences, over random prior "
        "states of the longhands; also duplicated, unknown, surplus and empty parts, side-specific longhands in between, "
        "and deletions. All longhands, views and listings are compared with the model after each step. "
        "Distinct = distinct sequences of (shorthand, order of parts, form, outcome).")


def order(parts):
    return tuple(parts)


def again(ctx, rng, style, model):
    """What a shorthand shows can be assigned to another declaration, as it is printed."""
    from colosseum import CSS

    n = rng.choice([x for x in SHORTHANDS if x != "border"])
    names = targets(n)
    if not any(model.must_list(x) for x in names) or any(model.get(x) in GLOBALS for x in names):
        return
    other = CSS()
    text = str(getattr(style, n))
    try:
        do_assign(rng, other, n, text)
    except ValueError:
        expect(False, f"{n} prints as {text!r}, which is refused; its parts are {[(x, model.get(x)) for x in names]}")
    for x in names:
        got, want = canon(getattr(other, x)), model.get(x)
        if model.must_list(x):
            expect(close(got, want), f"{n} prints as {text!r}: {x} is {want}, read back {got}")
    ctx.count("shorthands printed and read back")


def equal(ctx, rng, style, model):
    """Two readings of a shorthand are equal exactly when the parts they show are."""
    n = rng.choice([x for x in SHORTHANDS if x != "border"])
    names = [x for x in targets(n) if model.must_list(x)]
    if not names or any(x in model.held and x not in names for x in targets(n)):
        return  # whether a part set to its initial value shows is left open
    other = style.copy()
    one = getattr(style, n)
    expect(getattr(other, n) == one and not getattr(other, n) != one, f"{n}, copied, is not equal to the original")
    x = rng.choice(targets(n))
    v, c = valid(rng, x)
    do_assign(rng, other, x, v)
    two = getattr(other, n)
    same = x in names and c == model.get(x)
    after = model.clone()
    after.assign(x, c)
    if c not in GLOBALS and after.must_list(x):
        expect((two == one) == same and (two != one) == (not same),
               f"{n} with {x} = {v!r} == {n} with {model.get(x)} is {two == one}: {two!r}, {one!r}")
    for m in SHORTHANDS:
        if m not in ("border", n):
            expect(not getattr(style, m) == one, f"{m} equals {n}: {one!r}")
    ctx.count("shorthands compared")


def case(ctx, rng, idx):
    node = Node()
    style, model = node.style, Model()
    steps = []
    if maybe(rng, 0.15):  # everything else is set as well
        for n in rng.sample(NAMES, len(NAMES)):
            v, m = valid_any(rng, n)
            do_assign(rng, style, n, v)
            model.assign(n, m)
    few = rng.sample(sorted(SHORTHANDS), rng.choice([1, 2, 6]))
    for _ in range(10):
        name = rng.choice(few)
        r = rng.random()
        if r < 0.5:
            v, m = valid_shorthand(rng, name)
            do_assign(rng, style, name, v)
            model.assign(name, m)
            what = (name, tuple(m), type(v).__name__)
        elif r < 0.7:
            n = rng.choice(targets(name))
            v, c = valid(rng, n)
            do_assign(rng, style, n, v)
            model.assign(n, c)
            what = ("longhand", n)
        elif r < 0.77:
            do_delete(rng, style, name)
            model.delete(name)
            v, what = None, ("delete", name)
        else:
            v = invalid_shorthand(rng, name)
            before = read_all(style)
            node.layout.dirty = False
            try:
                do_assign(rng, style, name, v, "attr" if v is None else None)
                expect(False, f"{name} = {v!r} was accepted")
            except ValueError:
                pass
            expect(read_all(style) == before and node.layout.dirty is False,
                   f"refusing {name} = {v!r} changed the declaration")
            what = ("refused", name)
        ctx.trace(what, repr(v))
        check_state(ctx, style, model, f"after {what} {v!r}")
        steps.append(what)
        again(ctx, rng, style, model)
        equal(ctx, rng, style, model)
        ctx.count("shorthand steps")
    ctx.sig(steps)
