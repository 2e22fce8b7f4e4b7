"""C13: 1-4 value expansion of the directional properties."""
from common import expect
from docs import Node, maybe
from grammar import (DIRECTIONAL, LONGHANDS, NAMES, Model, canon, check_state, do_assign, do_delete, invalid_for, read_all, valid,
                     valid_any, valid_directional)

CASES = {"quick": 18000, "thorough": 160000}
RULE = ("Directional properties in random prior states get single values and tuples of 1 to 4 random valid values of "
        "every kind, tuples with an invalid member at every position, tuples of other lengths, side assignments and "
        "deletions, through every interface. The sides, the tuple read back and every other property are compared "
        "with the model. Distinct = distinct sequences of (property, tuple length, kinds of values, outcome).")


def case(ctx, rng, idx):
    node = Node()
    style, model = node.style, Model()
    steps = []
    # few properties per history, so that operations on the same one meet
    names = rng.sample(sorted(DIRECTIONAL), rng.choice([1, 1, 2, 5]))
    if maybe(rng, 0.15):  # everything else is set as well
        for n in rng.sample(NAMES, len(NAMES)):
            v, m = valid_any(rng, n)
            do_assign(rng, style, n, v)
            model.assign(n, m)
    for step in range(10):
        name = rng.choice(names)
        sides = DIRECTIONAL[name]
        r = rng.random()
        if r < 0.55:
            v, cs = valid_directional(rng, name)
            do_assign(rng, style, name, v)
            model.assign(name, cs)
            what = (name, "set", len(v) if isinstance(v, tuple) else 0, [c[0] for c in cs])
        elif r < 0.7:
            n = rng.choice(sides)
            v, c = valid(rng, n)
            do_assign(rng, style, n, v)
            model.assign(n, c)
            what = (n, "set side")
        elif r < 0.8:
            n = rng.choice([name, name, rng.choice(sides)])
            do_delete(rng, style, n)
            model.delete(n)
            v, what = None, (n, "delete")
        else:
            n = rng.choice([0, 1, 2, 3, 4, 4, 5, 6, 8])
            v = [valid(rng, sides[0])[0] for _ in range(n)]
            if 1 <= n <= 4:
                k = rng.randrange(n)
                v[k] = invalid_for(rng, sides[0])
            else:
                k = None
            v = tuple(v)
            before = read_all(style)
            try:
                do_assign(rng, style, name, v)
                expect(False, f"{name} = {v!r} was accepted")
            except ValueError:
                pass
            expect(read_all(style) == before, f"refusing {name} = {v!r} changed the declaration")
            what = (name, "refused", n, k)
        ctx.trace(what, repr(v))
        check_state(ctx, style, model, f"after {what} {v!r}")
        got = getattr(style, name)
        expect(isinstance(got, tuple) and len(got) == 4, f"{name} reads as {got!r}")
        # what is read can be assigned back
        if maybe(rng, 0.3) and what[1] != "refused" and not any(canon(x) == ("default",) for x in got):
            setattr(style, name, got)
            model.assign(name, [model.get(s) for s in sides])
            check_state(ctx, style, model, f"after assigning {name} back")
            ctx.count("read-back assignments")
        steps.append(what)
        ctx.count("directional steps")
    ctx.sig(steps)
