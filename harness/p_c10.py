"""C10: assigning to a property either stores the value or is refused without a trace."""
from common import expect
from docs import Node, maybe
from grammar import (DIRECTIONAL, HOW, LONGHANDS, NAMES, PROPS, SHORTHANDS, Model, canon, check_state, do_assign,
                     hostile, invalid_for, read_all, targets, valid, valid_any)

CASES = {"quick": 24000, "thorough": 250000}
RULE = ("Declarations bound to a node, in a random prior state, receive a stream of assignments to every property "
        "through every interface: values labelled valid or invalid by the harness's own grammar and unlabelled "
        "hostile values of every type. The monitor checks that the outcome is either ValueError with every getter, "
        "keys(), items() and the dirtiness of the node and its child unchanged, or that exactly the named property "
        "changed; labelled values must go the labelled way and valid ones must be held canonically. "
        "Distinct = distinct (property, kind of value, outcome).")
ASSUMPTIONS = ["Values whose validity CSS or the library leaves open (e.g. negative padding, case variants, "
               "surrounding white space) are only checked for totality and atomicity."]


def bind(rng):
    node, child = Node(), Node()
    node.add(child)
    return node, child


def case(ctx, rng, idx):
    node, child = bind(rng)
    style, model = node.style, Model()
    dense = rng.sample(NAMES, len(NAMES)) if maybe(rng, 0.15) else []
    for n in dense or [rng.choice(NAMES) for _ in range(rng.randrange(0, 6))]:
        v, m = valid_any(rng, n)
        do_assign(rng, style, n, v)
        model.assign(n, m)
        ctx.trace("set", n, repr(v))
    for _ in range(8):
        name = rng.choice(NAMES) if maybe(rng, 0.8) else rng.choice(list(DIRECTIONAL) + list(SHORTHANDS))
        label = rng.choice(["valid", "invalid", "hostile"])
        want = None
        if label == "valid":
            value, want = valid_any(rng, name)
        elif label == "hostile":
            value = hostile(rng)
        elif name in PROPS:
            value = invalid_for(rng, name)
        else:
            value = invalid_compound(rng, name)
        clean = rng.choice([False, None, True])
        node.layout.dirty = clean
        child.layout.dirty = clean
        before = read_all(style)
        how = rng.choice(HOW if value is not None else ("attr", "item"))
        ctx.trace(label, name, "=", repr(value)[:200], "via", how)
        try:
            do_assign(rng, style, name, value, how)
            outcome = "stored"
        except ValueError:
            outcome = "refused"
        expect(label == "hostile" or outcome == {"valid": "stored", "invalid": "refused"}[label],
               f"{label} value {value!r:.200} for {name} was {outcome}")
        after = read_all(style)
        if outcome == "refused":
            expect(after == before, f"refusing {value!r:.200} for {name} changed "
                   f"{[k for k in after if after[k] != before[k]]}")
            expect(node.layout.dirty is clean and child.layout.dirty is clean,
                   f"refusing {value!r:.200} for {name} changed the dirtiness")
        elif want is not None:
            model.assign(name, want)
            check_state(ctx, style, model, f"after {name} = {value!r:.200}")
        else:
            mine = set(targets(name))
            dep = {"color": {f"border_{s}_color" for s in ("top", "right", "bottom", "left")},
                   "direction": {"text_align"}}.get(name, set())
            other = [k for k in LONGHANDS if after[k] != before[k] and k not in mine
                     and not (k in dep and k not in before["keys"])]
            expect(not other, f"{name} = {value!r:.200} also changed {other}")
            for k in mine:
                expect(after[k][0] != "odd", f"{name} = {value!r:.200} made {k} {after[k]}")
                expect(after[k][0] != "num" or "integer" in PROPS[k]["kinds"], f"{k} holds {after[k]}")
                expect(after[k][0] != "kw" or k == "cursor" or after[k][1] in PROPS[k]["words"],
                       f"{k} holds the unknown keyword {after[k]}")
                # keep the model in step
                if after[k] != model.get(k) or k in after["keys"]:
                    model.held[k] = after[k]
                if k not in after["keys"]:
                    model.held.pop(k, None)
        ctx.count(f"{label}: {outcome}")
        ctx.case_sig.append((name, type(value).__name__, label, outcome))


def invalid_compound(rng, name):
    if name in DIRECTIONAL:
        lh = DIRECTIONAL[name][0]
        n = rng.randrange(1, 5)
        vs = [valid(rng, lh)[0] for _ in range(n)]
        r = rng.random()
        if r < 0.6:
            vs[rng.randrange(n)] = invalid_for(rng, lh)
            return tuple(vs)
        if r < 0.7:
            return ()
        if r < 0.85:
            return tuple(vs + [valid(rng, lh)[0] for _ in range(5 - n)])
        v = invalid_for(rng, lh)
        return v if not isinstance(v, tuple) else "@!"
    return invalid_shorthand(rng, name)


def invalid_shorthand(rng, name):
    lead = "outline" if name == "outline" else "border_top"
    ok = {p: str(valid_text(rng, f"{lead}_{p}")) for p in ("width", "style", "color")}
    r = rng.randrange(6)
    if r == 0:
        return rng.choice(["", "  ", "\n", None, [], (), 0])
    if r == 1:
        parts = list(ok.values()) + [rng.choice(list(ok.values()))]
    elif r == 2:
        p = rng.choice(sorted(ok))
        parts = [ok[p], str(valid_text(rng, f"{lead}_{p}"))]
    elif r == 3:
        parts = [ok[p] for p in rng.sample(sorted(ok), rng.randrange(0, 3))]
        parts.insert(rng.randrange(len(parts) + 1), rng.choice(["foo", "10foo", "#12", "soli", "@!", "rgb(1,2)", "3deg"]))
    elif r == 4:
        return rng.choice([1, 2.5, {}, object(), {"a": 1}, set(), 1j, {1}])
    else:
        parts = [ok["width"], ok["style"], ok["color"], rng.choice(["foo", ok["width"], "1px"])]
    rng.shuffle(parts)
    return " ".join(parts) if maybe(rng, 0.5) else rng.choice([list, tuple])(parts)


def valid_text(rng, name):
    from grammar import GLOBAL_WORDS

    while True:
        v, c = valid(rng, name)
        v = "none" if v is None else str(v)
        if v not in GLOBAL_WORDS:
            return v.replace(" ", "")
