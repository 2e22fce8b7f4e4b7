"""C11: a declaration behaves as a map from property names to values."""
from common import Violation, expect
from docs import Node, maybe
from grammar import (NAMES, PROPS, Model, canon, check_state, do_assign, do_delete, targets, valid_any)

CASES = {"quick": 9000, "thorough": 160000}
RULE = ("Histories of assignments, deletions, multi-property updates, copies, constructions, reads and refused "
        "operations on several declarations at once, through attributes, [] and update(), with dashed and "
        "underscored names. After every step every declaration is compared with a map model (all getters, keys(), "
        "items(), directional and shorthand views). Distinct = distinct sequence of operations and names.")

UNKNOWN = ["foo", "margin-middle", "margin_", "Color", "border_middle", "_color", "_node", "dirty", "node", "update",
           "engine", "copy", "", "-", "items", "__class__", "border-top-foo", "margin_top_", "MARGIN_TOP", "flex", "font"]


def case(ctx, rng, idx):
    from colosseum import CSS

    node = Node()  # the first declaration belongs to a node; what happens to the others is not its business
    decls = [[node.style, Model()]]
    steps = []
    for step in range(rng.choice([3, 8, 15, 25])):
        k = rng.randrange(len(decls))
        style, model = decls[k]
        node.layout.dirty = False
        r = rng.random()
        if r < 0.40:
            n = pick(rng, model)
            v, m = valid_any(rng, n)
            do_assign(rng, style, n, v)
            model.assign(n, m)
            ctx.trace(k, "set", n, repr(v))
            steps.append(("set", n))
        elif r < 0.55:
            n = pick(rng, model)
            do_delete(rng, style, n)
            model.delete(n)
            ctx.trace(k, "del", n)
            steps.append(("del", n))
        elif r < 0.70:
            # several at once; names whose longhands overlap are applied in order
            batch = {}
            for n in [pick(rng, model) for _ in range(rng.randrange(1, 6))]:
                key = n.replace("_", "-") if maybe(rng, 0.3) else n
                if any(x.replace("-", "_") == n for x in batch):
                    continue
                if maybe(rng, 0.25):
                    batch[key] = None
                    model.delete(n)
                else:
                    v, m = valid_any(rng, n)
                    batch[key] = "none" if v is None else v
                    model.assign(n, m)
            style.update(**batch)
            ctx.trace(k, "update", batch)
            steps.append(("update", len(batch)))
        elif r < 0.78:
            dup = style.copy()
            decls.append([dup, model.clone()])
            ctx.trace(k, "copied to", len(decls) - 1)
            steps.append(("copy", k))
        elif r < 0.84:
            m2, batch = Model(), {}
            for n in rng.sample(NAMES, rng.randrange(0, 5)):
                v, m = valid_any(rng, n)
                if v is None:
                    continue
                batch[n] = v
                m2.assign(n, m)
            decls.append([CSS(**batch), m2])
            ctx.trace("new", len(decls) - 1, batch)
            steps.append(("new", len(batch)))
        elif r < 0.94:
            n = rng.choice(UNKNOWN)
            what = rng.choice(["get", "set", "del", "update", "new", "update+"])
            ctx.trace(k, what, "unknown", repr(n))
            try:
                if what == "get":
                    style[n]
                elif what == "set":
                    style[n] = "auto"
                elif what == "del":
                    del style[n]
                elif what == "update":
                    style.update(**{n: rng.choice(["auto", None, 1])})
                elif what == "update+":
                    good = rng.choice(NAMES)
                    v, m = valid_any(rng, good)
                    if v is not None:
                        model.assign(good, m)
                        style.update(**{good: v, n: "auto"})
                    else:
                        style.update(**{n: "auto"})
                else:
                    CSS(**{n: "auto"})
                raise Violation(f"{what} of the unknown property {n!r} succeeded")
            except (KeyError if what in ("get", "set", "del") else NameError):
                ctx.count("unknown names refused")
            steps.append((what, n))
        else:
            n = rng.choice(sorted(PROPS))
            getattr(style, n)
            str(style), repr(style), style.keys(), style.items()
            steps.append(("read",))
        if style is not node.style or steps[-1][0] in ("copy", "new", "read"):
            expect(node.layout.dirty is False, f"{steps[-1]} on another declaration marks the layout of the first one dirty")
        if len(decls) > 5:
            del decls[rng.randrange(len(decls))]
        for j, (s, m) in enumerate(decls):
            check_state(ctx, s, m, f"step {step}, declaration {j} (acted on: {k})", rng)
    ctx.sig(steps)


def pick(rng, model):
    """Prefer names that meet what is already set."""
    if model.held and maybe(rng, 0.4):
        h = rng.choice(sorted(model.held))
        near = [n for n in NAMES if set(targets(n)) & set(targets(h))]
        return rng.choice(near)
    if maybe(rng, 0.1):
        return rng.choice(["color", "direction", "text_align", "border_top_color", "border_color"])
    return rng.choice(NAMES)
