"""C18: declarations do not share state, values are immutable, nothing accumulates."""
import copy
import gc

from common import expect
from docs import Node, build, display, lay, maybe
from grammar import (LONGHANDS, NAMES, Model, canon, check_state, do_assign, do_delete, g_cursor, g_quotes, g_spacing, hostile,
                     valid_any)
from mixed import gen_mixed, mark

CASES = {"quick": 6000, "thorough": 60000}
RULE = ("Several declarations and nodes, bound and unbound, some copied from each other, some given the very same value "
        "objects, undergo random operations, hostile assignments, layouts and attempts to modify values that were read or "
        "passed in; after each step every declaration is compared with its own model and a new declaration with the initial "
        "values. A share of the cases repeats one workload and watches the number of live objects. "
        "Distinct = distinct operation sequences.")


def attack(ctx, rng, v):
    """Try to modify a value obtained from, or handed to, a declaration."""
    before = canon(v)
    if isinstance(v, list):
        attempts = [lambda: v.append("auto"), lambda: v.extend(["auto"]), lambda: v.insert(0, "auto"), lambda: v.pop(),
                    lambda: v.pop(0), lambda: v.remove(v[0]), lambda: v.clear(), lambda: v.reverse(), lambda: v.sort(),
                    lambda: v.__setitem__(0, "wait"), lambda: v.__delitem__(0), lambda: v.__setitem__(slice(None), []),
                    lambda: v.__delitem__(slice(None)), lambda: v.__iadd__(["auto"]), lambda: v.__imul__(3),
                    lambda: v.__imul__(0)]
        f = rng.choice(attempts)
        try:
            f()
            failed = False
        except TypeError:
            failed = True
        expect(canon(v) == before, f"{before} became {canon(v)}")
        expect(failed, f"modifying {before} was not refused")
        ctx.count("modifications refused")
        dup = v.copy()
        expect(canon(dup) == before and canon(v) == before, "copying a list value changed it")
        return True
    for attr in ("url", "horizontal", "vertical", "top", "right", "left", "bottom"):
        if hasattr(v, attr) and hasattr(type(v), attr):
            try:
                setattr(v, attr, "x")
                expect(False, f"{attr} of {before} could be replaced")
            except AttributeError:
                ctx.count("modifications refused")
            expect(canon(v) == before, f"{before} became {canon(v)}")
            return True
    return False


def case(ctx, rng, idx):
    from colosseum import CSS

    if idx % 8 == 7:
        return accumulate(ctx, rng)
    if idx % 100 == 4:
        return accumulate_distinct(ctx, rng)
    decls = [[CSS(), Model(), None]]
    steps = []
    for step in range(rng.choice([6, 14])):
        k = rng.randrange(len(decls))
        style, model, node = decls[k]
        r = rng.random()
        if r < 0.3:
            # one value object for several declarations
            n = rng.choice(NAMES)
            v, m = valid_any(rng, n)
            for d in decls if maybe(rng, 0.4) else [decls[k]]:
                if maybe(rng, 0.8):
                    do_assign(rng, d[0], n, v)
                    d[1].assign(n, m)
            steps.append(("set", n))
            ctx.trace("set", n, repr(v))
        elif r < 0.38:
            do_delete(rng, style, n := rng.choice(NAMES))
            model.delete(n)
            steps.append(("del", n))
        elif r < 0.55:
            n = Node() if maybe(rng, 0.5) else None
            decls.append([style.copy(n), model.clone(), n])
            if n is not None and maybe(rng, 0.5):
                n.style = decls[-1][0]
            steps.append(("copy", k))
        elif r < 0.62:
            decls.append([CSS(), Model(), None])
            steps.append(("new",))
        elif r < 0.8:
            # containers passed in remain the caller's
            which, (v, m) = rng.choice([("cursor", g_cursor(rng)), ("quotes", g_quotes(rng)),
                                        ("border_spacing", g_spacing(rng))])
            if isinstance(v, tuple):
                v = list(v)
            keep = copy.copy(v)
            setattr(style, which, v)
            model.assign(which, m)
            if isinstance(v, list):
                expect(len(v) == len(keep) and all(a is b for a, b in zip(v, keep)), f"{which} = {keep!r} changed its argument")
                how = rng.randrange(3)
                if how == 0:
                    v.clear()
                elif how == 1:
                    v.append("bogus")
                else:
                    v[0] = "bogus"
                ctx.count("arguments modified afterwards")
            steps.append(("container", which, isinstance(v, list)))
            ctx.trace(which, repr(keep))
        elif r < 0.88:
            vals = [getattr(style, n) for n in ("cursor", "clip", "border_spacing", "quotes")] + [x for _, x in style.items()]
            ok = [attack(ctx, rng, v) for v in vals]
            steps.append(("attack", sum(ok)))
        elif r < 0.94:
            try:
                setattr(style, rng.choice(NAMES), hostile(rng))
                # whatever was accepted: take it out again
                decls[k] = [CSS(), Model(), None]
            except ValueError:
                pass
            steps.append(("hostile",))
        else:
            root = build(gen_mixed(rng))
            lay(display(rng), root)
            steps.append(("layout",))
        if len(decls) > 6:
            del decls[rng.randrange(len(decls))]
        for j, (s, m, n) in enumerate(decls):
            check_state(ctx, s, m, f"step {step} {steps[-1]} on declaration {k}: declaration {j}")
        check_state(ctx, CSS(), Model(), f"step {step} {steps[-1]}: a new declaration")
        listings(ctx, rng, [s for s, _, _ in decls])
    ctx.sig(steps)


VIEWS = ["margin", "padding", "border_color", "border_style", "border_top", "border_left", "outline"]


def listings(ctx, rng, styles):
    """What was read from one declaration stays so while others are read, and is the reader's own."""
    held = []
    for s in styles:
        for name in ["keys", "items", *rng.sample(VIEWS, 2)]:
            v = getattr(s, name)() if name in ("keys", "items") else getattr(s, name)
            held.append((name, v, shown(v)))
    for name, v, was in held:
        expect(shown(v) == was, f"{name} read from one declaration has become {shown(v)}, was {was}")
        ctx.count("readings held")
    if maybe(rng, 0.3):
        name, v, _ = rng.choice(held)
        if isinstance(v, set):
            rng.choice([lambda: v.add("bogus"), v.clear])()
        elif isinstance(v, list):
            rng.choice([lambda: v.append(("bogus", 1)), v.clear, v.reverse])()
        elif hasattr(v, "to_dict"):
            v.to_dict().clear()
        ctx.count("readings modified")


def shown(v):
    if hasattr(v, "to_dict"):
        return [(k, canon(x)) for k, x in v.to_dict().items()]
    if isinstance(v, (set, frozenset)):
        return frozenset(v)
    if isinstance(v, (list, tuple)):
        return [canon(x) if not isinstance(x, tuple) else (x[0], canon(x[1])) for x in v]
    return str(v)


def accumulate(ctx, rng):
    """The same workload again and again leaves nothing behind."""
    from colosseum import CSS

    todo = []
    for _ in range(120):
        n = rng.choice(NAMES)
        todo.append((n, rng.choice([valid_any(rng, n)[0], valid_any(rng, n)[0], hostile(rng)])))
    spec = mark(gen_mixed(rng))
    d = display(rng)
    names = [n for n, _ in todo]

    def work():
        style = CSS()
        for n, v in todo:
            try:
                setattr(style, n, v)
            except ValueError:
                pass
        str(style), style.copy(), style.items()
        for n in names[:40]:
            style[n]
            del style[n]
        root = build(spec)
        lay(d, root)
        lay(d, root, "html4")

    def live():
        gc.collect()
        return len(gc.get_objects())

    work()
    work()
    a = live()
    for _ in range(4):
        work()
    b = live()
    ctx.count("workload repetitions watched", 6)
    ctx.trace("live objects", a, "->", b)
    expect(b - a < 40, f"repeating the same {len(todo)} assignments and two layouts four times left {b - a} more objects alive")
    ctx.sig("accumulate", sorted(set(names)))


def accumulate_distinct(ctx, rng):
    """Ever new values leave nothing behind either (a cache of bounded size may)."""
    from colosseum import CSS, parser
    from colosseum import units as U
    from docs import Display, Spec

    n = 12000
    base = rng.randrange(10**6)
    unit = rng.choice(["px", "em", "pt", "vw", "vmax", "%", "cm"])
    kind = rng.choice(["multiply", "negate", "parse", "assign length", "assign color", "assign integer", "cursor", "quotes",
                       "refused", "convert", "layout", "shorthand"])
    d = Display(800, 600)
    style = CSS()
    u = {"%": U.percent}.get(unit) or getattr(U, unit)

    def one(i):
        x = base + i + 0.125
        if kind == "multiply":
            x * u
        elif kind == "negate":
            -(x * u)
        elif kind == "parse":
            str(parser.units(f"{x}{unit}"))
        elif kind == "assign length":
            style.width = f"{x}{unit}"
        elif kind == "assign color":
            style.color = f"rgb({x:.0f}, {i}, 3)"
        elif kind == "assign integer":
            style.z_index = base + i
        elif kind == "cursor":
            style.cursor = f"url(a{x}), auto"
        elif kind == "quotes":
            style.quotes = [(f"<{x}", ">")]
        elif kind == "refused":
            try:
                style.width = f"{x}foo"
            except ValueError:
                pass
        elif kind == "convert":
            (x * U.vw).px(display=d)
        elif kind == "shorthand":
            style.border_top = f"{x}px solid"
        elif i % 10 == 0:
            lay(d, build(Spec({"display": "block", "width": x, "height": x})))

    def run(lo, hi):
        for i in range(lo, hi):
            one(i)
        gc.collect()
        return len(gc.get_objects())

    a = run(0, n)
    b = run(n, 2 * n)
    steps = n // 10 if kind == "layout" else n
    ctx.trace(kind, unit, "live objects", a, "->", b)
    expect(b - a < steps // 4, f"{steps} times {kind} ({unit}) with new values left {b - a} more objects alive")
    ctx.count("distinct values watched for accumulation", 2 * n)
    ctx.sig("accumulate distinct", kind, unit)
