"""C04: every box is geometrically consistent."""
from common import expect
from docs import SIDES, build, display, lay, maybe, node_type, number, walk
from mixed import gen_mixed
from monitors import check_geometry, check_tree_geometry
import harvest

CASES = {"quick": 15000, "thorough": 150000}
RULE = ("Half of the cases lay out random mixed documents (block, inline, replaced, relative, hidden) "
        "repeatedly; half drive long random histories of direct changes (positions, sizes, padding, "
        "borders, margins, resets) on trees of real boxes against a shadow model. After each step every "
        "documented edge, size and absolute position of every box is recomputed from the box's own "
        "rectangle and its ancestors' positions. Distinct = distinct (tree shape, step kinds).")

FIELDS = (["content_width", "content_height", "content_top", "content_left"] * 3
          + [f"padding_{s}" for s in SIDES] + [f"border_{s}_width" for s in SIDES]
          + [f"margin_{s}" for s in SIDES])


def bare_tree(rng):
    Node = node_type(rng)
    root = Node()
    nodes = [root]
    n = rng.choice([1, 3, 6, 12, 25])
    chain = maybe(rng, 0.2)
    for _ in range(n):
        child = Node()
        (nodes[-1] if chain else rng.choice(nodes)).add(child)
        nodes.append(child)
    if maybe(rng, 0.05):
        n = rng.choice(nodes[1:])
        for _ in range(rng.choice([40, 110, *harvest.COUNTS])):
            child = Node()
            n.add(child)
            nodes.append(child)
    return root, nodes


def case(ctx, rng, idx):
    if idx % 2 == 0:
        spec = gen_mixed(rng)
        root = build(spec, node_type(rng))
        ctx.trace(spec.show())
        for _ in range(rng.choice([1, 2, 3])):
            d = display(rng)
            standard = rng.choice(["html4", "html5"])
            lay(d, root, standard)
            ctx.count("layouts")
            ctx.trace("layout on", d, standard)
            check_tree_geometry(root, ctx)
        ctx.sig("layout", [(s.display, s.get("position"), len(s.children)) for s in spec.walk()])
        return

    d, standard = display(rng), rng.choice(["html4", "html5"])
    laid = idx % 4 == 1
    if laid:
        # a real document, laid out now and then between the changes
        spec = gen_mixed(rng)
        root = build(spec, node_type(rng))
        ctx.trace(spec.show())
        lay(d, root, standard)
        nodes = [n for n in walk(root) if n.layout is not None]
    else:
        root, nodes = bare_tree(rng)
    shadow = {id(n): {} for n in nodes}

    def note():
        for n in nodes:
            shadow[id(n)] = {f: getattr(n.layout, f) for f in FIELDS}

    if laid:
        note()
    hist = []
    for step in range(rng.choice([5, 20, 60])):
        n = rng.choice(nodes)
        if maybe(rng, 0.03):
            if laid:
                lay(d, root, standard)
                note()
            else:
                root.layout.reset()
                for s in shadow.values():
                    s.clear()
            hist.append("reset")
            ctx.trace("root.reset()")
        elif maybe(rng, 0.1):
            # what a host does with the boxes besides: this moves nothing
            if maybe(rng, 0.5):
                n.layout.dirty = rng.choice([False, True, None])
            else:
                n.layout.visible = maybe(rng, 0.5)
            hist.append("flag")
            ctx.trace(f"box {nodes.index(n)} flags", n.layout.dirty, n.layout.visible)
        else:
            f = rng.choice(FIELDS)
            v = number(rng, neg=f.startswith(("content_top", "content_left", "margin")))
            if maybe(rng, 0.05):
                v = rng.choice([0, -1, 0.5, 10**6, *harvest.NUMBERS])
            setattr(n.layout, f, v)
            shadow[id(n)][f] = v
            hist.append(f)
            ctx.trace(f"box {nodes.index(n)}.{f} = {v!r}")
        ctx.count("direct changes")
        # The stored values are the ones given ...
        for m in nodes:
            for f, v in shadow[id(m)].items():
                got = getattr(m.layout, f)
                expect(got == v, f"box {nodes.index(m)}.{f} is {got!r} after being set to {v!r}")
            for f in ("content_width", "content_height", "content_top", "content_left"):
                expect(f in shadow[id(m)] or getattr(m.layout, f) == 0,
                       f"box {nodes.index(m)}.{f} changed by itself")
        # ... and everything derived from them agrees.
        check_tree_geometry(root, ctx)
    ctx.sig("direct", [len(n.children) for n in nodes], hist)
