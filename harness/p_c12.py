"""C12: every change that can affect a layout marks it dirty, and nothing else does."""
from common import expect
from docs import build, display, lay, maybe, node_type, number, walk
from grammar import (DIRECTIONAL, GLOBAL_WORDS, LONGHANDS, NAMES, PROPS, SHORTHANDS, canon, do_assign, do_delete, hostile, make_unit,
                     invalid_for, targets, valid, valid_any)
from mixed import gen_mixed, mark

CASES = {"quick": 30000, "thorough": 160000}
RULE = ("Random documents, some with undisplayed nodes, every box marked clean (or being evaluated) before each step; "
        "then one style, intrinsic-size or read operation on one node. After a change the node and all its displayed "
        "descendants must be dirty and no box outside that subtree; after a redundant set, a delete of an unset "
        "property, a refused set, a read, a copy or an operation on an unbound declaration no box may be. "
        "Distinct = distinct (operation, property, position in the tree) sequences.")
ASSUMPTIONS = ["Redundant sets are claimed for keywords, numbers, lengths, percentages, rectangles, quotes and colours that are "
               "set; setting an equal border spacing, cursor URI or shorthand again may mark the layout dirty."]


def mark_clean(root, value):
    def go(n):
        if n.layout is not None:
            n.layout.dirty = value
        for c in n.children:
            go(c)

    go(root)
    for n in walk(root):
        if n.layout is not None:
            expect(n.layout.dirty is value, "a box could not be marked clean")


def subtree_displayed(node):
    """The node and the descendants reached through nodes with boxes."""
    out = []
    if node.layout is None:
        return out
    out.append(node)
    for c in node.children:
        out += subtree_displayed(c)
    return out


def case(ctx, rng, idx):
    spec = mark(gen_mixed(rng, hidden=rng.choice([0, 0.1])))
    kind = node_type(rng)
    root = build(spec, kind)
    if maybe(rng, 0.7):
        lay(display(rng), root)
    nodes = list(walk(root))
    ctx.trace(kind.__name__, spec.show())
    steps = []
    for step in range(rng.choice([2, 5, 10])):
        clean = rng.choice([False, None])
        n = rng.choice(nodes)
        where = next(i for i, x in enumerate(nodes) if x is n)
        style = n.style
        r = rng.random()
        mark_clean(root, clean)
        if r < 0.35:
            name = rng.choice(NAMES)
            before = [canon(getattr(style, x)) for x in LONGHANDS]
            v, _ = valid_any(rng, name)
            if maybe(rng, 0.25):
                near = [x for x in sorted(PROPS) if hasattr(getattr(style, x), "suffix")]
                if near:
                    # a length that differs a little from the present one
                    name = rng.choice(near)
                    u = getattr(style, name)
                    v = make_unit(u.val + rng.choice([0.25, 0.5, 1, 1 / 64, 1e-3, 1e-6, 10]), u.suffix)
            do_assign(rng, style, name, v)
            changed = before != [canon(getattr(style, x)) for x in LONGHANDS]
            what = ("set", name, repr(v)[:80])
            if not changed:
                if not steady(name, v, before):
                    continue
        elif r < 0.5:
            name = rng.choice(NAMES)
            held = [x for x in LONGHANDS if x in style.keys()]
            if held and maybe(rng, 0.6):
                h = rng.choice(held)
                name = rng.choice([m for m in NAMES if h in targets(m)])
            before = [canon(getattr(style, x)) for x in LONGHANDS]
            had = bool(set(targets(name)) & style.keys())
            do_delete(rng, style, name)
            changed = before != [canon(getattr(style, x)) for x in LONGHANDS]
            what = ("del", name)
            if not changed and (had or name in SHORTHANDS):
                continue  # an explicitly set initial value: not claimed
        elif r < 0.65:
            name = rng.choice([x for x in sorted(PROPS) if not {"spacing", "cursor"} & set(PROPS[x]["kinds"])])
            v, m = valid(rng, name)
            do_assign(rng, style, name, v)
            mark_clean(root, clean)
            # the same value again, possibly spelled otherwise
            v2 = v
            if m[0] == "len" and maybe(rng, 0.5):
                v2 = f"{m[1]!r}{m[2]}" if "e" not in repr(m[1]) else v
            do_assign(rng, style, name, v2)
            changed = False
            what = ("again", name, repr(v2)[:80])
            style = None
        elif r < 0.75:
            name = rng.choice(sorted(PROPS))
            bad = invalid_for(rng, name)
            try:
                do_assign(rng, style, name, bad, "attr")
                continue
            except ValueError:
                pass
            changed = False
            what = ("refused", name)
        elif r < 0.87:
            attr = rng.choice(["width", "height", "ratio", "exact_width", "exact_height", "is_replaced"])
            old = getattr(n.intrinsic, attr)
            new = rng.choice([old, old, number(rng), None]) if attr in ("width", "height", "ratio") else rng.choice([True, False])
            if type(old) in (int, float) and maybe(rng, 0.3):
                new = old + rng.choice([0.25, -0.25, 1 / 64, 1e-4, 1, -1, 0.5])
            if type(new) is float:
                new = float(repr(new))  # equal, not identical
            elif type(new) is int:
                new = int(repr(new))
            setattr(n.intrinsic, attr, new)
            expect(getattr(n.intrinsic, attr) == new, f"intrinsic {attr} is not {new!r}")
            changed = old != new
            what = ("intrinsic", attr, repr(new))
        else:
            what = ("read",)
            for x in rng.sample(NAMES, 8):
                getattr(style, x), style[x.replace("_", "-")]
            str(style), style.keys(), style.items(), style.dirty, n.intrinsic.dirty, n.intrinsic.width
            dup = style.copy()
            dup.update(width=3, color="red", margin=(1, 2))
            if maybe(rng, 0.5):
                other = kind()
                mine = style.copy(other)
                mine.height = 7
                expect(other.layout.dirty is True, "a bound copy does not dirty its own node")
            changed = False
        ctx.trace(f"node {where}", what, "changed" if changed else "no change", "clean =", clean)
        dirty = {id(x) for x in subtree_displayed(n)} if changed else set()
        for i, x in enumerate(nodes):
            if x.layout is None:
                continue
            want = True if id(x) in dirty else clean
            expect(x.layout.dirty is want, f"after {what} on node {where}: the box of node {i} has dirty = "
                   f"{x.layout.dirty!r}, expected {want!r}")
            expect(x.style.dirty is x.layout.dirty and x.intrinsic.dirty is x.layout.dirty,
                   "style, intrinsic and box disagree about the dirtiness")
            ctx.count("boxes observed")
        ctx.count("changes" if changed else "non-changes")
        steps.append((what[0], what[1:2], where, len(dirty)))
    if steps:
        ctx.sig(steps)


def steady(name, v, before):
    """True if setting a value equal to the present one is claimed to be no change."""
    if name in PROPS:
        return not {"color", "spacing", "cursor"} & set(PROPS[name]["kinds"]) and name != "text_align"
    return name in ("margin", "padding", "border_width", "border_style")
