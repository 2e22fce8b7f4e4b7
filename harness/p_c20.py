"""C20: what the engine does not support is refused, not laid out wrongly."""
from common import Violation, expect
from docs import Node, Spec, build, diff_snapshots, display, lay, maybe, snapshot_tree, walk
from mixed import gen_mixed, mark, set_style

CASES = {"quick": 30000, "thorough": 160000}
RULE = ("Random supported documents must be laid out; then one random displayed node is made unsupported (floated, absolutely "
        "or fixed positioned, a replaced block, an inline-block in an inline context), with other unsupported nodes hidden "
        "elsewhere: layout must raise NotImplementedError. Hiding or restoring the node must give the original layout again. "
        "Distinct = distinct (construct, depth, position among siblings, document shape).")


def attempt(d, root, standard):
    try:
        lay(d, root, standard)
        return None
    except NotImplementedError as e:
        return e


def path_displayed(node):
    while node is not None:
        if node.spec.display == "none":
            return False
        node = node.parent
    return True


def case(ctx, rng, idx):
    spec = mark(gen_mixed(rng, hidden=rng.choice([0, 0.1])))
    spec.style["display"] = "block" if spec.style["display"] == "none" else spec.style["display"]
    root = build(spec)
    d, standard = display(rng), rng.choice(["html4", "html5"])
    ctx.trace(spec.show())
    err = attempt(d, root, standard)
    expect(err is None, f"a supported document was refused: {err}")
    want = snapshot_tree(root)
    nodes = list(walk(root))
    shape = [len(n.children) for n in nodes]
    # unsupported nodes that are not displayed do not matter
    for n in nodes:
        if not path_displayed(n) and maybe(rng, 0.6):
            if maybe(rng, 0.5):
                n.style.update(float=rng.choice(["left", "right"]))
            else:
                n.style.update(position=rng.choice(["absolute", "fixed"]))
            ctx.count("unsupported but not displayed")
    err = attempt(d, root, standard)
    expect(err is None, f"a node that is not displayed was refused: {err}")
    same(want, root, "after making undisplayed nodes unsupported")
    for _ in range(3):
        n = rng.choice([x for x in nodes if path_displayed(x)])
        i = next(j for j, x in enumerate(nodes) if x is n)
        kinds = ["float", "absolute", "fixed", "float"]
        if n.spec.base == "block":
            kinds.append("replaced block")
        elif n.parent is not None:
            kinds.append("inline-block")
        kind = rng.choice(kinds)
        st, saved = n.style, None
        extra = [("style", "width"), ("style", "height"), ("style", "z_index"), ("style", "top")]
        if kind == "float":
            st.float = rng.choice(["left", "right"])
            undo = lambda: delattr(st, "float")
        elif kind in ("absolute", "fixed"):
            saved = st.position
            st.position = kind
            undo = lambda: setattr(st, "position", saved)
        elif kind == "replaced block":
            n.intrinsic.is_replaced = True
            undo = lambda: setattr(n.intrinsic, "is_replaced", False)
            extra += [("intrinsic", "width"), ("intrinsic", "height"), ("intrinsic", "ratio")]
        else:
            st.display = "inline-block"
            undo = lambda: setattr(st, "display", "inline")
        # whatever else holds of the node, it stays unsupported
        changed = {}
        for what in extra:
            if maybe(rng, 0.4):
                obj = getattr(n, what[0])
                changed[what] = getattr(obj, what[1])
                setattr(obj, what[1], rng.choice([1, 2, 10, 0] if what[1] == "z_index" else [1, 2, 10, 50.5, 0]))
        ctx.trace("node", i, "becomes", kind, sorted(changed))
        err = attempt(d, root, standard)
        expect(err is not None, f"node {i} ({kind}) was laid out, at {n.layout!r}")
        ctx.count("refused: " + kind)
        ctx.sig(kind, i, shape)
        undo()
        for (obj, attr), v in changed.items():
            setattr(getattr(n, obj), attr, v)
        err = attempt(d, root, standard)
        expect(err is None, f"still refused after node {i} was restored from {kind}: {err}")
        same(want, root, f"after node {i} was restored from {kind}")


def same(want, root, when):
    got = snapshot_tree(root)
    for i, (a, b) in enumerate(zip(want, got)):
        bad = diff_snapshots(b, a)
        expect(bad is None, f"{when}, node {i} has moved: {bad}")
