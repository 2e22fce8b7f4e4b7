"""C09: nodes that are not displayed."""
from common import expect
from docs import Len, Spec, build, diff_snapshots, display, lay, maybe, node_type, snapshot, walk
from mixed import gen_mixed, mark, random_style_edit, set_intrinsic, set_style

CASES = {"quick": 30000, "thorough": 150000}
RULE = ("Random mixed documents where random nodes (including first, last, only and all children, "
        "whole subtrees and the root) are hidden and shown over a history of layouts and edits made "
        "while hidden. Each layout is compared with the layout of the same document with the hidden "
        "subtrees cut out; hidden nodes and their descendants must have no box. Distinct = distinct "
        "(tree shape, pattern of hidden nodes, history).")


def cut(spec):
    out = Spec(spec.style, spec.intrinsic, [cut(c) for c in spec.children if c.display != "none"])
    out.id = spec.id
    return out


def case(ctx, rng, idx):
    spec = mark(gen_mixed(rng, hidden=rng.choice([0.05, 0.3, 0.6])))
    if maybe(rng, 0.05):
        spec.style["display"] = "none"
    index = {}
    root = build(spec, node_type(rng), index)
    ctx.trace(spec.show())
    pattern = []
    for step in range(rng.choice([1, 2, 4, 7])):
        d, standard = display(rng), rng.choice(["html4", "html5"])
        lay(d, root, standard)
        ctx.trace("layout on", d, standard)
        hidden = set()

        def gather(s, off):
            off = off or s.display == "none"
            if off:
                hidden.add(s.id)
            for c in s.children:
                gather(c, off)

        gather(spec, False)
        for i in hidden:
            expect(index[i].layout is None, f"#{i} is not displayed but has a box")
            ctx.count("hidden nodes checked")
        if spec.id not in hidden:
            ref_index = {}
            other = build(cut(spec), index=ref_index)
            lay(d, other, standard)
            for i, n in index.items():
                if i in hidden:
                    continue
                bad = diff_snapshots(snapshot(n), snapshot(ref_index[i]))
                expect(bad is None, f"#{i} is not where it would be without the hidden nodes: {bad}")
                ctx.count("displayed boxes compared")
        pattern.append(sorted(list(index).index(i) for i in hidden))
        # Edits between layouts, in particular of what is hidden.
        nodes = [index[s.id] for s in spec.walk()]
        for _ in range(rng.randrange(1, 5)):
            n = rng.choice(nodes)
            if maybe(rng, 0.5):
                if n.spec.display == "none":
                    tok = "inline" if n.spec.base == "inline" else rng.choice(["block", "list-item"])
                    ctx.count("shown")
                else:
                    tok = "none"
                    ctx.count("hidden")
                set_style(rng, n, "display", tok)
                ctx.trace("display of", n.spec.id, tok)
            else:
                sick = [x for x in nodes if x.spec.id in hidden] or nodes
                n = rng.choice(sick)
                if n.spec.base == "inline" and maybe(rng, 0.5):
                    ctx.trace("intrinsic of", n.spec.id, set_intrinsic(rng, n))
                else:
                    name, tok = random_style_edit(rng, n.spec)
                    if name != "display":
                        set_style(rng, n, name, tok)
                        ctx.trace("style of", n.spec.id, name, tok)
                if maybe(rng, 0.2):
                    n.style.dirty, n.intrinsic.dirty
                ctx.count("edits of hidden nodes", n.spec.id in hidden)
    ctx.sig([len(s.children) for s in spec.walk()], pattern)
