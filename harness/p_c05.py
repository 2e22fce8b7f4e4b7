"""C05: layout is a function of the current document, display and standard."""
import copy

import sys
import threading

from common import Violation, expect, near
from docs import (DisplayFault, Spec, build, diff_snapshots, display, lay, maybe, node_type, snapshot_tree, walk)
from mixed import (gen_mixed, hide, inline_spec, mark, random_style_edit, set_intrinsic, set_style)
from pristine import pristine

CASES = {"quick": 6000, "thorough": 90000}
RULE = ("Random histories of edits (style changes through every interface, intrinsic sizes, inserting, "
        "removing, moving, reordering and replacing subtrees, hiding and showing, copying styles), layouts "
        "on other displays and under other standards, layouts of other documents (before, and within, a layout), layouts that fail "
        "half-way (unsupported boxes, display faults), some of them in concurrent threads. After each "
        "layout every documented box attribute is compared with a freshly built identical document "
        "(in a pristine process for a share of the cases) and with a repeated layout. "
        "Distinct = distinct sequence of step kinds.")


def fresh_layout(spec, d, standard):
    root = build(spec)
    lay(d, root, standard)
    return snapshot_tree(root)


def compare(got, want, what):
    expect(len(got) == len(want), what, "has", len(got), "nodes, not", len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        bad = diff_snapshots(a, b)
        expect(bad is None, f"{what}: node {i} (document order): {bad}")


class Doc:
    def __init__(self, rng):
        self.spec = mark(gen_mixed(rng))
        self.root = build(self.spec, node_type(rng))

    def nodes(self):
        return list(walk(self.root))


def detach(node):
    p = node.parent
    i = next(i for i, c in enumerate(p.children) if c is node)
    del p.children[i]
    del p.spec.children[i]
    node.parent = None


def insert(parent, node, i):
    node.parent = parent
    parent.children.insert(i, node)
    parent.spec.children.insert(i, node.spec)


def kind(node):
    """What may be placed beside/below this node."""
    return node.spec.base


def edit(ctx, rng, doc, other):
    nodes = doc.nodes()
    n = rng.choice(nodes)
    r = rng.random()
    label = f"node {next(i for i, x in enumerate(nodes) if x is n)}"
    if r < 0.45:
        name, token = random_style_edit(rng, n.spec)
        set_style(rng, n, name, token)
        ctx.trace(label, name, "=", token)
        return "style"
    if r < 0.55:
        inl = [x for x in nodes if x.spec.base == "inline"]
        if not inl:
            return "nop"
        n = rng.choice(inl)
        ctx.trace("intrinsic", set_intrinsic(rng, n))
        return "intrinsic"
    if r < 0.66:
        if n.style.display is None:
            tok = "inline" if n.spec.base == "inline" else "block"
        else:
            tok = "none"
        set_style(rng, n, "display", tok)
        ctx.trace(label, "display", tok)
        return "hide" if tok == "none" else "show"
    if r < 0.76:
        # a new subtree
        if n.spec.base == "inline" and n.spec.intrinsic.get("is_replaced"):
            return "nop"
        if n.spec.base == "inline" or (n.children and n.children[0].spec.base == "inline"):
            sub = inline_spec(rng, False)
        else:
            sub = gen_mixed(rng, depth=rng.randrange(0, 3), budget=[6])
        sub = mark(hide(rng, sub, 0.1))
        node = build(sub, node_type(rng))
        if maybe(rng, 0.3) and sub.base == "block":
            lay(display(rng), node)  # it had a life of its own before
        insert(n, node, rng.randrange(len(n.children) + 1))
        ctx.trace("insert under", label, sub.show())
        return "insert"
    if n.parent is None:
        return "nop"
    if r < 0.84:
        detach(n)
        ctx.trace("remove", label)
        if maybe(rng, 0.3) and n.spec.base == "block":
            lay(display(rng), n)
        return "remove"
    if r < 0.92:
        detach(n)
        hosts = [x for x in doc.nodes()
                 if (x.children and x.children[0].spec.base == n.spec.base
                     and (x.spec.base == "block" or n.spec.base == "inline"))
                 or (not x.children and x.spec.base == "block")]
        if not hosts:
            return "remove"
        host = rng.choice(hosts)
        insert(host, n, rng.randrange(len(host.children) + 1))
        ctx.trace("move", label)
        return "move"
    if r < 0.96:
        p = n.parent
        order = list(range(len(p.children)))
        rng.shuffle(order)
        p.children = [p.children[i] for i in order]
        p.spec.children = [p.spec.children[i] for i in order]
        ctx.trace("reorder around", label)
        return "reorder"
    n.style = n.style.copy(n)
    ctx.trace("style of", label, "replaced by its copy")
    return "copy"


def failing_layout(ctx, rng, doc):
    """A layout that fails; what it was must not show afterwards."""
    d = display(rng)
    if maybe(rng, 0.5):
        d.fault = rng.randrange(1, 6)
        try:
            lay(d, doc.root)
        except DisplayFault:
            ctx.count("failed layouts (display fault)")
            return "fault"
        return "layout"
    n = rng.choice(doc.nodes())
    name, v = rng.choice([("position", "absolute"), ("float", "left"), ("position", "fixed"),
                          ("float", "right")])
    old = n.spec.style.get(name)
    setattr(n.style, name, v)
    try:
        lay(d, doc.root)
    except NotImplementedError:
        ctx.count("failed layouts (unsupported box)")
    if old is None:
        delattr(n.style, name)
    else:
        setattr(n.style, name, old)
    ctx.trace("failed layout with", name, v)
    return "unsupported"


class Busy:
    """A display that lays out another document whenever it is asked something."""

    def __init__(self, d, inner, every):
        self._d, self._inner, self._every, self._n = d, inner, every, 0

    def _ask(self):
        self._n += 1
        if self._n % self._every == 0 and self._inner is not None:
            inner, self._inner = self._inner, None
            inner()
            self._inner = inner

    @property
    def content_width(self):
        self._ask()
        return self._d.content_width

    @property
    def content_height(self):
        self._ask()
        return self._d.content_height

    @property
    def dpi(self):
        self._ask()
        return self._d.dpi

    def fixed_size(self, v):
        self._ask()
        return self._d.fixed_size(v)


def history(ctx, rng, oracle, steps):
    doc, other = Doc(rng), Doc(rng)
    kinds = []
    held = display(rng)
    ctx.trace(doc.spec.show())
    for _ in range(steps):
        for _ in range(rng.choice([1, 1, 2, 4])):
            kinds.append(edit(ctx, rng, doc, other))
            ctx.count("edits")
        r = rng.random()
        if r < 0.12:
            kinds.append(failing_layout(ctx, rng, doc))
        elif r < 0.24:
            edit(ctx, rng, other, doc)
            lay(display(rng), other.root, rng.choice(["html4", "html5"]))
            kinds.append("other")
        elif r < 0.34:
            n = rng.choice(doc.nodes())
            if n.spec.base == "block":
                lay(display(rng), n)  # a subtree laid out on its own
                kinds.append("subtree")
        if maybe(rng, 0.15):
            for n in doc.nodes():
                if n.layout is not None:
                    n.layout.dirty = False
        d, standard = display(rng), rng.choice(["html4", "html5"])
        if maybe(rng, 0.3):
            # the same display object, resized
            for attr, v in vars(d).items():
                if maybe(rng, 0.7):
                    setattr(held, attr, v)
            d = held
        if maybe(rng, 0.15):
            d2 = display(rng)
            lay(Busy(d, lambda: lay(d2, other.root, "html5"), rng.choice([1, 2, 3, 7])), doc.root, standard)
            ctx.count("layouts with another one inside")
            kinds.append("busy")
        else:
            lay(d, doc.root, standard)
        ctx.trace("layout on", d, standard)
        got = snapshot_tree(doc.root)
        want = fresh_layout(doc.spec, copy.copy(d), standard)
        compare(got, want, "after this history, compared with a fresh document")
        if oracle is not None and maybe(rng, 0.25):
            status, want = oracle(doc.spec, d, standard)
            expect(status == "ok", "a fresh process cannot lay this out:", want)
            compare(got, want, "compared with a fresh process")
            ctx.count("compared with a fresh process")
        ctx.count("layouts compared", 1)
        ctx.count("boxes compared", len(got))
        if maybe(rng, 0.3):
            lay(d, doc.root, standard)
            compare(snapshot_tree(doc.root), got, "when laid out again")
            ctx.count("repeated layouts compared")
    return kinds


def case(ctx, rng, idx):
    oracle = pristine(fresh_layout)
    if idx % 40 == 17:
        seeds = [rng.random() for _ in range(4)]
        problems, done = [], []
        import random

        def run(seed):
            try:
                sub = type(ctx)(ctx.prop, ctx.tier, ctx.seed)
                done.append((history(sub, random.Random(seed), None, 4), sub))
            except BaseException as e:  # reported by the main thread
                problems.append(e)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ts = [threading.Thread(target=run, args=(s,)) for s in seeds]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        if problems:
            raise problems[0]
        for kinds, sub in done:
            ctx.n.update(sub.n)
        ctx.count("concurrent histories", len(done))
        ctx.sig("threads", [k for k, _ in done])
        return
    ctx.sig(history(ctx, rng, oracle, rng.choice([2, 5, 12])))
