"""C19: layout works on any object with the documented attributes and touches nothing but the boxes."""
import contextlib
import io
import warnings
import weakref
from collections import deque
from collections.abc import Sequence

from common import expect
from docs import BOX_ATTRS, Display, Node, build, diff_snapshots, display, lay, maybe, snapshot, walk
from grammar import canon, read_all
from mixed import gen_mixed, mark, random_style_edit, set_style

CASES = {"quick": 15000, "thorough": 100000}
RULE = ("Random documents are built twice: from plain nodes, and from nodes of a hostile class - false in a boolean context, of "
        "length zero, equal to everything or to nothing or refusing comparison, unhashable, unprintable, with only the "
        "documented attributes, with tuples, deques or other sequences of children, with weak references to the parent, read-only except for layout. Layouts must agree. "
        "Monitors record every attribute write on nodes and displays, and compare styles, intrinsic sizes, the tree, the "
        "display and the output streams before and after. Distinct = distinct (node class, document shape).")


class Refuses(Exception):
    pass


class Children(list):
    """A subclass of list that cannot be changed in place."""

    def _refuse(self, *a, **k):
        raise Refuses("children were modified")

    append = extend = insert = pop = remove = clear = sort = reverse = _refuse
    __setitem__ = __delitem__ = __iadd__ = __imul__ = _refuse


class Deque(deque):
    """A deque that can be sliced."""

    def __getitem__(self, i):
        return list(self)[i] if isinstance(i, slice) else deque.__getitem__(self, i)


class Bare(Sequence):
    """A sequence with nothing but items."""

    def __init__(self, items):
        self._items = list(items)

    def __len__(self):
        return len(self._items)

    def __getitem__(self, i):
        return self._items[i]


def node_class(rng, log):
    from colosseum.declaration import CSS
    from colosseum.dimensions import Box, Size

    traits = {t for t in ("false", "empty", "eq_all", "eq_none", "eq_raises", "unhashable", "unprintable", "tuple", "children",
                          "slots", "deque", "bare", "proxy") if maybe(rng, 0.3)}
    ns = {}

    def refuse(*a, **k):
        raise Refuses("a node was used as a value")

    if "false" in traits:
        ns["__bool__"] = lambda self: False
    if "empty" in traits:
        ns["__len__"] = lambda self: 0
    if "eq_all" in traits:
        ns["__eq__"] = lambda self, o: True
        ns["__ne__"] = lambda self, o: False
    elif "eq_none" in traits:
        ns["__eq__"] = lambda self, o: False
        ns["__ne__"] = lambda self, o: True
    elif "eq_raises" in traits:
        ns["__eq__"] = ns["__ne__"] = ns["__lt__"] = refuse
    ns["__hash__"] = None if "unhashable" in traits or "eq_raises" in traits else object.__hash__
    if "unprintable" in traits:
        ns["__repr__"] = ns["__str__"] = ns["__format__"] = refuse
    fields = ("parent", "children", "intrinsic", "layout", "style")
    if "slots" in traits:
        ns["__slots__"] = fields + ("built", "__weakref__")

    def init(self, spec=None):
        object.__setattr__(self, "built", False)
        self.parent = None
        self.children = []
        self.intrinsic = Size(self)
        self.layout = Box(self)
        self.style = CSS().copy(self)

    def setattr_(self, name, value):
        if self.built:
            log.append(name)
            if name != "layout":
                raise Refuses(f"a node's {name} was written")
        object.__setattr__(self, name, value)

    def add(self, child, index=None):
        child.parent = weakref.proxy(self) if "proxy" in traits else self
        self.children.append(child)

    ns.update(__init__=init, __setattr__=setattr_, add=add)
    cls = type("Strange", (), ns)
    return cls, traits


class StrictDisplay:
    """Only the documented attributes, none of them writable."""

    __slots__ = ("_d", "log")

    def __init__(self, d):
        object.__setattr__(self, "_d", d)
        object.__setattr__(self, "log", [])

    content_width = property(lambda self: self._d.content_width)
    content_height = property(lambda self: self._d.content_height)
    dpi = property(lambda self: self._d.dpi)

    def fixed_size(self, v):
        return self._d.sizes[v]

    def __setattr__(self, name, value):
        raise Refuses(f"the display's {name} was written")

    def __bool__(self):
        return False


def display_class(rng):
    """Displays may be as strange as nodes."""
    def refuse(self, *a):
        raise Refuses("the display was used as a value")

    ns = {"__slots__": (), "__hash__": rng.choice([None, object.__hash__])}
    r = rng.randrange(4)
    if r == 0:
        ns.update(__eq__=lambda self, o: True, __ne__=lambda self, o: False)
    elif r == 1:
        ns.update(__eq__=lambda self, o: False, __ne__=lambda self, o: True)
    elif r == 2:
        ns.update(__eq__=refuse, __ne__=refuse, __lt__=refuse)
    if maybe(rng, 0.5):
        ns["__bool__"] = lambda self: True
    if maybe(rng, 0.3):
        ns.update(__repr__=refuse, __str__=refuse, __format__=refuse)
    return type("Strange", (StrictDisplay,), ns)


def intrinsic_state(i):
    return (i.width, i.height, i.exact_width, i.exact_height, i.ratio, i.is_replaced)


def case(ctx, rng, idx):
    spec = mark(gen_mixed(rng, hidden=rng.choice([0, 0.1])))
    d = display(rng)
    log = []
    cls, traits = node_class(rng, log)
    ctx.trace("node class", sorted(traits), "display", d)
    ctx.trace(spec.show())
    plain, strange = build(spec), build(spec, cls)
    nodes = list(walk(strange))
    for n in nodes:
        if "tuple" in traits:
            n.children = tuple(n.children)
        elif "deque" in traits:
            n.children = Deque(n.children)
        elif "bare" in traits:
            n.children = Bare(n.children)
        elif "children" in traits:
            n.children = Children(n.children)
    for n in nodes:
        object.__setattr__(n, "built", True)
    sd = display_class(rng)(d) if maybe(rng, 0.7) else d
    standard = rng.choice(["html4", "html5"])
    before = [(read_all(n.style), intrinsic_state(n.intrinsic), [id(c) for c in n.children], id(n.parent), id(n.style),
               id(n.intrinsic), id(n.children)) for n in nodes]
    dstate = d.state()
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            for _ in range(rng.choice([1, 2])):
                lay(sd, strange, standard)
        except Refuses as e:
            expect(False, f"layout on nodes that are {sorted(traits)}: {e}")
    expect(not out.getvalue() and not err.getvalue(), f"layout printed {out.getvalue()[:80]!r} {err.getvalue()[:80]!r}")
    expect(not ws, f"layout warned: {[str(w.message) for w in ws][:2]}")
    after = [(read_all(n.style), intrinsic_state(n.intrinsic), [id(c) for c in n.children], id(n.parent), id(n.style),
              id(n.intrinsic), id(n.children)) for n in nodes]
    for i, (a, b) in enumerate(zip(before, after)):
        names = ("style", "intrinsic size", "children", "parent", "style object", "intrinsic object", "children object")
        bad = [m for m, x, y in zip(names, a, b) if x != y]
        expect(not bad, f"layout changed the {', '.join(bad)} of node {i}")
        ctx.count("nodes watched")
    expect(d.state() == dstate, "layout changed the display")
    ctx.count("attribute writes seen", len(log))
    lay(d, plain, standard)
    for i, (a, b) in enumerate(zip(walk(plain), nodes)):
        bad = diff_snapshots(snapshot(b), snapshot(a))
        expect(bad is None, f"node {i} is laid out differently when nodes are {sorted(traits)}: {bad}")
        if b.layout is not None:
            expect(b.layout.node is b, f"the box of node {i} belongs to another node")
    ctx.sig(sorted(traits), [len(n.children) for n in nodes])
