"""C22: the effort of layouts and assignments stays in proportion."""
import os
import sys
import time

from common import SRC, Violation, expect
from docs import Display, Spec, build, display, lay, maybe, walk
from grammar import NAMES, g_cursor, g_quotes, valid_any
from mixed import block_style, gen_mixed, inline_spec, mark

CASES = {"quick": 900, "thorough": 9000}
RULE = ("The lines of colosseum executed are counted (sys.monitoring) while documents made of n, 2n and 4n copies of a random "
        "subtree side by side, nested, or both are laid out and changed at their root, while the same layout, edit and assignment workloads are repeated, "
        "and while structured values of n, 2n and 4n parts are read. Long texts of repeated fragments are given to the parsers (processor time). The growth from step to step is compared with that of nodes "
        "times depth, and repetitions with each other. A document nested 150 deep is laid out in each nesting case. "
        "Distinct = distinct (kind, subtree shape, n).")
ASSUMPTIONS = ["Effort inside single built-in operations of Python is not counted."]
PKG = os.path.join(SRC, "colosseum") + os.sep
MON = sys.monitoring
TOOL = 4


class Meter:
    """Counts executed lines of the code under test; stops a runaway."""

    def __init__(self, limit=30_000_000):
        self.limit = limit

    def __enter__(self):
        self.n = 0
        MON.use_tool_id(TOOL, "effort")
        ev = MON.events
        MON.register_callback(TOOL, ev.LINE, self.line)
        MON.register_callback(TOOL, ev.PY_RESUME, self.line)
        MON.register_callback(TOOL, ev.JUMP, self.jump)
        MON.set_events(TOOL, ev.LINE | ev.PY_RESUME | ev.JUMP)
        return self

    def line(self, code, lineno):
        if not code.co_filename.startswith(PKG):
            return MON.DISABLE
        self.n += 1
        if self.n > self.limit:
            self.n = -10**9
            raise Violation(f"more than {self.limit} lines executed for one operation")

    def jump(self, code, here, there):
        return self.line(code, here)

    def __exit__(self, *exc):
        MON.set_events(TOOL, 0)
        for e in (MON.events.LINE, MON.events.PY_RESUME, MON.events.JUMP):
            MON.register_callback(TOOL, e, None)
        MON.free_tool_id(TOOL)
        MON.restart_events()


def effort(fn, limit=30_000_000):
    with Meter(limit) as m:
        fn()
    return m.n


def small(rng):
    s = mark(gen_mixed(rng, depth=rng.choice([1, 2]), budget=[rng.choice([1, 2, 4, 8])]))
    s.style["display"] = "block"
    return s


def plain_block(rng):
    s = block_style(rng)
    s["display"] = "block"
    s.pop("float", None)
    return s


def leaf_row(rng):
    """A block of inline boxes."""
    return Spec({"display": "block"}, children=[inline_spec(rng, nested=False) for _ in range(rng.randrange(1, 4))])


def nest(tree, style, d, beside):
    for _ in range(d):
        tree = Spec(style, children=([beside.clone()] if beside else []) + [tree])
    return tree


def growth(ctx, kind, es, top, what):
    """es: effort at n, 2n, 4n; the increments must not grow by more than `top` times."""
    a, b, c = es
    ctx.trace(kind, what, "effort", es)
    if b - a <= 0:
        expect(c <= 2 * max(a, b) + 1000, f"{kind}: {what}: effort {es}")
    else:
        expect((c - b) <= top * (b - a) + 500, f"{kind}: {what}: effort {es} grows too fast")
    ctx.count("growth comparisons")


def lay_effort(spec, d, std, limit, edits=None):
    root = build(spec)
    first = effort(lambda: lay(d, root, std), limit)
    if edits is not None:
        edits.append(edit_effort(root, limit))
    return first


def edit_effort(root, limit):
    """Marking everything dirty by changing the root, and laying nothing out."""

    def work():
        root.style.padding_left = 3
        root.intrinsic.width = 17
        root.style.padding_left = 2

    return effort(work, limit)


def creep(ctx, rng, d, std):
    """One small operation, thousands of times."""
    from colosseum import CSS, parser

    root = build(Spec({"display": "block"}, children=[Spec({"display": "block", "height": 5}) for _ in range(rng.choice([0, 1, 3]))]))
    lay(d, root, std)
    style = rng.choice([root.style, CSS()])
    name = rng.choice(NAMES)
    values = [valid_any(rng, name)[0] for _ in range(rng.choice([1, 2, 3]))]
    new = maybe(rng, 0.4)
    which = rng.choice(["set", "set", "set and delete", "copy", "update", "parse", "print", "refuse", "intrinsic", "layout", "box"])

    def one(i):
        v = values[i % len(values)]
        if which == "set":
            if new:
                style.z_index = i
            else:
                setattr(style, name, v)
        elif which == "set and delete":
            setattr(style, name, v)
            delattr(style, name)
        elif which == "copy":
            style.copy()
        elif which == "update":
            style.update(**{name: v})
        elif which == "parse":
            parser.units(f"{i if new else 7}px")
            parser.color(f"rgb({i % 256 if new else 7}, 1, 2)")
        elif which == "print":
            str(style), len(style.keys())
        elif which == "refuse":
            try:
                setattr(style, name, object())
            except ValueError:
                pass
        elif which == "intrinsic":
            root.intrinsic.width = i if new else i % 2
        elif which == "layout":
            lay(d, root, std)
        else:
            root.layout.content_left = i if new else i % 2
            root.layout.dirty = i % 3 == 0

    block = 240 if which != "layout" else 60

    def work(k):
        return effort(lambda: [one(i) for i in range(k * block, (k + 1) * block)])

    es = [work(k) for k in range(8)]
    ctx.trace(which, name, values, "effort", es)
    # numbers get longer, so a few lines may be taken more often with new values
    expect(max(es[2:]) <= 1.25 * max(es[:2]) + 200, f"{which} ({name}): {block} repetitions take more and more effort: {es}")
    ctx.count("long repetitions compared", 8)
    ctx.sig("creep", which, name, new)


def case(ctx, rng, idx):
    d = display(rng)
    std = rng.choice(["html5", "html4"])
    kind = ("wide", "wide", "nested", "nested", "caterpillar", "inline", "repeat", "edits", "assign", "parts")[idx % 10]
    if kind == "parts" and maybe(rng, 0.5):
        kind = "long"
    elif kind in ("assign", "edits", "repeat") and maybe(rng, 0.4):
        kind = "creep"
    if kind in ("wide", "inline"):
        t = small(rng) if kind == "wide" else inline_spec(rng, nested=False)
        n = rng.choice([10, 25, 60, 150]) if kind == "inline" or sum(1 for _ in t.walk()) < 5 else rng.choice([4, 10, 25])
        top = plain_block(rng)
        ed = []
        es = [lay_effort(Spec(top, children=[t.clone() for _ in range(k * n)]), d, std, 10**7, ed) for k in (1, 2, 4)]
        growth(ctx, kind, es, 2.5, f"{n}, {2 * n}, {4 * n} copies of\n{t.show()}")
        growth(ctx, kind, ed, 2.5, f"changing the root of {n}, {2 * n}, {4 * n} copies of\n{t.show()}")
        ctx.sig(kind, n, t.show().count("\n"), sorted(t.style))
    elif kind in ("nested", "caterpillar"):
        t = small(rng)
        beside = small(rng) if kind == "caterpillar" else None
        n = rng.choice([3, 6, 12]) if kind == "caterpillar" else rng.choice([3, 8, 20])
        style = plain_block(rng)
        es, ed = [], []
        for k in (1, 2, 4):
            # An explosion is stopped early: nothing sensible needs a hundred times the previous step.
            limit = 100 * es[-1] if es else 10**7
            es.append(lay_effort(nest(t, style, k * n, beside), d, std, limit, ed))
        growth(ctx, kind, es, 6, f"nested {n}, {2 * n}, {4 * n} deep in {style}:\n{t.show()}")
        growth(ctx, kind, ed, 6, f"changing the root, nested {n}, {2 * n}, {4 * n} deep")
        if kind == "nested" and maybe(rng, 0.3):
            deep = build(nest(Spec({"display": "block", "height": 10}), style, 150, None))
            lay(d, deep, std)
            expect(all(x.layout is not None for x in walk(deep)), "a document nested 150 deep has nodes without box")
            deep.style.color = "red"
            ctx.count("documents nested 150 deep")
        ctx.sig(kind, n, t.show().count("\n"), sorted(style))
    elif kind == "repeat":
        spec = mark(gen_mixed(rng))
        root = build(spec)
        d2 = display(rng)
        es = []
        for _ in range(8):
            es.append(effort(lambda: (lay(d, root, std), lay(d2, root, "html4"))))
        fresh = lay_effort(spec, d, std, 10**8)
        ctx.trace("effort of repeated layouts", es, "of a fresh one", fresh)
        expect(max(es[2:]) <= 1.1 * es[1] + 200, f"repeating the same layouts takes more and more effort: {es}")
        ctx.count("repetitions compared", 8)
        ctx.sig(kind, es[0])
    elif kind == "edits":
        spec = mark(gen_mixed(rng))
        root = build(spec)
        nodes = list(walk(root))
        todo = [(rng.choice(nodes), rng.choice([3, 7, "5px", "2em", "10%"])) for _ in range(5)]

        def work():
            for n, v in todo:
                n.style.padding_left = v
                n.style.margin_top = 4
                n.intrinsic.width = 10
                lay(d, root, std)
                n.style.padding_left = 0
                del n.style["margin-top"]
                n.intrinsic.width = 20
            lay(d, root, std)

        es = [effort(work) for _ in range(8)]
        ctx.trace("effort of repeated edits", es)
        expect(max(es[2:]) <= 1.1 * es[1] + 200, f"repeating the same edits takes more and more effort: {es}")
        ctx.count("repetitions compared", 8)
        ctx.sig(kind, es[0])
    elif kind == "assign":
        from colosseum import CSS

        todo = []
        for _ in range(60):
            n = rng.choice(NAMES)
            todo.append((n, valid_any(rng, n)[0]))
        style = CSS()

        def work():
            for n, v in todo:
                setattr(style, n, v)
                getattr(style, n)
            other = style.copy()
            str(other), other.keys(), other.items()
            for n, v in todo:
                delattr(style, n)

        es = [effort(work) for _ in range(10)]
        ctx.trace("effort of repeated assignments", es)
        expect(max(es[2:]) <= 1.1 * es[1] + 200, f"repeating the same assignments takes more and more effort: {es}")
        ctx.count("repetitions compared", 10)
        ctx.sig(kind, sorted({n for n, _ in todo}))
    elif kind == "creep":
        creep(ctx, rng, d, std)
    elif kind == "long":
        # Built-in operations execute no lines: processor time, with a wide margin, tells a parser that backtracks.
        from colosseum import parser

        for _ in range(40):
            f = rng.choice([parser.units, parser.color, parser.border_spacing, parser.rect, parser.quotes, parser.outline, parser.border,
                            parser.uri, parser.cursor])
            start = rng.choice(["", "url(", "rect(", "rgb(", "hsla(", "'", '"', "#", "1", "url('", "1px solid "])
            part = "".join(rng.choice(["url(", " ", "  ", "a", "'", '"', ",", "(", ")", "1", ".", "%", "rgb(", "\\", "-", "px", "'<' ", "#", "\t"])
                           for _ in range(rng.choice([1, 1, 2, 3, 4])))
            end = rng.choice(["", ")", "'", '"', ",", "x", "!", " "])
            text = start + part * (3000 // len(part)) + end
            t = time.process_time()
            try:
                f(text)
            except ValueError:
                ctx.count("long texts refused")
            t = time.process_time() - t
            ctx.count("long texts read")
            ctx.trace(f.__name__, repr(text[:60]), len(text), "took", t)
            expect(t < 4, f"{f.__name__} took {t} s of processor time for {len(text)} characters: {start!r} + {part!r}* + {end!r}")
            ctx.sig(kind, f.__name__, start, part, end)
    else:
        from colosseum import parser

        n = rng.choice([5, 20, 60, 120])
        which = rng.choice(["quotes", "cursor", "cursor list", "quotes list"])
        es = []
        for k in (1, 2, 4):
            if which.startswith("quotes"):
                v = [("<", ">")] * (n * k) if "list" in which else " ".join(["'<' '>'"] * (n * k))
                es.append(effort(lambda: str(parser.quotes(v))))
            else:
                v = ["url(a.png)"] * (n * k) + ["auto"]
                v = v if "list" in which else ", ".join(v)
                es.append(effort(lambda: str(parser.cursor(v))))
        growth(ctx, kind, es, 2.5, f"{which} of {n}, {2 * n}, {4 * n} parts")
        ctx.sig(kind, which, n)
