"""C07: relative positioning."""
from common import expect
from docs import build, display, lay, length, maybe, walk
from grammar import sprinkle
from flow import gen_flow
import ref

CASES = {"quick": 24000, "thorough": 250000}
RULE = ("Random documents of nested block boxes, some relatively positioned with lengths for "
        "left/right/top/bottom (left/right also percentages), compared box by box with the static "
        "layout shifted by the exact offsets (exact oracle). Distinct = distinct set of "
        "(offsets given, last child or not, border/padding, has children).")
ASSUMPTIONS = ["Deviations F_REL_DOUBLE and F_REL_HEIGHT are recorded findings; a document must match "
               "the stated behaviour or exactly those deviations."]


def case(ctx, rng, idx):
    d = display(rng)
    spec = gen_flow(rng, relative=rng.choice([0.1, 0.3, 0.7]), hidden=0.03)
    both = maybe(rng, 0.5)
    rel = []
    for s in spec.walk():
        if both:
            s.style.pop("direction", None)
        if s.get("position") != "relative":
            if maybe(rng, 0.3):  # offsets do not move static boxes
                s.style[rng.choice(["left", "top", "right", "bottom"])] = length(rng, pct=False)
            if maybe(rng, 0.1):
                s.style["position"] = "static"
            continue
        rel.append(s)
        for near_, far, pct in (("left", "right", True), ("top", "bottom", False)):
            r = rng.random()
            if r < 0.35 or (both and r > 0.85):
                s.style[near_] = length(rng, neg=True, pct=pct)
            if 0.35 <= r < 0.65 or (both and r > 0.85):
                s.style[far] = length(rng, neg=True, pct=pct)
            elif maybe(rng, 0.1):
                s.style[far] = "auto"
    sprinkle(rng, spec)
    standard = rng.choice(["html4", "html5"])
    root = build(spec)
    lay(d, root, standard)
    ctx.trace("display", d, standard)
    ctx.trace(spec.show())
    boxes = ref.solve(d, spec, standard)
    verdict = {}
    for flags in ((False, False), (True, True), (True, False), (False, True)):
        alt = ref.solve(d, spec, standard, rel_double=flags[0], rel_height=flags[1])
        verdict[flags] = ref.compare(d, spec, root, alt, "xyhc")
        if flags == (False, False) and verdict[flags] is None:
            break
    if verdict[(False, False)] is not None:
        matches = [f for f, bad in verdict.items() if bad is None]
        expect(matches, verdict[(True, True)], "| stated behaviour:", verdict[(False, False)])
        least = min(matches, key=sum)
        if least[0]:
            ctx.known_finding("F_REL_DOUBLE")
        if least[1]:
            ctx.known_finding("F_REL_HEIGHT")
    ctx.count("boxes compared with the oracle", len(boxes))
    ctx.count("relatively positioned boxes", len(rel))
    if rel:
        last = {p.children[-1].id for p in spec.walk() if p.children}
        ctx.sig(sorted({str((tuple(sorted(k for k in s.style if k in ("left", "right", "top", "bottom"))),
                             s.id in last, bool(s.children),
                             s.id in boxes and bool(boxes[s.id].b["top"] or boxes[s.id].p["top"])))
                        for s in rel}))
