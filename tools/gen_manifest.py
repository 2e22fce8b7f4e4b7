import json
E="src/colosseum/engine.py"; D="src/colosseum/declaration.py"; P="src/colosseum/parser.py"; C="src/colosseum/constants.py"
M="src/colosseum/dimensions.py"; U="src/colosseum/units.py"; K="src/colosseum/colors.py"; W="src/colosseum/wrappers.py"; S="src/colosseum/shapes.py"; V="src/colosseum/validators.py"
def p(id,title,statement,over,text,why,files,mech,obs):
    assert len(title)<=80,(id,len(title))
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
L=[
p("C01","Block boxes exactly fill the width of their containing block",
 "After layout, for every displayed non-replaced block-level box the left margin, left border, left padding, content width, right padding, right border and right margin add up to the width of the containing block (the display for the root), and the content starts at the sum of the left three. "
 "A specified width (any unit, or a percentage of the containing width), limited first by the maximum and then by the minimum width, is the content width and an auto width is what remains with auto margins as 0; of the margins, auto ones share the remaining space equally and, where none is left or none is auto, the right margin (left margin for right-to-left boxes) gives way.",
 ["inputs","configurations"],"every tree of block-level boxes, every combination of widths, margins, borders, padding, min/max widths, directions, and every display",
 "The web-platform tests sample fixed documents with pixel lengths on one display; which of the seven terms are auto, over-constrained, fractional or percentages multiplies far beyond them.",
 [E,M],[("S10.3.3 width and margin resolution","engine.py: calculate_block_non_replaced_normal_flow_width"),("conversion of margins, borders, padding","engine.py: layout_box, calculate_size")],["Box margins, borders, paddings, content_width, content_left after layout()"]),
p("C02","Block boxes stack vertically with correctly collapsed margins",
 "In a document of block-level boxes with non-negative or auto vertical margins, each displayed box starts directly below its previous displayed sibling's border box plus the larger of the two adjoining collapsed margins. "
 "A box's collapsed top (bottom) margin is the largest of its own and that of its first (last, if its height is auto) displayed child, unless border or padding separates them, in which case the child's margin lies inside the box; percentages of margins, borders and padding refer to the containing block's width. "
 "Undisplayed siblings take no part.",
 ["inputs","configurations"],"every tree of stacked block boxes, any depth and number of siblings, any non-negative margins, borders and padding",
 "The tests contain a handful of fixed stacks; the collapsing of margins through several levels, with fractions, zero-height boxes, hidden siblings and long runs of siblings is not sampled.",
 [E,M],[("block formatting context loop","engine.py: layout_box"),("collapsed extents","dimensions.py: Box.collapse_*")],["content_top, absolute positions and collapse_* of every box after layout()"]),
p("C03","Block boxes get the height they are told, or that their content needs",
 "A block box with a specified height (a length, or a percentage of its parent's specified length) has that content height, limited first by its maximum and then by its minimum height. "
 "A box with auto height and displayed block children ends at its last displayed child's bottom border edge, plus that child's collapsed bottom margin if the box has a bottom border or padding; an auto-height box without displayed children is as high as its minimum height, or 0.",
 ["inputs","configurations"],"every tree of block boxes with lengths/percentages/auto heights and length min/max heights, apart from the root under HTML5",
 "Tests fix a few heights; combinations with min/max, percentages, hidden or collapsing last children and deep nesting are not enumerated.",
 [E],[("S10.6.3 height resolution","engine.py: calculate_block_non_replaced_normal_flow_height and its siblings")],["content_height of every box after layout()"]),
p("C04","Every box is geometrically consistent at all times",
 "For every layout box the padding box and border box surround the content box by exactly its padding and border widths: every documented edge, width and height, relative and absolute, of the content, padding and border box agrees with the content position, content size, padding and borders. "
 "Absolute positions are the position within the parent's content box plus the parent's absolute content position, up to the root, after layouts as well as after any sequence of direct changes to the positions, sizes, padding or borders of boxes anywhere in the tree.",
 ["inputs","histories"],"every tree, every sequence of layouts and of assignments to box attributes",
 "Unit tests set a few attributes on a two-level tree; propagation through deep trees over long sequences of changes (including to the same value and back) is not sampled.",
 [M],[("origin propagation","dimensions.py: Box._origin_top/_origin_left, content_top/content_left setters"),("derived edges","dimensions.py: Box properties")],["all documented attributes of Box"]),
p("C05","A layout depends only on the document, the display and the standard",
 "Laying out a document gives every node exactly the box that a freshly built identical document gets on the same display under the same standard, whatever happened before: earlier layouts on other displays, style and intrinsic-size changes, nodes inserted, removed, moved, hidden or shown, layouts of other documents, layouts that failed half-way, or layouts in other threads. "
 "Laying out again without changes changes nothing.",
 ["histories","fault_sequences","schedules"],"every history of edits, (failed) layouts and interleaved layouts of independent documents",
 "Tests lay out each document once or twice from a clean start; stale state left by a particular history shows only after that history.",
 [E,M,D],[("reset of boxes before layout","engine.py: layout; dimensions.py: Box.reset"),("box creation and removal","engine.py: generate_boxes")],["all documented box attributes after each layout()"]),
p("C06","Inline boxes are sized from their style and intrinsic size",
 "In a block container of inline boxes, auto margins are 0 and percentages of margins, borders and padding refer to the container's width. A non-replaced inline box takes its intrinsic width and height, whatever width and height are specified. "
 "A replaced inline box takes a specified width (percentages refer to the container's width) and a specified height. An auto width is the intrinsic width; failing that, if the height is auto too, the intrinsic height times the intrinsic ratio rounded to a whole pixel, or, with a ratio but no intrinsic height, the container's width less the box's own margins, borders and padding; failing all these, 300 pixels. "
 "An auto height is the intrinsic height if the width is auto too, failing that what the used width and the ratio give, failing that the intrinsic height, failing all these half the used width, at most 150 pixels. "
 "The content of an inline box is offset from the container's top by its own top margin, border and padding, and that of a replaced one from the left by its left margin, border and padding. (Not covered: a specified height with an auto width and a ratio.)",
 ["inputs","configurations"],"every combination of specified and intrinsic sizes, ratio, margins, borders and padding, in containers of any width at any depth",
 "Tests cover single combinations of intrinsic and specified size; zero, fractional and percentage sizes and nested containers are not combined.",
 [E],[("S10.3.1/S10.3.2","engine.py: calculate_inline_*_width"),("S10.6.1/S10.6.2","engine.py: calculate_inline_*_height")],["content_width, content_height, margins, content_left of inline boxes"]),
p("C07","Relative positioning moves a box and its content, and nothing else",
 "A relatively positioned block box, with its whole content, is displaced from its static position by left (or minus right if left is auto) and top (or minus bottom if top is auto), and neither its size nor the position of any box outside it changes. "
 "Offsets of statically positioned boxes have no effect. (Not covered: offsets of 'inherit', and both left and right given in right-to-left text.)",
 ["inputs","configurations"],"every tree of block boxes with any subset relatively positioned, any length offsets (left/right also percentages)",
 "Tests displace single boxes by fixed offsets; the effect on siblings, containers and descendants across trees is not sampled.",
 [E],[("S9.4.3","engine.py: layout_box, relative positioning")],["every box of the document against its static layout"]),
p("C08","The root box is placed on the display and, in HTML5, fitted to it",
 "The root box's width is resolved against the display's width, its collapsed top margin is shown in full above its border box, and under HTML5 (the default) its content height is the display's height minus its collapsed top and bottom margins, whatever height is specified. "
 "Under HTML4 the root's height follows the ordinary rules, and the choice of standard changes nothing but the root's content height.",
 ["inputs","configurations"],"every document, every display size, both standards however the name is obtained",
 "Tests use one display size per suite and never compare standards on the same document.",
 [E],[("root handling","engine.py: layout")],["root box and all descendants under both standards"]),
p("C09","Nodes that are not displayed have no box and leave no trace",
 "After layout a node whose display is none, and every descendant of one, has no layout box, and every other node has the box it would get if those subtrees were not in the document - including when all children or the root are hidden. "
 "Hiding, editing while hidden, and showing again in any order works and gives the layout of the resulting document.",
 ["inputs","histories"],"every document, every set of hidden nodes, every history of hiding, editing, showing",
 "One test hides one child; first, last, only, all, nested and re-shown nodes, and edits while hidden, are not covered.",
 [E,D,M],[("box removal","engine.py: generate_boxes, layout_box"),("dirtiness without a box","declaration.py: CSS.dirty; dimensions.py: Size.dirty")],["presence of boxes, all attributes of displayed boxes"]),
p("C10","An assignment is either stored canonically or refused without a trace",
 "Assigning any value whatsoever (that can be compared and printed) to any style property either stores it or raises ValueError; a refused assignment leaves every property, the listing of the declaration and the dirtiness of the layout as they were, and an accepted one changes no property other than those it names (and those whose initial value derives from them). "
 "Every value in the documented grammar of a property - its keywords, lengths, percentages, integers, colours and structured values - is accepted and read back as the value it denotes; other keywords, misspellings, malformed or non-finite numbers, and values of unsupported types are refused.",
 ["inputs","histories"],"every property, every value of any type, every prior state, every interface for assignment",
 "Tests try a few good and bad values per validator; the product of properties and hostile values, and the absence of partial effects, is not explored.",
 [D,C,V,P],[("validation","declaration.py: validated_property, directional_property, validated_shorthand_property; constants.py: Choices.validate")],["getters, keys(), items(), dirty after each assignment"]),
p("C11","A style declaration behaves as a map from property names to values",
 "A declaration holds exactly what was last assigned to each property, whether through attributes, item access, update() or the constructor, with dashes or underscores in item and update names; a property that was never set or was deleted reads as its initial value, where text-align follows the current direction and border colours follow the current colour. "
 "keys() and items() list every property set to a non-initial value with its value and no property that was never set or has been deleted; copies are equal to and independent of the original; unknown names raise KeyError on item access and NameError in update() and the constructor.",
 ["histories","inputs"],"every sequence of sets, deletes, updates, copies and constructions over all properties",
 "Tests exercise single properties and a single update/copy; interactions across properties and long sequences are not sampled.",
 [D],[("dict-like interface","declaration.py: CSS.update, copy, __getitem__, __setitem__, __delitem__, items, keys"),("initial values","constants.py: OtherProperty, TextAlignInitialValue")],["all getters, keys(), items()"]),
p("C12","Every relevant change marks the layout dirty, and nothing else does",
 "When the boxes of a document are clean, changing the value of any style property or of the intrinsic size of a node marks that node's box and the boxes of all its displayed descendants dirty, and no other box. "
 "Assigning a keyword, number or length equal to the present value of a property, or a colour equal to the one it was set to, deleting a property that is not set, a refused assignment, reading, or copying marks nothing dirty.",
 ["inputs","histories"],"every property and intrinsic attribute, every old and new value, every node of every tree",
 "Tests check dirtiness of a childless node for a few properties.",
 [D,M],[("dirty propagation","dimensions.py: Box.dirty, Size setters; declaration.py: setters and deleters")],["dirty of every box, style and intrinsic size"]),
p("C13","Directional properties expand one to four values to the right sides",
 "Assigning one value, or a tuple of one to four values, to margin, padding, border-width, border-color or border-style sets the top, right, bottom and left sides to the values CSS assigns them (1: all; 2: vertical, horizontal; 3: top, horizontal, bottom; 4: top, right, bottom, left), and reading it gives the four sides in that order. "
 "A tuple of another length, or with any invalid member, raises ValueError and changes no side; deleting it resets all four.",
 ["inputs","histories"],"all five properties, all valid and invalid tuples, every prior state",
 "Tests use one tuple of each length on one property.",
 [D],[("directional_property","declaration.py")],["side getters and the tuple getter"]),
p("C14","Border and outline shorthands set every part, in any order",
 "Assigning a string or sequence of one to three parts to border, border-top/right/bottom/left or outline sets the width, style and colour named, whatever their order, on all the sides concerned, and resets the parts not named to their initial values; nothing else changes. "
 "Duplicate, unknown, surplus or missing parts raise ValueError and change nothing, and deleting a shorthand resets all its parts; reading a side or outline shorthand shows the parts that are set, its printed form can be assigned again to the same effect, and two such readings are equal exactly when they are of one kind and show the same parts.",
 ["inputs","histories"],"all shorthands, every order and subset of parts, every value of each part, every prior state",
 "Tests enumerate orders for single example values on a fresh declaration.",
 [D,P,W],[("shorthand parsing","parser.py: border, outline"),("shorthand property","declaration.py: validated_shorthand_property")],["all longhands before and after"]),
p("C15","Lengths convert to pixels correctly and survive arithmetic and printing",
 "Every length (px, em, ex, ch, pt, pc, in, cm, mm, vw, vh, vmin, vmax), percentage and angle given as a string, number or unit object denotes the given number of that unit; converted on any display, font and base size it is the exact pixel value rounded to the nearest 1/64 pixel (an int when whole), and a document laid out with lengths in other units equals the one with the equivalent pixel lengths. "
 "Scaling and negation act on the number only and never alter existing values, values are equal when number and unit are, and the printed form parses to an equal value; malformed sizes are refused.",
 ["inputs","configurations"],"every finite number, unit, spelling, display, font and base size",
 "Tests convert one value per unit on one display.",
 [U,P],[("conversion","units.py: lu(), px(), deg()"),("parsing","parser.py: units")],["parser.units, Unit.px, str, ==, layouts"]),
p("C16","Colours denote the colour CSS says they do",
 "Every CSS colour name (in any case), #RGB, #RGBA, #RRGGBB, #RRGGBBAA, rgb() or rgba() (with integer components), hsl() or hsla() (with any number as hue) string denotes the components CSS gives it (those outside their range are clipped to it), and converting an HSL colour to RGB gives the nearest integer components for every hue, saturation and lightness, with alpha kept. "
 "Converting does not change the colour, colours are equal exactly when notation and components are, and malformed colours raise ValueError.",
 ["inputs"],"all 148 names, all hexadecimal and functional forms, all HSL values including hues outside 0-360",
 "Tests sample a dozen colours.",
 [K,P],[("parsing","parser.py: color, pound_sign_color"),("hsl.rgb","colors.py"),("names","colors.py: NAMED_COLOR")],["parser.color and the colour properties"]),
p("C17","The printed form of a declaration describes it completely",
 "The text of a declaration lists each set property once, by its dashed CSS name in alphabetical order, as 'name: value' separated by '; ', and nothing that is not set. "
 "Assigning the printed values to a new declaration gives the same value for every property.",
 ["inputs","histories"],"every declaration reachable by sets and deletes, for all kinds of values (without semicolons in strings or URLs)",
 "One test prints one declaration; reading it back is not tested.",
 [D,U,K,W,S],[("rendering","declaration.py: CSS.__str__ and the __str__ of the value types")],["str(declaration), re-assignment"]),
p("C18","Declarations share no state, values are immutable, nothing accumulates",
 "No operation on one declaration, on a value read from it, or on a container that was passed to it changes what any other declaration, the same declaration, or a newly created one reads; attempts to modify list values raise TypeError and have no effect. "
 "Repeating assignments and layouts any number of times, with the same or with ever new values, leaves no growing number of objects alive once the results are dropped.",
 ["histories","inputs"],"every sequence of operations over several declarations sharing values, including rejected ones and attempts at mutation",
 "Tests use declarations one at a time; leaks and aliasing show only across many operations.",
 [D,U,W,C],[("value types","wrappers.py: ImmutableList"),("unit registry","units.py: BaseUnit"),("copy","declaration.py: CSS.copy")],["all getters of all live declarations; number of live objects"]),
p("C19","Layout works on any node with the documented attributes, and only sets layout",
 "Layout needs nothing of a node but parent, children, style, intrinsic and layout, and nothing of the display but its content size, resolution and border sizes: it works, with the same result, for node objects that are false, empty, equal to each other, not comparable, not hashable or not printable, and for children in any sequence that can be iterated, indexed and sliced. "
 "It writes no attribute of a node other than layout, changes no style, intrinsic size, parent, children or display, and prints nothing.",
 ["programs","inputs"],"every node and display class with the documented attributes, every document",
 "All tests use one plain node class.",
 [E,M],[("duck typing","engine.py, dimensions.py: use of node and display")],["attribute writes, states before and after, boxes against plain nodes"]),
p("C20","Unsupported constructs are refused instead of being laid out wrongly",
 "Laying out a document in which a displayed box is floated, absolutely or fixedly positioned, a replaced block, or an inline-block among inline boxes raises NotImplementedError, wherever in the document it is. "
 "Such nodes do no harm while they are not displayed, documents without them are laid out, and once the construct is removed again layout works as if it had never been there. (Not covered: offsets of 'inherit', which layout does not resolve.)",
 ["inputs","histories"],"every supported document with an unsupported construct at any displayed position",
 "No test lays out an unsupported construct.",
 [E],[("NotImplementedError branches","engine.py: layout_box, calculate_width_and_margins")],["exceptions from layout(), boxes afterwards"]),
p("C21","Structured values keep their parts in order through parsing and printing",
 "Rectangles, quotation marks, border spacings, URIs and cursors given as strings, sequences or converted objects hold exactly the parts given, in order: a rectangle's four lengths, each level's opening and closing quote including white space inside, one or two spacings (one serving for both), the URL, and the URIs followed by at most one cursor keyword. "
 "Printing and parsing again, and passing a converted value back in, preserve them; rectangles and quotes are equal exactly when their parts are, asking for a part beyond the last raises IndexError, and malformed values raise ValueError.",
 ["inputs"],"every structured value in every accepted spelling, and malformed variants",
 "Tests use a few fixed strings per parser.",
 [P,W,S,V],[("parsers","parser.py: rect, quotes, border_spacing, uri, cursor"),("wrappers","wrappers.py, shapes.py")],["parser results and property getters"]),
p("C22","Effort stays in proportion to the document and does not creep up",
 "The work done by a layout, or by a change that marks layouts dirty, grows no faster than the number of boxes times the nesting depth, and documents of thousands of boxes, or nested 150 deep, are laid out. "
 "Repeating the same layouts, edits or assignments any number of times takes no more work later than at first, and parsing or printing a structured value takes work in proportion to its parts.",
 ["inputs","histories"],"every document repeated side by side or nested to any size; every workload repeated any number of times",
 "Tests lay out small documents a few times; growth shows only between sizes, or late in a history.",
 [E,M,D,U],[("layout recursion","engine.py: layout_box"),("origin propagation","dimensions.py: Box._origin_top/_origin_left setters"),("registries","units.py: BaseUnit; declaration.py")],["number of colosseum lines executed per operation"]),
p("C23","Validators return the value an argument denotes and refuse everything else",
 "Each public validator returns the value its argument denotes in any accepted spelling (a finite number or integer within the inclusive limits given, a length, a non-negative percentage, a colour, a border spacing, a rectangle, quotes, a URI or a cursor) and raises ValidationError, which is a ValueError, for everything else that can be compared and printed, whatever its type. "
 "Choices accept exactly their keywords, their defaulting constants and the values their validators accept; validators and Choices made with different limits do not influence each other.",
 ["inputs","histories"],"every validator, all limits, all values of any type",
 "Tests call each validator with two or three values.",
 [V,C],[("validators","validators.py"),("Choices","constants.py: Choices.validate")],["results and exceptions of validators and of Choices.validate"]),
]
with open('/verif/properties.jsonl','w') as f:
    for x in L: f.write(json.dumps(x,ensure_ascii=False)+"\n")
notes={}
checks=[]
for x in L:
    checks.append(dict(property=x['id'],quick_cmd=f"/opt/venv/bin/python harness/check.py {x['id']}",
      thorough_cmd=f"/opt/venv/bin/python harness/check.py {x['id']} --tier thorough",
      technique=TECH[x['id']] if 'TECH' in globals() else "",level="exploration",level_note=""))
TECH={
"C01":"online box-equation monitor and exact-arithmetic reference monitor over randomized layouts",
"C02":"sibling/parent trace monitor and exact-arithmetic reference monitor over randomized layouts",
"C03":"height monitor and exact-arithmetic reference monitor over randomized layouts",
"C04":"geometric invariant monitor at every box over layouts and mutation histories, with shadow model",
"C05":"history monitor against freshly built documents and pristine processes, with fault injection and threads",
"C06":"reference monitor for inline sizing over randomized layouts",
"C07":"differential monitor (static against relative layout) with exact reference",
"C08":"root monitor under both standards with exact reference",
"C09":"history monitor: layouts compared with the document cut of hidden nodes",
"C10":"assignment monitor: full-state snapshots around labelled and hostile assignments",
"C11":"model-based history monitor of declarations (map model)",
"C12":"dirty-flag trace monitor over all boxes of live documents",
"C13":"model-based history monitor of directional properties",
"C14":"model-based history monitor of shorthands",
"C15":"exact-rational reference monitor of conversions; differential layouts",
"C16":"reference monitor of colours (CSS table, exact HSL)",
"C17":"round-trip monitor of printed declarations",
"C18":"aliasing monitor over several live declarations; live-object (leak) monitor",
"C19":"attribute-write instrumentation of hostile node and display classes",
"C20":"exception monitor over documents with injected unsupported constructs",
"C21":"reference monitor of structured values; round trips",
"C22":"executed-line counters (sys.monitoring) over scaled and repeated workloads",
"C23":"reference monitor of validators and Choices over labelled and hostile values"}
for c in checks:
    c['technique']="runtime monitoring: "+TECH[c['property']]
    c['level_note']="Held on the executions explored (counts in the evidence file); trusts the harness's own reference/model, written independently of the code. See DESIGN.md for the domain."
json.dump(dict(version=1,setup_cmd="/opt/venv/bin/python harness/setup_check.py",checks=checks,not_applicable=[],
  notes="No hooks in /repo are needed: monitors observe public objects. Repairs are the 'fix:' commits listed in known_findings.json."),open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write("\n")
