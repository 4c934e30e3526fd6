P={}
def d(i,spec,reach,found): P[i]=(spec,reach,found)
d('C01',"""`bytes`, `mutated` and `structured` load 1..4 documents into one brush: random bytes and
JSON tokens; the bundled brushes damaged by truncation, byte changes, deletions, duplications
and number replacement; valid JSON with wrong types, counts, order, nesting, huge numbers and
unknown names at every level.  Oracle (`docgen.hpp`): the document is read independently
through json-c and every setting gets a verdict *well-formed*, *malformed* or *unspecified*
(scalars of a non-number type that json-c coerces).  Success must be reported exactly when at
least one setting was well-formed and the version is 3 (either way if only unspecified ones are
left).  Values of well-formed settings, everything not mentioned and the structure of every
curve (0 or 2..64 points, finite, ordered x) are compared.  Then the brush paints a short stroke
and a good document is loaded and must come out exactly.""",
"""Tests load a dozen hand-made bad files.  The crashes found needed point counts, number
ranges or types no file in the test directory has.""",
"3907196 (point lists of 1 or more than 64 points, unordered x, NaN/Inf values, wrong types and missing fields aborted or left unusable values)")
d('C02',"""`history`: documents with any subset of settings and inputs, 0 or 2..64 points, any key
order, white space, comments, number notation, extra fields, unknown settings and extra entries in a
point, mixed with rejected documents, API edits and resets to defaults; an array model of all
base values and curves is compared after every step, exactly (the generator knows the correctly
rounded float of each printed number).  `numbers`: numbers of any magnitude in many notations.
`twin`: a brush loaded and one built by API calls paint the same dabs.""",
"""The persistence test compares five brushes with a stored list.""","none beyond C01's")
d('C03',"""`mapping`: histories of set_base/set_n/set_point/calculate on a stand-alone mapping
against an independent piecewise-linear evaluator, inputs aimed at knots, between and beyond.
`brush`: random curves on eight settings that reach the dab, driven by inputs held constant
(pressure, tilt, zoom, radius); each dab parameter against the evaluator, plus inputs-used and
is-constant bookkeeping.""","No test evaluates a mapping.","none")
d('C04',"""Every pixel of every touched tile must satisfy channel <= alpha <= 2^15 after a single
dab with any finite parameters (values beyond their range and mixed modes included), large soft
or hard edges, sequences of 2..40 dabs in sections, and strokes of random brushes, all on random
valid pixels (opaque, translucent, almost transparent, extremes).  UBSan catches overflow.""",
"""Validity breaks at isolated (pixel, colour, opacity) combinations; a case checks up to
~10^5 pixels with different values at once.""",
"dadd540 (division by zero under locked alpha), 286be59 (posterize level), 5411b91 (pigment factor out of range), 3422aff (posterize could exceed alpha)")
d('C05',"""A reference compositor (`refmode.hpp`, double precision) is applied to every pixel of a
tile filled with random valid pixels; the result must lie in an interval computed from the rounding
of the fixed-point steps.  A dab of hardness 1 and radius 48 gives a uniform mask, so that the
dab strength is known.  Facets per mode (normal, eraser, lock alpha, colorize, posterize,
spectral and its variants), mixed weights, repeated dabs and shaped dabs (where the equation is
evaluated at the lowest and highest admissible strength).""",
"""Stored-image tests have a wide tolerance and use five brushes, none with most modes.""",
"5d94c65 (colorize of white/black divided by zero), 3422aff (posterize worked on premultiplied values)")
d('C06',"""Normal-mode dab on a transparent canvas; alpha of each pixel in and around the bounding
square against the two-segment falloff of the elliptic distance in double precision (with the
antialiasing of small radii evaluated from its definition); outside radius+1 nothing may change.
`border` places dabs within a pixel of tile borders; `invisible` mixes dabs that must do nothing
(and report so) with visible ones; `huge` does the same for radii of 140..1000 px.""","No test looks at a single dab.","none")
d('C07',"""Integer shift of dabs over content shifted along: canvases bit-identical.  `corner`
compares a dab across a tile corner with one inside a tile, `pick` compares colour picks, `stroke`
compares recorded strokes (dab for dab, up to float rounding), `big` dabs of radius 140..1000 px.  Positions on a 1/16 px grid.""",
"""Tests paint at one place.""","ca32889 (spectral picks mixed tiles in an order-dependent way), 11c0b19 (smudging truncated coordinates towards zero)")
d('C08',"""Histories of up to 60 dabs and picks run one operation per fresh surface (reference), all
in one section and randomly divided: canvases bit-identical, picks equal.  `far`/`line` scatter dabs
over thousands of pixels (queue growth), `flood` fills the whole tile queue and flushes tiles by
picks.  Domain: |x| <= 20000 px because the queue's memory grows with the square of the
largest tile index.""","""Tests never grow, saturate or flush the queue.""","c40cc9c (assertion when a flushed tile is dirtied again while the queue is full)")
d('C09',"""Pixel difference before/after each section against the reported rectangles (coverage),
and with room for all of them rectangles against independently computed bounds of every symmetry
image (tightness, nothing left over).  1..22 rectangles offered, up to 240 images so that the box
array is reallocated, invisible dabs mixed in; `single`: without symmetry the rectangle is the hull
up to 1 px; `big`: radii up to 500 px and a few images.""","""Merging and counting go wrong only for particular counts and mixes.""","2ad82a6 (boxes dropped when a later dab used fewer)")
d('C10',"""Symmetric painting against explicit painting of every image with centres and angles computed
in double precision; tolerance only where rounding of the centre moves antialiased edges.
Reconfiguration between and inside sections; `off` bit-identical with a surface that never had
symmetry; `first`: the plain dab is painted exactly.""","No test uses symmetry.","none beyond C28's")
d('C11',"""Uniform canvases (known answer), transparent areas, mask-weighted mean where every pixel is
sampled (mask recomputed in double precision), convexity for every radius and mode, grey-in grey-out
for spectral mixing.  Sampling picks are judged by their mean over 30 picks on an even gradient (`sampled`,
tolerance of 6 standard errors plus 0.12 radii) and on canvases of two flat colours that meet under
the middle (`halves`; tolerance 0.38 because half of the samples follow a documented regular grid).  `vast` picks with radii up to 20000 px
where only few tiles can be provided.  Canvas compared before/after each pick.""",
"""The picker is only used indirectly in tests.""","5c0c1b4 (see C14), a57344e (division by zero at a radius of 9363 px)")
d('C12',"""A backend that hands out guarded private copies checks pairing, one request at a time per
tile, guard words, unchanged read-only buffers, no access after the end, only indices that a dab or
pick touches; then with generated failure patterns the outcome must be every request ended, other
tiles bit-identical with a fault-free run, and normal painting once tiles return.""",
"""In-tree backends never fail and check nothing.""","9b3fd7e (request left open / abort on NULL tiles)")
d('C13',"""OpenMP build; the same sections serial and with 2..16 threads, tile requests sleeping or
yielding at random; canvases, picks, rectangles, brush states bit-identical; an atomic open-request
counter per tile.""","""The stable build is serial.""","8910399 (picks depended on the order threads finished)")
d('C14',"""Random sections, strokes and picks on fixed surfaces of 1..300 px and on GEGL surfaces (own
buffer, supplied buffers of native and foreign layout, any extent and content) against an infinite
reference store: pixels, picks, rectangles identical; content preserved; the extent grows by the tiles
painted on and nothing else (not for picks).  One dab in 60 has a radius of 100..900 px.""",
"""The GEGL tests are not part of the stable suite, the fixed surface test only constructs one.""",
"001c0f9 (fixed surface filled with out-of-range values), 4b42e52 (supplied buffer's extent shrank), 5c0c1b4 (picking rewrote pixels of foreign buffers)")
d('C15',"""`rate`: positions, pressure, tilt of each dab against a double precision accumulator of
distance/radius and time; `split`: segments divided into 2..12 proportionally timed events;
`vary`: radius and shape driven by pressure and tilt, consecutive dabs one unit apart.""",
"""The stroke tests replay one event list.""","none")
d('C16',"""The same brush and history run with heap and stack prefilled with 0x00, 0xFF and a random
byte, and interleaved with other brushes and rand(): bit-identical dabs, picks, states; `canvas` the
same for tiled surfaces.""","""A test process runs one brush once.""","c51ac09 (grid map read uninitialised settings on new brushes)")
d('C17',"""A used brush after reset (or > 5 s pause) and a fresh brush with the same settings paint the
same stroke: bit-identical; `start`: the first event sets position and pressure exactly.""",
"""No test resets a used brush.""","0ba5ade, c51ac09, 3eeb0c5, 9394f5e")
d('C18',"""Event streams with NaN/Inf/huge coordinates and pressure, extreme tilt, zero, negative and
huge time steps over any settings with in-range or cliff-like dynamics incl. feedback: each dab is
checked for finiteness, radius, opacity, offsets; `far` works where dab steps vanish in rounding;
`recover` requires exact ordinary dabs from the second ordinary event on; `replaced` requires an
insane field to act exactly like its documented replacement; `canvas` paints on
real tiles.""","""Tests replay sane recorded events.""",
"2520f29 89ca15e ab6e3a4 b5edeb0 22f442d 749114f 5da74cb 849ac27 9a8e907 0c4eec1 7470d2d")
d('C19',"""Inputs are observed at each dab through identity curves on lock_alpha, colorize, posterize and
posterize_num, which reach the surface unclamped.  `range`: published hard limits on any stream;
`model`: every input against a double precision model of its documented meaning (an axis whose way
round is a matter of rounding widens the tolerance until the filter has forgotten it); `meaning`: steady
motion has known directions and speeds; `random`: moments and correlation.""",
"""No test observes an input.""","b39df53 (barrel rotation range), 7bc0fd2 (declination without tilt)")
d('C20',"""All 17 parameters of each dab against formulas in double precision written from the setting
descriptions; tracking filters against a model; random radius and offsets statistically.""",
"""Stored-image comparison of five brushes.""","7470d2d, 0c4eec1 (found together with C18)")
d('C21',"""Histories of events with durations on both sides of every threshold, painting or not as a
scripted surface decides, resets and new strokes: result and painting time after each event against
a reference.""","""Tests ignore the return value.""","none")
d('C22',"""API histories at any index against an array model; strokes with constant or dynamic bucket
selection: only the selected bucket changes; a bucket written by the API determines the next dab.""",
"""No test uses buckets.""","0ba5ade, b1bd6d6")
d('C23',"""A recording surface answers picks with generated colours; a reference keeps the smudge state
and predicts number, place and radius of picks and the colour, alpha, opacity and suppression of each
dab; `uniform` and `limit` check consequences on real tiles.  The reference follows the implemented mixing
weights of mix_colors (an undocumented formula), so it decides consistency, not the formula's merit.""",
"""No test smudges on known colours.""","11c0b19, 16d51bf")
d('C24',"""Histories over up to 6 live brushes/surfaces (bundled and custom); each library allocation is
booked to the object whose call made it through sanitizer malloc hooks; on the last unref everything
of that object must be gone, before it nothing may be freed.  ASan finds double frees and uses after
free.""","""Tests run one ordinary life cycle without leak checks.""","5ebad2a (pending operations leaked)")
d('C25',"""Metadata of every setting/input/state against the parsed brushsettings.json, enum constants,
names (40000 mangled names per run), default brush after any history.""",
"""One test loads defaults.""","none")
d('C26',"""Histories over several generators; recurrence x[n]=x[n-10]+x[n-7] mod 1 on blocks, replay,
isolation, bounds; moments, histograms, serial correlation over generated seeds (6 sigma).""",
"""test-rng checks one seed.""","none (only the lower 30 bits of a seed distinguish generators; stated in the property)")
d('C27',"""States and buckets copied into another brush with another past; the rest of the stroke is
bit-identical.  Single state writes read back and change nothing else.""",
"""Never tested.""","none beyond C17/C22's")
d('C28',"""`fault` variant: the library's malloc/calloc/realloc fail by a generated pattern.  Sections under
changing symmetry with failing section-start allocations, construction of brushes, surfaces and small
objects; the picture must be the mirrored one if nothing failed, otherwise that or the unmirrored
one; rectangles cover all changes; constructors return NULL and leave nothing.""",
"""Allocation never fails in tests.""","d61dbe0 421a032 9e807a1 a9fb2f1")
d('C29',"""The same screen gesture in a rotated/zoomed/moved/mirrored view must give
correspondingly transformed dabs and equal inputs; settings bound to the canvas (grid map, fixed
angles, ascension offsets) are excluded and listed in the property.""",
"""Tests use zoom 1 and rotation 0.""","11c0b19")
d('C30',"""GLib build of the library under AddressSanitizer.  `history`: up to 4 live objects (brushes,
fixed and custom surfaces, rectangles, in `gegl` also GEGL surfaces) and histories of g_boxed_copy,
g_value_set/take/dup/copy, ref, unref, g_boxed_free and use, against a list of the references
held: a copy of an object must be that object and show what was set through any other reference, a
rectangle copy has its own value and memory, destruction happens exactly with the last reference
(destroy function observed, every block booked on its object).  `types`: names, ids and type tests in
any order of first use.  `many`: up to 70000 references at a time.  `buffers`: the reference counts of
the buffers of GEGL surfaces over histories of setting, sharing, painting and destroying.""","""No test uses the boxed types; the reference functions were registered as
copy functions although they return nothing, which only shows when the returned pointer is used.""","a06f012 (copies were garbage pointers)")
d('C31',"""Generated pictures on own and supplied GEGL buffers (five formats, several tile sizes), saved as a
whole or as any area (also beyond what is painted, over existing files, several times), read back with
GEGL's own PNG reader: size, every pixel (16 bit tolerance), and that buffer, extent and
reference count are as before.  `without`: fixed and custom surfaces in memory that is not clean.""","""The only use in the
tests is commented out.""","f99b683 (the requested area was ignored), e6884f3 (saving a surface that cannot save jumped to a random address)")
import json,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
out="\n## Properties\n\nEach entry: *what is generated and judged*, why the tests cannot reach it, and the genuine\ndefects it found (all repaired by `fix:` commits, see known_findings.txt).  Facet rules and\ncounts are in the evidence files.  All checks are random exploration with boundary bias (level\n`exploration`): nothing is proved.  Cost: 10..40 s per quick check on 8 cores including the build,\nthorough 40..60 times the cases.\n"
for p in props:
    s,r,f=P[p['id']]
    out+=f"\n### {p['id']} {p['title']}\n\n{s}\n\n*Beyond the tests:* {r}\n*Defects found:* {f}.\n"
out+='''
## Observations left alone

* HCY conversion uses an odd luma weight; unused by the library.
* Recursion in stroke_to after a long pause passes xtilt=90 for the inserted event (reset follows).
* direction_filter = 0 loses the direction while the pen rests (documented behaviour of the filter).
* mix_colors: the weights of smudge and brush colour in pigment mode do not follow alpha, random subset
  sampling of large pigment-mode picks uses libc rand() (excepted in C16).
* Operation queue memory grows with the square of the tile index and its mallocs are unchecked
  (domain limit of C08, C28); huge fixed surfaces overflow int.
* GEGL set_buffer takes an extra reference despite "(transfer full)".
* offset_angle_asc/_2_asc subtract the view rotation where the ascension input adds it; the frame of
  tilt is undocumented (C29 excludes them).
* An unknown input aborts the remaining inputs of its setting: treated as malformed (C01, C02).

## False alarms corrected

* C24: apparent leaks were the harness's static documents and trace strings (now outside the owner scope).
* C03: the expected declination without tilt followed the defect repaired in 7bc0fd2.
* C29: directional comparisons before the pen has moved, offsets at their 3240 px limit, tracking noise
  near its skip threshold and ascension offsets were too strong; excluded or given sensitivity-based tolerances.
* C11: range of spectral picks holds only for greys; per-tile float sums give radius-dependent tolerance.
* C21: a pen held steady at one pressure may seem to be released by a rounding error of the pressure state
  (the forced split then waits); the model now takes the pressure state as the library reports it.
* C11, C12: bounds that did not count the pixels of a pick, and picks so large that a case took too long.
* C30: trace strings booked on the object under test.
* C14: GEGL fixtures wrote outside a buffer's extent (GEGL clips), not a library defect.
'''
bugs={}
for l in open('/verif/tools/detections.txt'): i,c,f=l.split(); bugs[i]=(c,f)
out+='\n## Planted bugs\n\nEach breaks one property in a way the existing tests do not see; the demonstration beside it shows that.\nThe quick check (seed 1) of the property catches it through the facet named.\n\n| bug | check | facet | needs |\n|---|---|---|---|\n'
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/'+i+'/meta.json')); c,f=bugs.get(i,(m['property'],'**missed**')); out+=f"| {i} | {c} | {f} | {m['needs'].replace('|','/')} |\n"
s=open('/verif/DESIGN.md').read()
i=s.find("\n## Properties")
if i>=0: s=s[:i]
open('/verif/DESIGN.md','w').write(s.rstrip()+"\n"+out)
