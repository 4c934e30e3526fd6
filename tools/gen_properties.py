#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the prose stays editable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
           why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

p('C01','Loading any byte string as a brush is safe',
  'For any NUL-terminated byte string, loading it as a brush never crashes, aborts, hangs or invokes undefined behaviour. It reports success exactly when at least one setting entry of a version-3 brush was well-formed and applied, and it always leaves a brush whose dynamics are structurally valid (0 or 2..64 points per curve, non-decreasing x) and that can still be painted with and reloaded.',
  ['inputs','histories'],'All byte strings (random bytes, mutated real brushes, structurally valid JSON with wrong types, counts, order, nesting and numbers) and sequences of loads on one brush.',
  'The tests load five good brushes and a small directory of hand-made bad ones; the space of malformed documents is unbounded.',
  ['mypaint-brush.c','mypaint-mapping.c'],[('json type checks while walking the document','mypaint-brush.c: update_brush_from_json_object, update_brush_setting_from_json_object'),('curve structure assertions','mypaint-mapping.c: mypaint_mapping_set_n, mypaint_mapping_set_point')],
  ['return value of mypaint_brush_from_string','mypaint_brush_get_mapping_n/point','dabs of a following stroke'])
p('C02','A well-formed brush document is loaded faithfully',
  'After loading a well-formed version-3 brush, every setting the document mentions has exactly the base value and curve points it states, regardless of key order, formatting or extra unknown fields, extra unknown settings or extra entries in a point. Settings it does not mention, and inputs a setting does not mention, keep what they had; resetting to defaults gives exactly the documented default brush whatever was loaded before.',
  ['inputs','histories'],'All well-formed documents over all settings and inputs, with unknown extra fields and settings (an unknown input inside a setting makes that setting malformed), and sequences of loads, API edits and resets to defaults.',
  'The persistence tests compare a few fixed brushes; they cannot cover the product of settings x inputs x point lists x interleavings of loads and edits.',
  ['mypaint-brush.c','mypaint-mapping.c','mypaint-brush-settings.c'],[('document walk','mypaint-brush.c: update_brush_*_from_json_object'),('defaults','mypaint-brush.c: mypaint_brush_from_defaults')],
  ['mypaint_brush_get_base_value','mypaint_brush_get_mapping_n','mypaint_brush_get_mapping_point'])
p('C03','Brush dynamics evaluate as base value plus piecewise-linear curves',
  'A setting always evaluates to its base value plus, for every input that has a curve, the value of that piecewise-linear curve at the input, extrapolating the first and last segments and treating flat or vertical segments as their left value. The bookkeeping queries (number of points, points, number of inputs used, is-constant) always agree with the sequence of edits made.',
  ['inputs','histories'],'All curves (0 or 2..64 points, duplicates in x and y), input vectors and edit histories.',
  'No unit test evaluates a mapping at all; a bug at a knot, beyond an end, or in the used-inputs counter needs particular points and edit orders.',
  ['mypaint-mapping.c','mypaint-brush.c'],[('segment search and interpolation','mypaint-mapping.c: mypaint_mapping_calculate'),('inputs_used counter','mypaint-mapping.c: mypaint_mapping_set_n')],
  ['mypaint_mapping_calculate','dab parameters'])
p('C04','Canvas pixels always stay valid premultiplied colour',
  'Starting from a canvas whose pixels are valid premultiplied fixed-point colours (each colour channel <= alpha <= 2^15), every sequence of dabs with any finite parameters, in any mix of blend modes, leaves every pixel valid.',
  ['inputs','histories'],'All finite dab parameters, all valid starting canvases, all dab sequences.',
  'The tests compare whole strokes with reference images loosely; rounding at particular alpha/colour/opacity combinations and mode mixes is never sampled.',
  ['brushmodes.c','mypaint-tiled-surface.c','mypaint-fixed-tiled-surface.c'],[('fixed-point compositing','brushmodes.c: draw_dab_pixels_BlendMode_*'),('parameter clamping','mypaint-tiled-surface.c: draw_dab_internal')],
  ['tile buffers after end_atomic'])
p('C05','Each blend mode composites by its documented equation',
  'For every pixel and every parameter set, a dab changes the pixel as its modes specify: normal is "over" at the dab opacity, the eraser target alpha blends towards that transparency, lock-alpha and colorize and posterize never change alpha, colorize keeps luminance and pure black/white and takes hue from the colour, posterize quantises, and paint (spectral) mode mixes by a weighted geometric mean between the two colours. Intermediate mode weights apply the modes one after another with the documented shares.',
  ['inputs'],'All pixel values, dab colours, opacities, eraser alphas and mode weights.',
  'Blend results are only compared for a few strokes and only against stored images with a wide tolerance.',
  ['brushmodes.c','mypaint-tiled-surface.c','helpers.c'],[('mode dispatch and shares','mypaint-tiled-surface.c: process_op, draw_dab_internal'),('compositing loops','brushmodes.c'),('spectral mixing','helpers.c: rgb_to_spectral, spectral_to_rgb')],
  ['tile buffers before and after one dab'])
p('C06','A dab has the documented shape and touches nothing outside it',
  'A dab changes only pixels within its (elliptical) radius plus the one-pixel antialiasing border, and inside it its strength at each pixel is the documented two-segment hardness/softness falloff of the normalised elliptic distance, for any position, size, aspect ratio and angle. Parameter combinations documented as invisible (radius below 0.1, zero opacity, zero hardness, full softness) change nothing and are reported as not painting; every dab reports whether it painted.',
  ['inputs'],'All finite positions, radii, aspect ratios, angles, hardness and softness values.',
  'No test looks at a single dab; the RLE mask has many boundary cases (tile edges, clipping, tiny radius, hardness 1).',
  ['mypaint-tiled-surface.c'],[('mask rendering','mypaint-tiled-surface.c: render_dab_mask, calculate_rr, calculate_opa')],
  ['alpha of an initially transparent canvas after one opaque dab'])
p('C07','The tile grid is invisible',
  'What a dab, stroke or colour pick does does not depend on where it lies relative to the tile grid or the origin: shifting every position by any whole number of pixels shifts the painted result by exactly that amount, including across tile borders, negative coordinates and the origin.',
  ['inputs','histories'],'All integer shifts and all dab sequences at coordinates where the shift is exact.',
  'Tests paint at one place only, so a tile-dependent seam or off-by-one at a tile border is not visible to them.',
  ['mypaint-tiled-surface.c','operationqueue.c','tilemap.c'],[('tile range computation','mypaint-tiled-surface.c: draw_dab_internal, get_color'),('per-tile mask offset','mypaint-tiled-surface.c: process_op')],
  ['tile buffers','colours from get_color'])
p('C08','Queued dabs are applied exactly once, in order, however drawing is batched',
  'The final canvas and all picked colours are the same however a given sequence of dabs and colour picks is divided into atomic sections; each accepted dab is applied exactly once, in order, to every tile it touches. Dabs may be anywhere (negative, far away, overlapping hundreds of tiles) and colour picks in the middle of a section see every earlier dab.',
  ['histories','schedules'],'All sequences of dab / pick / begin / end operations and all placements of section boundaries.',
  'Tests use one atomic section per stroke event near the origin and never grow or saturate the operation queue.',
  ['mypaint-tiled-surface.c','operationqueue.c','tilemap.c','fifo.c'],[('per-tile operation queue','operationqueue.c: operation_queue_add, operation_queue_pop'),('queue growth','operationqueue.c: operation_queue_resize; tilemap.c: tile_map_copy_to'),('flush on pick','mypaint-tiled-surface.c: get_color, process_tile')],
  ['tile buffers','picked colours','tile requests'],
  [('dirty_tiles','tiles with queued operations','operationqueue.c'),('tile_map','per tile FIFO of dabs','tilemap.c')])
p('C09','Dirty rectangles cover every changed pixel and little else',
  'The rectangles reported when an atomic section ends cover every pixel that changed in that section, for any symmetry setting, any number of dabs and any number (>= 1) of rectangles offered by the caller, and never more rectangles are reported than offered. With room for all of them the rectangles stay within the bounding boxes of the dabs drawn in this section; nothing from an earlier section leaks in.',
  ['inputs','histories','configurations'],'All dab sequences, section boundaries, symmetry configurations and caller rectangle counts.',
  'The tests hand over one or ten rectangles for ordinary strokes and do not check coverage; merging and counting only go wrong for particular counts and mixes of visible and invisible dabs.',
  ['mypaint-tiled-surface.c','mypaint-rectangle.c'],[('bbox accumulation','mypaint-tiled-surface.c: update_dirty_bbox, prepare_bounding_boxes'),('merging into the caller\'s rectangles','mypaint-tiled-surface.c: mypaint_tiled_surface_end_atomic'),('rectangle union','mypaint-rectangle.c')],
  ['roi after end_atomic versus the pixel diff'],
  [('num_bboxes_dirtied','boxes used in this section','mypaint-tiled-surface.h')])
p('C10','Symmetric painting equals painting every transformed dab',
  'With symmetry on, drawing a dab equals drawing that dab and its images under the symmetry group configured (vertical, horizontal, both, n-fold rotation, n-fold snowflake around any centre at any angle), with dab angles transformed accordingly. A new configuration takes effect at the next section start, switching symmetry off takes effect at once, and off means exactly the plain dab.',
  ['inputs','configurations','histories'],'All symmetry types, centres, angles, line counts, dabs, and sequences of reconfiguration.',
  'No existing test paints with symmetry.',
  ['mypaint-symmetry.c','mypaint-matrix.c','mypaint-tiled-surface.c'],[('matrix calculation','mypaint-symmetry.c: mypaint_update_symmetry_state'),('dab replication','mypaint-tiled-surface.c: draw_dab')],
  ['tile buffers'],[('state_current/state_pending','symmetry basis in force / requested','mypaint-symmetry.h')])
p('C11','Picked colours describe the canvas under the pick',
  'Picking a colour anywhere always yields finite components in [0,1]; on a uniformly coloured area it yields that colour and alpha for every radius and sampling mode, in general (legacy and additive mixing) each component lies within the range of colours under the pick area, alpha is the mask-weighted mean when sampling every pixel, picks that look at a sample of the pixels only are unbiased (over an evenly rising canvas they average to the value in the middle), and fully transparent areas report alpha 0. Picking never changes the canvas.',
  ['inputs','histories'],'All canvases, positions, radii and paint factors (legacy, additive, spectral).',
  'Only indirect use through smudging; the tests never call the picker with a known answer.',
  ['mypaint-tiled-surface.c','brushmodes.c'],[('sampling','brushmodes.c: get_color_pixels_accumulate, get_color_pixels_legacy'),('tile loop','mypaint-tiled-surface.c: get_color')],
  ['results of mypaint_surface_get_color'])
p('C12','The tile backend protocol is honoured, also when tiles cannot be had',
  'Every tile access is a properly paired start/end request with the right index, one at a time per tile, read-only for picking; a tile that is not touched by any dab or pick is never requested, and a tile buffer is only accessed between start and end and only within its bounds. If the backend cannot supply a tile, the library does not crash, other tiles are painted as usual, every started request is ended, and once tiles are available again later dabs paint normally.',
  ['fault_sequences','histories'],'All dab/pick sequences and all patterns of tile requests that fail.',
  'The in-tree backends always return a buffer and check nothing.',
  ['mypaint-tiled-surface.c'],[('request pairing','mypaint-tiled-surface.c: process_tile, get_color'),('request initialisation','mypaint-tiled-surface.c: mypaint_tile_request_init')],
  ['calls received by a checking tile backend'])
p('C13','Parallel rendering gives exactly the serial result',
  'When built with OpenMP and a backend that allows concurrent tile requests, painting gives bit-identical canvases, dirty rectangles and brush state to the serial build, for any number of threads and any scheduling, and never requests one tile from two threads at a time.',
  ['schedules','histories'],'All dab sequences, thread counts and interleavings of tile processing.',
  'The default test build is serial.',
  ['mypaint-tiled-surface.c','operationqueue.c','tilemap.c'],[('parallel tile loop','mypaint-tiled-surface.c: mypaint_tiled_surface_end_atomic'),('critical section while picking','mypaint-tiled-surface.c: get_color')],
  ['tile buffers','request log'])
p('C14','All tile backends produce the same picture',
  'The bundled fixed-size surface behaves like an infinite surface clipped to its tiles: same pixels inside, writes outside are ignored and never read back, a new surface is uniformly opaque white in range, and its dimensions are reported as given. The GEGL surface holds the same pixels as any other backend after the same operations, for its own buffer as well as for a buffer supplied by the application, whose existing content is preserved and whose extent grows by the tiles painted on and nothing else.',
  ['inputs','histories','configurations'],'All surface sizes, all dab/pick sequences inside, across and outside the borders, and both kinds of GEGL buffer.',
  'The fixed-surface test only creates one surface; the GEGL tests are not run by the stable suite.',
  ['mypaint-fixed-tiled-surface.c','gegl/mypaint-gegl-surface.c','mypaint-tiled-surface.c'],[('null tile','mypaint-fixed-tiled-surface.c: tile_request_start/end'),('buffer access and extent','gegl/mypaint-gegl-surface.c: tile_request_start/end, mypaint_gegl_tiled_surface_set_buffer')],
  ['tiles requested through the public tile request API','GEGL buffer contents'])
p('C15','Dab spacing follows the brush, not the event rate',
  'Along a stroke, dabs are spaced so that distance/radius and time accumulate to exactly one unit per dab at the configured dabs-per-radius and dabs-per-second rates, with positions, pressure and tilt interpolated linearly between events. Splitting a motion into any number of collinear, proportionally timed events leaves the sequence of dabs the same up to rounding, and no part of a dab is lost between events.',
  ['inputs','histories'],'All constant-speed paths, spacings, and subdivisions of events.',
  'The stroke tests replay one recorded event list at fixed spacing.',
  ['mypaint-brush.c'],[('dab counting','mypaint-brush.c: count_dabs_to'),('interpolation loop and partial dabs','mypaint-brush.c: mypaint_brush_stroke_to')],
  ['recorded dabs'],[('PARTIAL_DABS','fraction of a dab carried over','mypaint-brush.c')])
p('C16','Painting is deterministic and instances do not influence each other',
  'The same brush settings and the same event history always give the same dabs, colours and states, independent of memory contents, of other brushes and surfaces used in between, and of when they were created. Random settings draw only from the brush\'s own generator. (The sampling of large picks in the optional pigment mode is documented to be random and is excepted.)',
  ['histories','schedules'],'All settings (including random ones), event histories, and interleavings of several brush instances.',
  'Tests run a single brush in a fresh process once.',
  ['mypaint-brush.c','rng-double.c','helpers.c'],[('per-brush generator','rng-double.c; mypaint-brush.c'),('complete initialisation','mypaint-brush.c: mypaint_brush_new_with_buckets, brush_reset')],
  ['recorded dabs','states'])
p('C17','Reset makes a stroke independent of the past',
  'After a reset, or a pause longer than the documented maximum, the next event only re-establishes the starting position and what follows equals what a freshly created brush with the same settings would paint; nothing of earlier positions, speeds, filters, smudge colours or partial dabs survives. Between reset and that event nothing is painted.',
  ['histories'],'All settings without randomness, all histories before the reset and all strokes after it.',
  'No test resets a used brush and compares.',
  ['mypaint-brush.c'],[('queued reset','mypaint-brush.c: brush_reset, mypaint_brush_reset, mypaint_brush_stroke_to')],
  ['recorded dabs','states','smudge buckets'],[('reset_requested','reset to be done at next event','mypaint-brush.c')])
p('C18','Whatever the tablet sends, dabs are finite and sane and states recover',
  'For any settings within their documented ranges with any in-range dynamics, and any event stream (including NaN, infinite or huge coordinates, NaN, negative or huge pressure, infinite or out-of-range tilt, zero, negative or long time steps), every dab handed to the surface has finite coordinates and parameters, radius no larger than the documented maximum (allowing for anti-aliasing widening), opacity in [0,1], and directional offsets from the pen no larger than the limit of 3240 pixels per offset. The brush never crashes or hangs, and after bad input ordinary input paints ordinary dabs again. An event with coordinates that are not finite or beyond 1e8 counts as the lifted pen at the origin of the plain view, negative or non-finite pressure as none, a time step that is not positive as 0.1 ms.',
  ['inputs','histories'],'All settings vectors and curves in range, all event streams including insane ones (NaN tilt, which is asserted against, excepted; the number of dabs per event bounded).',
  'Tests feed recorded, sane events to a handful of brushes.',
  ['mypaint-brush.c','helpers.c'],[('input sanitising','mypaint-brush.c: mypaint_brush_stroke_to'),('clamps','mypaint-brush.c: update_states_and_setting_values, prepare_and_draw_dab, directional_offsets')],
  ['recorded dabs','states'])
p('C19','Brush inputs report what is documented, within their documented ranges',
  'Each brush input reported to the dynamics (pressure with gain, speed, direction, tilt, attack angle, stroke, random, grid map, zoom, radius, barrel rotation, custom) stays within its documented hard limits and has its documented meaning: directions follow the motion, tilt and directions are corrected for view rotation, zoom is logarithmic, the stroke input runs 0..1 over the configured length and starts and stops at the thresholds, speed is the calibrated logarithmic speed.',
  ['inputs','histories'],'All event streams and all relevant settings.',
  'No test observes an input value.',
  ['mypaint-brush.c','brushsettings.json','helpers.c'],[('input computation','mypaint-brush.c: update_states_and_setting_values'),('documented limits','brushsettings.json')],
  ['custom-input state with an identity curve','states'])
p('C20','Settings determine the dab as documented',
  'For settings without dynamics every dab handed to the surface has exactly the documented parameters: colour from hue/saturation/value and the HSV/HSL changes (in the linear space when asked), radius from its logarithm, opacity with linearisation for overlap, anti-aliasing adjustment of hardness and radius, eraser, aspect ratio and view-corrected angle, position offsets, pixel snapping and mode weights; the dab sits at the pen position after the documented tracking filters.',
  ['inputs'],'All in-range setting combinations and pen states.',
  'Stroke tests only check that something similar to a stored image was painted, for five brushes.',
  ['mypaint-brush.c','helpers.c'],[('dab preparation','mypaint-brush.c: prepare_and_draw_dab, directional_offsets'),('colour conversion','helpers.c')],
  ['recorded dabs'])
p('C21','Stroke time accounting and split suggestions follow the contract',
  'The painting time of a stroke is the sum of the durations of painting events since the last new stroke, and the end-of-stroke result of each event follows from the accumulated painting and idle time exactly as specified (idle without painting over 1 s, pause after painting depending on pressure, forced split of long strokes while pressure is not falling). Starting a new stroke zeroes the accounting and nothing else.',
  ['histories'],'All event histories with painting and idle phases of any durations, interleaved with new-stroke and reset calls.',
  'Tests ignore the return value.',
  ['mypaint-brush.c'],[('stroke separation logic','mypaint-brush.c: mypaint_brush_stroke_to, mypaint_brush_new_stroke')],
  ['return value of stroke_to','mypaint_brush_get_total_stroke_painting_time'])
p('C22','Smudge buckets are independent, readable, restorable and cleared',
  'Each smudge bucket is independent storage: writing one (by API or by painting with that bucket selected) never alters another, what is written by the API is read back unchanged, indices outside the capacity are refused without side effects, and the reported used range contains every bucket written and nothing wider than needed. A reset clears every bucket that was written.',
  ['histories','inputs'],'All capacities, bucket indices (including invalid), and histories of API writes, painting and resets.',
  'No test uses buckets.',
  ['mypaint-brush.c'],[('bucket addressing','mypaint-brush.c: fetch_smudge_bucket, mypaint_brush_set/get_smudge_bucket_state'),('clear on reset','mypaint-brush.c: brush_reset')],
  ['mypaint_brush_get_smudge_bucket_state','mypaint_brush_get_min/max_smudge_bucket_used'])
p('C23','Smudging drags exactly the colours it picked up',
  'The smudge colour is a running mix, weighted by smudge length, of colours picked from the canvas, and a dab is painted with the mix of smudge and brush colour given by the smudge amount, dragging transparency likewise; colours are re-sampled as often as the settings say. Pure smudging over a uniformly coloured opaque area paints that same colour, and the smudge-transparency limit suppresses dabs over areas that do not meet it.',
  ['inputs','histories'],'All smudge settings and sequences of canvas colours.',
  'No test smudges on a canvas with known colours.',
  ['mypaint-brush.c','helpers.c'],[('smudge update and application','mypaint-brush.c: update_smudge_color, apply_smudge'),('mixing','helpers.c: mix_colors')],
  ['recorded dabs and picks'])
p('C24','Objects have a clean life cycle',
  'Any history of creating, referencing, loading, painting with and releasing brushes and surfaces (including releasing a surface with unflushed dabs, with symmetry configured, or a brush after failed loads) never leaks, double frees or uses freed memory. Objects are destroyed exactly when the last reference is dropped.',
  ['histories'],'All create / ref / use / unref histories.',
  'Unit tests exercise one ordinary life cycle and do not check leaks.',
  ['mypaint-brush.c','mypaint-surface.c','mypaint-tiled-surface.c','operationqueue.c','fifo.c','mypaint-symmetry.c'],[('reference counts','mypaint-brush.c, mypaint-surface.c'),('queue disposal','operationqueue.c, fifo.c')],
  ['allocator balance','AddressSanitizer'])
p('C25','Published setting and input metadata is consistent with the definition file',
  'For every setting and input, the public metadata (name, range, default, constant flag, limits) equals the definition file, ids and names map one-to-one in both directions, unknown names are never mapped to a valid id, and defaults lie in range. The default brush equals the published defaults.',
  ['inputs','configurations'],'All settings and inputs, and all strings as names.',
  'One test checks only that defaults can be loaded.',
  ['generate.py','brushsettings.json','mypaint-brush-settings.c'],[('code generation','generate.py'),('lookup','mypaint-brush-settings.c: mypaint_brush_setting_from_cname, mypaint_brush_input_from_cname')],
  ['mypaint_brush_setting_info, mypaint_brush_input_info'])
p('C26','The random generator is uniform, bounded, seeded and isolated',
  'For any seed the generator yields only values in [0,1), the same seed always replays the same sequence whatever other generators do, re-seeding restarts it, seeds that differ in their lower 30 bits give different sequences, and block and single reads are well-formed; over long runs the values are uniform and uncorrelated enough for the derived gaussian noise to have zero mean and unit variance bounds.',
  ['inputs','histories'],'All seeds and interleavings of reads, reseeds and several generators.',
  'test-rng checks one seed against a stored sequence.',
  ['rng-double.c','helpers.c'],[('lagged Fibonacci generator','rng-double.c'),('rand_gauss','helpers.c')],
  ['rng_double_next, rng_double_get_array'])
p('C27','Saving and restoring states replays the rest of a stroke',
  'Copying all states (and smudge buckets) of a brush into another brush with the same settings makes the rest of the stroke come out identically, for settings without randomness and with a constant grid map scale. Reading and writing single states round-trips.',
  ['histories'],'All settings without randomness or dynamics on the grid map scale (which is not part of the states), all histories, and all points at which the copy is made.',
  'Documented for record and replay, never tested.',
  ['mypaint-brush.c'],[('state vector','mypaint-brush.c: mypaint_brush_get_state, mypaint_brush_set_state')],
  ['recorded dabs','states'])
p('C28','Running out of memory for bookkeeping degrades gracefully',
  'If memory for symmetry matrices, bounding boxes, brush or surface buffers cannot be had, nothing crashes or is corrupted: constructors return nothing, painting still paints at least the unmirrored dab, dirty rectangles still cover every change, and full function returns with later successful allocation.',
  ['fault_sequences'],'All positions of failing allocations during section start and construction, for all symmetry configurations. The allocations of the operation queue and of the json parser are out of scope.',
  'Allocation never fails in tests.',
  ['mypaint-tiled-surface.c','mypaint-symmetry.c','mypaint-fixed-tiled-surface.c','mypaint-brush.c'],[('tolerated allocation failure','mypaint-tiled-surface.c: prepare_bounding_boxes; mypaint-symmetry.c: allocate_symmetry_matrices'),('constructor failure','mypaint_fixed_tiled_surface_new, mypaint_brush_new_with_buckets')],
  ['allocator fault injection'])
p('C29','Strokes rotate, scale, move and mirror with the view as documented',
  'Painting the same screen gesture through a rotated view yields the same inputs, and dabs whose position and angle are rotated accordingly; zooming changes only what the documentation ties to zoom (speed is measured in screen pixels). Translating a stroke translates its dabs, and mirroring a stroke mirrors them.',
  ['inputs','histories'],'All gestures, view rotations, zooms and translations for brushes whose settings are tied to the view (not those bound to the canvas, such as grid map or fixed-angle offsets, nor offsets along the tilt ascension). Tilt is given in canvas orientation.',
  'The tests always use zoom 1 and rotation 0.',
  ['mypaint-brush.c'],[('view correction','mypaint-brush.c: update_states_and_setting_values, directional_offsets')],
  ['recorded dabs of two related strokes'])
p('C30','Boxed copies of brushes and surfaces are references to the same object',
  'Through GLib (boxed types, GValue, and so bindings, properties and signals) every copy of a brush or surface is another reference to that same object, whatever its static type (MyPaintSurface, fixed or GEGL surface); it stays usable until exactly the last reference of any kind - taken by ref, by boxed copy or held in a value - is dropped, and then nothing of it is left, also for thousands of references. A GEGL surface holds one reference to its current buffer and none to any other. Copies of rectangles are independent values. The types are distinct, stable and carry their published names.',
  ['histories'],'All histories of copies, values, references, releases and uses of several objects of all kinds (GLib build).',
  'No test uses the boxed types.',
  ['glib/mypaint-brush.c','glib/mypaint-gegl-glib.c','mypaint-surface.c','mypaint-brush.c','mypaint-rectangle.c'],[('boxed type registration','glib/mypaint-brush.c'),('reference counts','mypaint-surface.c: mypaint_surface_ref, mypaint_surface_unref')],
  ['g_boxed_copy, GValue, destroy function, allocations'])
p('C31','A saved picture shows the requested area of the surface',
  'Saving a GEGL surface writes a picture of exactly the requested area (of the whole surface when no size is given) whose pixels are those of the surface, transparent where nothing was painted, whatever the buffer format, and leaves the surface, its buffer and its references as they were. On surfaces that cannot save, saving does nothing.',
  ['inputs','histories'],'All pictures, buffer formats, areas (also beyond what is painted) and repeated saves over existing files.',
  'The call is commented out in the tests.',
  ['gegl/mypaint-gegl-surface.c','mypaint-surface.c','mypaint-tiled-surface.c'],[('picture writer','gegl/mypaint-gegl-surface.c: save_png'),('optional operation','mypaint-surface.c: mypaint_surface_save_png')],
  ['png files','buffer contents'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
print(len(P))
