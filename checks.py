"""Which harness decides which property, and how it is built."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
JSONPKG = ['json-c']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
VARIANTS = {
    # sanitised build, assertions on
    'asan': dict(cc='clang', cxx='clang++', cflags=['-g', '-O1', *SAN], cxxflags=['-g', '-O1', *SAN]),
    # sanitised, the library's allocations can be made to fail
    'fault': dict(cc='clang', cxx='clang++', cflags=['-g', '-O1', *SAN, '-include', HERE + '/pbt/inject/fault.h'], cxxflags=['-g', '-O1', *SAN]),
    # optimised build as shipped (assertions on)
    'plain': dict(cc='gcc', cxx='g++', cflags=['-g', '-O2'], cxxflags=['-g', '-O2']),
    'omp': dict(cc='gcc', cxx='g++', cflags=['-g', '-O2', '-fopenmp'], cxxflags=['-g', '-O2', '-fopenmp'], env={'OMP_WAIT_POLICY': 'passive', 'GOMP_SPINCOUNT': '0', 'OMP_DYNAMIC': 'false'}),
    'gegl': dict(cc='gcc', cxx='g++', cflags=['-g', '-O2'], cxxflags=['-g', '-O2'], glib=True, gegl=True, pkgs=['gegl-0.4', 'glib-2.0', 'gobject-2.0']),
    'boxed': dict(cc='clang', cxx='clang++', cflags=['-g', '-O1', *SAN], cxxflags=['-g', '-O1', *SAN], glib=True, gegl=True, pkgs=['gegl-0.4', 'glib-2.0', 'gobject-2.0']),
}
CHECKS = {}
def check(cid, variant, harness, **kw):
    CHECKS[cid] = dict(variant=variant, harness=[harness] if isinstance(harness, str) else harness, **kw)

check('C01', 'asan', 'c01_load.cc')
check('C02', 'asan', 'c02_faithful.cc')
check('C03', 'asan', 'c03_mapping.cc')
check('C06', 'asan', 'c06_shape.cc')
check('C07', 'asan', 'c07_grid.cc')
check('C08', 'asan', 'c08_queue.cc')
check('C09', 'asan', 'c09_dirty.cc')
check('C10', 'asan', 'c10_symmetry.cc')
check('C11', 'asan', 'c11_pick.cc')
check('C12', 'asan', 'c12_backend.cc')
check('C13', 'omp', 'c13_parallel.cc')
check('C14', 'gegl', 'c14_backends.cc')
check('C15', 'asan', 'c15_spacing.cc')
check('C16', 'plain', 'c16_determinism.cc')
check('C18', 'asan', 'c18_hostile.cc')
check('C19', 'asan', 'c19_inputs.cc')
check('C20', 'asan', 'c20_dab.cc')
check('C21', 'asan', 'c21_time.cc')
check('C23', 'asan', 'c23_smudge.cc')
check('C22', 'asan', 'c22_buckets.cc')
check('C26', 'asan', 'c26_rng.cc')
check('C25', 'asan', 'c25_metadata.cc')
check('C28', 'fault', 'c28_oom.cc')
check('C29', 'asan', 'c29_view.cc')
check('C24', 'asan', 'c24_life.cc')
check('C17', 'asan', 'c17_reset.cc')
check('C27', 'asan', 'c27_states.cc')
check('C04', 'asan', 'c04_valid.cc')
check('C05', 'asan', 'c05_modes.cc')
check('C30', 'boxed', 'c30_boxed.cc')
check('C31', 'gegl', 'c31_png.cc')

# case counts of the facets are multiplied by this (keeps a quick check around half a minute)
SCALE = {'C01': 4, 'C02': 4, 'C03': 12, 'C05': 2, 'C06': 3, 'C07': 1.5, 'C08': 4, 'C09': 2, 'C10': 4, 'C11': 8, 'C12': 1.5, 'C13': 1.5, 'C14': 5, 'C15': 14, 'C16': 7, 'C17': 1.5, 'C18': 2, 'C19': 16, 'C20': 30, 'C21': 14, 'C22': 16, 'C23': 20, 'C24': 8, 'C25': 40, 'C26': 10, 'C28': 2, 'C29': 10, 'C30': 15, 'C31': 2}

# technique, level note [, level]
NOTES = {
 'C01': ('structure-aware fuzzing of brush documents with shrinking, three-valued acceptance oracle built on an independent reading of the parsed document; AddressSanitizer/UBSan, assertions on',
         'Random exploration: random bytes, damaged real brushes and generated documents in sequences of loads. Scalars of another type than number are left unspecified by the oracle; json-c itself is trusted to parse.'),
 'C02': ('model-based PBT: histories of generated documents, API edits and resets against an array model; differential (loaded brush vs the same brush built by API calls)',
         'Random exploration; base values and points are compared exactly with correctly rounded single precision.'),
 'C03': ('model-based PBT: edit histories and evaluations against an independent piecewise-linear model',
         'Random exploration with boundary bias; curves are well-formed (ordered x), float rounding tolerance 3e-6 of the magnitudes.'),
 'C04': ('invariant over generated dabs, dab sequences and strokes on random valid canvases (every pixel of every touched tile), with sanitizers',
         'Random exploration. Exhaustive over pixels of a case, not over cases; dab coordinates within 20000 px.'),
 'C05': ('PBT against a reference compositor in double precision that bounds each pixel by interval (rounding of the fixed-point steps)',
         'Random exploration; per-mode tolerances follow from the documented fixed-point/fast-math precision (spectral mode widest).'),
 'C06': ('PBT against an independent evaluation of the dab falloff in double precision, per pixel',
         'Random exploration biased to tile borders and tiny/large/hard/thin dabs; tolerance from float rounding and the antialiasing documented for small dabs.'),
 'C07': ('metamorphic PBT: integer shifts of dabs, picks and strokes must shift the result bit-exactly',
         'Random exploration; positions on a 1/16 px grid so that shifting is exact in float; strokes compared up to rounding.'),
 'C08': ('differential PBT over sectionings: the same operation history run one surface per operation (reference) and in arbitrary atomic sections with interleaved picks',
         'Random exploration of histories up to 60 operations and ~1000 dirty tiles; bit-identical comparison.'),
 'C09': ('model-based PBT: pixel difference before/after each section against reported rectangles, and rectangles against independently computed bounds',
         'Random exploration over sections, symmetry up to 240 images and 1..22 offered rectangles.'),
 'C10': ('differential PBT: symmetric painting against a plain surface on which every image (double precision) is drawn explicitly',
         'Random exploration; tolerance where float rounding of image centres moves antialiased edges; exactly bit-identical when symmetry is off.'),
 'C11': ('PBT with known-answer canvases and an independent pick-mask model (mean, convexity, uniformity), read-only invariant',
         'Random exploration; range claim for legacy and additive mixing only, grey-range for spectral mixing.'),
 'C12': ('protocol monitor: a checking tile backend with guarded buffers drives generated histories with generated tile failures; differential against a fault-free run',
         'Random exploration of fault patterns (per tile, per access kind, every k-th request).'),
 'C13': ('differential PBT of the OpenMP build: serial vs 2..16 threads with schedule perturbation injected in the backend, bit-identical',
         'Random schedules, not enumerated; perturbation by sleeping/yielding in tile requests.'),
 'C14': ('differential PBT of the bundled backends (fixed surface, GEGL own and supplied buffers) against an infinite reference tile store',
         'Random exploration; uses the installed GEGL 0.4; tolerance only for buffer formats that cannot hold 15-bit values.'),
 'C15': ('model-based PBT: dab positions against a double precision accumulation model; metamorphic splitting of events; local invariants under dynamics',
         'Random exploration with constant (model, split) or dynamic (vary) settings; tolerance for float accumulation.'),
 'C16': ('differential PBT: the same history under different fills of heap and stack memory and interleaved with other instances, bit-identical',
         'Random exploration; random subset sampling of large pigment-mode picks (libc rand) is excepted.'),
 'C17': ('differential PBT: a used brush after a reset or long pause against a fresh brush with the same settings, bit-identical dabs, picks, states',
         'Random exploration over settings without randomness.'),
 'C18': ('fuzzing of event streams and settings with invariant monitor on every dab, differential recovery check, sanitizers',
         'Random exploration; NaN tilt (asserted against by design) excluded and dab density per event bounded.'),
 'C19': ('model-based PBT: inputs observed through identity curves on dab-visible settings against a double precision model of their documented meaning; range invariant',
         'Random exploration; tolerances for float filters.'),
 'C20': ('PBT: all 17 dab parameters against formulas written from the documentation, tracking filters against a model, random settings statistically (6 sigma)',
         'Random exploration of in-range settings without dynamics.'),
 'C21': ('model-based PBT: event histories against a reference of the stroke accounting contract',
         'Random exploration; durations on both sides of every threshold.'),
 'C22': ('model-based PBT: histories of bucket writes, reads, painting and resets against an array model',
         'Random exploration; capacities 0..300.'),
 'C23': ('model-based PBT: recorded picks and dabs against a reference of the smudge mix; metamorphic uniform-canvas and limit checks on real tiles',
         'Random exploration; the reference follows the implemented mixing weights (see DESIGN.md).'),
 'C24': ('stateful PBT of create/ref/use/unref histories with per-object allocation accounting and AddressSanitizer',
         'Random exploration up to 6 live objects.'),
 'C25': ('PBT: metadata of every setting, input and state against the parsed definition file; generated names; default brush after any history',
         'The table is finite and fully reached each run; names are sampled.'),
 'C26': ('model-based PBT of generator histories (recurrence, replay, isolation) and statistical tests over generated seeds',
         'Random exploration; statistical thresholds of 6 standard errors.'),
 'C27': ('differential PBT: stroke continued after copying states and buckets to another brush, bit-identical',
         'Random exploration over settings without randomness.'),
 'C28': ('fault injection PBT: generated patterns of failing allocations, with differential picture check and leak accounting',
         'Random exploration of failing-allocation subsets; operation queue and json allocations do not fail.'),
 'C30': ('stateful PBT of GLib boxed/GValue histories against a reference-count model, per-object allocation accounting, AddressSanitizer',
         'Random exploration up to 4 live objects and 50 operations; memory of GEGL buffers is not booked.'),
 'C31': ('round-trip PBT: generated pictures and areas saved and read back with GEGL\'s own PNG reader, compared pixel by pixel with the surface',
         'Random exploration; 16-bit quantisation tolerance.'),
 'C29': ('metamorphic PBT: the same gesture rotated, zoomed, moved, mirrored must give correspondingly transformed dabs',
         'Random exploration over view-bound settings; tolerances from sensitivity to float rounding.'),
}
