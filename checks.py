"""What each property's check builds and runs."""
import os

# Sources that need third-party libraries which are not available offline.
EXCLUDE = ["Ipopt", "LCPOperatorQLVP", "PythonObject", "HDF5File", "ImpactSolution", "StateOutput"]

CHECKS = {}
NOT_APPLICABLE = {}

CHECKS["P11"] = dict(
    units=[dict(name="p11_rational", src=["p11_rational.cpp"], repo_src=["scisim/StringUtilities.cpp"])],
    bounds={"quick": "all operand pairs |n|,|d|<=12 (int, intmax) and 8 large magnitudes; all chains of 3 compound operations over 6 operands; all texts of length <=6 over '015-+./ '",
            "thorough": "all operand pairs |n|,|d|<=24; all chains of 4; all texts of length <=8 over the same alphabet"},
    assumptions=["products of numerators and denominators fit the integer type", "division by zero and texts that are not plain integer, decimal or fraction spellings are not claimed"])

CHECKS["P12"] = dict(
    units=[dict(name="p12_text_binary", src=["p12_text_binary.cpp"], repo_src=["scisim/StringUtilities.cpp", "scisim/Utilities.cpp", "scisim/Math/MathUtilities.cpp"], fallback=["scisim"])],
    bounds={"quick": "all strings of length <=6 over 7 characters and every single ASCII character for each helper and delimiter; all number texts of length <=5 over '019.-+e '; all scalar lists of <=3 entries from 8; every value of a 700-entry menu (all sparse patterns up to 3x3), all pairs with and all triples over a 21-value menu",
            "thorough": "strings <=8, number texts <=7, lists <=4, value sequences of length 4 over the 21-value menu"},
    assumptions=["streams neither fail nor truncate"])

CHECKS["P02"] = dict(
    units=[dict(name="p02_ball2d", src=["p02_broadphase.cpp"], flags=["-DSYS_BALL2D"], repo_src=["ball2d/SpatialGridDetector.cpp"], fallback=["ball2d", "scisim"]),
           dict(name="p02_rb2d", src=["p02_broadphase.cpp"], flags=["-DSYS_RB2D"], repo_src=["rigidbody2d/SpatialGrid.cpp"], fallback=["rigidbody2d", "scisim"]),
           dict(name="p02_rb3d", src=["p02_broadphase.cpp"], flags=["-DSYS_RB3D"], repo_src=["rigidbody3d/SpatialGridDetector.cpp"], fallback=["rigidbody3d", "scisim"])],
    bounds={"quick": "all collections of 2, 3 and (2D, coarse lattice) 5 boxes with corners on 5 coordinate lattices incl. exact touching, 1e-9..1e-7 gaps and 1000:1 size ratios, 3 scales/offsets; rows and grids of up to 10 boxes with a large box at every position",
            "thorough": "additionally all collections of 4 boxes on the 0..3 lattice (2D) / 0..2 lattice (3D), all triples on 0..4 (2D) / 0..3 (3D); rows and grids up to 24 boxes"},
    assumptions=["coordinates of magnitude at most 1e4 and box sizes at least 1e-9 (the grid inflates by 1e-6 to absorb rounding)"])

SYSTEMS = [("ball2d", "-DSYS_BALL2D", "ball2d"), ("rb2d", "-DSYS_RB2D", "rigidbody2d"), ("rb3d", "-DSYS_RB3D", "rigidbody3d")]
def per_system(tag, src, only=("ball2d", "rb2d", "rb3d"), **kw):
    extra = kw.pop("flags", [])
    return [dict(name="%s_%s" % (tag, n), src=[src], flags=[f] + extra, groups=[d, "scisim"], **kw) for n, f, d in SYSTEMS if n in only]

CHECKS["P03"] = dict(units=per_system("p03", "p03_contacts.cpp"),
    bounds={"quick": "all relative positions (2D -5..5, 3D -4..4 per axis), relative displacements (2D -6..6, 3D even -4..4) and radii 1..3 of a pair of round bodies at two scales; all placements of three round bodies on a 5x5 (3D 3x3x2) lattice with all fixed subsets and 4 displacement patterns; all subsets of 4-5 planes and 3 drums/cylinders with two bodies on a lattice; all pairs (plus a bystander) on a lattice in every combination of periodic boundaries and 7 sliding offsets; boxes: 7 angles x 7 angles in all quadrants (3D 6 x 6 rotations) x 3 x 3 sizes x all lattice offsets against boxes, discs, planes; meshes: 5 x 5 rotations x 3 x 3 sizes x all lattice offsets (on and off the grid of the distance field) against meshes, planes and cylinders",
            "thorough": "same with 6x6 placements, all fixed subsets under all displacement patterns, periodic lattice step 0.5 (3D 1.0), box lattice step 0.125 (3D 0.5)"},
    assumptions=["contacts needing one body's image through two periodic boundaries at once are listed as a known finding", "merely touching 3D boxes and deeply crossing 2D boxes are not claimed (debug assertions of the box code refuse some of them)", "rotated shapes are compared outside a margin of 1e-9 (2D) / 1e-6 (3D) around exact touching", "a sliding boundary is explored together with the boundary in its tangential direction, as its wrap requires"])

CHECKS["P04"] = dict(units=per_system("p04", "p04_frames.cpp"),
    bounds={"quick": "one contact of every kind the simulators detect: round pairs over a lattice of relative positions, three masses, every fixed/free role, with bystanders before/between/after; planes in every explored direction at 3 depths and 6 boundary motions; drums/cylinders at 5 axes; all axes, sides, sliding speeds and offsets of periodic boundaries; boxes at 6 x 6 (3D 5 x 5) orientations and 3 x 3 sizes over a lattice of offsets against boxes, discs and planes; meshes at 4 x 4 orientations against meshes, planes and cylinders, also turning during the step. For each, every unit velocity (one basis vector at a time, plus mixed ones) and every impulse direction is pushed through every representation the solvers use",
            "thorough": "the same with box lattices 5 (3D 2.5) times finer per axis"},
    assumptions=["where a boundary spins, contacts are touching (within 1e-9), because the code uses the undeformed radius", "3D fixed bodies are at rest", "boxes against moving planes are not supported by the code and not claimed", "box-box contacts overlap by at most half the smallest half width", "triangle meshes are covered by their own cases only where listed in DESIGN.md"])

CHECKS["P01"] = dict(units=per_system("p01", "p01_checkpoint.cpp"),
    bounds={"quick": "4-6 scenes per simulator (piles with fixed bodies, moving and spinning boundaries, penalty forces, boxes, meshes, sheared periodic boxes, bounded domain) x every integrator x every impact operator, friction solver and coupling scheme the scene supports, with and without remembered impulses, fine and coarse tolerances: every checkpoint position in 6 steps, and every second checkpoint position within reach, all later states and checkpoints compared bit for bit; every subset of 8 scene features with 1-3 bodies, 3 steps; planes, drums/cylinders, gravity and orientations in all lattice directions up to 9 (3D 3), 3 steps",
            "thorough": "the same with 10 steps and every pair of checkpoint positions"},
    assumptions=["staple shapes cannot be restored by the code and are not claimed", "QL- and So-bogus-backed solvers run on the stand-ins under shim/ (the libraries are not available)"])

CHECKS["P07"] = dict(units=per_system("p07", "p07_memory.cpp"),
    bounds={"quick": "every content (absent or one of 2 values each) of the memory over sliding groups of 6 contacts out of all kinds with shared numbers, impulse lengths 1, D and 6: every operation from every content; all operation sequences of length 5 over 4 contacts; contacts among up to 1002 bodies; steppers with recording solvers: all sequences of 3 out of 6 layouts with save/copy/move of the simulator in between, for every memory mode",
            "thorough": "groups of 8 contacts at every offset, operation sequences of length 6"},
    assumptions=["a contact is remembered at most once between two clears (the code asserts it)", "contact kinds the memory refuses (across periodic boundaries, 3D boxes and meshes) are not claimed"])

CHECKS["P15"] = dict(units=per_system("p15", "p15_edit.cpp"),
    bounds={"quick": "every sequence of 6 edits (3D: 4) from an empty scene - add a body with any available shape, remove every subset of the bodies (also out of order and repeated), add a shape, remove every subset of unused shapes, add and remove planes and drums/cylinders, change masses or orientations, save and reload, copy - with up to 4 bodies, 3 shapes, 2-3 planes and 2 drums; every sequence of 2-3 edits from scenes of 1 to 5 bodies with boxes and fixed bodies. After every edit all contents, masses, shapes, extents, contacts and one step are compared with the reference",
            "thorough": "sequences of 8 edits (3D: 5) and 4 edits from the larger scenes"},
    assumptions=["a shape still used by a body is not removed (scripts are told not to)"])

CHECKS["P10"] = dict(units=per_system("p10", "p10_portals.cpp"),
    bounds={"quick": "every arrangement of periodic boundaries (axes, listing order, sides, two time steps, straight, turned and off-centre domains, displaced plane reference points, 4 sliding speeds on either axis) x every sequence of 4 (sliding, 3D: 3) steps with displacements from a menu of 9 (3D: 18) for three bodies; every integrator and every kind of step (plain, impact, friction) for sequences of 2 steps; sliding offsets at 401 times",
            "thorough": "sequences of 6 (sliding 5, 3D 4) steps"},
    assumptions=["a body moves less than one domain width per step", "the two sides of a boundary face each other", "at most one boundary slides", "landing within 1e-9 of a boundary may count as either side"])

CHECKS["P14"] = dict(units=per_system("p14", "p14_mass.cpp"),
    bounds={"quick": "every tetrahedron with corners on the lattice 0..2; 33 closed meshes (boxes, unions, cavities, wedges, pyramids, octahedra) x 7 rotations x 6 translations x 3 scales x 3 face orders; discs, boxes, balls and staples over 6-9 sizes per dimension and 4-5 densities, bounding boxes at 7-12 orientations; mass matrices over 6 steps for all choices of masses, moments, orientations, spins and fixed bodies, every integrator",
            "thorough": "every tetrahedron with corners on the lattice 0..3"},
    assumptions=["meshes are closed, consistently oriented, of moderate size (the code's own assertions use absolute tolerances)", "a staple is modelled as the three cylinders along its centre lines; its volume is not provided by the code"])

CHECKS["P08"] = dict(units=per_system("p08", "p08_free_motion.cpp"),
    bounds={"quick": "one body: all combinations of 3 masses, 5 inertias, 4 orientations, 6 spins, 4 velocities, 8 force sets (two gravities, a position- and orientation-dependent force), every integrator, 3 time steps; 1-3 bodies with every fixed subset, both shapes, 3 step numbers; penalty forces for all ball pairs on a 17x17 lattice (overlapping, touching, apart) with 4 third balls, 2 stiffnesses, 3 exponents; 3 steps each, every step and every reported momentum, energy and force checked, then retraced with reversed velocities",
            "thorough": "8 steps each"},
    assumptions=["spins times time step stay below about 0.3 (the discrete Moser-Veselov iteration has a limited range)", "balls under penalty forces do not share a centre", "exponential Euler does not support fixed bodies (the code asserts it)"])

CHECKS["P16"] = dict(units=per_system("p16", "p16_numbering.cpp"),
    bounds={"quick": "17 layouts of three bodies (a pair with one apart, rows, triangles, on floors, in drums/cylinders, across periodic and sliding boundaries, every fixed subset of a row, boxes, discs on boxes, meshes) and 3 of four x 3-4 generic velocities x gravity (and penalty) x every integrator x gauss_seidel (one contact), gr, grr, lcp (APGD, QL, cold and warm) and So-bogus, staggered projections and GRR friction under every coupling and impulse memory, 1-3 steps: every permutation of the bodies (6 or 24) and one or two bystanders at every place in the numbering; without contact, every scheme against the plain integrator in 5 surroundings x 27 velocities, 4 steps, bit for bit",
            "thorough": "every combination of the velocity menus per body, 4 steps"},
    assumptions=["QL and So-bogus run on the stand-ins under shim/", "comparisons allow for the solvers' stopping tolerances (1e-6 So-bogus and QL, 1e-2 So-bogus where contacts close loops or a pair touches at several points, 2e-4 APGD, 2e-3 gr/grr)", "Gauss-Seidel impacts treat contacts one after another and depend on the order by design when there are several", "with friction, a body wedged between two fixed obstacles has several solutions and is compared without friction only", "the symplectic Euler coupling is an integrator of its own and is compared with symplectic Euler"])

CHECKS["P18"] = dict(units=[dict(name="p18_solvers", src=["p18_solvers.cpp"], groups=["scisim"])],
    bounds={"quick": "all lists of 1-3 contact directions out of 9 (redundant, opposed and oblique ones included) x 2 mass sets x 18-27 velocities x warm starts on a lattice, each run to convergence and under every iteration budget 1..8; impact operators over 81 direction pairs x 9 restitution pairs x 729 velocities; bound-constrained and linearised-disc friction operators over 81 direction pairs x 486 settings; residual measures at every point of lattices of up to 3 contacts; column extraction for every pattern and column list up to 3x3; identity, symmetry and frame tests over all small matrices of a value menu; digit counts up to 200000 and around powers of ten",
            "thorough": "up to 4 contact directions, all warm starts for 3"},
    assumptions=["the QL library is replaced by the stand-in under shim/", "at least one iteration is allowed", "problems without a solution are not judged"])

CHECKS["P05"] = dict(units=per_system("p05", "p05_impacts.cpp"),
    bounds={"quick": "every pair of round bodies in 7 contact directions x 3 mass ratios x 9x9 (3D 8x8) velocities x restitution 0, 0.25, 1 x gauss_seidel, gr, grr, lcp (APGD) and lcp (QL) where offered x every integrator, with bystanders at every place in the numbering and with gravity; resting and moving planes, drums/cylinders and (fixed) bodies in 7 directions x 81 (64) velocity pairs; 10 arrangements of 1-4 touching bodies on floors, in corners and between walls (3D also a tetrahedron) x 7^n (5^n) velocities, also warm-started over two steps; pairs across every periodic boundary; 3D boxes and meshes on planes (1, 2 and 4 corners) and face to face",
            "thorough": "velocity menus of 18 (3D 27) instead of 9 (8), all velocities for four bodies"},
    assumptions=["QL runs on the stand-in under shim/", "gr over gauss_seidel is not a combination scenes can ask for and is not claimed", "outcome compared with the exact complementarity problem for the lcp operator with up to 10 contacts"])

CHECKS["P06"] = dict(units=per_system("p06", "p06_friction.cpp"),
    bounds={"quick": "every pair of round bodies (touching or overlapping, spinning) in 5 contact directions x 2 mass ratios x 9x9 (3D 7x7) velocities x friction 0, 0.3, 1.5 x restitution 0, 0.5 x So-bogus, staggered projections (cold, warm, QL) and GRR friction under the geometric, stabilised and symplectic Euler couplings, with bystanders at every place in the numbering and with gravity, every integrator; resting and moving planes, spinning cylinders, drums, fixed and moving fixed bodies; 8-9 arrangements of 1-4 touching bodies on floors, in corners and between walls x 5^n (4^n, 3^4) velocities, with remembered impulses over two steps; overlaps of 4 depths under stabilisation; pairs across (sliding) periodic boundaries; boxes and meshes on planes and against each other in 3-4 orientations",
            "thorough": "velocity menus of 18 (3D 27), all friction coefficients, warm starts and masses for staggered projections"},
    assumptions=["QL and So-bogus run on the stand-ins under shim/", "the law is judged where the solver reports success (always required for single contacts and for So-bogus on round bodies)", "kinetic energy with restitution is judged for single round contacts and for GRR friction only: the coupled law with restitution may add energy at several contacts", "GRR friction applies friction after impacts and may leave other contacts approaching; it is not offered against fixed bodies", "staggered projections are offered for balls (2D) and disc pairs only without Ipopt"])

CHECKS["P09"] = dict(units=per_system("p09", "p09_fixed.cpp", only=("rb2d", "rb3d")),
    bounds={"quick": "every choice of fixed bodies in 5 layouts of three touching or approaching bodies x velocities x gravity x every integrator with fixed-body support, no contact handling, gr, grr, lcp (APGD and QL) impacts with restitution 0, 0.5, 1 and So-bogus friction under every coupling, several steps each, rerun with 1/100 and 1000 times the mass of the fixed bodies and (2D) from a moving frame; single contacts against fixed bodies (2D: moving and spinning) in every direction against the closed form of a bounce off a moving wall; 3D boxes and meshes on fixed ones in 3 orientations",
            "thorough": "more steps and velocities"},
    assumptions=["QL and So-bogus run on the stand-ins under shim/", "3D fixed bodies are at rest (the simulator asserts it) and exponential_euler does not support them", "a free body squeezed between fixed bodies approaching each other has no valid outcome and is not judged", "repeated reflections between opposed obstacles (known finding of P05) are left out", "the fixed flag of ball2d has no dynamic meaning and is not claimed"])

PYTHON = ["-DUSE_PYTHON", "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim", "python")]
CHECKS["P17"] = dict(units=per_system("p17", "p17_scripting.cpp", flags=PYTHON, repo_flags=PYTHON, repo_src=["scisim/PythonObject.cpp"]),
    bounds={"quick": "all 64 subsets of the six hooks x 6-7 scenes (no contact, contact at once, later, on planes, in a drum or cylinder, across periodic and sliding boundaries) x every integrator x every impact operator and friction scheme, 4 steps, and a script saved, restored and swapped before every step; every assignment of {scene's, 0, 0.75} restitution (frictionless) or {scene's, 0.75} restitution and {scene's, 1} friction to 3-4 separate contacts (4^4) in 3 numberings x per-contact schemes, through the contact schemes and through scripts, against scenes holding one contact each; every edit a script can make and all pairs of edits in the start and end hook of every step of 3, against the same edit between steps, bit for bit; every indexed call with every valid index and 4 invalid ones, invalid values, failing and missing scripts",
            "thorough": "8 steps, 4 numberings, coefficients {scene's, 0, 0.75} x {scene's, 0, 1} (9^4), all times and integrators for pairs of edits"},
    assumptions=["Python and NumPy are replaced by the in-process stand-in under shim/python; scripts are C++ functions called through the repository's own scripting layer", "the 2D rigid-body module offers scripts no access to contacts; its coefficients are checked at the level of the contact schemes", "gr and grr impacts and GRR friction accept a single restitution coefficient and are left out of the assignments"])

CLI = PYTHON + ["-Dmain=cli_main"]
CHECKS["P19"] = dict(units=[dict(u, groups=[u["groups"][0] + "utils"] + u["groups"], repo_src=["scisim/PythonObject.cpp", "%scli/%s_cli.cpp" % (u["groups"][0], u["groups"][0])]) for u in per_system("p19", "p19_runs.cpp", flags=PYTHON, repo_flags=CLI)],
    bounds={"quick": "the three command-line programs, run in child processes: 10-17 scenes per simulator (every contact scheme, remembered impulses on and off) x integrators x {no script, watching script, script that changes the scene (3D: also the first step number)} x 5 save frequencies, 6 steps: without snapshots, with numbered ones and with a single one; resumed from every snapshot; stopped at every hook of every step (both snapshot modes) and resumed; every snapshot in turn unwritable (a directory in its place, a full device). Snapshots of every scene cut short at every third byte (every byte near the ends), each of the first 32 bits flipped, and every file-size limit in steps of 97 bytes. Every run length 1..24 and 96..112 (every 7th between) x 3 frequencies x end time from scene or command line; frequencies 1..130 for 6 time steps; 48 faulty command lines, every order of four options; every shipped scene that needs nothing missing, 4 steps and resumed from each",
            "thorough": "9 steps, 12 for the shipped scenes, every length to 230, snapshots cut at every byte"},
    assumptions=["Python is replaced by the in-process stand-in under shim/python, with scripts that keep no state of their own", "HDF5 output is not available here and is not claimed", "end times lie between two steps, so that rounding does not decide the number of steps", "QL and So-bogus run on the stand-ins under shim/"])

CHECKS["P13"] = dict(units=[dict(u, groups=[u["groups"][0] + "utils"] + u["groups"]) for u in per_system("p13", "p13_scenes.cpp")],
    bounds={"quick": "every combination of scene features (scripting, end time, 0-2 gravities, drums/cylinders, camera or boundary, integrator, 3 time steps, 0-3 bodies, 0-5 planes with every offered choice of periodic boundaries, one contact scheme per family); 7 text layouts x 3 element orders x every contact scheme the readers offer (all nestings of gr, grr, lcp, staggered projections, So-bogus and GRR friction with their options); every single fault of a rich scene and of every scheme (each attribute removed or replaced by each defective spelling of its kind, each required element removed), every pair of schemes at once, a scene cut off at every byte in two layouts; every assignment of plane numbers -1..n to one or two periodic boundaries over 0..4 planes; every shape number; every evaluation interval and iteration count up to 7; every scene shipped under assets that needs no missing library, against an independent reading",
            "thorough": "the same with every contact scheme in the feature combinations and fault sweeps"},
    assumptions=["scenes that need Ipopt or a mesh file are not explored; the jacobi operator is a placeholder in the repository", "text following a number within an attribute is not claimed to be refused (the readers take the leading number)", "the XML library is Boost's copy of RapidXML, which is what the readers include by another path", "the QLVP solver is constructed but not run"])

CHECKS["P20"] = dict(units=per_system("p20", "p20_domain.cpp", only=("rb3d",)),
    bounds={"quick": "balls, boxes, meshes and staples in 3 rotations (also turning, also fixed) as first, middle or last of three bodies, leaving through each of the 6 sides; free flight with all integrators, and (a third of the combinations) impacts and both friction couplings; two bodies where one is pushed out or is turned back by a wall or a fixed body; periodic boundaries on every axis: 5 steps each, the limit on that side placed 1e-6 and 0.02 inside and outside the extent reached after every step, plus a snug domain with each side in turn too narrow, and limits that are set but not asked for",
            "thorough": "impacts and friction in every combination as well"},
    assumptions=["So-bogus runs on the stand-in under shim/", "limits within 1e-9 of an extent are not judged"])
