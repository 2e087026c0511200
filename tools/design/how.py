how = {
'C01': """
The model enumerates every *shape* of input (each of airspeed, density, mach,
altitude absent, null, scalar, list; angle classes; equal and unequal lengths)
and the life cycle New, Update, Accept/Refuse, point by point. Every shape is
replayed through the API and through a state file with random values; the trace
spec recomputes density, speed of sound, true airspeed and the free-stream vector
from `Atmosphere.tla` (ISO 2533, all layers) entry by entry. Open: scalars mixed
with lists, empty lists, negative or zero airspeed.
""",
'C02': """
`RunLoop` models the loop with what is shared between points (one aircraft model,
one lattice per point, one solution structure) over all sequences of points up to
the bound; its invariants say each recorded result is `Single(p)` of its point.
All sequences (with repetitions, and pairs that differ in one component only) are
run in the code and compared by TLC with runs of every point alone.
""",
'C03': """
`Tiling` specifies strips and patches and the operations on them (divide, add
flap, add slat, refuse). All histories up to the bound, over positions chosen to
hit every case, are replayed on real segments, the observed tiling checked after
every request; whole runs of random aircraft are checked as well.
""",
'C04': """
`Panelling` derives the patches of every control (over one or several segments)
from its declaration. All wings of the bounded model and random aircraft are run;
the trace spec checks strips, edge and hinge lines of all control patches.
""",
'C05': """
`Panelling` numbers the panels; the trace spec recomputes the number of panels of
every patch (own, share of the segment, automatic) and that panel numbers are a
contiguous partition, on all model shapes and random aircraft.
""",
'C06': """
`Lattice` gives the grid, vortices, collocation points, normals and areas of a
patch as functions of its corners; `MC_Lattice` checks them over a grid of shapes
(tiling, mirroring, orientation). Recorded lattices are compared panel by panel.
Trailing legs: direction only, their finite length is a parameter that is read
off the code and only has to be long.
""",
'C07': """
Two parts. *images*: patches and panels of the mirrored half are the mirrored
patches and panels (T_Mirror). *flows*: groups of analyses related by mirroring
(T_Laws; premise and conclusion are both checked, so a wrong generator cannot
hide). A symmetric wing is also compared with two wings without symmetry.
""",
'C08': """
`Normals` turns the geometric normals by deflection and then by the slope of the
camber line; slopes of NACA four-digit airfoils and of parabolic camber lines are
computed in the specification. All panels, mirrored ones included, are compared.
Camber lines near the nose of a NACA airfoil are noisy in the airfoil library
(numerical differentiation), hence 2e-4 and the assumptions below.
""",
'C09': """
`Vlm` has Biot-Savart's law and the tangency equation. From the recorded
geometry the matrix and right-hand side are recomputed by TLC and compared with
the recorded ones, and the recorded circulations must satisfy the recomputed
equations - so a wrong matrix cannot excuse a wrong solution. `MC_Vlm` checks the
specification itself (solution satisfies tangency, symmetry, superposition, ...).
""",
'C10': """
From recorded geometry and circulations TLC recomputes the induced velocities,
panel forces, cp, totals, moments, wind-axes components and coefficients.
""",
'C11': """
Groups of two or three analyses related by a law (`Laws.tla`: density, speed,
shift, size - down to models of centimetres -, order of wings, additivity, zero,
attitude). Premise and conclusion are checked by TLC. Needs no knowledge of how
loads are computed, so it is independent of C09/C10.
""",
'C12': """
`ResultFiles` models several runs of one project with changing save options and
numbers of points, file by file. All configurations are run; every file is parsed
and compared number by number with returned results (files of earlier points with
single runs, to printed precision).
""",
'C13': """
`Project` models the user's folder: entries, their owners, what each command may
create or remove. All histories of commands and user actions up to the bound plus
random walks are executed with the real command line in a scratch folder by an
unprivileged user; the whole tree is hashed before and after every command.
""",
'C14': """
`Settings` has the documented defaults and types. Histories of operations over
several objects, the user's dictionary and the file (leakage), and random
dictionaries with right and wrong types (acceptance, values).
""",
'C15': """
`Storage` models loading, editing, saving, moving and running a project.
Histories are replayed; objects before and after are compared field by field, and
results of runs of the saved project with those of the original.
""",
'C16': """
`Deformation` decides which half of which wing each entry moves (all files over a
set of tricky names are enumerated) and where each strip corner goes
(closest-entry rigid motion); *rigid* compares forces under a uniform translation.
""",
'C17': """
`Definition` decides acceptance of an aircraft file, entry by entry; the model
changes up to two entries (thorough: three) of a valid file in every way and
prints the verdict. `Building` does the same for histories of API calls. Accepted
models are also compared with what was given.
""",
'C18': """
`Cpacs` models a CPACS file that is edited and analysed again and again. TiXI and
TiGL are not installed: stand-ins (`harness/standins`) with their documented
behaviour are put on the path; everything behind their API is real. The whole XML
file is compared before and after each run.
""",
'C19': """
`Plots` models runs with changing plot options (all combinations of save, show
and option lists for single runs, pairs of runs in the deep model). What is drawn
is read from the figure objects at the moment they are saved: lines, surfaces,
their colours, markers, annotations, axes limits, the matrix image. Results are
compared with a run without plots. Some flight points are very slow, so small
values must give as large a range of colours.
""",
'C20': """
`Sessions` models a process that runs several projects in several versions,
good and bad, with handles on results that are kept. Histories are executed in one
process; every result is compared bit for bit with that of the same version run in
a process of its own (for a fifth of the cases also with another hash seed and
other contents of fresh memory). Building blocks and database aircraft as well.
""",
'C21': """
`Measures` computes all derived measures from corner points, over histories in
which an aircraft is moved, scaled, extended and changed. `Described` computes the
corner points of a segment given by one corner (or one chord edge) and its measures;
TLC checks that it inverts the measures (`SameFromMeasures`), and segments described
that way, in files and by the API, must get these corner points.
""",
'C22': """
`Building` and `Aircraft` give the sequence each iterator has to yield after any
history of additions; *ready* walks complete aircraft with strips, *db* checks the
database functions (names, paths, no sharing).
""",
}
caught = {
'c01-sound-speed': 'C01 AirspeedFromMach', 'c02-lattice-reuse': 'C02 SameAsSingleRun', 'c03-slat-hinge': 'C03 StripsAfterRequest',
'c04-hinge-only': 'C04 EdgeAndHingeLines', 'c05-rel-length': 'C05 PatchesHaveTheirNumberOfPanels', 'c06-normal-twist': 'C06 UnitNormalAtCollocationPoint',
'c07-hinge-image': 'C07 HingeLineMirrored', 'c08-airfoil-edge': 'C08 NormalsTurnedByDeflectionAndCamber', 'c09-rhs-overwritten': 'C09 RightSideIsOnsetFlow',
'c09-rotation-centre': 'C09 FlowTangency', 'c10-side-force': 'C10 WindAxes', 'c11-vortex-core': 'C11 Law (size; missed until small models were generated)',
'c12-rounded': 'C12 PanelwiseValues', 'c13-clean-shared': 'C13 DirectoriesKept', 'c14-suffix-case': 'C14 RefusedIfInvalid', 'c15-mirror-zero': 'C15 Saved',
'c16-other-half': 'C16 PanelsAreGridCells', 'c17-mirror-range': 'C17 IllDefinedIsRefused', 'c17-symmetry-type': 'C17 IllDefinedIsRefused',
'c18-deflection-order': 'C18 Deflections', 'c18-vertical-segment': 'C18 SegmentsAndAirfoils', 'c19-file-names': 'C19 FilesAsRequested',
'c19-result-colours': 'C19 ResultsDrawn (missed until slow flight points were generated)', 'c20-airfoil-cache': 'C20 BuildingBlocks, Results',
'c21-sweep': 'C21 SegmentAngles', 'c21-yaw-axis': 'C21 Dihedral', 'c21-axis-angle': 'C21 FromMeasuresAndCorners', 'c22-prefix': 'C22 Found, RightFile',
'c04-taper': 'C04 EdgeAndHingeLines', 'c05-share': 'C05 AutopanelsSpanwise', 'c12-zero-column': 'C12 MapState', 'c16-turn-only': 'C16 PanelsAreGridCells',
}
