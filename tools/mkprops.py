#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the wording)"""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': ['src/lib/pytornado/' + f if not f.startswith('src') else f for f in files],
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in (state or [])],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': observe, 'hook_needed': None,
        },
    })


prop('C01', 'Flight points are accepted, derived and refused as documented',
     """A flight state is accepted exactly when its speed and density are given by airspeed+density, airspeed+altitude
     or mach+altitude (all other of these four left out or null), all given arrays have the same length and every
     alpha and beta lies within [-90, 90] degrees; any other input is refused with an error. For every accepted flight
     point the analysed density and true airspeed are the given ones, or those of the standard atmosphere at the given
     altitude (airspeed = mach x local speed of sound), entry by entry, and angles and rotation rates are used
     unchanged; the free stream vector is V*(cos a cos b, -sin b, sin a cos b).""",
     ['inputs'], 'every combination of given, omitted and null parameters, scalar or list of any length, any values',
     'The tests use two or three valid state files; none gives a refused combination or checks a derived value.',
     ['objects/state.py', 'fileio/native/state.py'],
     [('FlightState.update_from_dict / check_values', 'objects/state.py'), ('FlightState.iter_states', 'objects/state.py')],
     ['the flight points iterated by a FlightState built from a dictionary or a state file', 'the error raised'])

prop('C02', 'Each point of an aeroperformance map is analysed on its own, in order',
     """A run over an aeroperformance map of n flight points gives, for every point and in the order given, the same
     forces, moments and coefficients as a run of that point alone, whatever points come before or after it. All 18
     result lists have exactly n entries, and the per-point result folders are numbered 0..n-1 in that order.""",
     ['inputs', 'histories'], 'all aeroperformance maps (any length, any order, repeated points) on any aircraft',
     'The apm test runs one fixed map and only checks that the run ends.',
     ['stdfun/run.py', 'objects/state.py', 'aero/vlm.py', 'aero/c_results.cpp'],
     [('loop over flight states', 'stdfun/run.py standard_run'), ('make_new_subareas only for the first state', 'aero/vlm.py gen_lattice'),
      ('accumulators reset per state', 'aero/c_results.cpp')],
     ['returned state.results', '_results/<project>_NNN/global.json', '_results/<project>_aeroperformance.json'])

prop('C03', 'Strips and patches tile every wing segment',
     """Whatever sequence of control surfaces and spanwise divisions is requested on a wing segment, its strips tile the
     span [0, 1] without gap or overlap, and in each strip the slat (if any), main area and flap (if any) tile the chord
     [0, 1] in that order; at the border of two neighbouring strips of one control surface both have the same edge and
     hinge position. A division closer than 1 % of the span to an existing one is not created, and a request that is
     refused leaves the tiling intact.""",
     ['histories', 'inputs'], 'all sequences of division and control requests with any spanwise and chordwise positions',
     'No test calls these operations; the integration tests use one wing with one or two controls.',
     ['objects/aircraft.py', 'aero/vlm.py'],
     [('WingSegment.add_subdivision', 'objects/aircraft.py'), ('WingSegment.add_subdivision_for_control', 'objects/aircraft.py'),
      ('SegmentStrip._add_subarea / _update_subarea', 'objects/aircraft.py')],
     ['WingSegment.subdivision after every request'],
     [('subdivision', 'strips of a segment with their eta borders and subareas', 'objects/aircraft.py WingSegment')])

prop('C04', 'Control surfaces occupy exactly their declared place',
     """A control surface is modelled on exactly the strips between its declared inner and outer spanwise positions (up
     to the 1 % minimum strip width), on every segment it spans: a flap from its edge line to the trailing edge, a slat
     from the leading edge to its edge line, with edge and hinge line running straight between their declared end
     positions within a segment and linearly along the control's length across segments. Strips outside carry no part of
     it, and controls of the same kind on the same strip or a slat overlapping a flap are refused.""",
     ['inputs', 'histories'], 'all sets of controls (kind, segments, eta, xsi, hinge, declaration order) on any wing',
     'Tests contain a few fixed controls and never look at where they end up.',
     ['objects/aircraft.py', 'aero/vlm.py'],
     [('pre_panelling part one', 'aero/vlm.py'), ('add_subdivision_for_control cases 1-3', 'objects/aircraft.py'),
      ('xsi_interpol', 'objects/aircraft.py')],
     ['panel corner points and the control each panel belongs to, after a run'])

prop('C05', 'Panel counts follow the settings and panel numbers are a partition',
     """Every patch of the aircraft surface and of its mirror image owns a contiguous range of panel numbers, and these
     ranges together are 0..N-1 without gap or overlap, N being the number of panels, unknowns and result rows. A control
     patch has the number of chordwise panels of its control, a main patch its share of the segment's number (rounded
     up), and each segment is divided in span at every k/num_s (up to the 1 % minimum). Numbers that are not given are
     taken from the autopanel settings (chordwise as is, spanwise in proportion to the segment's share of the wing span,
     rounded up) and numbers that are given are never changed.""",
     ['inputs', 'configurations'], 'all aircraft, panel numbers (given or not) and autopanel settings',
     'Tests only check that runs finish.',
     ['aero/vlm.py', 'objects/vlm_struct.py', 'objects/objecttools.py'],
     [('set_autopanels', 'aero/vlm.py'), ('gen_lattice panel count and book keeping', 'aero/vlm.py'),
      ('update_bookkeeping', 'objects/vlm_struct.py')],
     ['lattice.panel_bookkeeping', 'lattice.info', 'lengths of the result arrays'])

prop('C06', 'Panels tile the wing and carry correct vortices, points, normals, areas',
     """The panels of a patch are the cells of the uniform bilinear grid on the patch's quadrilateral, so that together
     they cover every segment exactly once. Each panel's bound vortex lies on its quarter-chord line, its collocation
     point at three quarter chord mid-span, the trailing legs leave parallel to the free stream of the current flight
     point, the normal is the unit normal of the panel at the collocation point (before deflection and camber), and area
     and aspect ratio (and their reported minimum, maximum and mean) are those of the panel's mid-lines.""",
     ['inputs', 'configurations'], 'all segment quadrilaterals (swept, tapered, twisted, vertical), panel numbers and flight points',
     'Tests never compare a panel with the geometry.',
     ['aero/c_lattice.cpp', 'aero/vlm.py', 'aero/c_vlm.cpp', 'objects/aircraft.py'],
     [('vlm_lattice', 'aero/c_lattice.cpp'), ('StripSubdivision.abs_vertices', 'objects/aircraft.py')],
     ['lattice.p, v, c, n, a, bound_leg_midpoints, info after gen_lattice'])

prop('C07', 'Symmetry means an exact mirror image',
     """A wing declared symmetric about the xy, xz or yz plane is modelled as the wing plus its exact mirror image
     (panels, control surfaces and hinge lines included), and a wing without symmetry has no image. A configuration that
     is symmetric about the xz plane in symmetric flow gets mirrored circulations and no side force, rolling or yawing
     moment, and mirroring sideslip, roll and yaw rate (and swapping the deflections of both sides) only changes the sign
     of these three.""",
     ['inputs', 'configurations'], 'all wings, symmetry flags, controls with equal or different deflections, flight points',
     'Tests use xz symmetry only and never compare the two sides.',
     ['objects/aircraft.py', 'aero/vlm.py', 'aero/c_lattice.cpp'],
     [('mirror_point, order_mirrored_vertex_points, mirror_vertices', 'objects/aircraft.py'),
      ('mirror branches of gen_lattice', 'aero/vlm.py')],
     ['panels of main and mirrored patches', 'forces and coefficients of mirrored runs'])

prop('C08', 'Deflections and camber turn exactly the right normals by the right angle',
     """A control deflected by an angle turns the normals of its own panels, and of no others, by that angle about its
     hinge line, the mirrored panels by the mirror deflection (which is the main deflection when not given); and every
     panel's normal is turned by the local camber-line angle of the segment's airfoil at its chordwise position. With
     normal rotations switched off all normals are the geometric ones; the geometry itself is never changed by a
     deflection.""",
     ['inputs', 'configurations'], 'all controls, deflections in [-90, 90], hinge lines, airfoils, symmetry flags',
     'No test reads a normal vector.',
     ['aero/vlm.py', 'objects/aircraft.py'],
     [('rotate normals section of gen_lattice', 'aero/vlm.py'), ('abs_hinge_axis, abs_camber_line_rot_axis, get_xsi_for_collocation_points', 'objects/aircraft.py'),
      ('WingControl.check', 'objects/aircraft.py')],
     ['lattice.n and lattice.p after gen_lattice'])

prop('C09', 'Computed circulations satisfy flow tangency',
     """For every analysed flight point the circulations are such that, at every collocation point, the velocity induced
     by all horseshoe vortices (Biot-Savart) plus the free stream minus the velocity due to rotation about the centre of
     gravity has no component along the panel's normal. The reported system matrix and right-hand side are exactly the
     coefficients of these equations.""",
     ['inputs'], 'all aircraft, deflections, flight points and rotation rates',
     'Tests compare no equation; a wrong influence coefficient or rotation term still produces numbers.',
     ['aero/c_downwash.cpp', 'aero/c_boundary.cpp', 'aero/vlm.py', 'aero/c_vlm.cpp'],
     [('vlm_downwash', 'aero/c_downwash.cpp'), ('vlm_boundary', 'aero/c_boundary.cpp'), ('solver', 'aero/vlm.py')],
     ['vlmdata.matrix_downwash, array_rhs, panelwise gamma, matrix.dat'])

prop('C10', 'Panel loads, totals, moments and coefficients are consistent',
     """The velocity at each bound vortex is the induced velocity, and the panel force is density x circulation x (total
     relative velocity x bound vortex). Total forces and moments are the sums over all panels of the forces and of their
     moments about the reference centre; drag, side force and lift are the same total force in wind axes; coefficients
     are these divided by dynamic pressure, reference area and, for moments, span (roll, yaw) or chord (pitch); panel cp
     is normal force over dynamic pressure and area.""",
     ['inputs'], 'all aircraft, reference values, flight points and rotation rates',
     'The forces test is not in the stable set and samples single numbers.',
     ['aero/c_results.cpp', 'aero/vlm.py', 'aero/c_vlm.cpp'],
     [('vlm_results, vlm_coeffs', 'aero/c_results.cpp')],
     ['vlmdata.panelwise, forces, coeffs'])

prop('C11', 'Similarity and invariance laws of the loads',
     """Coefficients do not change when density changes, when airspeed and rotation rates are scaled together, when the
     whole aircraft with its reference points is shifted, when everything (geometry, reference values, inverse rates) is
     scaled, or when wings are declared in another order, and
     the loads turn with the aircraft when aircraft, flow and rotation are turned together about the y axis; forces then scale with density, speed squared and size as
     dimensions require. Circulation is additive in free stream and rotation, and a surface at zero incidence
     without camber or deflection carries no load.""",
     ['inputs', 'histories'], 'all aircraft and pairs or triples of runs related by such a transformation',
     'A relation between several runs; the tests never compare two runs.',
     ['aero/c_lattice.cpp', 'aero/c_boundary.cpp', 'aero/c_downwash.cpp', 'aero/c_results.cpp', 'aero/vlm.py'],
     [('vlm_lattice, vlm_boundary, vlm_downwash, vlm_results', 'aero/*.cpp')],
     ['forces and coefficients returned by related runs'])

prop('C12', 'Result files appear exactly as requested and hold the computed results',
     """After a run, each result file (global, panelwise, matrix system per flight point; aeroperformance map per run)
     exists exactly when its save option is set, in the documented folder, and its contents are the values returned by
     the run for that flight point to the printed precision. The save options change nothing else: the returned results
     are the same for every choice.""",
     ['configurations', 'inputs'], 'all 16 combinations of save options, any number of flight points, any project name',
     'The tests look at one combination and mostly at file existence.',
     ['fileio/native/results.py', 'fileio/utils.py', 'objects/settings.py', 'stdfun/run.py'],
     [('save_all, save_aeroperformance_map', 'fileio/native/results.py'), ('generate_paths', 'objects/settings.py')],
     ['files below _results/ and their content', 'the dictionary returned by standard_run'])

prop('C13', 'Project life cycle: create, run, clean never touch what is not theirs',
     """Creating a project (example or database aircraft) refuses to touch an existing project folder, and a created
     project can be run as it is. A run writes only below _results and _plots (and the log file and the standard empty
     input folders), cleaning removes exactly _results and _plots, and neither ever alters or deletes an input file or
     anything else in the project. Invalid command line combinations are refused without side effect.""",
     ['histories', 'configurations'], 'all sequences of command line invocations in a working directory, any pre-existing files',
     'The cli tests run three fixed commands in empty directories.',
     ['src/bin/_pytornado_exe.py', 'stdfun/setup.py', 'stdfun/run.py', 'objects/settings.py'],
     [('main', 'src/bin/_pytornado_exe.py'), ('setup_wkdir', 'stdfun/setup.py'), ('Settings.clean / rm_dirs_for_groups', 'objects/settings.py')],
     ['directory tree and file contents after every command', 'exit status'])

prop('C14', 'Settings: documented defaults, strict types, no leakage between instances',
     """Settings that are not given have their documented defaults, given ones are used as given, and a value of the
     wrong type, an epsilon outside (0, 1) or an aircraft file that is neither .json nor .xml is refused. Settings
     objects are independent: no change to one ever shows in another, in later defaults or in the dictionary it was made
     from, and saving settings neither changes them nor loses a documented setting.""",
     ['inputs', 'histories'], 'all settings dictionaries (each key given, omitted or ill-typed) and sequences of operations on several settings objects',
     'Tests use complete, valid settings files only.',
     ['objects/settings.py', 'objects/utils.py', 'fileio/native/settings.py'],
     [('check_dict, get_default_dict', 'objects/utils.py'), ('Settings.update_from_dict', 'objects/settings.py'), ('save / clean_dict', 'fileio/native/settings.py')],
     ['Settings.settings and paths', 'the saved settings file', 'the error raised'])

prop('C15', 'Saving and reloading a model preserves it',
     """Writing an aircraft, flight state or settings object to its file and reading it back gives an equivalent object:
     the same wings, segments, controls, airfoils, panel numbers, reference values and flight points, so that a run of
     the saved project gives the same results; a second save gives the same file. Airfoil files of the project are
     stored relative to the project, so a project can be moved.""",
     ['inputs', 'histories'], 'all models and any number of save/load cycles, projects moved in between',
     'Only template creation uses save, and no test reloads.',
     ['fileio/native/aircraft.py', 'fileio/native/state.py', 'fileio/native/settings.py'],
     [('load, save', 'fileio/native/*.py')],
     ['saved JSON files', 'models loaded from them', 'results of runs before and after'])

prop('C16', 'Deformation fields move exactly the wings they name',
     """A deformation file moves the strip corners of the wing whose uid it names by the interpolated field (and with the
     suffix _m the mirrored half), every other wing and half keeping its undeformed geometry; names starting with an
     underscore are ignored and unknown names are refused. A zero field changes no result, and a uniform translation
     shifts the wing rigidly.""",
     ['inputs', 'configurations'], 'all deformation files (wings, halves, uid spellings, fields) for any aircraft',
     'The deform tests run two fixed cases that are not in the stable set and check nothing but completion.',
     ['fileio/native/deformation.py', 'objects/aircraft.py'],
     [('load', 'fileio/native/deformation.py'), ('get_deformed_segment_point, abs_vertices', 'objects/aircraft.py')],
     ['lattice.p of each wing and half with and without the file'])

prop('C17', 'Ill-defined aircraft are refused and well-defined ones are taken as given',
     """Building an aircraft (from its file or by the API) succeeds exactly when uids are non-empty and unique in their
     parent, symmetry is 0-3, reference area, span and chord are positive and the reference points have three
     coordinates, relative positions lie in [0, 1], panel numbers are positive integers, the airfoil definition is a file
     or NACA name, the device type is slat or flap, deflections lie in [-90, 90] and a control lies on existing segments
     (with increasing eta if it is a single one), and each segment has all four corner points, or one corner or chord
     edge and all the measures which determine the others. Otherwise an error is raised; optional entries may be left out.""",
     ['inputs', 'histories'], 'all aircraft descriptions with any entry valid, missing, ill-typed or out of range',
     'The tests load valid aircraft only.',
     ['objects/aircraft.py', 'fileio/native/aircraft.py'],
     [('Aircraft.add_wing, Wing.add_segment, Wing.add_control', 'objects/aircraft.py'), ('generate, WingControl.check, schemas', 'objects/aircraft.py'),
      ('load', 'fileio/native/aircraft.py')],
     ['the loaded model or the error raised'])

prop('C18', 'CPACS import and export map every quantity to its counterpart',
     """From a CPACS file the tool takes each wing with its symmetry, segment corner points (ordered so that normals are
     consistent), airfoils, trailing-edge controls with their deflections (main and mirror) on whichever wing they are,
     reference values and all flight points of the selected aeroperformance map in order. After a run the lift, drag,
     side force and moment coefficients of every flight point are written to the matching entries of that map and nothing
     else in the file changes.""",
     ['inputs', 'configurations'], 'all CPACS aircraft with any number of wings, controls, deflections and maps',
     'TiXI and TiGL are not installed, so no CPACS test can run here.',
     ['fileio/cpacs/aircraft.py', 'fileio/cpacs/state.py', 'fileio/cpacs/results.py', 'fileio/cpacs/utils.py', 'fileio/cpacs/__patch.py'],
     [('load', 'fileio/cpacs/aircraft.py'), ('load', 'fileio/cpacs/state.py'), ('save_aeroperformance_map', 'fileio/cpacs/results.py')],
     ['the loaded aircraft and flight state', 'the CPACS file after a run'])

prop('C19', 'Plots are made exactly as requested and never change results',
     """For every flight point a plot file of each kind (geometry, lattice, results per requested quantity, downwash
     matrix) is written to that point's plot folder exactly when its save option is set, and none otherwise, and windows
     are opened exactly when the show option is set. The views show the whole aircraft: its segments and controls with
     their images (geometry), the panels (lattice), the value of each panel as a colour between the smallest and largest
     (results), and the matrix. Plotting with any option combination leaves all computed results, saved result files and
     earlier plots unchanged.""",
     ['configurations'], 'all combinations of plot options and aircraft, including mirrored wings and controls',
     'The plotting test uses one combination.',
     ['plot/makeplots.py', 'plot/plottools.py', 'plot/downwash.py', 'objects/settings.py'],
     [('make_all', 'plot/makeplots.py'), ('plot2d3d / show_and_save / add_results', 'plot/plottools.py')],
     ['files below _plots/', 'results with and without plots'])

prop('C20', 'Runs are deterministic and isolated from earlier runs in the same process',
     """The results of a run depend only on the project's files: repeating it, or running other projects (or failing
     ones) before it in the same process, gives bit-for-bit equal results and equal result files. Loading database
     aircraft or using the building blocks (load, panel, solve) directly gives the same results as the standard run.""",
     ['histories'], 'all sequences of runs of different projects in one process',
     'Every test runs its projects once.',
     ['stdfun/run.py', 'objects/settings.py', 'aero/vlm.py', 'database/tools.py', 'aero/c_vlm.cpp'],
     [('standard_run', 'stdfun/run.py'), ('module-level defaults', 'objects/settings.py')],
     ['results and files of every run of a sequence'])

prop('C21', 'Derived wing measures are those of the geometry',
     """For segments given by their corner points the reported span, chords, sweep, dihedral, incidence, segment
     positions, wing span and area, and aircraft size are those of the corner points; wing span and area are the sums
     over the segments, and segment positions run from 0 at the first segment's root to 1 at the last segment's tip
     without gaps. Conversely, a segment given by one corner point (or by one of its two chord edges) and its other
     measures has the corner points that the given points and measures determine.""",
     ['inputs'], 'all sets of segment corner points and symmetry flags',
     'No test reads them.',
     ['objects/aircraft.py'],
     [('WingSegment.generate', 'objects/aircraft.py'), ('Wing.generate, area, span; Aircraft.size, area', 'objects/aircraft.py')],
     ['segment.geometry, segment.position, wing.span, wing.area, aircraft.area, aircraft.size'])

prop('C22', 'Iteration over the aircraft model visits everything once, in order',
     """Walking an aircraft model yields every wing, segment, strip, patch and control exactly once, in declaration order,
     together with its own parents and a running index, and the counts agree with the walk; two aircraft in the database
     or in memory never share parts, and fetching a database aircraft always yields its pristine data.""",
     ['histories', 'inputs'], 'all aircraft models after any sequence of additions, and all sequences of database fetches and edits',
     'Tests exercise the iteration only implicitly on one or two aircraft.',
     ['objects/objecttools.py', 'database/tools.py', 'objects/aircraft.py'],
     [('all_wings, all_segments, all_subdivisions, all_subareas, all_controls, count_all_*', 'objects/objecttools.py'),
      ('list_full_aircraft_paths, list_aircraft_names, get_aircraft_file_path', 'database/tools.py')],
     ['the sequence of yielded items', 'names and paths returned by the database functions, and the models loaded from them'])

out = Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
for p in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
print(len(P), 'properties')
