# Writes /verif/properties.jsonl (kept so that the list can be edited as Python).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["pterasoftware/"+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=state or [],observe_at=observe or [],hook_needed=None)))
AERO="aerodynamics.py";FN="functions.py";HS="steady_horseshoe_vortex_lattice_method.py";RG="steady_ring_vortex_lattice_method.py"
UN="unsteady_ring_vortex_lattice_method.py";GE="geometry.py";MV="movement.py";ME="meshing.py";PA="panel.py";OP="operating_point.py";PR="problems.py"

p("C01","Steady solutions satisfy the flow-tangency boundary condition",
 "After either steady solver has run, the flow velocity the solver reports at every panel's collocation point (freestream plus everything induced by all vortices of all wings of all airplanes) has zero component along that panel's normal, for every number and arrangement of airplanes, wings and panels and every operating point. The circulation stored on each panel's vortices is the one that was solved for that same panel.",
 ["inputs","configurations"],"All airplanes/wings/panel counts and geometries for which the linear system is solvable, all operating points (speed, alpha, beta, density).",
 "The tests run two fixed airplanes and compare three total coefficients within 10%; they never look at the boundary condition, and never use more than one airplane or a nonzero sideslip with the ring solver.",
 [HS,RG,AERO,FN],[("influence matrix from unit-strength vortices","calculate_wing_wing_influences"),("linear solve and strength write-back","calculate_vortex_strengths"),("reported velocity","calculate_solution_velocity")],["solver.calculate_solution_velocity at solver.panel_collocation_points"])
p("C02","Unsteady solutions satisfy flow tangency at every time step",
 "At every time step of an unsteady run, the velocity relative to the moving surface at every collocation point (the step's freestream, all wing and wake vortices, and the apparent velocity due to the collocation point's motion since the previous step) has zero component along the panel normal. The apparent velocity is minus the displacement of that same panel's point since the previous step divided by the time step, and zero at the first step.",
 ["inputs","histories"],"All movements, panel counts, wake contents and step indices; all operating points including time-varying speed.",
 "Tests only check that runs do not throw, and one static case within 10% at its last step.",
 [UN,AERO,FN],[("per-step influence matrix","calculate_wing_wing_influences"),("freestream and flapping influences","calculate_freestream_wing_influences"),("wake influences","calculate_wake_wing_influences"),("solve","calculate_vortex_strengths")])
p("C03","Induced velocities follow the regularised Biot-Savart law and superpose",
 "The velocity induced at any point by any straight vortex segment is the Biot-Savart velocity of that segment with the documented ageing core, and exactly zero when the point touches the segment or its line within machine tolerance; it is finite for all finite inputs with non-negative ages and viscosity. Ring and horseshoe vortices induce the sum over exactly their four (three) legs, the chordwise-only variant exactly its two streamwise legs, and the cumulative variant of each query equals the sum over vortices of the per-vortex variant.",
 ["inputs"],"All points, all numbers and positions of vortices, all strengths, ages and viscosities.",
 "No test calls the induced-velocity functions directly; degenerate points, nonzero ages and core growth are reached only through whole simulations whose tolerance is 10% or which only check that nothing throws.",
 [AERO],[("segment kernels","collapsed_velocities_from_line_vortices / expanded_velocities_from_line_vortices"),("leg lists","*_from_ring_vortices, *_from_horseshoe_vortices")])
p("C04","Steady panel loads obey the Kutta-Joukowski law, each bound segment once",
 "In a steady solution the force attributed to the panels is density times circulation times local velocity crossed with the bound segment, where a segment shared by two panels carries the difference of their circulations and its force enters the wing total exactly once. The moment of each force is taken about the reference point of the airplane that owns the panel, with the segment's midpoint as its point of application.",
 ["inputs","configurations"],"All panel layouts (any chordwise/spanwise counts, edges and interiors), circulations, velocities, densities, reference points, numbers of wings and airplanes.",
 "Tests compare only total coefficients of single-airplane cases within 10%, so wrong neighbours at an edge, a segment counted twice or a wrong reference point on a second airplane stay invisible.",
 [HS,RG],[("near field loads","calculate_near_field_forces_and_moments")])
p("C05","Unsteady panel loads combine Kutta-Joukowski and unsteady Bernoulli terms",
 "At each time step the force on each panel is the Kutta-Joukowski force of its bound segments, in the flow relative to the moving segment and with shared segments counted once over the wing, plus density times area times the rate of change of the panel's own circulation along its normal. Moments are those forces' moments about the owning airplane's reference point at that step.",
 ["inputs","histories"],"All layouts, circulations of this and the previous step, segment motions, time steps, reference points, numbers of wings and airplanes.",
 "The unsteady tests check absence of exceptions and one static end state, where the rate of change of circulation has already vanished.",
 [UN,FN],[("near field loads","calculate_near_field_forces_and_moments"),("flapping velocities","calculate_current_flapping_velocities_at_*"),("previous-step attributes","collapse_geometry")])
p("C06","Totals and coefficients are consistent with the panel loads",
 "Each airplane's total force and moment in wind axes are the sum over exactly its own panels' geometry-axes loads, rotated into wind axes; per-panel loads in both axes agree through the same rotation. Force and moment coefficients (drag, side force, lift; roll, pitch, yaw) are those totals with the documented signs divided by dynamic pressure and the airplane's own reference area, and by span for roll and yaw and chord for pitch; panel coefficients use the panel's own area.",
 ["inputs","configurations"],"All panel loads, operating points, reference dimensions, numbers of airplanes, wings and panels.",
 "Tests read a few coefficients of the first airplane with a 10% tolerance, with alpha=5, beta=0; mixing up airplanes, reference lengths or off-axis rotation terms is not observable there.",
 [FN,PA,OP],[("load processing","process_steady_solver_forces / process_unsteady_solver_forces"),("panel coefficients","Panel.update_coefficients")])
p("C07","Wing meshes tile the defined surface exactly once",
 "Meshing a wing yields exactly the declared number of chordwise by spanwise panels, whose corners lie on the surface interpolated linearly between adjacent cross sections' placed mean camber lines at the requested chordwise and spanwise spacing, with neighbouring panels of a section sharing their corners exactly. On a symmetric wing the other half is the exact mirror image across the wing's symmetry plane with left and right exchanged. Every panel's row/column position and its leading, trailing, left and right edge markers agree with its place in the grid.",
 ["inputs","configurations"],"All numbers of cross sections and panels, spacings, positions, chords, twists, plane normals, symmetric and asymmetric control surfaces, symmetric and one-sided wings.",
 "Meshes are only built as a by-product of solver tests on a handful of wings; no test inspects panel corners, positions or edge markers.",
 [ME,FN,GE],[("mesh construction","mesh_wing, get_wing_section_panel_vertices, get_wing_section_panels"),("interpolation and mirroring","interp_between_points, reflect_point_across_plane")])
p("C08","Panel geometry is derived consistently from its corners",
 "For any four corners, a panel's normal is a unit vector perpendicular to both diagonals and oriented by the right-hand rule, its area is half the magnitude of the diagonals' cross product, and its projected area onto a plane is the area times the absolute cosine between normals. Its bound vortex lies on the quarter-chord points of its side edges and its collocation point midway between their three-quarter-chord points, and its unit chordwise and spanwise vectors and average chord and span are those of its edges.",
 ["inputs"],"All corner positions with nonparallel diagonals; all projection normals.",
 "There is no unit test of the panel class.",
 [PA],[("panel properties","Panel.*")])
p("C09","Frame changes are rigid and point the right way",
 "For every angle of attack and sideslip the wind-to-geometry transformation is a proper rotation and the freestream velocity has exactly the specified speed, pointing along the documented direction (downstream, upward with alpha, sideways with beta). Axis-angle rotations are proper, keep the axis fixed and turn by the given angle; reflections across a plane are involutive, distance preserving and fix exactly the plane; centroids are the mean of the corners.",
 ["inputs"],"All alpha, beta, speeds, axes (unit or not), angles, planes and points.",
 "Tests use alpha=5, beta=0 almost everywhere and never check these matrices.",
 [OP,FN],[("wind axes","OperatingPoint.calculate_*"),("rotation, reflection, centroid","functions.angle_axis_rotation_matrix, reflect_point_across_plane, numba_centroid_of_quadrilateral")])
p("C10","Wake circulation is conserved and aged exactly",
 "At every time step exactly one new row of wake ring vortices is shed per wing, one per spanwise panel, carrying the circulation the trailing-edge panel at the same spanwise position had at the previous step; every older wake ring keeps its circulation unchanged and moves one row downstream. The age of every wake ring is the number of steps since it was shed times the time step, and the wake seen by the flow solver contains every wake ring of every wing of every airplane exactly once.",
 ["inputs","histories"],"All step indices, spanwise counts, numbers of wings and airplanes, time steps.",
 "Tests only require unsteady runs not to throw; circulation histories and ages are never inspected.",
 [UN,AERO],[("shedding","populate_next_airplanes_wake_vortices"),("gathering","collapse_geometry")])
p("C11","Wake geometry stays attached and is convected by the right velocity",
 "The first row of wake vertices of each wing at each step coincides with the back edge of its trailing-edge ring vortices at that step, and every other wake vertex is its position at the previous step displaced by the time step times the freestream velocity (prescribed wake) or the total flow velocity at that vertex (free wake). Each wake ring's corners are the four grid vertices around it, so that neighbouring rings share their edges.",
 ["inputs","histories"],"All steps, grids, prescribed and free wakes, varying freestream.",
 "Tests only require unsteady runs not to throw.",
 [UN],[("vertex convection","populate_next_airplanes_wake_vortex_vertices"),("ring placement","populate_next_airplanes_wake_vortices, initialize_panel_vortices")])
p("C12","Prescribed oscillations take their exact value at every time step",
 "Every oscillating quantity (positions, angles, speed) at step k equals its base value plus its amplitude times the chosen unit waveform (sine, triangle starting at zero and rising, or user function) at phase 2*pi*k*dt/period, and equals the base value at all steps when amplitude or period is zero. Each quantity uses its own amplitude, period, waveform and base, and an unknown waveform name is rejected.",
 ["inputs","histories"],"All amplitudes, periods, base values, step counts, step sizes and waveforms, for each of the ten oscillating quantities.",
 "Fixtures use few combinations and tests assert only that simulations run.",
 [MV],[("waveforms","oscillating_sinspace / oscillating_linspace / oscillating_customspace"),("use per quantity","generate_airplanes, generate_wings, generate_wing_cross_sections, generate_operating_points")])
p("C13","Time-step snapshots keep everything the user did not ask to move",
 "Each time step's airplanes, wings, cross sections and operating points differ from their base objects only in the quantities declared to move: names, weight, chords, airfoils, control surfaces, spacings, panel counts, symmetry, plane and chord directions, density, angles, viscosity and external thrust are carried over unchanged. There is one snapshot of every airplane (with all its wings and cross sections in order) and one operating point per time step, assembled into that step's problem.",
 ["inputs","configurations"],"All base objects (including non-default plane normals and viscosities), movements and step counts.",
 "Fixtures leave nearly every attribute at its default value, so a dropped attribute is silently replaced by the same default.",
 [MV,PR],[("snapshot construction","generate_*"),("problem assembly","UnsteadyProblem.__init__")])
p("C14","Flapping moves wing cross sections rigidly about their neighbours",
 "During any sweeping, pitching and heaving motion the distance between the leading edges of adjacent cross sections equals that of the base geometry at every time step, each cross section's position being that of its inner neighbour at the same step plus the base spacing turned by the current sweep and heave angles. The root cross section never leaves the wing's leading edge, and where nothing moves (zero amplitudes, or the start of a sine or triangle motion) the base geometry is reproduced exactly.",
 ["inputs","histories"],"All base positions (sweep, dihedral, vertical sections), amplitudes, periods, waveforms, numbers of cross sections.",
 "Tests never compare snapshot geometry with the base geometry.",
 [MV],[("kinematics","WingMovement.generate_wings, WingCrossSectionMovement.generate_wing_cross_sections")])
p("C15","Time stepping and final results cover what was asked for",
 "When not given, the time step is the average over airplanes of the time the freestream takes to travel one panel chord, and the number of steps is the smallest that covers the requested number of cycles of the longest period (or chords of wake for static motion). Final results of a static motion are those of the last step; those of a periodic motion are the mean and root-mean-square, per airplane and component, over exactly the last steps that span one longest period.",
 ["inputs","histories"],"All movements, periods, counts, step sizes, numbers of airplanes, load histories.",
 "Tests check neither step counts nor averaging windows nor the averaged values.",
 [MV,PR,UN],[("step selection","Movement.__init__, get_max_period"),("averaging window","UnsteadyProblem.__init__"),("final results","finalize_near_field_forces_and_moments")])
p("C16","A reported trim condition really is trimmed",
 "When a trim search reports a state, that state is one at which the solver was actually run and the mean of the net force coefficient (aerodynamic loads against weight and thrust) and net moment coefficient magnitudes was below the requested cut-off; otherwise every reported entry is NaN. A starting state outside the given bounds is rejected by the steady search before anything is evaluated.",
 ["inputs","histories"],"All problems, bounds, cut-offs and all sequences of trial states an optimiser may evaluate.",
 "One steady case with a near-exact starting point is tested; the unsteady search is not tested at all.",
 ["trim.py"],[("objective and early stop","analyze_steady_trim / analyze_unsteady_trim")])
p("C17","A reported converged mesh really meets the convergence criterion",
 "A convergence analysis reports parameters only from within the requested bounds, and only when the coefficients changed by less than the criterion between the reported mesh and the next finer one for each parameter that was varied and is not already at its finest meaningful value; otherwise all entries are None. Every trial re-creates the user's airplanes and motions with nothing changed except panel counts and wake length, with at least one spanwise panel per wing section, and leaves the user's objects untouched.",
 ["inputs","histories"],"All bounds, criteria, reference problems and coefficient histories.",
 "Tests run two or three fixed cases and accept an answer within one unit of the recorded one.",
 ["convergence.py"],[("search loops","analyze_steady_convergence / analyze_unsteady_convergence")])
p("C18","Reference dimensions follow from the geometry unless overridden",
 "A wing's wetted area is the sum of its panels' areas, its projected area the sum of their projections along its up direction, its span the root-to-tip leading edge distance along its spanwise normal (doubled when symmetric) and its mean aerodynamic chord the projected-span-weighted integral of chord squared over projected area. An airplane's reference area, chord and span are those of its first wing, each individually replaced by the user's value when one is given, and its panel count is the sum over its wings.",
 ["inputs","configurations"],"All wings, cross sections, panel grids and combinations of overrides.",
 "Only totals of a few simulations depend on these in tests, within 10%.",
 [GE,PA],[("wing dimensions","Wing.projected_area, wetted_area, span, mean_aerodynamic_chord"),("airplane references","Airplane.__init__")])
p("C19","Unusable inputs are rejected, usable ones are accepted",
 "Constructing geometry or movement objects, deflecting a control surface or choosing a logging level raises an exception exactly when the documented conditions are violated: fewer than two cross sections or no wing, non-positive chord, unknown spacing or control-surface type, root offset or plane mismatch, cross-section planes not parallel to the chordwise direction, deflection beyond 90 degrees, contradictory step/cycle/chord counts, or unknown level name. No such input ever yields a usable object, and inputs meeting the conditions are never rejected.",
 ["inputs"],"All argument values.",
 "No test exercises a rejected input.",
 [GE,MV,FN],[("constructors","Airplane, Wing, WingCrossSection, Movement"),("deflection","Airfoil.add_control_surface"),("level names","convert_logging_level_name_to_value")])
p("C20","Control-surface deflection turns exactly the part behind the hinge",
 "Deflecting a control surface leaves every outline point ahead of the hinge where it was and rotates every outline and camber point behind it rigidly about the hinge point on the camber line by the deflection angle (positive trailing edge down), keeping the number of points; a zero deflection changes nothing. Cosine spacing runs monotonically from its first to its last value with both ends exact.",
 ["inputs"],"All airfoil outlines, hinge positions inside the chord and deflections within 90 degrees.",
 "No test builds a deflected control surface and inspects it.",
 [GE,FN],[("deflection","Airfoil.add_control_surface"),("spacing","functions.cosspace")])
p("C21","Steady coefficients do not depend on speed or density",
 "Scaling the freestream speed by any positive factor scales all circulations by that factor and all panel forces and moments by its square; scaling density scales loads linearly; in both cases every force and moment coefficient of every airplane is unchanged, for both steady solvers.",
 ["inputs","configurations"],"All geometries, operating points, scale factors.",
 "Tests run one speed and density per case.",
 [HS,RG,FN,OP,AERO],[("linear pipeline","steady solvers"),("normalisation","process_steady_solver_forces, Panel.update_coefficients")])
p("C22","Streamlines start at the trailing edge and follow the solution velocity",
 "Each streamline starts at the midpoint of the back edge of a trailing-edge panel, one per such panel in order, and each next point is the previous one displaced by the solution's flow velocity there times the streamline time step, for exactly the requested number of steps.",
 ["inputs"],"All solved problems, step counts and step sizes.",
 "Streamlines are only computed as a side effect in tests; no value is checked.",
 [FN,HS,RG],[("integration","calculate_streamlines"),("seeding","collapse_geometry, update_ring_vortex_solvers_panel_attributes")])
p("C23","Reported numbers and drawn surfaces are those of the right airplane and panel",
 "Printed results show, for each airplane in order, its own name, forces, moments and coefficients under the right labels, for static and periodic unsteady runs as for steady ones. The drawn surface has exactly one quadrilateral per panel (and per wake ring of the step shown) with that panel's corners in circumferential order, and the coloured scalar of each quadrilateral is the requested coefficient of the same panel. Plotted histories show each airplane's own loads and coefficients against the times of the steps they belong to.",
 ["inputs","configurations"],"All solver results, numbers of airplanes, wings and panels, scalar types.",
 "Tests check that drawing does not throw; printed text is never compared.",
 ["output.py"],[("printing","print_steady_results, print_unsteady_results"),("drawing data","get_panel_surfaces, get_wake_ring_vortex_surfaces, get_scalars")])
p("C24","Solving is repeatable and does not depend on earlier runs",
 "Running a solver again on the same problem, or running it after another solver has used the same airplanes, gives the same circulations, loads, coefficients, streamlines and final results as a first run on fresh objects. A solver run never changes the geometry or operating point it was given.",
 ["histories"],"All sequences of solver runs on shared airplane, wing and panel objects.",
 "Every test solves each problem once with fresh objects.",
 [HS,RG,UN],[("per-run initialisation","run, collapse_geometry, calculate_wing_wing_influences")])
p("C25","Rendered windows and animations depict the solution",
 "The interactive windows, image files, animations and the graphical user interface show the geometry, wake, loads and histories of the solution they were given, at the right times.",
 ["inputs"],"All solved problems and display options.",
 "Tests only check that drawing does not throw.",
 ["output.py","ui_resources/main_window.py"],[("drawing","draw, animate, plot_results_versus_time")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
