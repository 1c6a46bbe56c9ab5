"""Single source of /verif/properties.jsonl (run: python3 mc/mkprops.py)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": [observe], "hook_needed": hook}
    if state:
        a["state"] = [{"name": state, "meaning": state}]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


E, M, T, L, I, PL = ("weac/eigensystem.py", "weac/mixins.py", "weac/tools.py",
                     "weac/layered.py", "weac/inverse.py", "weac/plot.py")

prop("C01", "The slab solution satisfies the governing field equations everywhere",
     "At every position of every segment, the returned displacement field satisfies the equilibrium and constitutive "
     "equations of a layered, extension-bending-coupled, shear-deformable beam under its weight and surface load, resting on "
     "an elastic weak layer of finite thickness where the segment is supported and free where it is not. This holds for every "
     "stratigraphy, weak layer, slope angle, surface load, gravity and segment layout, near crack tips and far away alike.",
     ["inputs", "configurations"],
     "every system kind, layering, weak layer, inclination, surface load and segment layout, and every position along the slab",
     "The tests check shapes and signs of one flat homogeneous PST; a wrong coupling or load term only shows for layered, "
     "inclined or surface-loaded slabs and only at some positions.",
     [E, M],
     [("system matrix, load vector, complementary and particular solutions", E + ": calc_system_matrix, zh, zp, z, get_weight_load, get_surface_load"),
      ("section forces", M + ": FieldQuantitiesMixin.N/M/V")],
     "Layered.rasterize_solution / Layered.z and the section-force accessors",
     "solution vector at each grid point")

prop("C02", "Ends and segment interfaces obey the declared boundary conditions",
     "Displacements, rotation and section forces are continuous across every segment interface except for the jump that a skier's "
     "weight there prescribes; PST ends are stress-free, vertically cut PST ends carry exactly the weight of the cut-off or added "
     "snow wedge, and the outer ends of skier models carry the undisturbed slab solution. This holds for any number and order of "
     "supported and unsupported segments and any skier weights, at any inclination.",
     ["inputs", "configurations"],
     "every system kind, number of segments, support pattern, skier weights, inclination and layering",
     "The tests never look at an interface; an assembly error for three or more segments, for a given system or for a skier at one "
     "particular interface is invisible to them.",
     [M, T],
     [("assembly of the linear system", M + ": SolutionMixin.bc, eqs, assemble_and_solve"),
      ("segment lists per system", M + ": SolutionMixin.calc_segments"),
      ("wedge weight of vertical faces", T + ": calc_vertical_bc_center_of_gravity"),
      ("skier line load", E + ": get_skier_load")],
     "section forces and displacements at segment ends", "solution vectors at both sides of each interface")

prop("C03", "Weak-layer stresses balance the applied weight, surface and skier loads",
     "Integrated over the supported length, the reported weak-layer normal and shear stresses carry exactly the slab's total weight, "
     "surface load, skier weights and end forces: force balance normal and parallel to the slope and moment balance all close. In an "
     "undisturbed slab the stresses equal weight per area resolved on the slope, compression being negative.",
     ["inputs", "configurations"],
     "every system kind, segment layout, loading, layering, weak layer and inclination",
     "Tests compare no stress with a load; a stress accessor or load term that is wrong by a factor or for one sign of the slope passes them.",
     [M, E],
     [("weak-layer stress accessors", M + ": sig, tau, get_weaklayer_shearstress, get_weaklayer_normalstress"),
      ("loads", E + ": get_weight_load, get_surface_load, get_skier_load")],
     "weak-layer stresses over the rasterised supported length")

prop("C04", "Results depend only on the current configuration, not on the call history",
     "Whatever sequence of configuration changes, segment set-ups, solves, analyses and failed calls a model object has gone through, and whatever "
     "other models have been used in the same process, setting up and solving any experiment next gives the results of a freshly created model with the same layers, "
     "weak layer, loads, system and touchdown setting.",
     ["histories"],
     "every sequence, up to the explored depth, of configuration setters, system changes, segment computations with and without touchdown, "
     "solves, analyses and plots on one or two live models",
     "The tests build a new model per case; a stale or shared cached quantity needs a specific multi-step history.",
     [E, M, L, T],
     [("mutable model attributes and update flags", E + ": set_foundation_properties, set_beam_properties, set_surface_load, calc_fundamental_system"),
      ("touchdown state", M + ": SlabContactMixin.set_touchdown_attributes, calc_touchdown_system, substitute_stiffness")],
     "solutions, energy release rates, segment lists and stresses after each history",
     "the attributes of the model object (stiffnesses, eigensystem, touchdown mode, lengths)")

prop("C05", "Analysing a solution changes neither the model nor the caller's data",
     "Computing segments, solutions, rasterised fields, stresses, energy release rates, outputs or plots never modifies the lists, arrays or dictionaries the caller "
     "passed in, and querying a solved model twice, or in any order, gives identical answers. Touchdown computations in particular leave "
     "the model's stiffnesses and type as they were.",
     ["histories", "inputs"],
     "every ordered sequence of analysis and query calls up to the explored depth on every representative configuration",
     "Tests call each query once on fresh inputs; aliasing and in-place updates show only when data are reused.",
     [M, E, T, PL],
     [("in-place assembly and NaN masking", M + ": assemble_and_solve, get_weaklayer_shearstress, get_weaklayer_normalstress, rasterize_solution, ginc, gdif"),
      ("temporary stiffness swap", M + ": substitute_stiffness")],
     "caller-owned inputs and repeated query results")

prop("C06", "A failed or interrupted computation leaves the model usable",
     "If a computation aborts at any point where it calls a numerical routine - because that routine fails or the user interrupts it - "
     "the model's stiffnesses, type and configuration are intact: repeating the call, or any other one, gives the same results as on a fresh model.",
     ["fault_sequences", "crash_points"],
     "every call to a numerical kernel (linear solve, eigenvalue, root search, quadrature) during segment computation, solving and analysis as a failure point",
     "No test injects a failure; the temporary modifications are observable only when the computation dies between them and their undo.",
     [M],
     [("temporary system and stiffness swap", M + ": SlabContactMixin.substitute_stiffness, calc_a1, calc_a2, calc_lC, bc")],
     "results after an injected failure",
     "system kind, foundation stiffnesses and eigensystem during nested calls")

prop("C07", "Touchdown regime, length and contact conditions of a PST are consistent",
     "With touchdown enabled, the slab of a PST is free, touching at its end, or resting on the collapsed layer according to whether its crack is shorter than the first-contact "
     "length, between first and full contact, or longer, where those lengths and the unsupported span follow from a shear-deformable cantilever on the "
     "springs of the supported (and resting) parts sagging by the free collapse height. The solution then meets the matching end conditions: "
     "no end forces, zero normal force and moment with the end at collapse depth, or collapse depth with the rotational support and tangential weight of the resting part.",
     ["inputs", "configurations"],
     "every crack length and column length (densely around the regime changes), collapse factor, stiffness ratio, layering, weak layer, slope, load and cut direction",
     "Tests exercise touchdown for one geometry; thresholds and contact conditions need scans across regime changes and slopes.",
     [M],
     [("thresholds and unsupported length", M + ": calc_a1, calc_a2, calc_lC, calc_touchdown_mode, calc_touchdown_length"),
      ("spring substitution", M + ": substitute_stiffness"),
      ("contact boundary conditions", M + ": bc, assemble_and_solve"),
      ("collapse height", M + ": set_tc, calc_qn, calc_qt")],
     "segment lengths, regime, and end values of the solution", "touchdown mode, touchdown length, crack height")

prop("C08", "Mirrored experiments give mirrored results",
     "Cutting the same slab from the left instead of the right with the slope reversed, or mirroring a layout of skiers and cracks with the slope reversed, "
     "mirrors the solution: deflection, bending moment, axial force and normal stress are equal at mirrored positions, "
     "axial displacement, rotation, shear force and shear stress change sign, and energy release rates are identical.",
     ["inputs", "configurations"],
     "every pair of mirrored configurations: systems, layouts, slopes, layerings, loads, touchdown regimes",
     "Tests check one cut direction; left and right code paths differ in every system.",
     [M, E, T],
     [("left/right branches", M + ": bc, calc_segments, assemble_and_solve, gdif, ginc"),
      ("sign convention of loads", E + ": get_weight_load, get_skier_load")],
     "fields and energy release rates of mirrored runs")

prop("C09", "The response is linear in the loads and energy release is quadratic",
     "Without contact, the solution is the sum of the responses to weight, surface load and each skier, and of the slope-normal and "
     "slope-parallel load components; multiplying all loads by a factor multiplies displacements, section forces and stresses by it and energy release rates by its square.",
     ["inputs", "configurations"],
     "every combination of gravity, surface load, skier weights and inclination for every system, layout and layering",
     "Tests evaluate one load case at a time; superposition relates many.",
     [E, M],
     [("load vectors", E + ": get_weight_load, get_surface_load, get_skier_load, zp"),
      ("right-hand side", M + ": assemble_and_solve")],
     "fields and energy release rates over families of load cases")

prop("C10", "Splitting segments or layers or lengthening an infinite model changes nothing",
     "Splitting a segment at an unloaded point, inserting a segment of zero length, or splitting a snow layer into "
     "identical sublayers leaves solution, section forces, stresses and energy release rates unchanged; and for skier models on an infinite slab, so does "
     "lengthening the model beyond the disturbed zone.",
     ["inputs", "configurations"],
     "every split position and count of segments and layers, with zero-length pieces, for every layout, system and layering",
     "Tests use two- and four-segment models only; index errors for other segment and layer counts are not sampled.",
     [M, E, T],
     [("assembly over segments", M + ": assemble_and_solve, rasterize_solution, ginc, gdif"),
      ("layer sums", E + ": calc_laminate_stiffness_matrix, get_weight_load, get_zmesh"),
      ("center of gravity", T + ": calc_center_of_gravity")],
     "fields and energy release rates of refined and unrefined models")

prop("C11", "The rasterised solution is a complete, ordered and faithful sampling",
     "Grid coordinates increase from zero to the model length and include every segment boundary; the weak-layer coordinates equal the slab coordinates at all "
     "supported points and at crack tips and are undefined exactly inside unsupported stretches; each column is the "
     "solution at its coordinate, independent of the requested resolution.",
     ["inputs", "configurations"],
     "every segment count, length ratio, support pattern, zero-length segments and requested number of grid points",
     "Tests rasterise one two-segment model; rounding and off-by-one effects depend on length ratios and grid counts.",
     [M],
     [("grid construction and mask", M + ": AnalysisMixin.rasterize_solution")],
     "coordinates, mask and columns returned by rasterisation")

prop("C12", "Slab stresses are in equilibrium and consistent with section forces",
     "At every position, axial stresses integrate over the thickness to the axial force and bending moment; in supported stretches, shear and transverse normal stresses "
     "grow from the surface load on top to exactly the traction exerted by the weak layer at the bottom (shear stress; normal stress less the shear-stress gradient over half the weak-layer thickness), continuous across layers and in equilibrium with weight; the lower face of unsupported stretches is traction-free; "
     "principal stresses are the eigenvalues of these stresses, and normalisation divides them by the strength in the same unit.",
     ["inputs", "configurations"],
     "every layering, mesh size, slope, surface load, position in supported stretches and unit",
     "No test computes a slab stress field.",
     [M, E, T],
     [("stress recovery", M + ": get_zmesh, Sxx, Txz, Szz, principal_stress_slab, principal_stress_weaklayer, dz_dx, dz_dxdx"),
      ("strength", T + ": tensile_strength_slab")],
     "stress fields on the through-thickness mesh")

prop("C13", "Energy release rates follow from the weak-layer stresses at the cracks",
     "Differential rates of a crack tip are squared normal and shear stress over twice the weak-layer stiffness, interior cracks averaging their tips and "
     "edge cracks counted in full; incremental rates are the work per crack length of closing the cracks, i.e. half the integral of uncracked stresses times cracked displacements. "
     "Total is the sum of both modes, modes are non-negative where the definition makes them so, and without a crack there is no release.",
     ["inputs", "configurations"],
     "every number and arrangement of cracks (edge, interior, several), layering, slope, load, skier weight, unit and touchdown regime",
     "Tests check positivity of one crack; averaging, several cracks, slopes and mode signs are not covered.",
     [M],
     [("energy release rates", M + ": Gi, Gii, int1, int2, ginc, gdif, eps, gamma")],
     "returned rate triples")

prop("C14", "Unit options only rescale results and all accessors agree",
     "Every quantity offered in several units is the same physical value in each - lengths, rotations, stresses, strengths and energy rates convert by the exact factor - and "
     "convenience outputs equal the underlying field quantity at the requested location over coordinates in centimetres, "
     "with undefined or removed entries exactly where there is no weak layer.",
     ["inputs", "configurations"],
     "every accessor with every unit, location and masking option, over fields from all systems",
     "Tests use default units and compare one component.",
     [M, T],
     [("unit tables", M + ": w, u, psi, sig, tau, Gi, Gii, Sxx, Txz, Szz, principal_stress_*; OutputMixin getters"),
      ("strength units", T + ": tensile_strength_slab")],
     "accessor return values")

prop("C15", "Stratigraphy and weak-layer data yield the correct laminate properties",
     "Thickness, center of gravity, weight, extensional, coupling, bending and shear stiffness follow plane-strain laminate theory for the given top-to-bottom layers; "
     "Young's moduli follow the documented density parametrisations or the profile database; weak-layer stiffnesses follow plane-strain elasticity over "
     "its thickness; reversing the layers negates coupling and center of gravity only.",
     ["inputs", "configurations"],
     "every layer sequence over a density-thickness alphabet up to the explored length, every database profile, parametrisation constant and weak-layer parameter set",
     "Tests check homogeneous one- or two-layer defaults for non-zero values only.",
     [E, T],
     [("laminate and foundation", E + ": set_beam_properties, set_foundation_properties, calc_foundation_stiffness, calc_laminate_stiffness_matrix, get_ply_coordinates"),
      ("density parametrisations, profiles, center of gravity", T + ": bergfeld, scapozza, gerling, load_dummy_profile, calc_center_of_gravity, calc_vertical_bc_center_of_gravity, tensile_strength_slab")],
     "documented model attributes and helper return values", "slab matrix, A11, B11, D11, kA55, kn, kt, h, zs")

prop("C16", "Plots show the computed quantities in the stated units and are saved",
     "Each plot draws exactly the model's computed quantity against position in the units its labels state, shades unsupported stretches and marks skiers, omits weak-layer data where there is "
     "no weak layer, and is saved under the plot folder of the working directory under its documented name; plotting leaves the results, the default plot style and the open figures of the caller untouched.",
     ["inputs", "configurations", "histories"],
     "every plot function over all systems, supports, slopes, fields and options, in every order of two plots",
     "Tests only check that a file appears.",
     [PL],
     [("plot wrappers", PL + ": displacements, section_forces, stresses, err_comp, err_modes, slab_profile, deformed, plot_data, save_plot")],
     "drawn artists captured when the figure is saved, and the saved files")

prop("C17", "The inverse-identification model is the same model with other parameters",
     "A model built for inverse identification behaves, for every method, exactly like the ordinary model given the same layers, stiffness-parametrisation constants and weak-layer modulus.",
     ["inputs", "configurations"],
     "every layering, parameter triple, system, slope and operation",
     "No test touches the inverse model.",
     [I, L],
     [("composition", I + ": Inverse.__init__")],
     "results of both model kinds")

prop("C18", "Ill-posed input is rejected instead of yielding wrong numbers",
     "Segment lists of inconsistent length, layouts without any support, infinite models with unsupported outer segments, unknown system kinds, unknown profiles, units, locations or stress "
     "components, unavailable normalisations and plot fields raise an error, while every well-posed input in the documented forms (lists, arrays, one or many segments, profile names) "
     "is accepted and gives the same result whatever its form.",
     ["inputs"],
     "every combination of list lengths, support patterns, system names and option strings up to the explored size",
     "Tests contain no rejection case.",
     [M, E, T, L],
     [("input validation", M + ": assemble_and_solve, calc_segments, eqs, principal_stress_*; " + T + ": load_dummy_profile"),
      ("input forms", L + ": Layered.__init__; " + E + ": set_beam_properties")],
     "raised errors and returned values")

prop("C19", "First-contact, full-contact and steady-state lengths match the model",
     "The touchdown-distance helper returns, for any layering, parametrisation, weak layer and slope, the same crack lengths at which a very long cut column changes regime and the same unsupported "
     "length such a column reports far behind the tip; all are positive, and they neither depend on earlier calls nor change other models.",
     ["inputs", "histories"],
     "every layering and parameter set of the alphabet, in every order of two calls, against scans of the ordinary model",
     "Tests do not call the helper.",
     [T, M],
     [("helper", T + ": touchdown_distance"), ("thresholds", M + ": calc_a1, calc_a2, calc_lC")],
     "returned triple versus regimes of a long column")

prop("C20", "The model obeys dimensional similarity",
     "Scaling all stiffnesses by a factor scales displacements inversely and leaves stresses and section forces unchanged; scaling all lengths with "
     "loads per area kept constant scales displacements, section forces and energy release rates by the powers their dimensions dictate, so results are independent of the chosen system of scales.",
     ["inputs", "configurations"],
     "every configuration of every system paired with scaled copies over a set of scale factors",
     "A single example cannot expose a term with the wrong power of thickness, length or stiffness.",
     [E, M, T],
     [("system matrix and particular solution", E + ": calc_system_matrix, zh, zp"),
      ("assembly and energy release", M + ": assemble_and_solve, ginc, gdif, substitute_stiffness")],
     "fields and energy release rates of scaled models")

prop("C21", "Potential energies of a PST equal stored energy and work of the loads",
     "For PSTs, the internal potential is the strain energy of the slab (extension and bending with their coupling, shear), of the weak layer along its supported length "
     "and of the rotational support of a resting slab end; the external potential is minus the work of weight and surface load on the displacements of the points where they act, "
     "including a resting part of the slab that is lowered by the collapse height and shifted with the end of the span; the total potential is their sum.",
     ["inputs", "configurations"],
     "every layering, weak layer, slope, load, gravity, cut direction, crack and column length and contact regime",
     "No test evaluates a potential; missing coupling, wrong integration lengths or misplaced loads show only for layered, inclined, cracked or resting slabs.",
     [M],
     [("potentials", M + ": external_potential, internal_potential, total_potential")],
     "returned potentials against exact quadrature of the reference energy densities")

X = "examples/criterion_check.py"
prop("C22", "The coupled-criterion example returns states that meet its criteria",
     "In examples/criterion_check.py: splitting and locating segments keeps lengths, supports and positions and puts the skier at the center; every stress and toughness "
     "criterion is one exactly on the failure envelope it is plotted with, smaller inside and larger outside; the critical skier weight brings the stress criterion of the uncracked "
     "slab to one within the tolerance; the anticrack of a weight is where the uncracked stresses exceed the envelope, as resolved by the grid; converged coupled solutions fulfil the "
     "energy criterion for exactly that anticrack; the self-propagation length brings the differential criterion to one; and searches that fall back on the dampened variant keep all inputs.",
     ["inputs", "configurations"],
     "every segment list and support pattern, stress state, envelope, layering, slope, weak layer and load",
     "The example has no tests; lost parameters, misplaced skiers or wrong envelope branches only show for particular inputs.",
     [X],
     [("segments", X + ": split_segments_at_midpoint, find_segment_index, create_skier_object"),
      ("envelopes", X + ": stress_envelope, failure_envelope_*, fracture_toughness_*"),
      ("searches", X + ": find_minimum_force, find_new_anticrack_length, check_coupled_criterion_anticrack_nucleation, find_min_crack_length_self_propagation")],
     "returned loads, lengths and segments against an independent solution of the slab")

prop("C23", "Concurrent computations do not disturb each other",
     "Complete computations on different models run in concurrent threads, and evaluations of one solved model from several threads (solution, fields, stresses, loads, potentials, output "
     "accessors, energy release rates, and solving without touchdown), each give exactly the result they give alone, wherever one thread is preempted. Plots are excluded.",
     ["schedules", "configurations"],
     "every pair of computations or evaluations and every point of preemption between lines of the package",
     "Tests run in one thread; a shared scratch buffer, a class-level cache or an attribute changed temporarily during an evaluation only shows for particular interleavings.",
     [E, M, T, L, I],
     [("shared state", "module globals, class attributes and instance attributes of Eigensystem, FieldQuantitiesMixin, SlabContactMixin, SolutionMixin, AnalysisMixin, OutputMixin")],
     "results returned to each thread", "contents of model attributes during an evaluation")

prop("C24", "Interrupted, unwritable or concurrent plots leave other plots as they are",
     "A plot interrupted at any point (KeyboardInterrupt) does not change what later plots of the same process show. A target that cannot be written raises an error and also leaves "
     "later plots as they are. Two processes that plot in the same folder, started in any order and preempted anywhere, both succeed, whether or not the plot folder exists beforehand, and every file "
     "holds a complete picture: the one its plot saves when it runs alone.",
     ["crash_points", "schedules", "fault_sequences", "configurations"],
     "every line of the plot module as point of interruption or preemption, every pair of plots and every prior state of the folder",
     "Tests never plot. Figures kept at module level, styles restored too late or files moved into place collide only for particular interruptions or interleavings.",
     ["weac/plot.py"],
     [("saving and styling", "weac/plot.py: set_plotstyles, save_plot, plot_data, deformed, slab_profile, err_comp, err_modes")],
     "artists and files of later plots, files in the plot folder")

prop("C25", "Copied and pickled models are equal and independent",
     "A model can be copied with copy.deepcopy or pickled (any protocol) and restored, in the same or in a newly started process, at any point of its use: after configuring it, setting up segments, "
     "solving, analysing, plotting or failing calls. The copy gives the results the original gives, also for segments prepared and solutions computed before copying. "
     "Later changes of the copy or of the original leave the other as it is, and results do not depend on models that existed before and were deleted.",
     ["histories", "configurations"],
     "every history of operations before and after copying, every kind of copy, every pair of deleted and new model",
     "No test copies a model. Stored closures, caches keyed by identity, dropped or shared state only show after particular operations before or after copying.",
     [E, M, "weac/layered.py", "weac/inverse.py"],
     [("instance state", E + ": __init__, set_beam_properties, set_foundation_properties"), ("temporary state of computations", M + ": calc_segments, set_touchdown_attributes, substitute_stiffness")],
     "results of copies and originals against fresh models")

prop("C26", "The package and the state of its process do not affect each other",
     "Importing the package, computing with it (set-up, solution, analysis, output, tools, also calls that fail or are interrupted) leaves everything global to the process as it was: NumPy error handling and "
     "print options, warning filters, states of the random generators, working directory, environment, files, open files, import path, recursion limit, trace functions, signal handlers, threads, locale, decimal context, "
     "logging, matplotlib settings and figures; and writes nothing to standard output or error, except the documented messages. Plots write only their file and leave everything but matplotlib's settings alone. "
     "Results do not depend on any of these settings.",
     ["histories", "inputs"],
     "every operation, failing or not, in every initial process state of the alphabet",
     "Tests look at returned numbers. A global switched for one calculation and not switched back, or only not on failure, shows in other code of the caller.",
     [E, M, T, L, I, "weac/plot.py", "weac/__init__.py"],
     [("whole package", "weac/")],
     "process-global state before and after each operation")

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
