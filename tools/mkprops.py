#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os

P = []


def add(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(
        id=id,
        title=title,
        statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe,
            hook_needed=None,
        ),
    )
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


A = "foxes/algorithms/downwind/downwind.py"

add(
    "C01",
    "Farm results do not depend on the engine, the chunk size or the process count",
    "For every wind farm, inflow and model selection, a farm calculation returns the same farm results (up to floating point round-off) for every engine, every states chunk size and every process count. "
    "No state is lost, duplicated, reordered or mixed with another state, whether or not the number of states is a multiple of the chunk size.",
    ["configurations", "inputs", "schedules"],
    "all farms, inflow state tables, model selections; all engines (numpy, single, threads, process, multiprocess, dask, default), all chunk sizes and worker counts",
    "The tests run a handful of farms, each with one engine and one chunk size, so a chunk boundary falling inside a particular group of states, or a model that accumulates state across chunks, is never compared with the unchunked run.",
    ["foxes/core/engine.py", "foxes/engines/pool.py", "foxes/engines/numpy.py", "foxes/engines/single.py", "foxes/engines/futures.py", "foxes/engines/multiprocess.py", "foxes/engines/dask.py", "foxes/engines/default.py", A, "foxes/core/data.py"],
    [("splitting of states and points into chunks and per-chunk model data", "foxes/core/engine.py"), ("combining chunk results", "foxes/core/engine.py"), ("chunk submission and collection", "foxes/engines/pool.py")],
    ["Algorithm.calc_farm()"],
)
add(
    "C02",
    "Point results do not depend on engine, state chunks, point chunks or point order",
    "For every farm, inflow, model selection and set of evaluation points, a point calculation returns the same values at each point (up to floating point round-off) for every engine and every combination of states and points chunk sizes. "
    "Permuting, duplicating or leaving out evaluation points permutes, duplicates or leaves out the corresponding result columns and changes nothing else.",
    ["configurations", "inputs"],
    "all farms, inflows, model selections, evaluation point sets, state/point chunk sizes and engines",
    "The tests never split points into chunks and compare; examples evaluate one grid with one chunking.",
    ["foxes/core/engine.py", A, "foxes/algorithms/downwind/models/point_wakes_calc.py", "foxes/algorithms/downwind/models/set_amb_point_results.py", "foxes/core/data.py"],
    [("two-dimensional chunking of states and target points", "foxes/core/engine.py"), ("wakes at points", "foxes/algorithms/downwind/models/point_wakes_calc.py")],
    ["Downwind.calc_points()"],
)
add(
    "C03",
    "Steady inflow states are calculated independently of each other",
    "With the downwind algorithm and an inflow where each state is a stand-alone flow situation, the results of a state depend only on that state: reordering, duplicating, inserting or removing other states leaves its farm results unchanged. "
    "Results come back in the order of, and labelled like, the input states.",
    ["inputs"],
    "all farms, model selections and state tables; all permutations, sub-selections, duplications of the rows",
    "Tests use a fixed state table; masks, sorting and per-state selection indices inside the models are only exercised in the one order given.",
    [A, "foxes/core/wake_model.py", "foxes/core/wake_frame.py", "foxes/models/wake_models", "foxes/models/turbine_types", "foxes/models/turbine_models"],
    [("all models are vectorised over states with state masks", "foxes/models"), ("downwind order per state", "foxes/core/wake_frame.py")],
    ["Algorithm.calc_farm()"],
)
add(
    "C04",
    "The order in which turbines are added to the farm does not matter",
    "Adding the same turbines (each with its own position, type, size, models and parameters) to the wind farm in a different order gives every turbine the same results, with only the turbine axis of the farm results permuted. "
    "The reported per-state downwind order and its inverse remain consistent permutations that sort turbines from upstream to downstream.",
    ["inputs"],
    "all farms, including mixed turbine types, heights and turbine models; all permutations of the turbine list; all inflow states",
    "Tests use rows of identical turbines in one order, so an index that refers to the wrong turbine order is invisible.",
    [A, "foxes/algorithms/downwind/models/reorder_farm_output.py", "foxes/algorithms/downwind/models/init_farm_data.py", "foxes/core/farm_controller.py", "foxes/core/wake_frame.py"],
    [("re-ordering into downwind order and back", "foxes/algorithms/downwind/models/init_farm_data.py, reorder_farm_output.py"), ("turbine selection per model", "foxes/core/farm_controller.py")],
    ["Algorithm.calc_farm()"],
)
add(
    "C05",
    "Results are invariant under translation and rotation of the whole site",
    "For a spatially homogeneous inflow, shifting all turbine positions and evaluation points by the same vector, or rotating them together with the wind direction by the same angle, leaves all scalar farm and point results unchanged and turns the wind direction results by that angle. "
    "This holds across the 0/360 degree wrap.",
    ["inputs"],
    "all layouts, evaluation points, inflow states, model selections, shift vectors and angles including those wrapping through north",
    "Tests use layouts near the origin and mostly one wind direction; a wrong wrap or a hidden use of absolute coordinates does not show there.",
    ["foxes/models/wake_frames", "foxes/core/wake_frame.py", "foxes/core/rotor_model.py", "foxes/utils/wind_dir.py", "foxes/models/partial_wakes"],
    [("wind direction aligned wake coordinates", "foxes/models/wake_frames/rotor_wd.py"), ("rotor point placement", "foxes/core/rotor_model.py")],
    ["Algorithm.calc_farm()", "Downwind.calc_points()"],
)
add(
    "C06",
    "Downwind wakes act downstream only",
    "With purely downwind wake models and the downwind algorithm, the results of a turbine, and of an evaluation point, depend only on turbines located upstream of it in that state: adding, removing, moving or modifying a turbine further downstream, or one far outside the wake sideways for a bounded wake, changes nothing for it. "
    "A turbine with no turbine upstream has waked results identical to its ambient results.",
    ["inputs"],
    "all layouts, mixed turbine types, inflow directions, wake models; all modifications of a downstream turbine",
    "Tests compare full rows with reference values for one wind direction and never vary a downstream machine.",
    [A, "foxes/algorithms/downwind/models/farm_wakes_calc.py", "foxes/algorithms/downwind/models/point_wakes_calc.py", "foxes/models/wake_models"],
    [("turbines processed in downwind order, wakes evaluated for positive downwind distance only", "foxes/algorithms/downwind/models/farm_wakes_calc.py")],
    ["Algorithm.calc_farm()", "Downwind.calc_points()"],
)
add(
    "C07",
    "Waked quantities stay within physical bounds of ambient and rated values",
    "With wake deficit and wake turbulence models, waked wind speed never exceeds the ambient one and stays non-negative for the limited superpositions, and waked turbulence intensity is never below the ambient one. "
    "Power lies between zero and the type's rated power, and ambient results equal those of the same farm calculated without any wake models.",
    ["inputs", "configurations"],
    "all farms, inflows (including calm and storm wind speeds), deficit and turbulence wake models, superpositions, rotor and partial wakes models",
    "Reference value tests cover about ten parameter combinations in moderate wind.",
    [A, "foxes/core/wake_superposition.py", "foxes/models/wake_superpositions", "foxes/models/wake_models", "foxes/models/turbine_types"],
    [("superposition of wake deltas on ambient results", "foxes/models/wake_superpositions"), ("ambient result storage", "foxes/algorithms/downwind/models/set_amb_farm_results.py")],
    ["Algorithm.calc_farm()"],
)
add(
    "C08",
    "Farm results follow the published wake formulas evaluated turbine by turbine",
    "For homogeneous inflow, calc_farm and calc_points agree with a direct scalar evaluation of the documented formulas: Jensen, Bastankhah 2014 and 2016 and TurbOPark wind deficits, Crespo-Hernandez and IEC (2005, 2019) added turbulence, with wake growth from a constant, from local or ambient turbulence intensity, Betz or Madsen induction, and thrust and power of each turbine looked up at its waked wind speed. "
    "This includes all combinations of several wake models, superpositions, mixed turbine types and hub heights.",
    ["inputs", "configurations"],
    "all layouts with distinct downwind positions, mixed types and hub heights, inflow speed/direction/TI/density, wake models, wake growth settings, superpositions, centre rotor",
    "Tests pin single rows against stored reference values for a few models; parameters, mixed types, lateral offsets, vertical offsets and boundary cases (near wake, ct limits) are not covered.",
    ["foxes/models/wake_models/wind", "foxes/models/wake_models/ti", "foxes/core/wake_model.py", "foxes/models/axial_induction", "foxes/algorithms/downwind/models/farm_wakes_calc.py"],
    [("wake amplitude and width formulas", "foxes/models/wake_models"), ("wake growth parameter resolution", "foxes/core/wake_model.py"), ("turbine-by-turbine downstream sweep", "foxes/algorithms/downwind/models/farm_wakes_calc.py")],
    ["Algorithm.calc_farm()", "Downwind.calc_points()"],
)
add(
    "C09",
    "Several wakes combine exactly by the chosen superposition rule, in any order",
    "The combined effect of several wakes at a point equals the chosen rule applied to the individual single-turbine effects there: sum, root of sum of powers, maximum or product, normalised by the rotor-based, ambient or local wind speed as selected, and clipped at the chosen limits. "
    "Points without any wake keep exactly their ambient values for every rule.",
    ["inputs", "configurations"],
    "all wind and turbulence superposition models, any number and order of wakes, any strength of the single wakes including zero and very strong ones",
    "Tests use linear and quadratic superposition for in-line rows only.",
    ["foxes/models/wake_superpositions", "foxes/core/wake_superposition.py", "foxes/core/wake_model.py"],
    [("accumulation of wake deltas", "foxes/models/wake_superpositions"), ("final application on ambient results", "foxes/core/wake_superposition.py")],
    ["Algorithm.calc_farm()", "Downwind.calc_points()"],
)
add(
    "C10",
    "Turbine induction models give the published upstream and downstream flow change",
    "The blockage models (Rankine half body, vortex sheet, Rathmann, self-similar and self-similar 2020) evaluated at any point around a turbine return the wind speed change of their published formula on each side of the rotor plane, with the documented special cases inside the rotor disc, inside the half body and for zero thrust. "
    "The effect decays with distance and is symmetric about the wake axis.",
    ["inputs"],
    "all points up- and downstream of a rotor, all thrust coefficients, rotor sizes and wind directions, all options of the models",
    "No test runs an induction model except through one example without asserting numbers.",
    ["foxes/models/wake_models/induction", "foxes/models/axial_induction"],
    [("induction formulas and region selection", "foxes/models/wake_models/induction")],
    ["Iterative.calc_points()", "Downwind.calc_points()"],
)
add(
    "C11",
    "Partial wakes reproduce the rotor average of the wake they approximate",
    "The rotor effective effect of a partial wake is the average of the wake over the rotor disc: rotor-points and grid variants equal the weighted mean over their points, the top-hat variant equals the exact overlap area fraction of two discs, the centre variant equals the rotor centre value, and the axisymmetric variant converges to the same disc average. "
    "A rotor fully inside a uniform wake sees the full effect and a rotor fully outside sees none.",
    ["inputs", "configurations"],
    "all relative positions of rotor and wake (none, partial, full, concentric, nested discs), diameters, wake models, point counts",
    "The consistency test compares a few variants at one fixed geometry with loose tolerance.",
    ["foxes/models/partial_wakes", "foxes/core/partial_wakes_model.py", "foxes/utils/two_circles.py"],
    [("evaluation points, weights and final reduction", "foxes/models/partial_wakes"), ("overlap of two circles", "foxes/utils/two_circles.py")],
    ["Algorithm.calc_farm()"],
)
add(
    "C12",
    "Ground models reflect wakes exactly like image turbines",
    "With ground or boundary layer reflection the wake effect at a point or rotor equals that of the turbine plus its mirror images about every reflecting height, for points and for rotors alike and for every partial wakes choice. "
    "A reflecting plane far outside the wake, or no ground model, gives results identical to each other.",
    ["inputs", "configurations"],
    "all mirror heights, hub heights, layouts, wake models and partial wakes models",
    "One example uses the ground mirror; no test checks values or mixes it with partial wakes.",
    ["foxes/models/ground_models", "foxes/core/ground_model.py"],
    [("image wake contributions", "foxes/models/ground_models/wake_mirror.py")],
    ["Algorithm.calc_farm()", "Downwind.calc_points()"],
)
add(
    "C13",
    "Wake frames agree with straight wakes in uniform steady flow without yaw",
    "In homogeneous, steady inflow with zero yaw misalignment, every wake frame (rotor direction, farm order, yawed wakes, streamlines, and the time-resolved frames once the flow is established) gives the same farm and point results as straight wakes along the wind. "
    "With yaw, wakes are deflected laterally by an amount that changes sign with the yaw sign and vanishes as yaw goes to zero. "
    "The centreline points of a wake frame have the wake coordinates (x, 0, 0), also in flow with turning wind direction.",
    ["inputs", "configurations"],
    "all layouts, inflow directions, wake models, wake frame parameters, yaw angles",
    "Examples run the frames without assertions; the unit tests only use straight wakes.",
    ["foxes/models/wake_frames", "foxes/core/wake_frame.py"],
    [("wake coordinates and downwind order per frame", "foxes/models/wake_frames")],
    ["Algorithm.calc_farm()", "Downwind.calc_points()"],
)
add(
    "C14",
    "Iterative and sequential algorithms agree with the one-shot downwind algorithm",
    "For purely downwind wake models, the iterative algorithm converges to the farm results of the downwind algorithm, for every convergence setting, under-relaxation and chunk size. "
    "Stepping through all states with the sequential algorithm yields, state by state and in the accumulated results, the values of the one-shot calculation, also for evaluation points and also when only the ambient flow is requested.",
    ["inputs", "configurations", "schedules"],
    "all farms, state tables, downwind wake models, relaxation factors, convergence limits, chunk sizes",
    "One test compares iterative with downwind for a single farm and model; sequential stepping is untested.",
    ["foxes/algorithms/iterative", "foxes/algorithms/sequential"],
    [("iteration loop, convergence test, previous results hand-over", "foxes/algorithms/iterative/iterative.py"), ("state stepping", "foxes/algorithms/sequential/sequential.py")],
    ["Iterative.calc_farm()", "iteration over Sequential"],
)
add(
    "C15",
    "Calculations are repeatable and leave user inputs and shared models untouched",
    "Repeating a farm or point calculation, on the same algorithm object or on a new one that shares the model book, farm, states or model objects, gives identical results regardless of what was calculated in between and, on the same algorithm object, of whether it was finalized in between (an algorithm that shares objects is finalized before another one uses them). "
    "User data passed in (data frames, dicts, arrays, turbine objects) is not modified.",
    ["histories"],
    "all sequences of constructing, initializing, calculating (farm or points, different rotor, wake and turbine models), finalizing with shared objects",
    "Each test builds everything freshly and calculates once.",
    ["foxes/core/model.py", "foxes/core/algorithm.py", "foxes/core/data_calc_model.py", "foxes/models/model_book.py", "foxes/core/rotor_model.py", "foxes/input/states/states_table.py"],
    [("initialize/finalize life cycle and model data storage in the algorithm", "foxes/core/model.py, foxes/core/algorithm.py"), ("shared model instances in the model book", "foxes/models/model_book.py")],
    ["Algorithm.calc_farm()", "Downwind.calc_points()", "user objects after the call"],
)
add(
    "C16",
    "Point results agree with what a passive turbine at that point would see",
    "The wind speed, turbulence intensity and wind direction from a point calculation equal those of a passive, zero-thrust turbine placed at that point, whose presence leaves all other turbines unchanged. "
    "Ambient point results equal the inflow there, and waked equal ambient where no wake reaches.",
    ["inputs"],
    "all layouts, points, inflow types, wake models, superpositions, centre rotor",
    "Tests never relate point results to farm results.",
    ["foxes/algorithms/downwind/models/point_wakes_calc.py", "foxes/algorithms/downwind/models/farm_wakes_calc.py", "foxes/algorithms/downwind/models/set_amb_point_results.py", A],
    [("shared wake contribution code for farm and points", "foxes/algorithms/downwind/models")],
    ["Algorithm.calc_farm()", "Downwind.calc_points()"],
)
add(
    "C17",
    "Tabulated inflow states reproduce the user's data at every turbine and point",
    "States from tables, time series, single values, parameter scans, wind rose tab files and sector statistics deliver, for every state and location, exactly the input column (or fixed) value of that state under the variable mapping the user chose, extended vertically by the chosen profile. "
    "State weights are the user's weights, sum to one where they represent frequencies, and state sub-selections pick exactly the selected rows.",
    ["inputs"],
    "all data frames, column mappings, fixed variables, profiles, scans, tab files, sector counts, sub-selections",
    "Tests use one abl table and one tab file path through examples.",
    ["foxes/input/states/states_table.py", "foxes/input/states/single.py", "foxes/input/states/scan.py", "foxes/utils/tab_files.py", "foxes/models/vertical_profiles"],
    [("column mapping, fixed variables and profiles", "foxes/input/states/states_table.py"), ("product of scan values", "foxes/input/states/scan.py")],
    ["Algorithm.calc_farm()", "Downwind.calc_points()", "States.size/index/weights"],
)
add(
    "C18",
    "Spatially varying inflow is interpolated from the user's grid data",
    "Inflow from multi-height tables, gridded NetCDF fields and wind resource grids equals linear interpolation of the input data at the requested position (exact at data nodes, wind direction interpolated across north), independently of loading mode (preload, lazy, on the fly), states chunking and input axis or variable naming. "
    "Positions outside the data raise an error or follow the documented fill behaviour and are never silently wrong.",
    ["inputs", "configurations"],
    "all gridded data sets, heights, times, loading modes, sub-selections, turbine and evaluation positions inside and outside",
    "Examples run one file per class without assertions.",
    ["foxes/input/states/field_data_nc.py", "foxes/input/states/multi_height.py", "foxes/input/states/wrg_states.py", "foxes/utils/wrg_utils.py", "foxes/utils/windrose.py"],
    [("interpolation of wind vectors and scalars", "foxes/input/states"), ("chunked data loading", "foxes/input/states/field_data_nc.py")],
    ["Algorithm.calc_farm()", "Downwind.calc_points()"],
)
add(
    "C19",
    "One-point measured time series are transported through the site with the wind",
    "For inflow given by one or several point measurements, the flow at the reference position equals the measured value of that state, a constant signal gives a homogeneous flow everywhere, and elsewhere each value is a mixture of measured values only. "
    "The result is unchanged when site and reference point are shifted or rotated together with the wind.",
    ["inputs"],
    "all time series of speed and direction, reference positions and evaluation points, time steps",
    "Examples plot it; nothing asserts.",
    ["foxes/input/states/one_point_flow.py"],
    [("projection on the advected trace of the reference point", "foxes/input/states/one_point_flow.py")],
    ["Algorithm.calc_farm()", "Downwind.calc_points()"],
)
add(
    "C20",
    "Vertical profiles follow their formulas and match the reference value",
    "Each vertical profile returns the documented formula at every height, equals the reference value at its reference height, is positive and increasing with height for the neutral and power law cases, and the stability-dependent one tends to the neutral log law as the Obukhov length becomes large of either sign. "
    "Used inside inflow states the profile gives the same value as evaluated stand-alone.",
    ["inputs"],
    "all heights above roughness, roughness lengths, Obukhov lengths of both signs, shear exponents, reference heights",
    "One test covers one stored set of abl states.",
    ["foxes/models/vertical_profiles", "foxes/utils/abl"],
    [("profile formulas", "foxes/utils/abl")],
    ["VerticalProfile.calculate()", "Algorithm.calc_farm()"],
)
add(
    "C21",
    "Turbine types return the user's power and thrust curves",
    "For every turbine type built from tables (power and ct, cp and ct, separate files, wind-speed/turbulence and wind-speed/density matrices, lookup tables) power and thrust coefficient equal linear interpolation of the table at the rotor effective wind speed, with the documented density correction, units, cut-in/cut-out values outside the table and yaw correction. "
    "Diameter, hub height, rated power and capacity are those of the type unless overridden by the turbine.",
    ["inputs", "configurations"],
    "all power/ct tables, units, densities, yaw angles, wind speeds inside, on the edge and outside the table",
    "The tests compare two files with one stored inflow.",
    ["foxes/models/turbine_types", "foxes/core/turbine_type.py", "foxes/core/turbine.py"],
    [("curve interpolation and corrections", "foxes/models/turbine_types")],
    ["Algorithm.calc_farm()"],
)
add(
    "C22",
    "Turbine models act on exactly the turbines and states they are assigned to",
    "Each turbine model (set variables, yaw conversion, wake growth from turbulence, power mask, sector management, thrust to ct, table factors, lookup table, user calculators) changes precisely the documented variables, by the documented rule, for exactly the turbines that carry it and the states selected for it, whatever the mixture of models, types, downwind order and pre-rotor flags in the farm. "
    "All other turbines and states are as without it.",
    ["inputs", "configurations"],
    "all assignments of turbine models, parameters and state selections to turbines in mixed farms; all inflow directions",
    "Tests assign the same model to all turbines of a row in downwind order.",
    ["foxes/models/turbine_models", "foxes/core/farm_controller.py", "foxes/core/turbine.py", "foxes/models/farm_controllers"],
    [("turbine and state selection per model", "foxes/core/farm_controller.py"), ("model rules", "foxes/models/turbine_models")],
    ["Algorithm.calc_farm()"],
)
add(
    "C23",
    "Rotor models average the ambient flow over the rotor disc",
    "Rotor evaluation points are the centres of the elements that make up the rotor disc normal to the wind, with weights (their share of the disc area) summing to one, and rotor effective speeds, direction, turbulence and density are the documented weighted means of the flow at those points. "
    "In homogeneous flow every rotor model returns the homogeneous values, and in linear shear grid models recover the hub height value.",
    ["inputs", "configurations"],
    "all rotor models and point counts, rotor sizes, heights, wind directions and sheared or homogeneous inflow",
    "One test covers three grid sizes for one inflow.",
    ["foxes/models/rotor_models", "foxes/core/rotor_model.py"],
    [("rotor points and weights", "foxes/models/rotor_models"), ("rotor effective variables", "foxes/core/rotor_model.py")],
    ["Algorithm.calc_farm()"],
)
add(
    "C24",
    "Wind vector, angle, circle overlap and cubic root helpers are correct",
    "Converting between wind direction and vectors round-trips, direction differences are the signed smallest angle for all inputs, vectors have the length of the wind speed, the overlap area of two circles equals the geometric value in all configurations, and the cubic root finder returns all and only the real roots. "
    "All of them work elementwise for scalars and arrays of any shape.",
    ["inputs"],
    "all real inputs incl. wrapped angles, degenerate and nested circles, all cubic discriminant signs",
    "No unit test exercises these helpers directly.",
    ["foxes/utils/wind_dir.py", "foxes/utils/two_circles.py", "foxes/utils/cubic_roots.py", "foxes/utils/geopandas_utils.py"],
    [("helper functions", "foxes/utils")],
    ["foxes.utils functions"],
)
add(
    "C25",
    "Two-dimensional area geometry obeys set algebra and exact distances",
    "Membership in unions, intersections, differences and inversions of circles, half planes and polygons equals the Boolean combination of the memberships of the parts. "
    "The reported distance to the boundary, nearest boundary point and bounding box of the primitive shapes agree with direct computation. For combined areas, the distance outside is that to the nearest part, and the bounding box contains the area.",
    ["inputs"],
    "all nested combinations of areas, all query points including centres, vertices and boundary neighbourhoods",
    "No test uses the geometry package.",
    ["foxes/utils/geom2d"],
    [("set operations", "foxes/utils/geom2d/area_geometry.py, area_union.py, area_intersection.py"), ("primitive shapes", "foxes/utils/geom2d/circle.py, polygon.py, half_plane.py")],
    ["foxes.utils.geom2d objects"],
)
add(
    "C26",
    "Model names resolve to the model they describe, and to nothing else",
    "Requesting a model by a name with embedded parameters (rotor grids, wake growth constants, superpositions, step sizes, mirror heights) yields a model with exactly those parameters, behaving identically to one constructed explicitly, and the same name always yields the same model. "
    "Names that match no registered model or template are rejected with an error.",
    ["inputs"],
    "all model families and all parameter values in names, all malformed names",
    "Tests use about a dozen names.",
    ["foxes/models/model_book.py", "foxes/utils/factory.py", "foxes/utils/dict.py"],
    [("name template parsing", "foxes/utils/factory.py"), ("registered templates", "foxes/models/model_book.py")],
    ["ModelBook.get()", "Algorithm.calc_farm()"],
)
add(
    "C27",
    "Farm layout input places exactly the requested turbines and files round-trip",
    "Every way of building a farm (data frame, csv, json, row, grid, ring, random positions) adds exactly the described turbines, in order, with the described positions, heights, diameters, names, models, and respects stated minimum distances. "
    "Writing the layout of a farm to file and reading it back gives the same positions, names, heights and diameters.",
    ["inputs"],
    "all layouts, column mappings, turbine attributes, row/grid/ring parameters and random seeds",
    "Tests use row and one csv reader only.",
    ["foxes/input/farm_layout", "foxes/core/wind_farm.py", "foxes/output/farm_layout.py", "foxes/utils/random_xy.py"],
    [("layout functions", "foxes/input/farm_layout"), ("layout writers", "foxes/output/farm_layout.py")],
    ["WindFarm.turbines", "Algorithm.calc_farm()"],
)
add(
    "C28",
    "Farm result statistics equal the directly computed weighted sums and means",
    "Reductions of farm results over states and turbines, mean and total farm power, yields, capacity factors and efficiencies equal their definition computed directly from the farm results and the state weights, in the requested units and period. "
    "Reducing states then turbines, or turbines then states, gives the same totals, and ambient and waked variants use ambient and waked variables.",
    ["inputs"],
    "all farm results, weights, operators (sum, mean, min, max, weighted), units, periods, ambient flags",
    "Examples print them; tests do not assert them.",
    ["foxes/output/farm_results_eval.py"],
    [("weighted contractions and yield conversion", "foxes/output/farm_results_eval.py")],
    ["FarmResultsEval methods"],
)
add(
    "C29",
    "Spatial outputs report the flow values at the coordinates they claim",
    "Horizontal and vertical slices, grids and turbine maps contain, at each reported coordinate, the value that a direct point calculation gives for that location and state, with the requested weighting of states, labels, normalisation and file content. "
    "Axis order, direction and grid extent are those requested.",
    ["inputs", "configurations"],
    "all slice orientations, resolutions, extents, states selections, normalisations and output formats",
    "Examples plot; nothing compares numbers.",
    ["foxes/output/slice_data.py", "foxes/output/grids.py", "foxes/output/slices_data.py", "foxes/output/calc_points.py", "foxes/output/state_turbine_map.py"],
    [("grid construction and reshaping", "foxes/output/grids.py"), ("slice evaluation", "foxes/output/slice_data.py")],
    ["SliceData methods", "written files"],
)
add(
    "C30",
    "A dictionary or YAML case gives the same results as the equivalent script",
    "Running a case description given as dictionary or YAML file yields the same farm results, outputs and stored variables as constructing the same objects in Python. "
    "The description is not changed by running it, and unknown keys or models raise errors instead of being ignored.",
    ["inputs", "configurations"],
    "all case descriptions over the supported inputs, models, layouts, outputs",
    "One example folder is run as a smoke test.",
    ["foxes/input/yaml/dict.py", "foxes/input/yaml/yaml.py", "foxes/utils/dict.py"],
    [("dictionary to object translation", "foxes/input/yaml/dict.py")],
    ["foxes.input.yaml.run_dict()", "foxes_yaml command"],
)
add(
    "C31",
    "Tabular and statistical outputs neither lose nor distort results",
    "Result tables written to csv or NetCDF, state-turbine tables and wind roses contain exactly the requested variables of the results, under the requested names, and reading them back gives the same numbers to the written precision. "
    "Wind rose frequencies account for all state weight exactly once, in the right sector and class, and writing does not alter the results.",
    ["inputs", "histories"],
    "all farm results, variable selections, renamings, precision settings, sector counts, class limits; repeated writes",
    "Examples write files without reading them back.",
    ["foxes/output/results_writer.py", "foxes/output/rose_plot.py", "foxes/output/state_turbine_table.py", "foxes/utils/xarray_utils.py", "foxes/utils/pandas_helpers.py"],
    [("writers", "foxes/output/results_writer.py"), ("binning by sector and class", "foxes/output/rose_plot.py")],
    ["ResultsWriter methods", "RosePlotOutput.get_data()", "StateTurbineTable.get_dataset()"],
)

add(
    "C32",
    "Point data models set exactly the documented quantities",
    "Point data models (SetUniformData, TKE2TI, Ustar2TI, WakeDeltas and user written ones), attached to states (ExtendedStates, the + operator, model lists) or given to calc_points, set exactly the documented quantities at every state, rotor and point: ambient values from ambient data, waked values from waked data, applied in the given order. "
    "All other variables and the base states stay unchanged, and results do not depend on chunking.",
    ["inputs", "configurations"],
    "all point data models and compositions, base states, points, chunk sizes",
    "No unit test uses a point data model.",
    ["foxes/models/point_models/set_uniform_data.py", "foxes/models/point_models/tke2ti.py", "foxes/models/point_models/ustar2ti.py", "foxes/models/point_models/wake_deltas.py", "foxes/core/states.py", "foxes/core/point_data_model.py", "foxes/algorithms/downwind/models/point_wakes_calc.py"],
    [("model formulas", "foxes/models/point_models/"), ("model lists and extended states", "foxes/core/point_data_model.py")],
    ["ExtendedStates", "Algorithm.calc_points(point_models=...)"],
)

add(
    "C33",
    "Time-resolved wakes travel with the wind",
    "With the time-resolved wake frames (timelines, dynamic wakes, sequential dynamic wakes), in space-independent inflow, the wake of a turbine arrives at a downstream target after the travel time (resolved to the nearest time step): it has the strength given by thrust and wind speed at the turbine at the time of emission, and where no wake has arrived yet there is none. "
    "Results do not depend on how the states are chunked, and dynamic wakes computed in chunks equal those computed step by step, also for turning winds.",
    ["inputs", "schedules"],
    "all series of wind speeds, directions, thrust coefficients, time steps, layouts, points, chunk sizes",
    "Examples run the frames without assertions; unit tests only use straight wakes in independent states.",
    ["foxes/models/wake_frames/timelines.py", "foxes/models/wake_frames/dynamic_wakes.py", "foxes/models/wake_frames/seq_dynamic_wakes.py", "foxes/core/wake_frame.py", "foxes/core/algorithm.py", "foxes/algorithms/iterative", "foxes/algorithms/sequential"],
    [("wake transport and source state selection", "foxes/models/wake_frames"), ("chunk store and convergence block", "foxes/core/algorithm.py")],
    ["Iterative.calc_farm()", "Downwind.calc_points()", "iteration over Sequential"],
)

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
