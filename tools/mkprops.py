"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
G="reservoirflow/grids/regular_cartesian.py"; GB="reservoirflow/grids/grid.py"
M="reservoirflow/models/black_oil.py"; MB="reservoirflow/models/model.py"
F="reservoirflow/solutions/numerical/fdm.py"; S="reservoirflow/solutions/numerical/solvers.py"
SOL="reservoirflow/solutions/solution.py"; C="reservoirflow/solutions/compiler.py"
D="reservoirflow/solutions/analytical/d1p1.py"; B="reservoirflow/base.py"
FL="reservoirflow/fluids/single_phase.py"; FB="reservoirflow/fluids/fluid.py"
H="reservoirflow/utils/helpers.py"; MM="reservoirflow/scalers/minmax.py"; DU="reservoirflow/scalers/dummy.py"
W="reservoirflow/wells/single_cell.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=None)))

p("C01","Face transmissibility is one symmetric series-flow law",
  "The geometric factor between two adjacent cells is always the series-flow (harmonic) combination 2*c/(d1/(A1*k1)+d2/(A2*k2)) of the two cells' width, area and permeability along the shared direction, with c the transmissibility conversion of the grid's unit system, so it is the same seen from either cell and whether cells are addressed by id or by coordinates. Where the rock is uniform the simpler averaged form may be used, because it has the same value there. Transmissibility is that factor divided by viscosity times formation volume factor.",
  ["inputs","configurations"],"every grid (any dimensions, widths, permeabilities), every pair of adjacent cells, every fluid",
  "tests compare a handful of numbers on small, mostly 1D grids; the law must hold for every pair of widths, areas and permeabilities, including heterogeneous and anisotropic ones",
  [G,M],[("per-cell factor",G+":get_cell_G"),("per-cell transmissibility",M+":get_cell_trans"),("uniformity tests",G+":is_isotropic,is_regular")],["get_cell_G","get_cell_trans"])
p("C02","Matrix transmissibilities couple exactly the adjacent cells",
  "In every dimensionality, with or without boundary cells, dense or sparse, the transmissibility matrix is symmetric and its entry for two cells is their face transmissibility when they are adjacent and zero otherwise; in particular the last cell of a row or layer is never coupled to the first cell of the next. The vectorised assembly, the cell-by-cell assembly and the individual diagonals all give the same numbers.",
  ["inputs","configurations"],"every grid shape (1D, 2D, 3D), boundary flag, storage format and assembly mode",
  "tests only look at 1D and one 2D matrix; 3D wrap-around couplings and heterogeneous 2D/3D diagonals are never exercised",
  [G,M],[("diagonals and wrap-around zeroing",G+":get_cells_G_diag_1,get_cells_G_diag_2,get_cells_G_diag_3"),("matrix assembly",G+":get_cells_G"),("model matrices",M+":get_cells_trans,get_cells_trans_diag")],["get_cells_G","get_cells_trans","get_cells_trans_diag"])
p("C03","Cell geometry follows from the widths given",
  "For every grid, each cell's widths are the entries of the given width vectors at that cell's position along each axis, its face area normal to an axis is the product of its two other widths, its volume is the product of its three widths, and the total volume is the sum over the cells asked for. Cell centres lie at the sum of the preceding widths plus half the cell's own, and cell corners at the running sums of the widths, all in the natural (x fastest, then y, then z) ordering, with boundary cells included or left out as requested.",
  ["inputs","configurations"],"every width vector, every dimensionality, boundary flag and output shape",
  "tests sample a few small grids; the broadcast/transpose index arithmetic must be right for every nx, ny, nz and every irregular width vector",
  [G],[("widths",G+":__calc_cells_d,__calc_cells_d_,get_cells_d"),("areas and volumes",G+":__calc_cells_A,__calc_cells_V,get_cells_A,get_cells_V,get_Vt"),("centres and corners",G+":get_cells_center,get_corners")],["get_cells_d","get_cells_A","get_cells_V","get_Vt","get_cells_center","get_corners"])
p("C04","Flow dimension, directions and shapes agree for every grid",
  "The flow dimension is the number of axes with more than one cell, the flow direction string names exactly those axes in x, y, z order, and boundary cells add two cells along flow axes and none along the others. The cell count is the product of the shape, the flow shape is the same shape in z, y, x order (with non-flow axes dropped when shapes are not unified and an extra axis of three for points), and cell ids are the natural numbering 0..n-1 in that shape.",
  ["configurations"],"all eight combinations of flow axes, any cell counts, boundary and unify flags",
  "tests cover selected small sizes per dimensionality; agreement must hold for all sizes and for both unify modes",
  [G],[("dimension/direction",G+":get_D,get_fdir"),("shape",G+":get_shape,get_n,get_n_max,get_fshape"),("numbering",G+":get_order,get_cells_id,get_cells_i")],["get_D","get_fdir","get_shape","get_n","get_fshape","get_order","get_cells_i"])
p("C05","Neighbour relation is mutual and matches the numbering",
  "Two cells are neighbours exactly when their positions differ by one along one flow axis, so the relation is mutual, and the neighbours reported for a direction are those along that axis. Asking by id and asking by coordinates name the same cells; boundary cells appear only when requested, a cell's boundary cells are exactly its neighbours that are boundary cells, and asking for the outer neighbours of a boundary cell is refused.",
  ["inputs","configurations"],"every cell of every grid shape, both query routes, both boundary flags",
  "tests list neighbours of a few cells in tiny grids; the stride used per direction must match the numbering for every size",
  [G,H],[("neighbours",G+":get_cell_neighbors"),("boundary neighbours",G+":get_cell_boundaries")],["get_cell_neighbors","get_cell_boundaries"])
p("C06","Interior and boundary cells partition the grid",
  "For every grid the interior cells and the boundary cells are disjoint and together are all cells: stripping the boundary keeps exactly the cells that are not first or last along any flow axis, and extracting it returns each of the others exactly once. Stripping only the left or right side removes exactly that side, flat and shaped input give the same cells, and input of the wrong size or an unknown side is refused.",
  ["inputs","configurations"],"all eight dimensionalities, unify modes, flat and shaped data",
  "tests check the ids for a few fixed sizes; the partition must hold for all sizes and every dimensionality",
  [G],[("strip",G+":remove_boundaries"),("extract",G+":extract_boundaries"),("boundary list",G+":get_boundaries")],["remove_boundaries","extract_boundaries","get_boundaries"])
p("C07","Single-cell queries read and write the cell they name",
  "A width, area, volume, permeability or centre asked for one cell is the entry of the corresponding whole-grid array at that cell, whether the cell is named by id or by coordinates, and asking without naming a cell is refused. Setting a property on one cell changes that property at that cell only, by id or by coordinates, with or without unified shapes; setting it without a cell sets it everywhere, and unknown property or direction names are refused.",
  ["inputs","configurations"],"every cell, property, direction, naming route, and unify mode",
  "tests query a few cells by id; every property, route and shape mode must agree",
  [G],[("single-cell getters",G+":get_cell_d,get_cell_A,get_cell_V,get_cell_k,get_cell_center"),("coordinates to indices",G+":get_cell_icoords"),("setters",G+":set_props,set_prop,get_prop")],["get_cell_d","get_cell_A","get_cell_V","get_cell_k","get_cell_center","set_props","get_prop"])
p("C08","Scaling is exactly invertible",
  "For a min-max scaler with any input and output range, the inverse transform undoes the transform and the transform undoes the inverse, the input minimum and maximum map to the two ends of the output range in order, and fitting uses the minimum and maximum of the data along the requested axis. Transforming before a range is known is refused, a transform never alters its argument, and the pass-through scaler returns values unchanged in both directions.",
  ["inputs"],"all data, axes, input ranges and output ranges with distinct ends",
  "the only scaler test prints a transformed array; invertibility is a statement about all reals",
  [MM,DU],[("transform pair",MM+":transform,inverse_transform"),("range",MM+":fit,set_output_range"),("pass-through",DU)],["MinMax.transform","MinMax.inverse_transform","Dummy.transform"])
p("C09","Unit systems are complete and selected atomically",
  "Every unit system defines the same set of quantities, every quantity has an abbreviation and a symbol, and every conversion factor any calculation asks for exists in every unit system. Choosing a unit system makes the unit name, the unit labels and the factors come from that same system, an unknown system is refused and changes nothing, and the shared tables are never written to.",
  ["configurations","programs"],"all unit systems, all quantities, all call sites that look up a unit or factor",
  "tests use the default field units throughout; a missing key in another system is only hit when that path runs with that system",
  [B,FL,G,M],[("tables",B+":UNITS,FACTORS,NOMENCLATURE"),("selection",B+":Base.set_units")],["Base.set_units"])
p("C10","The cell balance equation conserves mass term by term",
  "For every cell the flow equation equates storage change to the sum of: for each interior neighbour, face transmissibility times (neighbour pressure minus cell pressure minus gravity times elevation difference); for each boundary face held at a pressure, twice the face transmissibility times the same expression with the boundary value, and for each boundary face held at a rate, that rate; and the well term when a well is present. The neighbour term seen from the other cell is its exact negative, faces without a condition contribute nothing, and a cell's equation rebuilt in a later step still has these terms with current well and storage values.",
  ["inputs","histories"],"every cell of every model, every boundary/well/fluid combination, every time step",
  "tests compare final pressures of fixed textbook cases (mostly without gravity); the identity must hold for all inputs and later steps",
  [F,M],[("equation",F+":get_cell_eq,get_cells_eq"),("terms",F+":__calc_n_term,__calc_b_term,__calc_w_term,__calc_a_term")],["get_cell_eq"],
  [("cells_terms","cached terms of each cell's equation",M+":BlackOil.__init__")])
p("C11","Vectorised assembly builds the same system as the cell equations",
  "For every model and time step the vectorised system has the same coefficients and right-hand side as the system made of the individual cell equations: off-diagonal entries are the face transmissibilities, each diagonal is minus the sum of its row, minus storage, minus twice the transmissibility of pressure-held faces, minus the well productivity when the well is pressure-controlled, and the right-hand side carries storage, gravity, boundary and well contributions with the matching signs. Dense and sparse storage hold the same numbers.",
  ["inputs","histories","configurations"],"every grid/fluid/well/boundary combination, every time step, both storages",
  "tests compare the two modes on fixed 1D/2D cases only; gravity, 3D, zero-valued conditions and control switches are not covered",
  [F,M],[("vectorised assembly",F+":get_matrices_vect,__init_A,__init_d,__update_z"),("symbolic assembly",F+":get_matrices_symb")],["get_matrices_vect","get_matrices_symb"])
p("C12","Well controls are consistent and wells sit inside the reservoir",
  "A well can only be placed in an interior cell; its rate and bottom-hole pressure always satisfy rate = -G/(mu*B)*(cell pressure - bottom-hole pressure) with G = 2*pi*c*k*h/(ln(r_eq/r)+skin), k the geometric mean horizontal permeability and r_eq the Peaceman equivalent radius of its cell. The rate target is honoured while the pressure it needs stays above the limit; otherwise the limit pressure controls, the step is solved again with that control, and the resulting rate and pressure are recorded for the step. Setting a rate (or pressure) records it both as current value and as target.",
  ["inputs","histories"],"every well, cell, rate/pressure/skin/radius value and step history",
  "tests use a few wells with fixed values; the relation and switching must hold for any values and any history",
  [M,F,W],[("set well",M+":set_well,__calc_well_G,__calc_well_r_eq"),("well term",F+":__calc_w_term"),("control switching",F+":__update_wells")],["set_well","solve"])
p("C13","Boundary conditions are validated and mean what was asked",
  "Only boundary cells can be given a condition and only the documented kinds (rate, pressure, gradient) and their documented synonyms, in any letter case, are accepted; anything else is refused. A rate condition sets the face rate to the value, a pressure condition sets the boundary cell's pressure, and a gradient condition sets the rate to transmissibility times the cell's width along the face direction times the value. Synonyms behave identically everywhere, the caller's dictionary is not changed, and setting all boundaries at once equals setting each of them.",
  ["inputs","configurations"],"every boundary cell, kind, synonym, value and setting route",
  "tests always pass the full lower-case names through one route",
  [M,F],[("setters",M+":set_boundary,set_boundaries,set_all_boundaries"),("use",F+":__calc_b_term,get_matrices_vect,__update_boundaries")],["set_boundary","set_boundaries","set_all_boundaries"])
p("C14","Time stepping keeps its histories aligned",
  "After every completed step the pressure, rate, matrix and right-hand-side histories have exactly one row per time level, the step counter names the last row, the new row holds the solved pressures for interior cells and carries the boundary values forward, and earlier rows are never altered. A step that is solved again because a well changed control leaves the same single new row and uses the caller's options; a step that is not committed changes nothing, and one whose linear solve fails changes neither a history nor the step counter. A run of n steps solves exactly n steps and continues from the previous state.",
  ["histories","fault_sequences"],"every sequence of single steps and runs, with and without re-solve, with any solver outcome",
  "tests run one fixed number of steps; rollback, failure and continuation are not exercised",
  [F,SOL],[("step",F+":solve"),("run",F+":run"),("initial state",SOL+":__init__")],["solve","run"],
  [("tstep","index of the last time level",F),("pressures/rates/As/ds","histories, one row per level",F)])
p("C15","Material balance error measures what entered against what is stored",
  "For an incompressible system the reported error is the sum of all face and well rates of the step; for a compressible one it is the absolute deviation from one of the ratio between the change in stored volume over the interior cells in that step and the sum of the step's rates. A warning is raised exactly when the magnitude of the error exceeds the threshold, the check only reads simulation state, and each committed step checks its own error when checking is on.",
  ["histories","inputs"],"every step of every run, any threshold",
  "tests assert small errors on fixed runs; a check that looks at the wrong row, omits a term or never warns passes them",
  [F],[("check",F+":check_MB"),("call",F+":solve")],["check_MB"])
p("C16","Cached results never go stale",
  "A result that is remembered between calls depends only on its arguments and on things that cannot be changed after construction through the public interface. So after rock, fluid, compressibility, well or boundary settings are changed, every query returns the value computed from the current settings.",
  ["histories","programs"],"every memoised query and every sequence of public setters and queries",
  "staleness needs a query, a change and a second query of the same thing; tests construct once and query",
  [G,M,F,H,S],[("memoisation",H+":_lru_cache"),("memoised methods",G),("memoised methods",M),("memoised methods",F)],["all memoised methods"])
p("C17","Models, solutions and callers never share mutable state by accident",
  "Two models built on the same grid and fluid are independent: configuring, compiling or running one never changes the other's pressures, rates, wells or boundary conditions, nor the grid and the fluid. Two solutions compiled on one model are independent: running one never changes the other's pressures and rates, nor the model's initial state (wells and boundary conditions belong to the model). The caller's arrays and dictionaries stay the caller's: a call neither modifies them nor follows later changes to them, and the initial arrays handed out are copies. No function uses a mutable default or module-level object as hidden state, arrays kept as a model's or solution's own state are not views of arrays owned by something else, and objects passed in are not modified.",
  ["programs","histories"],"every pair of objects and every sequence of public calls on them",
  "tests use one model per grid and never look at the other owner after a change",
  [M,SOL,G,MB],[("initial arrays",M+":__get_arrays,get_init_arrays"),("solution state",SOL+":__init__"),("arguments kept",M+":set_well,set_boundaries")],["get_init_arrays","set_well","set_boundaries","set_scalers"])
p("C18","Compiling and switching solutions is all-or-nothing",
  "Compiling registers the new solution under its name and makes it, its compiler and its step and run functions current together; switching to a registered name makes all four belong to that solution again, and an unknown name is refused. If compiling or switching fails, the model keeps its previous solution, compiler, registries and functions unchanged.",
  ["histories","fault_sequences"],"every sequence of compile and switch calls, valid or not",
  "tests compile once with valid arguments",
  [MB,C],[("compile/switch",MB+":compile,set_solution"),("construction",C+":Compiler.__init__")],["compile","set_solution","get_solutions"])
p("C19","Documented names select exactly their own implementation",
  "Every documented name or synonym of a solution type, solution method, linear solver, scaler or data column selects the implementation it names, in any letter case where documented, no name selects two implementations, and every unknown name is refused with a ValueError before anything is changed. The same holds for direction, output format, property, ordering and boundary-selection options of the grid.",
  ["inputs","configurations"],"every documented name and synonym, every unknown string",
  "tests use one or two of the names; a mis-routed synonym or a silently accepted unknown is not noticed",
  [C,S,M,G,H],[("types and methods",C+":STYPES,METHODS,Compiler"),("linear solvers",S+":get_isolver"),("columns and scalers",M+":get_df,set_scalers"),("grid options",G)],["Compiler","get_isolver","set_scalers","get_df"])
p("C20","Exported tables line up row by row",
  "In the long format every column is in time-major order (all cells of level 0, then level 1, ...) so each row's cell id, step, position, time, date, rate and pressure belong to the same cell and time level; in the wide format each row is one time level and each column holds the named cell's or well's own values. Time is the level times the step length and dates advance by the step length from the start date, one per level; columns are added in the order asked, unit labels match the quantity, and a file is written only when saving was asked for.",
  ["inputs","configurations"],"every column selection, boundary, unit, melt and scale flag, any number of steps and step length",
  "tests compare two exported tables of fixed runs; layout must agree for all sizes and options",
  [M],[("table",M+":get_df"),("columns",M+":__add_time,__add_date,__add_cells_rate,__add_cells_pressures,__add_wells_rate,__add_wells_pressures,__add_xyz"),("time",M+":get_time,__get_time_vector")],["get_df","get_time","get_centers","get_domain"])
p("C21","Debug printing never changes results",
  "Turning verbose output on or off, or asking for intermediate arrays to be printed, changes only what is printed: no value used by a later calculation is computed only under such a flag. The verbose setting a run suspends is put back when the run ends, also when it ends with an error.",
  ["configurations","programs","fault_sequences"],"every function that consults a printing flag, every exit of a run",
  "tests run with printing off; nothing compares the two settings or a run that fails",
  [F,M,G,D],[("guarded prints","all functions reading the verbose flag"),("suspend/restore",F+":run"),("suspend/restore",D+":run")],["run"])
p("C22","Threaded assembly equals sequential assembly",
  "Assembling with threads produces the same equations and matrices as assembling without, for any number of cells including one. A worker's failure is raised to the caller rather than lost, all workers have finished before their results are used, and workers write only to their own cell's entries.",
  ["schedules","fault_sequences","configurations"],"every interleaving of workers, any worker failing, any number of cells",
  "tests run threads on a lucky schedule with no failing worker and several cells",
  [F],[("equations",F+":get_cells_eq"),("matrices",F+":get_matrices_symb,__update_matrices_symb")],["get_cells_eq","get_matrices_symb"])
p("C23","Unfinished components refuse instead of answering",
  "Every solution method, grid, fluid, model or well kind that is not implemented refuses with NotImplementedError when it is selected or constructed, in the way its callers construct it, and never returns a default or partial result. Abstract interfaces cannot be instantiated.",
  ["programs","configurations"],"every declared but unimplemented class and method, however it is reached",
  "no test selects an unimplemented component",
  [C,"reservoirflow/solutions/numerical/fem.py","reservoirflow/solutions/numerical/fvm.py","reservoirflow/models/thermal.py"],[("stubs","reservoirflow/solutions/*/*.py, models, grids, fluids, wells"),("construction",C+":__add_solution")],["compile"])
p("C24","The analytical solution has one formula",
  "The one-dimensional single-phase solution evaluates, at every time and position, the steady linear profile plus (2/pi) times the sum over modes n of [(initial-left)/n + (right-initial)(-1)^n/n] sin(n pi x) exp(-n^2 pi^2 t), in pressures scaled by the initial data, with x the relative position and t diffusivity times time over length squared. Evaluating it directly and through a run give the same pressures, clipping only limits to the scaled range, and the result is scaled back exactly.",
  ["inputs"],"all grids in 1D, initial and boundary pressures, fluids, times and number of modes",
  "no test touches the analytical solution",
  [D,M],[("direct",D+":calc_solution"),("run",D+":run"),("diffusivity",M+":get_alpha")],["calc_solution","run"])
p("C25","Compressibility decides storage and gravity data consistently",
  "Setting a compressibility of zero makes an object incompressible, a positive one compressible, and a negative one is refused, for grids, fluids and models alike; the model's compressibility is the sum of rock and fluid and is zero only if both are. Storage is zero for incompressible models and otherwise pore volume times compressibility over (volume conversion times formation volume factor times step length); fluid gravity is gravity conversion times density times gravitational acceleration, and diffusivity is mobility over storage per volume.",
  ["inputs","configurations"],"all compressibilities, porosities, volumes, step lengths, densities and unit systems",
  "tests use a few values in field units; sign handling and factors must hold for all",
  [GB,FB,MB,M,FL],[("type",GB+":set_comp"),("type",FB+":set_comp"),("type",MB+":set_comp"),("storage",M+":__calc_comp,__calc_RHS,get_alpha"),("gravity",FL+":set_rho")],["set_comp","get_alpha","set_rho"])
p("C26","Simulation is deterministic and free of hidden side effects",
  "Building, configuring, running and exporting a model uses no randomness, environment, network, subprocess or clock to compute results (timers and messages aside, and today's date standing in for an omitted start date), and writes no file unless the caller asked for a file. Queries (get_*, is_*, show, plot, report, table export) do not modify the settings or the simulation state they report on; a grid query may keep its own last answer under its own name, and a scaled export refits the scalers.",
  ["programs","histories"],"every function reachable from the public simulation interface",
  "tests cannot observe the absence of an effect on unsampled paths",
  [G,M,F,D,B,FL],[("library code","reservoirflow/{grids,fluids,models,solutions,scalers,wells}"),("only file write",M+":get_df")],["whole library"])
p("C27","Discretisation converges to the exact solution",
  "As the grid and the step length are refined, the numerical pressures converge to the analytical solution at the order of the scheme.",
  ["inputs"],"all refinement sequences","a limit statement",[F,D],[("numerical",F+":run"),("analytical",D+":calc_solution")])
p("C28","Linear solves meet their tolerance",
  "The pressures of every committed step satisfy the assembled linear system to the solver's tolerance.",
  ["inputs","histories"],"all matrices the assembly can produce","depends on floating-point behaviour of third-party solvers",[F,S],[("solve",F+":solve")])
p("C29","Rendered pictures show the simulated values",
  "Three-dimensional views, animations and plots colour every cell with that cell's value at the displayed time level.",
  ["inputs","configurations"],"all models and display options","needs rendering; tests never render",["reservoirflow/utils/pyvista.py"],[("rendering","reservoirflow/utils/pyvista.py:show_model,show_grid,save_gif")])
p("C30","Cost grows acceptably with problem size",
  "Assembly and solve time and memory grow no faster than the sparse structure requires.",
  ["inputs"],"all problem sizes","a resource bound, not a value",[F,G],[("assembly",F+":get_matrices_vect")])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for x in P:
            assert len(x["title"])<=80,(x["id"],len(x["title"]))
            f.write(json.dumps(x)+"\n")
    print(len(P))
