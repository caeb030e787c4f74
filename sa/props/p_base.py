"""Properties decided against the reviewed revision (see DESIGN.md, "Two references")."""
from ..core import *
from ..core import RULE, BVN, BRULE, BNOTE

PR = "opm/core/pressure/"
TP = PR + "tpfa/"
PROPS = "opm/core/props/"
UT = "opm/core/utility/"
TR = "opm/core/transport/"
IO = "opm/core/io/"


def baseprop(pid, title, statement, text, why, files, mech, over=("inputs",), scope=None, spec=None, **kw):
    """register a property whose functions (public functions of `scope`) are compared with their reviewed summaries"""
    def run(c):
        if spec:
            spec(c)
        c.rule(BRULE)
        c.base(scope or files, **kw)
    run.__name__ = pid
    return prop(pid, BVN, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=BNOTE)(run)


baseprop("P03", "Compressible TPFA residual and Jacobian assembly are exact",
         """For every grid, fluid state, well configuration and time step, the compressible two-point scheme assembles the residual of the volume balance and a Jacobian holding its derivatives
         with the documented upwinding of phase mobilities, gravity capillary terms, well perforation terms (shut, pressure- and rate-controlled) and rock compressibility.
         Recovered face pressures, face fluxes and well fluxes are those the scheme implies for the given pressure.""",
         "for all grids, phase counts, flow directions, wells and coefficient values",
         "no stable test assembles the compressible system", [TP + "cfs_tpfa_residual.c", TP + "cfs_tpfa_residual.h"],
         [("assembly", TP + "cfs_tpfa_residual.c: cfs_tpfa_res_assemble, cfs_tpfa_res_comprock_assemble"), ("flux recovery", TP + "cfs_tpfa_residual.c: cfs_tpfa_res_flux"),
          ("face pressure", TP + "cfs_tpfa_residual.c: cfs_tpfa_res_fpress")])

baseprop("P07", "Pressure-explicit compressible TPFA: system, fluxes, masses and time step",
         """The linearised compressible scheme assembles the documented pressure system (accumulation, upwinded compressible face transmissibility, gravity, boundary and well terms), recovers face pressures and
         fluxes and well quantities from its solution, advances surface masses explicitly by exactly the phase flux differences and sources, and returns a step limit per the saturation-change criterion.""",
         "for all grids, phase counts, wells, boundary conditions and coefficient values", "no stable test calls these routines",
         [TP + "cfs_tpfa.c", TP + "cfs_tpfa.h"],
         [("assembly", TP + "cfs_tpfa.c: cfs_tpfa_assemble"), ("fluxes", TP + "cfs_tpfa.c: cfs_tpfa_press_flux"), ("transport", TP + "cfs_tpfa.c: cfs_tpfa_expl_mass_transport")])

baseprop("P08", "The well container stores wells, perforations and controls faithfully",
         """Adding a well stores its type, reference depth, fractions, perforated cells and well indices at the end of the container without disturbing earlier wells; a well's perforations occupy exactly its own range.
         Appending a control adds it last in that well's own control set with its target and phase distribution and reports success; selecting, clearing and searching act on that well only.
         A clone equals its original; wells keep their names.""",
         "for all sequences of well and control additions", "the one wells test builds a single fixed container", ["opm/core/wells/wells.c", "opm/core/wells.h", PR + "legacy_well.c"],
         [("adding", "opm/core/wells/wells.c: add_well"), ("controls", "opm/core/wells/wells.c: append_well_controls"), ("cloning", "opm/core/wells/wells.c: clone_wells"),
          ("perforation to well map", PR + "legacy_well.c: derive_cell_wells")], over=("inputs", "histories"), scope=["opm/core/wells/wells.c", PR + "legacy_well.c"])

baseprop("P09", "Well-group controls: accounting, limit checks and target distribution",
         """A group sums the flow rates, guide rates and targets of exactly the wells below it; a group or well reports its own limits as met or broken for production and injection, per phase and control mode, and when a limit
         is broken it applies the corresponding control to exactly the wells involved with the target shared in proportion to their guide rates (voidage and reinjection fractions included).""",
         "for all group trees, control modes, specifications and rates", "no stable test evaluates group controls",
         ["opm/core/wells/WellsGroup.cpp", "opm/core/wells/WellCollection.cpp", "opm/core/wells/InjectionSpecification.cpp", "opm/core/wells/ProductionSpecification.cpp"],
         [("groups", "opm/core/wells/WellsGroup.cpp: WellsGroup"), ("leaf wells", "opm/core/wells/WellsGroup.cpp: WellNode"), ("collection", "opm/core/wells/WellCollection.cpp: WellCollection")])

baseprop("P11", "Cartesian and tensor grid construction is a correct unstructured grid",
         """Every structured grid has the documented numbers of cells, faces and nodes; its node coordinates, face-to-node, face-to-cell, cell-to-face and face-tag tables describe exactly the cells of the requested box in
         lexicographic order, outward orientation runs from first to second neighbour with -1 outside, and 2D/3D tensor grids carry the given coordinates and depths.
         Grid allocation provides every array with its documented extent.""",
         "for all cell counts and coordinate vectors", "tests build a few tiny grids and look at little of them", ["opm/core/grid/cart_grid.c", "opm/core/grid/grid.c", "opm/core/grid.h"],
         [("topology", "opm/core/grid/cart_grid.c: fill_cart_topology_2d, fill_cart_topology_3d"), ("geometry", "opm/core/grid/cart_grid.c: fill_cart_geometry_2d, fill_cart_geometry_3d"),
          ("allocation", "opm/core/grid/grid.c: allocate_grid")], scope=["opm/core/grid/cart_grid.c", "opm/core/grid/grid.c"], limit=300)

baseprop("P12", "Face and cell geometry: centroids, areas, normals and volumes are exact",
         """Face centroids, areas and normals are those of the fan of triangles around the mean node, normals pointing from the face's first to its second cell; cell centroids and volumes sum the pyramids over the cell's faces with the outward orientation.
         Cell volumes, centroids and normals handed out for a processed corner-point grid are these.""",
         "for all faces and cells with any number of nodes, and both orientations", "geometry tests cover single boxes in 2D",
         ["opm/core/grid/cpgpreprocess/geometry.c", "opm/core/grid/cornerpoint_grid.c"],
         [("faces", "opm/core/grid/cpgpreprocess/geometry.c: compute_face_geometry"), ("cells", "opm/core/grid/cpgpreprocess/geometry.c: compute_cell_geometry"),
          ("wrapper", "opm/core/grid/cornerpoint_grid.c: compute_geometry")])

baseprop("P14", "Unit constants and deck-to-SI conversion are exact",
         """Every unit constant has its defining SI value, conversion to and from a unit are inverse scalings, and each deck keyword's values are converted once, with the unit of that quantity in the deck's unit system; dimensionless, integer and indicator data stay unchanged.""",
         "for all unit systems, keywords and values", "no stable test reads a deck in field or lab units",
         [UT + "Units.hpp", IO + "eclipse/EclipseUnits.hpp", IO + "eclipse/SpecialEclipseFields.hpp", IO + "eclipse/EclipseGridParser.cpp"],
         [("constants", UT + "Units.hpp"), ("conversion", UT + "Units.hpp: convert"), ("per-keyword conversion", IO + "eclipse/SpecialEclipseFields.hpp: convertToSI"), ("plain keywords", IO + "eclipse/EclipseGridParser.cpp: convertToSI")],
         scope=[UT + "Units.hpp", IO + "eclipse/EclipseUnits.hpp", IO + "eclipse/SpecialEclipseFields.hpp", IO + "eclipse/EclipseGridParser.cpp"])

baseprop("P16", "Single-phase PVT relations: volume factors, ratios, viscosities and derivatives",
         """Each phase description (constant compressibility, dead, dead spline, live oil, live gas) returns the viscosity, formation-volume factor, solution ratio and their pressure derivatives its tables define for every sample,
         choosing saturated or undersaturated branches from pressure and surface volumes as documented, and fills every entry of its outputs at its phase's own position.""",
         "for all tables, pressures, surface volumes and phase combinations", "no stable test evaluates a PVT object",
         [PROPS + "pvt/SinglePvtConstCompr.hpp", PROPS + "pvt/SinglePvtDead.cpp", PROPS + "pvt/SinglePvtDeadSpline.cpp", PROPS + "pvt/SinglePvtInterface.cpp", PROPS + "pvt/SinglePvtLiveGas.cpp", PROPS + "pvt/SinglePvtLiveOil.cpp"],
         [("constant compressibility", PROPS + "pvt/SinglePvtConstCompr.hpp"), ("live oil", PROPS + "pvt/SinglePvtLiveOil.cpp"), ("live gas", PROPS + "pvt/SinglePvtLiveGas.cpp"), ("dead phases", PROPS + "pvt/SinglePvtDead.cpp")])

baseprop("P17", "Multi-phase PVT containers delegate to the right phase and combine correctly",
         """The black-oil PVT container evaluates each active phase with that phase's own description and interleaves results by phase position; viscosities, volume factors and ratios (with derivatives) appear at [phase + number of phases * sample].
         The constant containers return the surface densities and viscosities they were given, converted as documented.""",
         "for all phase combinations, numbers of samples and values", "no stable test evaluates multi-phase PVT",
         [PROPS + "pvt/BlackoilPvtProperties.cpp", PROPS + "pvt/PvtPropertiesBasic.cpp", PROPS + "pvt/PvtPropertiesIncompFromDeck.cpp", PROPS + "phaseUsageFromDeck.hpp"],
         [("interleaving", PROPS + "pvt/BlackoilPvtProperties.cpp: mu, B, dBdp, R, dRdp"), ("constants", PROPS + "pvt/PvtPropertiesBasic.cpp: init"), ("phases in use", PROPS + "phaseUsageFromDeck.hpp: phaseUsageFromDeck")])

baseprop("P18", "Rock properties: porosity, permeability tensor and pore-volume multiplier",
         """Porosity and permeability arrays hold, for each active cell, the deck's value of its logical cell (or the uniform value), with permeability as a full symmetric tensor assembled from the given components and a zero tensor replaced as documented.
         The pore-volume multiplier and rock compressibility follow the tabulated or constant rule, with derivative consistent with the multiplier.""",
         "for all decks, active-cell maps and pressures", "no stable test evaluates rock objects",
         [PROPS + "rock/RockBasic.cpp", PROPS + "rock/RockBasic.hpp", PROPS + "rock/RockCompressibility.cpp", PROPS + "rock/RockFromDeck.cpp", PROPS + "rock/RockFromDeck.hpp"],
         [("tensor assembly", PROPS + "rock/RockFromDeck.cpp: assignPermeability"), ("porosity", PROPS + "rock/RockFromDeck.cpp: assignPorosity"), ("compressibility", PROPS + "rock/RockCompressibility.cpp")])

baseprop("P19", "Saturation functions: relative permeability, capillary pressure and derivatives",
         """For every saturation, each saturation-function model returns the relative permeabilities and capillary pressures of its tables and combination rule at the phase's own position, the full derivative matrix with respect to saturations
         (entry [row + phases * column]), and the smallest and largest saturations of its tables.""",
         "for all tables, saturations and phase combinations", "no stable test evaluates saturation functions",
         [PROPS + "satfunc/SatFuncSimple.cpp", PROPS + "satfunc/SatFuncStone2.cpp", PROPS + "satfunc/SatFuncGwseg.cpp"],
         [("simple", PROPS + "satfunc/SatFuncSimple.cpp"), ("Stone II", PROPS + "satfunc/SatFuncStone2.cpp"), ("segregated", PROPS + "satfunc/SatFuncGwseg.cpp")])

baseprop("P20", "Saturation-property classes apply the right function to every cell",
         """For any list of cells, relative permeability, capillary pressure, their derivatives and saturation ranges are evaluated sample by sample with the function of that cell's region and written at that sample's own position;
         the basic variant implements the constant, linear and quadratic rules exactly, derivatives included.""",
         "for all cell lists, region maps, saturations and phase counts", "no stable test evaluates these classes",
         [PROPS + "satfunc/SaturationPropsBasic.cpp", PROPS + "satfunc/SaturationPropsBasic.hpp", PROPS + "satfunc/SaturationPropsFromDeck_impl.hpp", PROPS + "satfunc/SaturationPropsFromDeck.cpp"],
         [("basic rules", PROPS + "satfunc/SaturationPropsBasic.cpp: relperm"), ("region lookup", PROPS + "satfunc/SaturationPropsFromDeck_impl.hpp: relperm, capPress, satRange")])

baseprop("P21", "Fluid property objects: viscosity, density and phase-volume matrix per cell",
         """The incompressible and black-oil property objects return porosity, permeability, viscosity, density, relative permeability and capillary pressure of exactly the requested cells; the black-oil phase-volume matrix A and its pressure
         derivative are built column-major from B and R per sample and the phase densities are the surface densities times A.""",
         "for all phase combinations, cell lists and states", "no stable test evaluates property objects",
         [PROPS + "BlackoilPropertiesBasic.cpp", PROPS + "BlackoilPropertiesFromDeck.cpp", PROPS + "IncompPropertiesBasic.cpp", PROPS + "IncompPropertiesFromDeck.cpp"],
         [("phase matrix", PROPS + "BlackoilPropertiesFromDeck.cpp: matrix"), ("density", PROPS + "BlackoilPropertiesFromDeck.cpp: density"), ("incompressible", PROPS + "IncompPropertiesBasic.cpp")])

baseprop("P22", "Tables, sparse containers and scalar root finding keep their contracts",
         """Linear tables interpolate between the two bracketing samples, extrapolate or clamp as documented, and their derivative is the slope of the same segment; sparse vectors and tables return the stored element or row and the documented default elsewhere.
         The averages are the named means; the bracketing root finder keeps a bracketing interval and reports invalid brackets per its policy.""",
         "for all tables, arguments and containers", "tests sample a few tables and rows",
         [UT + "linearInterpolation.hpp", UT + "NonuniformTableLinear.hpp", UT + "UniformTableLinear.hpp", UT + "buildUniformMonotoneTable.hpp", UT + "SparseTable.hpp", UT + "SparseVector.hpp", UT + "Average.hpp", UT + "RootFinders.hpp"],
         [("interpolation", UT + "linearInterpolation.hpp: linearInterpolation"), ("uniform table", UT + "UniformTableLinear.hpp"), ("sparse table", UT + "SparseTable.hpp"), ("root finding", UT + "RootFinders.hpp")],
         over=("inputs", "histories"))

baseprop("P24", "Discontinuous-Galerkin bases and quadrature rules are exact",
         """Basis functions and gradients are the documented polynomials for every degree and dimension, coefficient helpers reproduce constants, slopes and cell averages, and cell and face quadrature rules have the documented points and weights for every degree,
         computed from the grid's own geometry.""",
         "for all cells, faces, points, degrees and dimensions", "tests sample unit cells only",
         ["opm/core/tof/DGBasis.cpp", "opm/core/grid/CellQuadrature.hpp", "opm/core/grid/FaceQuadrature.hpp"],
         [("bases", "opm/core/tof/DGBasis.cpp"), ("cell rule", "opm/core/grid/CellQuadrature.hpp: quadPtCoord, quadPtWeight"), ("face rule", "opm/core/grid/FaceQuadrature.hpp: quadPtCoord, quadPtWeight")])

baseprop("P25", "Time-of-flight local problems balance fluxes with the right upwind values",
         """Each cell's time-of-flight (and tracer) value solves its local balance: inflow faces contribute the upwind cell's value weighted by the face flux seen from this cell, sources and outflow form the denominator, and tracer heads keep their prescribed values.
         Flux orientation, cell pore volume and source sign are applied as documented.""",
         "for all grids, flux fields, sources and pore volumes", "no stable test runs a time-of-flight solver",
         ["opm/core/tof/TofReorder.cpp", "opm/core/tof/TofDiscGalReorder.cpp"],
         [("finite-volume cell problem", "opm/core/tof/TofReorder.cpp: solveSingleCell"), ("DG cell problem", "opm/core/tof/TofDiscGalReorder.cpp: solveSingleCell")])

baseprop("P26", "Velocity interpolation from face fluxes is exact for its scheme",
         """The constant scheme returns the flux-weighted centroid sum over cell volume; the corner-based scheme builds corner velocities from the three adjacent face fluxes and interpolates them with barycentric coordinates computed from the cell's corners and adjacent face normals.""",
         "for all grids, fluxes and points", "tests sample a few points in fixed cells",
         [UT + "VelocityInterpolation.cpp", UT + "WachspressCoord.cpp"],
         [("interpolation", UT + "VelocityInterpolation.cpp: interpolate"), ("barycentric coordinates", UT + "WachspressCoord.cpp: cartToBary")])

baseprop("P27", "Reordered transport: local residuals, orientation and bookkeeping are exact",
         """The cell-local transport residuals and their bounds use the upwind fractional flow, inflow, outflow, pore volume and time step as documented; gravity-segregation flux terms use the correct neighbour, mobility and sign; all face fluxes are seen with outward orientation from the cell being solved.""",
         "for all grids, flux fields, saturations and time steps", "no stable test runs these solvers",
         [TR + "reorder/TransportSolverTwophaseReorder.cpp", TR + "reorder/TransportSolverCompressibleTwophaseReorder.cpp", TR + "reorder/ReorderSolverInterface.cpp", TR + "reorder/reordersequence.cpp"],
         [("incompressible residual", TR + "reorder/TransportSolverTwophaseReorder.cpp: Residual"), ("compressible residual", TR + "reorder/TransportSolverCompressibleTwophaseReorder.cpp: Residual")])

baseprop("P28", "Implicit upwind transport: residual, Jacobian and system bookkeeping",
         """The implicit two-phase model computes accumulation, upwinded fluxes (gravity and capillary included) and sources with derivatives in the positions of the cell's own block row; the assembler inserts each contribution in the row and column of its cells with the documented sign.
         Explicit and implicit single-point upwind updates move exactly the upwind fractional flow across each face.""",
         "for all grids, flux fields, saturations, sources and time steps", "no stable test assembles a transport system",
         [TR + "implicit/SinglePointUpwindTwoPhase.hpp", TR + "implicit/ImplicitAssembly.hpp", TR + "implicit/JacobianSystem.hpp", TR + "implicit/CSRMatrixBlockAssembler.hpp", TR + "implicit/SimpleFluid2pWrappingProps_impl.hpp",
          TR + "implicit/GravityColumnSolver_impl.hpp", TR + "implicit/ImplicitTransport.hpp", TR + "implicit/NormSupport.hpp", TR + "implicit/TransportSolverTwophaseImplicit.cpp", TR + "implicit/TransportSolverTwophaseImplicit.hpp", TR + "minimal/spu_explicit.c", TR + "minimal/spu_implicit.c"],
         [("model", TR + "implicit/SinglePointUpwindTwoPhase.hpp"), ("assembly", TR + "implicit/ImplicitAssembly.hpp"), ("explicit update", TR + "minimal/spu_explicit.c"), ("implicit residual", TR + "minimal/spu_implicit.c")])

baseprop("P29", "Mimetic inner products and hybrid Schur complements are exact",
         """The mimetic inner product, its gravity and effective variants, the hybrid static condensation (symmetric and unsymmetric, with wells) and back-substitution compute per cell exactly the documented dense-matrix formulas in each cell's own storage,
         and the global hybrid system receives each cell and well contribution at its own degrees of freedom.""",
         "for all cells with any number of faces, wells and coefficient values", "no stable test calls these routines",
         [PR + "mimetic/mimetic.c", PR + "mimetic/hybsys.c", PR + "mimetic/hybsys_global.c"],
         [("inner product", PR + "mimetic/mimetic.c: mim_ip_simple"), ("condensation", PR + "mimetic/hybsys.c: hybsys_schur_comp_symm"), ("global assembly", PR + "mimetic/hybsys_global.c: hybsys_global_assemble_cell")])

baseprop("P30", "Hybrid flow solvers: boundary and well terms, system and fluxes",
         """The hybrid incompressible and compressible solvers count degrees of freedom, classify boundary faces and wells, assemble boundary, source and well contributions at their own equations, and recover cell pressures, face fluxes, well pressures and perforation fluxes from the interface solution as documented.""",
         "for all grids, boundary conditions, sources and wells", "no stable test calls these solvers",
         [PR + "fsh.c", PR + "fsh_common_impl.c", PR + "ifsh.c", PR + "cfsh.c"],
         [("boundary and well mapping", PR + "fsh_common_impl.c"), ("incompressible", PR + "ifsh.c: ifsh_assemble"), ("flux recovery", PR + "fsh.c: fsh_press_flux")])

baseprop("P31", "Coarse topology, basis-function systems and partitions are exact",
         """Partitions number coarse blocks as documented, compress to a gap-free range, and invert to exactly the cells of each block; the multiscale coarse system forms its mobility-weighted inner products and coarse-scale fluxes from exactly the basis functions of each block;
         the integer hash set contains exactly the inserted keys.""",
         "for all partitions, coarse grids and mobilities", "no stable test partitions a grid",
         [PR + "msmfem/partition.c", PR + "msmfem/coarse_conn.c", PR + "msmfem/coarse_sys.c", PR + "msmfem/ifsh_ms.c", PR + "msmfem/hash_set.c", PR + "msmfem/dfs.c"],
         [("partition", PR + "msmfem/partition.c"), ("coarse system", PR + "msmfem/coarse_sys.c: coarse_sys_compute_cell_ip"), ("hash set", PR + "msmfem/hash_set.c: hash_set_insert")])

baseprop("P32", "Simulator state, timer, report and initial conditions follow their definitions",
         """The timer's current step, elapsed time, total and report output advance exactly by the configured steps; states are sized and initialised for every cell, face and phase; initial saturations, hydrostatic pressures, face pressures and surface volumes follow the configured case, contact depths and densities;
         well states start from controls or cell pressure; reports add up.""",
         "for all grids, parameters, decks and step sequences", "no stable test initialises a simulator state",
         ["opm/core/simulator/SimulatorTimer.cpp", "opm/core/simulator/SimulatorReport.cpp", "opm/core/simulator/TwophaseState.hpp", "opm/core/simulator/BlackoilState.hpp", "opm/core/simulator/WellState.hpp", "opm/core/simulator/initState_impl.hpp"],
         [("timer", "opm/core/simulator/SimulatorTimer.cpp"), ("initial state", "opm/core/simulator/initState_impl.hpp: initStateBasic, initStateFromDeck"), ("well state", "opm/core/simulator/WellState.hpp: init")],
         over=("inputs", "histories"))

baseprop("P35", "Pressure drivers feed the discretisation the right per-cell quantities",
         """The incompressible and compressible pressure drivers compute mobilities, gravity potentials, well gravity heads, phase matrices, compressibilities and pore volumes for every cell and perforation from the current state before assembling, and hand back the recovered pressures, fluxes and well results in the state they are given.""",
         "for all states, wells, property objects and time steps", "no stable test runs a pressure solve",
         [PR + "IncompTpfa.cpp", PR + "IncompTpfa.hpp", PR + "CompressibleTpfa.cpp", PR + "FlowBCManager.cpp"],
         [("incompressible", PR + "IncompTpfa.cpp: computePerSolveDynamicData"), ("compressible", PR + "CompressibleTpfa.cpp: computeCellDynamicData, computeWellPotentials"), ("boundary manager", PR + "FlowBCManager.cpp")],
         private=["Opm::IncompTpfa::computeStaticData", "Opm::IncompTpfa::computePerSolveDynamicData", "Opm::IncompTpfa::computePerIterationDynamicData", "Opm::IncompTpfa::assemble", "Opm::IncompTpfa::computeResults",
                  "Opm::CompressibleTpfa::computePerSolveDynamicData", "Opm::CompressibleTpfa::computeWellPotentials", "Opm::CompressibleTpfa::computePerIterationDynamicData", "Opm::CompressibleTpfa::computeCellDynamicData",
                  "Opm::CompressibleTpfa::computeFaceDynamicData", "Opm::CompressibleTpfa::computeWellDynamicData", "Opm::CompressibleTpfa::assemble", "Opm::CompressibleTpfa::computeResults"])

baseprop("P38", "Utility computations on cells, wells and phases are exact",
         """Pore volumes, total and phase mobilities, fractional flow, injected and produced amounts, saturated volumes, average saturations, cell velocities, saturation bounds, well-to-source conversion, well-rate bookkeeping and depth-based potentials are computed for exactly the given cells and wells by their documented formulas.""",
         "for all grids, states, sources, wells and phase counts", "no stable test calls most of these routines",
         [UT + "miscUtilities.cpp", UT + "miscUtilitiesBlackoil.cpp"],
         [("volumes and mobilities", UT + "miscUtilities.cpp: computePorevolume, computeTotalMobility"), ("accounting", UT + "miscUtilities.cpp: computeInjectedProduced"), ("wells", UT + "miscUtilities.cpp: wellsToSrc, computePhaseFlowRatesPerWell"),
          ("black-oil variants", UT + "miscUtilitiesBlackoil.cpp")])

baseprop("P10", "Parameter groups resolve, convert and report parameters faithfully",
         """Looking a parameter up finds the value in the innermost group that has it (descending paths with the separator, climbing to the parent otherwise), converts it exactly or raises an error when the text is not of the requested type, uses the given default only when it is absent, and applies the requirement check to every value handed out;
         inserting overrides or adds exactly one entry.""",
         "for all trees of groups, names, values and requirements", "tests look up a handful of fixed parameters",
         [UT + "parameters/Parameter.cpp", UT + "parameters/Parameter.hpp", UT + "parameters/ParameterGroup.cpp", UT + "parameters/ParameterGroup_impl.hpp", UT + "parameters/ParameterRequirement.hpp", UT + "parameters/ParameterTools.cpp", UT + "parameters/ParameterMapItem.hpp"],
         [("lookup", UT + "parameters/ParameterGroup_impl.hpp: get, getDefault"), ("conversion", UT + "parameters/Parameter.hpp"), ("requirements", UT + "parameters/ParameterRequirement.hpp"), ("paths", UT + "parameters/ParameterTools.cpp: split")],
         over=("inputs", "histories"))

baseprop("P13", "Linear-solver glue hands over exactly the given system",
         """The conversion from compressed-row to the direct solver's compressed-column form holds the same entries in ascending rows per column; the factory forwards the given matrix arrays and parameters unchanged to the selected solver.""",
         "for all sparse matrices and solver choices", "tests only solve through external back ends",
         ["opm/core/linalg/call_umfpack.c", "opm/core/linalg/LinearSolverFactory.cpp", "opm/core/linalg/LinearSolverInterface.cpp", "opm/core/linalg/LinearSolverUmfpack.cpp"],
         [("conversion", "opm/core/linalg/call_umfpack.c: csr_to_csc"), ("forwarding", "opm/core/linalg/LinearSolverFactory.cpp: solve")], private=["csr_to_csc"])

baseprop("P15", "Deck access, grid inspection and output report the deck and grid faithfully",
         """Deck accessors return exactly the stored keyword's data or raise an error when it is absent; the grid inspector's cell dips, volumes and limits are those of the corner-point data; visualisation output writes every node, cell connectivity, offset and data value of the grid it is given.""",
         "for all decks and grids", "no stable test reads or writes a deck",
         [IO + "eclipse/EclipseGridParser.hpp", IO + "eclipse/EclipseGridInspector.cpp", IO + "vtk/writeVtkData.cpp", IO + "vag/vag.cpp", IO + "vag/vag.hpp", IO + "eclipse/writeECLData.cpp"],
         [("accessors", IO + "eclipse/EclipseGridParser.hpp"), ("inspector", IO + "eclipse/EclipseGridInspector.cpp"), ("output", IO + "vtk/writeVtkData.cpp")])

baseprop("P33", "Wells built from deck keywords: perforations, indices, rates and controls",
         """Wells described by a deck become wells whose perforations are exactly the active cells of their completions with Peaceman well indices from the cells' own permeability and extent (or the given index), with the deck's type, reference depth, phases, rates,
         limits and control modes, open or shut as stated and with the group tree and guide rates of the deck.""",
         "for all decks, grids, permeabilities and completions", "no stable test reads wells from a deck",
         ["opm/core/wells/WellsManager.cpp", "opm/core/wells/WellsManager.hpp"],
         [("construction", "opm/core/wells/WellsManager.cpp: WellsManager"), ("well indices", "opm/core/wells/WellsManager.cpp: computeWellIndex"), ("cell extents", "opm/core/wells/WellsManager.cpp: getCubeDim")],
         private=["(anonymous namespace)::" + x for x in ("getCubeDim", "computeWellIndex", "ProductionControl::mode", "InjectionControl::mode")])

baseprop("P34", "Reordering: strongly connected components and column extraction",
         """The component search returns every vertex exactly once, grouped into the strongly connected components of the flow graph in dependency order, and column extraction partitions the active cells into vertical columns, each ordered from top to bottom and split where layers are missing.""",
         "for all directed graphs and all active-cell maps", "tests extract columns from three fixed grids; no test calls the component search",
         [TR + "reorder/tarjan.c", TR + "reorder/reordersequence.cpp", "opm/core/grid/ColumnExtract.hpp"],
         [("components", TR + "reorder/tarjan.c: tarjan"), ("columns", "opm/core/grid/ColumnExtract.hpp: extractColumn")], scope=[TR + "reorder/tarjan.c", "opm/core/grid/ColumnExtract.hpp"])

baseprop("P36", "Simulator time loops call each stage once, in order, with the step's own data",
         """In every step the simulators solve for pressure, transport and (when configured) gravity segregation in that order with that step's length, accumulate exactly the times, injected and produced volumes of the stages into the report and the water cut and well report, and write the requested output.""",
         "for all schedules, parameters and states", "no stable test runs a simulator",
         ["opm/core/simulator/SimulatorIncompTwophase.cpp", "opm/core/simulator/SimulatorCompressibleTwophase.cpp", UT + "StopWatch.cpp"],
         [("incompressible loop", "opm/core/simulator/SimulatorIncompTwophase.cpp: run"), ("compressible loop", "opm/core/simulator/SimulatorCompressibleTwophase.cpp: run"), ("stop watch", UT + "StopWatch.cpp")],
         over=("inputs", "histories"),
         private=["Opm::SimulatorIncompTwophase::Impl::Impl", "Opm::SimulatorIncompTwophase::Impl::run", "Opm::SimulatorCompressibleTwophase::Impl::Impl", "Opm::SimulatorCompressibleTwophase::Impl::run"])

baseprop("P37", "Grid objects are built from the given description and released once",
         """A grid manager holds exactly the grid its constructor's description asks for (sizes, deck corner points or tensor coordinates, file), reports an error when it cannot be built, and releases it exactly once.""",
         "for all decks and sizes", "no stable test builds a grid from a deck",
         ["opm/core/grid/GridManager.cpp", "opm/core/grid/cornerpoint_grid.c"],
         [("construction", "opm/core/grid/GridManager.cpp: GridManager"), ("deck", "opm/core/grid/GridManager.cpp: initFromDeckCornerpoint, initFromDeckTensorgrid")], scope=["opm/core/grid/GridManager.cpp"],
         private=["Opm::GridManager::initFromDeckCornerpoint", "Opm::GridManager::initFromDeckTensorgrid"])

baseprop("P39", "Monotone cubic interpolation follows the Fritsch-Carlson construction",
         """The interpolator evaluates the cubic Hermite polynomial of the bracketing samples, clamps outside the table, computes three-point end derivatives and the documented interior derivatives, limits them where monotonicity demands, and its searches, shifts and scalings act on the samples as documented.""",
         "for all tables and arguments", "no stable test evaluates the interpolator",
         [UT + "MonotCubicInterpolator.cpp", UT + "MonotCubicInterpolator.hpp"],
         [("evaluation", UT + "MonotCubicInterpolator.cpp: evaluate"), ("limiting", UT + "MonotCubicInterpolator.cpp: adjustDerivativesForMonotoneness")])

baseprop("P40", "Deck record readers honour repeats, defaults and terminators",
         """Reading a deck record stores each value in its own position, expands repeat counts, leaves defaulted entries at their default, stops at the terminator and rejects malformed input; tables with defaulted interior entries are filled by interpolation between their neighbours.""",
         "for all decks", "no stable test reads a deck",
         [IO + "eclipse/EclipseGridParserHelpers.hpp"],
         [("vectors", IO + "eclipse/EclipseGridParserHelpers.hpp: readVectorData, readDefaultedVectorData"), ("tables", IO + "eclipse/EclipseGridParserHelpers.hpp: readPvtTable, insertDefaultValues")],
         private=["Opm::(anonymous namespace)::" + x for x in ("ignoreLine ignoreSlashLine ignoreWhitespace readString readVectorData readDefaultedVectorData readRelPermTable getMonthNumber readDate next_action readPvtTable readPvdTable insertDefaultValues readSGWOF").split()])

baseprop("P41", "Corner-point processing: unique points, face intersections and cell topology",
         """Every pillar's points are merged within the tolerance into one ascending list, each pillar pair's faces are the documented intersections of the cells' edges with consistent cell numbers on their two sides, and the output numbering covers exactly the active cells with faces and nodes numbered once.""",
         "for all corner-point descriptions", "no stable test processes a corner-point grid",
         ["opm/core/grid/cpgpreprocess/preprocess.c", "opm/core/grid/cpgpreprocess/uniquepoints.c", "opm/core/grid/cpgpreprocess/facetopology.c"],
         [("points", "opm/core/grid/cpgpreprocess/uniquepoints.c: finduniquepoints"), ("faces", "opm/core/grid/cpgpreprocess/facetopology.c: findconnections"), ("driver", "opm/core/grid/cpgpreprocess/preprocess.c: process_grdecl")])
