"""Properties a user relies on which this family cannot decide here, with the reason."""


def na(pid, title, statement, text, why, files, mech, reason, over=("inputs",)):
    return ({"id": pid, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": list(over), "text": " ".join(text.split())},
             "why_tests_cant": " ".join(why.split()),
             "anchors": {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech]}}, " ".join(reason.split()))


NA = [
    na("N01", "Linear solvers return a solution of the system they are given",
       "For every nonsingular system, a call to a linear solver that reports convergence leaves a vector whose residual is within the requested tolerance.",
       "for all matrices, right-hand sides and solver parameters", "tests solve a handful of small systems",
       ["opm/core/linalg/LinearSolverIstl.cpp", "opm/core/linalg/call_umfpack.c"], [("solver back ends", "opm/core/linalg")],
       """The residual bound is a numerical result of external iterative/direct solvers (dune-istl, AGMG and UMFPACK internals); no static argument over this repository's
       source bounds it. The structural part that is in this source (the CSR to CSC conversion handed to UMFPACK) is claimed separately."""),
    na("N02", "Implicit and reordered transport solves converge to the discrete mass balance",
       "For every time step and flow field, the saturations returned by a transport solver satisfy the implicit mass balance within the solver's tolerance and remain in [0,1].",
       "for all flow fields, step sizes and fluid functions", "tests run a few tiny cases",
       ["opm/core/transport/reorder/TransportSolverTwophaseReorder.cpp", "opm/core/transport/implicit/ImplicitTransport.hpp"],
       [("Newton and scalar root-finding loops", "opm/core/transport")],
       """Convergence of nonlinear iterations quantifies over run-time numerical values that no sound static bound in reach decides; the residual formulas themselves are claimed separately."""),
    na("N03", "Corner-point processing yields a geometrically consistent conforming grid",
       "For every valid corner-point description, the processed grid's cells tile the domain: faces match across pillars and faults and no overlapping faces are produced.",
       "for all corner-point geometries, including faults and degenerate cells", "tests process a few fixed grids",
       ["opm/core/grid/cpgpreprocess/preprocess.c", "opm/core/grid/cpgpreprocess/facetopology.c"], [("pillar-by-pillar face construction", "opm/core/grid/cpgpreprocess")],
       """The result depends on data-dependent intersections of floating-point coordinates and on work lists whose extent the coordinates decide; deciding tiling statically is out of reach."""),
    na("N04", "Monotone cubic interpolation never overshoots its data",
       "For every monotone table, the interpolant is monotone between any two neighbouring data points.",
       "for all monotone data and evaluation points", "tests sample a few curves",
       ["opm/core/utility/MonotCubicInterpolator.cpp"], [("derivative limiting", "opm/core/utility/MonotCubicInterpolator.cpp: adjustDerivativesForMonotoneness")],
       """The guarantee is a nonlinear inequality over run-time data produced by a map-driven adjustment loop; no static argument in reach establishes it."""),
]
