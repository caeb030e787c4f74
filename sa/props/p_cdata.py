from ..core import *
from ..core import GVN, RULE, BRULE

PR = "opm/core/pressure/"


@prop("P04", GVN, title="Boundary-condition and source tables hold exactly what was appended, in order",
      statement="""Creating a table of flow boundary conditions, compressible boundary conditions, compressible sources or transport sources yields an empty table with the requested capacity.
      Appending adds exactly one entry at the end with exactly the given data (growing storage when full), leaves earlier entries alone, reports success, and rejects a phase-count mismatch with a negative status and no change.
      Clearing empties the table.""",
      over=("inputs", "histories"), text="for all sequences of create, append and clear calls with any phase counts and data",
      why="no stable test appends beyond the initial capacity or mixes phase counts",
      files=[PR + "flow_bc.c", PR + "tpfa/compr_bc.c", PR + "tpfa/compr_source.c", "opm/core/transport/implicit/transport_source.c"],
      mech=[("append", PR + "flow_bc.c: flow_conditions_append_multi"), ("append", PR + "tpfa/compr_bc.c: compr_bc_append"),
            ("append", PR + "tpfa/compr_source.c: append_compr_source_term"), ("append", "opm/core/transport/implicit/transport_source.c: append_transport_source")])
def tables(c):
    c.rule(RULE)
    c.rule("Capacities and resized blocks may exceed what the reference formulation needs, never fall short of it.")
    I = ("$4.face_cpty", "$4.cond_cpty", "$3.face_cpty", "$3.cond_cpty", "return.face_cpty", "return.cond_cpty", "$6.cpty", "$4.cpty", "return.cpty")
    for q in ("flow_conditions_construct", "flow_conditions_append", "flow_conditions_append_multi", "flow_conditions_clear",
              "compr_bc_allocate", "compr_bc_append", "compr_bc_clear", "compr_src_allocate", "append_compr_source_term", "clear_compr_source_term",
              "create_transport_source", "append_transport_source", "clear_transport_source"):
        c.spec(q, atleast=I, ints=(0, 4))
    c.rule(BRULE)
    c.base([PR + "flow_bc.c", PR + "tpfa/compr_bc.c", PR + "tpfa/compr_source.c", "opm/core/transport/implicit/transport_source.c"], atleast=I, models=None, ints=(0, 4))


@prop("P05", GVN, title="Compressed-row systems: layout, lookup and zeroing are exact",
      statement="""Creating a sparse matrix gives row pointers and storage of the requested extent; turning row counts into insertion points gives each row a disjoint range of exactly its counted length and storage for all of them;
      sorting orders the column indices within each row; looking up an element returns the position of that row and column; zeroing clears all values and nothing else.""",
      text="for all matrix sizes, sparsity patterns and values", why="no stable test builds matrices through this interface with uneven or empty rows",
      files=["opm/core/linalg/sparse_sys.c", "opm/core/linalg/sparse_sys.h"],
      mech=[("counting and prefix sum", "opm/core/linalg/sparse_sys.c: csrmatrix_new_elms_pushback"), ("lookup", "opm/core/linalg/sparse_sys.c: csrmatrix_elm_index")])
def csr(c):
    c.rule(RULE)
    import random

    def counting(seed):
        r = random.Random(seed)
        m = r.randint(1, 5)
        return {"m": m, "ia": [0] + [r.choice((0, 1, 2, 3)) for _ in range(m - 1)] + [1]}
    c.spec("csrmatrix_new_elms_pushback", models=counting)
    for q in ("csrmatrix_new_count_nnz", "csrmatrix_new_known_nnz", "csrmatrix_sortrows", "csrmatrix_elm_index", "csrmatrix_zero", "vector_zero"):
        c.spec(q, models="fv")
    c.rule(BRULE)
    c.base(["opm/core/linalg/sparse_sys.c"])


@prop("P06", GVN, title="Compressible auxiliary quantities follow their documented formulas and layout",
      statement="""The cell flux contributions are the cell factor times the outward face flux, the accumulation weights are total compressibility times pore volume over the time step, and the accumulation source adds weight times previous pressure.
      The container for general compressible quantities provides zeroed, non-overlapping storage for each documented quantity.""",
      text="for all grids, phase counts and coefficient values", why="no stable test calls these routines",
      files=[PR + "tpfa/compr_quant.c", PR + "tpfa/compr_quant_general.c"],
      mech=[("flux term", PR + "tpfa/compr_quant.c: compr_flux_term"), ("storage layout", PR + "tpfa/compr_quant_general.c: compr_quantities_gen_allocate")])
def cquant(c):
    c.rule(RULE)
    c.spec("compr_quantities_gen_allocate")
    c.spec("compr_flux_term", models="grid")
    c.spec("compr_accum_term")
    c.spec("compr_src_add_press_accum")
    c.rule(BRULE)
    c.base([PR + "tpfa/compr_quant.c", PR + "tpfa/compr_quant_general.c"], models="grid")
