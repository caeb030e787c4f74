from ..core import *
from ..core import GVN, RULE, BRULE

TP = "opm/core/pressure/tpfa/"


@prop("P01", GVN, title="Two-point transmissibilities follow the documented formulas",
      statement="""For every valid grid and permeability field, each one-sided transmissibility is the magnitude of the permeability-weighted
      projection of the face normal on the centroid offset divided by the squared offset; a face's transmissibility is the harmonic combination of its one or
      two half-face values; and the effective transmissibility is the same combination with each half-face value scaled by its own cell's total mobility.
      Nothing but the output array changes.""",
      text="for all grids (2D/3D, any cell/face connectivity, boundary faces included), all permeability tensors and mobilities",
      why="no stable test calls these routines; correctness depends on every index and sign over arbitrary connectivity",
      files=[TP + "trans_tpfa.c", TP + "trans_tpfa.h"],
      mech=[("one-sided transmissibility", TP + "trans_tpfa.c: tpfa_htrans_compute"), ("harmonic combination", TP + "trans_tpfa.c: tpfa_trans_compute"),
            ("mobility-weighted combination", TP + "trans_tpfa.c: tpfa_eff_trans_compute")])
def tpfa_trans(c):
    c.rule(RULE)
    c.spec("tpfa_htrans_compute", models="grid")
    c.spec("tpfa_trans_compute", models="grid")
    c.spec("tpfa_eff_trans_compute", models="grid")


@prop("P02", GVN, title="Incompressible TPFA assembles the mass-balance system and recovers its fluxes",
      statement="""For every grid, transmissibility, gravity term, source, boundary condition and well, the assembled matrix and right-hand side are those of
      the two-point mass balance (including shut, BHP- and rate-controlled wells, rock compressibility, and a pressure level fixed when nothing prescribes one).
      The recovered cell and well pressures, face fluxes, boundary fluxes and perforation fluxes are the ones that system implies for the given solution.""",
      text="for all grids, boundary/source/well configurations and coefficient values",
      why="no stable test assembles a pressure system; a sign or index error appears only for particular combinations of wells, boundary types and gravity",
      files=[TP + "ifs_tpfa.c", TP + "ifs_tpfa.h"],
      mech=[("assembly", TP + "ifs_tpfa.c: ifs_tpfa_assemble, ifs_tpfa_assemble_comprock, ifs_tpfa_assemble_comprock_increment"),
            ("flux recovery", TP + "ifs_tpfa.c: ifs_tpfa_press_flux")])
def ifs_tpfa(c):
    c.rule(RULE)
    for f in ("ifs_tpfa_assemble", "ifs_tpfa_assemble_comprock", "ifs_tpfa_assemble_comprock_increment", "ifs_tpfa_press_flux"):
        c.spec(f, models="fv")
    c.rule(BRULE)
    c.base([TP + "ifs_tpfa.c"])
