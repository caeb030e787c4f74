// Reference formulation of the incompressible two-point pressure system (opm/core/pressure/tpfa/ifs_tpfa.h)
#include <opm/core/grid.h>
#include <opm/core/wells.h>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/pressure/tpfa/ifs_tpfa.h>
struct ifs_tpfa_impl { double* fgrav; double* work; double* ddata; };
namespace vspec {
// returns ok; *singular says that no pressure level is prescribed
static int incomp(UnstructuredGrid* G, const ifs_tpfa_forces* F, const double* trans, const double* gpress, ifs_tpfa_data* h, bool* singular)
{
    CSRMatrix* A = h->A;
    for (size_t k = 0; k < A->nnz; ++k) A->sa[k] = 0.0;
    for (size_t k = 0; k < A->m; ++k) h->b[k] = 0.0;
    double* fg = h->pimpl->fgrav;
    for (int f = 0; f < G->number_of_faces; ++f) fg[f] = 0.0;
    for (int c = 0; c < G->number_of_cells; ++c) {
        for (int i = G->cell_facepos[c]; i < G->cell_facepos[c+1]; ++i) {
            const int f = G->cell_faces[i];
            if (G->face_cells[2*f] >= 0 && G->face_cells[2*f+1] >= 0) {
                if (G->face_cells[2*f] == c) fg[f] += gpress[i]; else fg[f] -= gpress[i];
            }
        }
    }
    for (int c = 0; c < G->number_of_cells; ++c) {
        for (int i = G->cell_facepos[c]; i < G->cell_facepos[c+1]; ++i) {
            const int f = G->cell_faces[i];
            const bool first = G->face_cells[2*f] == c;
            const int other = first ? G->face_cells[2*f+1] : G->face_cells[2*f];
            h->b[c] -= (first ? 1.0 : -1.0) * trans[f] * fg[f];
            if (other >= 0) {
                A->sa[csrmatrix_elm_index(c, c, A)] += trans[f];
                A->sa[csrmatrix_elm_index(c, other, A)] -= trans[f];
            }
        }
    }
    bool level = false;   // pressure level prescribed
    int ok = 1;
    if (F != 0) {
        const Wells* W = F->W;
        const int nc = G->number_of_cells;
        if (W != 0 && F->totmob != 0 && F->wdp != 0) {
            for (int w = 0; w < W->number_of_wells; ++w) {
                const WellControls* ct = W->ctrls[w];
                const int dof = nc + w;
                const bool shut = ct->current < 0;
                if (shut) {
                    for (int i = W->well_connpos[w]; i < W->well_connpos[w+1]; ++i)
                        A->sa[csrmatrix_elm_index(dof, dof, A)] += F->totmob[W->well_cells[i]] * W->WI[i];
                    h->b[dof] = 0.0;
                } else if (ct->type[ct->current] == BHP) {
                    level = true;
                    const double bhp = ct->target[ct->current];
                    for (int i = W->well_connpos[w]; i < W->well_connpos[w+1]; ++i) {
                        const int c = W->well_cells[i];
                        const double t = F->totmob[c] * W->WI[i];
                        A->sa[csrmatrix_elm_index(c, c, A)] += t;
                        h->b[c] += t * (bhp + F->wdp[i]);
                        A->sa[csrmatrix_elm_index(dof, dof, A)] += t;
                        h->b[dof] += t * bhp;
                    }
                } else if (ct->type[ct->current] == RESERVOIR_RATE) {
                    for (int p = 0; p < W->number_of_phases; ++p)
                        if (ct->distr[W->number_of_phases * ct->current + p] != 1.0) ok = 0;
                    if (ok) {
                        for (int i = W->well_connpos[w]; i < W->well_connpos[w+1]; ++i) {
                            const int c = W->well_cells[i];
                            const double t = F->totmob[c] * W->WI[i];
                            A->sa[csrmatrix_elm_index(c, c, A)] += t;
                            A->sa[csrmatrix_elm_index(c, dof, A)] -= t;
                            A->sa[csrmatrix_elm_index(dof, c, A)] -= t;
                            A->sa[csrmatrix_elm_index(dof, dof, A)] += t;
                            h->b[c] += t * F->wdp[i];
                            h->b[dof] -= t * F->wdp[i];
                        }
                        h->b[dof] += ct->target[ct->current];
                    }
                } else if (ct->type[ct->current] == SURFACE_RATE) {
                    ok = 0;
                }
            }
        }
        const FlowBoundaryConditions* bc = F->bc;
        if (bc != 0) {
            for (size_t i = 0; i < bc->nbc; ++i) {
                if (bc->type[i] == BC_PRESSURE) level = true;
                for (size_t j = bc->cond_pos[i]; j < bc->cond_pos[i+1]; ++j) {
                    const int f = bc->face[j];
                    const bool out = G->face_cells[2*f] >= 0;
                    const int c = out ? G->face_cells[2*f] : G->face_cells[2*f+1];
                    if (bc->type[i] == BC_PRESSURE) {
                        A->sa[csrmatrix_elm_index(c, c, A)] += trans[f];
                        h->b[c] += trans[f] * bc->value[i];
                        h->b[c] -= (out ? 1.0 : -1.0) * trans[f] * fg[f];
                    } else if (bc->type[i] == BC_FLUX_TOTVOL) {
                        h->b[c] += bc->value[i];
                    }
                }
            }
        }
        if (F->src != 0) for (int c = 0; c < nc; ++c) h->b[c] += F->src[c];
    }
    *singular = !level;
    return ok;
}
int ifs_tpfa_assemble(UnstructuredGrid* G, const ifs_tpfa_forces* F, const double* trans, const double* gpress, ifs_tpfa_data* h)
{
    bool singular;
    const int ok = incomp(G, F, trans, gpress, h, &singular);
    if (ok && singular) h->A->sa[0] *= 2.0;
    return ok;
}
int ifs_tpfa_assemble_comprock(UnstructuredGrid* G, const ifs_tpfa_forces* F, const double* trans, const double* gpress,
                               const double* porevol, const double* rock_comp, double dt, const double* pressure, ifs_tpfa_data* h)
{
    bool singular;
    const int ok = incomp(G, F, trans, gpress, h, &singular);
    if (ok) {
        for (int c = 0; c < G->number_of_cells; ++c) {
            h->A->sa[csrmatrix_elm_index(c, c, h->A)] += porevol[c] * rock_comp[c] / dt;
            h->b[c] += porevol[c] * rock_comp[c] / dt * pressure[c];
        }
    }
    return ok;
}
int ifs_tpfa_assemble_comprock_increment(UnstructuredGrid* G, const ifs_tpfa_forces* F, const double* trans, const double* gpress,
                               const double* porevol, const double* rock_comp, double dt, const double* prev_pressure,
                               const double* initial_porevolume, ifs_tpfa_data* h)
{
    bool singular;
    const int ok = incomp(G, F, trans, gpress, h, &singular);
    if (ok) {
        const CSRMatrix* A = h->A;
        double* v = h->pimpl->work;
        for (size_t i = 0; i < A->m; ++i) {
            double s = 0.0;
            for (int j = A->ia[i]; j < A->ia[i+1]; ++j) s += A->sa[j] * prev_pressure[A->ja[j]];
            v[i] = s;
        }
        for (int c = 0; c < G->number_of_cells; ++c) {
            h->b[c] -= (porevol[c] - initial_porevolume[c]) / dt + v[c];
            h->A->sa[csrmatrix_elm_index(c, c, A)] += porevol[c] * rock_comp[c] / dt;
        }
        if (F->W != 0) {
            for (int w = 0; w < F->W->number_of_wells; ++w)
                h->b[G->number_of_cells + w] -= v[G->number_of_cells + w];
        }
    }
    return ok;
}
void ifs_tpfa_press_flux(UnstructuredGrid* G, const ifs_tpfa_forces* F, const double* trans, ifs_tpfa_data* h, ifs_tpfa_solution* soln)
{
    for (int c = 0; c < G->number_of_cells; ++c) soln->cell_press[c] = h->x[c];
    for (int f = 0; f < G->number_of_faces; ++f) {
        const int a = G->face_cells[2*f], b = G->face_cells[2*f+1];
        soln->face_flux[f] = (a >= 0 && b >= 0) ? trans[f] * (soln->cell_press[a] - soln->cell_press[b] + h->pimpl->fgrav[f]) : 0.0;
    }
    if (F == 0) return;
    if (F->bc != 0) {
        for (size_t i = 0; i < F->bc->nbc; ++i) {
            for (size_t j = F->bc->cond_pos[i]; j < F->bc->cond_pos[i+1]; ++j) {
                const int f = F->bc->face[j];
                const int a = G->face_cells[2*f], b = G->face_cells[2*f+1];
                if (F->bc->type[i] == BC_PRESSURE)
                    soln->face_flux[f] = trans[f] * ((a < 0 ? F->bc->value[i] - soln->cell_press[b] : soln->cell_press[a] - F->bc->value[i]) + h->pimpl->fgrav[f]);
                else if (F->bc->type[i] == BC_FLUX_TOTVOL)
                    soln->face_flux[f] = a < 0 ? F->bc->value[i] : -F->bc->value[i];
            }
        }
    }
    if (F->W != 0) {
        const int nc = G->number_of_cells;
        if (soln->well_press != 0)
            for (int w = 0; w < F->W->number_of_wells; ++w)
                if (F->W->ctrls[w]->current >= 0) soln->well_press[w] = h->x[nc + w];
        if (soln->well_flux != 0)
            for (int w = 0; w < F->W->number_of_wells; ++w)
                for (int i = F->W->well_connpos[w]; i < F->W->well_connpos[w+1]; ++i) {
                    const int c = F->W->well_cells[i];
                    soln->well_flux[i] = F->W->ctrls[w]->current < 0 ? 0.0 : F->totmob[c] * F->W->WI[i] * (h->x[nc + w] + F->wdp[i] - soln->cell_press[c]);
                }
    }
}
}
