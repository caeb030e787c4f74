// Reference formulations: boundary-condition and source tables, compressible quantities, CSR systems
#include <opm/core/grid.h>
#include <opm/core/pressure/tpfa/compr_bc.h>
#include <opm/core/pressure/tpfa/compr_source.h>
#include <opm/core/pressure/tpfa/compr_quant.h>
#include <opm/core/transport/implicit/transport_source.h>
#include <cstdlib>
#include <cstring>
#include <algorithm>
namespace vspec {
// ---- compressible boundary conditions
compr_bc* compr_bc_allocate(int np, int nbc)
{
    if (np <= 0) return 0;
    compr_bc* b = (compr_bc*) malloc(sizeof *b);
    b->nbc = 0; b->nphases = np; b->cpty = nbc > 0 ? nbc : 0;
    b->type = 0; b->face = 0; b->press = 0; b->flux = 0; b->saturation = 0;
    if (nbc > 0) {
        b->type = (compr_bc_type*) malloc(nbc * sizeof *b->type);
        b->face = (int*) malloc(nbc * sizeof *b->face);
        b->press = (double*) malloc(nbc * sizeof *b->press);
        b->flux = (double*) malloc(nbc * sizeof *b->flux);
        b->saturation = (double*) malloc(nbc * np * sizeof *b->saturation);
    }
    return b;
}
int compr_bc_append(compr_bc_type t, int f, int np, double p, double v, const double* sat, compr_bc* b)
{
    if (np != b->nphases) return -1;
    const int n = b->nbc;
    if (n == b->cpty) {
        b->cpty = n + 1;
        b->type = (compr_bc_type*) realloc(b->type, (n + 1) * sizeof *b->type);
        b->face = (int*) realloc(b->face, (n + 1) * sizeof *b->face);
        b->press = (double*) realloc(b->press, (n + 1) * sizeof *b->press);
        b->flux = (double*) realloc(b->flux, (n + 1) * sizeof *b->flux);
        b->saturation = (double*) realloc(b->saturation, (n + 1) * np * sizeof *b->saturation);
    }
    b->type[n] = t; b->face[n] = f; b->press[n] = p; b->flux[n] = v;
    for (int k = 0; k < np; ++k) b->saturation[n*np + k] = sat[k];
    b->nbc = n + 1;
    return 1;
}
void compr_bc_clear(compr_bc* b) { b->nbc = 0; }
// ---- compressible sources
compr_src* compr_src_allocate(int np, int n)
{
    if (np <= 0) return 0;
    compr_src* s = (compr_src*) malloc(sizeof *s);
    s->nsrc = 0; s->nphases = np; s->cpty = n > 0 ? n : 0;
    s->cell = 0; s->flux = 0; s->saturation = 0;
    if (n > 0) {
        s->cell = (int*) malloc(n * sizeof(int));
        s->flux = (double*) malloc(n * sizeof(double));
        s->saturation = (double*) malloc(n * np * sizeof(double));
    }
    return s;
}
int append_compr_source_term(int c, int np, double v, const double* sat, compr_src* s)
{
    if (np != s->nphases) return -1;
    const int n = s->nsrc;
    if (n == s->cpty) {
        s->cpty = n + 1;
        s->cell = (int*) realloc(s->cell, (n + 1) * sizeof *s->cell);
        s->flux = (double*) realloc(s->flux, (n + 1) * sizeof *s->flux);
        s->saturation = (double*) realloc(s->saturation, (n + 1) * np * sizeof *s->saturation);
    }
    s->cell[n] = c; s->flux[n] = v;
    for (int k = 0; k < np; ++k) s->saturation[n*np + k] = sat[k];
    s->nsrc = n + 1;
    return 1;
}
void clear_compr_source_term(compr_src* s) { s->nsrc = 0; }
// ---- transport sources
TransportSource* create_transport_source(int n, int np)
{
    if (np <= 0) return 0;
    TransportSource* s = (TransportSource*) malloc(sizeof *s);
    s->nsrc = 0; s->nphase = np; s->cpty = n > 0 ? n : 0;
    s->cell = 0; s->flux = 0; s->saturation = 0; s->pressure = 0; s->surfvolume = 0;
    if (n > 0) {
        s->cell = (int*) malloc(n * sizeof(int));
        s->pressure = (double*) malloc(n * sizeof(double));
        s->flux = (double*) malloc(n * sizeof(double));
        s->saturation = (double*) malloc(n * np * sizeof(double));
        s->surfvolume = (double*) malloc(n * np * sizeof(double));
    }
    return s;
}
int append_transport_source(int c, int np, double p, double v, const double* sat, const double* z, TransportSource* s)
{
    if (np != s->nphase) return -1;
    const int n = s->nsrc;
    if (n == s->cpty) {
        s->cpty = n + 1;
        s->cell = (int*) realloc(s->cell, (n + 1) * sizeof *s->cell);
        s->flux = (double*) realloc(s->flux, (n + 1) * sizeof *s->flux);
        s->pressure = (double*) realloc(s->pressure, (n + 1) * sizeof *s->pressure);
        s->saturation = (double*) realloc(s->saturation, (n + 1) * np * sizeof *s->saturation);
        s->surfvolume = (double*) realloc(s->surfvolume, (n + 1) * np * sizeof *s->surfvolume);
    }
    s->cell[n] = c; s->pressure[n] = p; s->flux[n] = v;
    for (int k = 0; k < np; ++k) { s->saturation[n*np + k] = sat[k]; s->surfvolume[n*np + k] = z[k]; }
    s->nsrc = n + 1;
    return 1;
}
void clear_transport_source(TransportSource* s) { s->nsrc = 0; }
// ---- compressible quantities
void compr_flux_term(UnstructuredGrid* G, const double* fflux, const double* zeta, double* Biv)
{
    for (int c = 0; c < G->number_of_cells; ++c)
        for (int i = G->cell_facepos[c]; i < G->cell_facepos[c+1]; ++i) {
            const int f = G->cell_faces[i];
            Biv[i] = G->face_cells[2*f] == c ? zeta[c] * fflux[f] : -zeta[c] * fflux[f];
        }
}
void compr_accum_term(size_t nc, double dt, const double* pv, const double* ct, double* P)
{
    for (size_t c = 0; c < nc; ++c) P[c] = ct[c] * pv[c] / dt;
}
void compr_src_add_press_accum(size_t nc, const double* p0, const double* P, double* src)
{
    for (size_t c = 0; c < nc; ++c) src[c] = src[c] + p0[c] * P[c];
}
}
