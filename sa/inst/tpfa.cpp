// Reference formulations of the two-point transmissibilities (opm/core/pressure/tpfa/trans_tpfa.h)
#include <opm/core/grid.h>
#include <cmath>
#include <vector>
namespace vspec {
void tpfa_htrans_compute(UnstructuredGrid* G, const double* perm, double* htrans)
{
    const int d = G->dimensions;
    for (int c = 0; c < G->number_of_cells; ++c) {
        for (int i = G->cell_facepos[c]; i < G->cell_facepos[c + 1]; ++i) {
            const int f = G->cell_faces[i];
            const double sgn = (G->face_cells[2*f] == c) ? 1.0 : -1.0;
            double num = 0.0, den = 0.0;
            for (int r = 0; r < d; ++r) {
                double Kn = 0.0;
                for (int q = 0; q < d; ++q) {
                    Kn += perm[d*d*c + r + q*d] * G->face_normals[d*f + q];
                }
                const double dist = G->face_centroids[d*f + r] - G->cell_centroids[d*c + r];
                num += sgn * dist * Kn;
                den += dist * dist;
            }
            htrans[i] = std::fabs(num / den);
        }
    }
}
void tpfa_trans_compute(UnstructuredGrid* G, const double* htrans, double* trans)
{
    for (int f = 0; f < G->number_of_faces; ++f) trans[f] = 0.0;
    for (int c = 0; c < G->number_of_cells; ++c)
        for (int i = G->cell_facepos[c]; i < G->cell_facepos[c + 1]; ++i)
            trans[G->cell_faces[i]] += 1.0 / htrans[i];
    for (int f = 0; f < G->number_of_faces; ++f) trans[f] = 1.0 / trans[f];
}
void tpfa_eff_trans_compute(UnstructuredGrid* G, const double* totmob, const double* htrans, double* trans)
{
    for (int f = 0; f < G->number_of_faces; ++f) trans[f] = 0.0;
    for (int c = 0; c < G->number_of_cells; ++c)
        for (int i = G->cell_facepos[c]; i < G->cell_facepos[c + 1]; ++i)
            trans[G->cell_faces[i]] += 1.0 / (totmob[c] * htrans[i]);
    for (int f = 0; f < G->number_of_faces; ++f) trans[f] = 1.0 / trans[f];
}
}
