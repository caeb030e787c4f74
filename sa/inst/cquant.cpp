// Reference formulation: storage of compressible quantities
#include <opm/core/pressure/tpfa/compr_quant_general.h>
#include <cstdlib>
namespace vspec {
compr_quantities_gen* compr_quantities_gen_allocate(size_t nc, size_t nf, int np)
{
    compr_quantities_gen* q = (compr_quantities_gen*) malloc(sizeof *q);
    const size_t n2 = (size_t) np * np;
    const size_t tot = 2*n2*nc + n2*nf + np*nf + nc;
    q->nphases = np;
    q->Ac = (double*) malloc(tot * sizeof(double));
    for (size_t k = 0; k < tot; ++k) q->Ac[k] = 0.0;
    q->dAc = q->Ac + n2*nc;
    q->Af = q->Ac + 2*n2*nc;
    q->phasemobf = q->Ac + 2*n2*nc + n2*nf;
    q->voldiscr = q->Ac + 2*n2*nc + n2*nf + np*nf;
    return q;
}
}
