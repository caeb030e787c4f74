// Reference formulation: flow boundary conditions and CSR systems
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/linalg/sparse_sys.h>
#include <cstdlib>
#include <algorithm>
namespace vspec {
// ---- flow boundary conditions: groups of faces with a common target
FlowBoundaryConditions* flow_conditions_construct(size_t nbc)
{
    FlowBoundaryConditions* b = (FlowBoundaryConditions*) malloc(sizeof *b);
    b->nbc = 0; b->cond_cpty = nbc; b->face_cpty = nbc;
    b->cond_pos = (size_t*) malloc((nbc + 1) * sizeof(size_t));
    b->type = 0; b->value = 0; b->face = 0;
    if (nbc > 0) {
        b->type = (FlowBCType*) malloc(nbc * sizeof(FlowBCType));
        b->value = (double*) malloc(nbc * sizeof(double));
        b->face = (int*) malloc(nbc * sizeof(int));
    }
    b->cond_pos[0] = 0;
    return b;
}
static void grow(size_t n, size_t nf, FlowBoundaryConditions* b)
{
    if (n > b->cond_cpty) {
        b->cond_cpty = n;
        b->type = (FlowBCType*) realloc(b->type, n * sizeof(FlowBCType));
        b->value = (double*) realloc(b->value, n * sizeof(double));
        b->cond_pos = (size_t*) realloc(b->cond_pos, (n + 1) * sizeof(size_t));
    }
    if (nf > b->face_cpty) {
        b->face_cpty = nf;
        b->face = (int*) realloc(b->face, nf * sizeof(int));
    }
}
int flow_conditions_append_multi(FlowBCType type, size_t nfaces, const int* faces, double value, FlowBoundaryConditions* b)
{
    const size_t n = b->nbc, start = b->cond_pos[n];
    grow(n + 1, start + nfaces, b);
    for (size_t k = 0; k < nfaces; ++k) b->face[start + k] = faces[k];
    b->type[n] = type;
    b->value[n] = value;
    b->cond_pos[n + 1] = start + nfaces;
    b->nbc = n + 1;
    return 1;
}
int flow_conditions_append(FlowBCType type, int face, double value, FlowBoundaryConditions* b)
{
    const size_t n = b->nbc, start = b->cond_pos[n];
    grow(n + 1, start + 1, b);
    b->face[start] = face;
    b->type[n] = type;
    b->value[n] = value;
    b->cond_pos[n + 1] = start + 1;
    b->nbc = n + 1;
    return 1;
}
void flow_conditions_clear(FlowBoundaryConditions* b) { b->nbc = 0; }
// ---- sparse systems
CSRMatrix* csrmatrix_new_count_nnz(size_t m)
{
    CSRMatrix* A = (CSRMatrix*) malloc(sizeof *A);
    A->m = m; A->nnz = 0; A->ja = 0; A->sa = 0;
    A->ia = (int*) malloc((m + 1) * sizeof(int));
    for (size_t k = 0; k <= m; ++k) A->ia[k] = 0;
    return A;
}
CSRMatrix* csrmatrix_new_known_nnz(size_t m, size_t nnz)
{
    CSRMatrix* A = (CSRMatrix*) malloc(sizeof *A);
    A->m = m; A->nnz = nnz;
    A->ia = (int*) malloc((m + 1) * sizeof(int));
    A->ja = (int*) malloc(nnz * sizeof(int));
    A->sa = (double*) malloc(nnz * sizeof(double));
    return A;
}
// on entry ia[i+1] counts row i; on return ia[i+1] is the insertion point of row i
size_t csrmatrix_new_elms_pushback(CSRMatrix* A)
{
    int sum = 0;
    for (size_t i = 1; i <= A->m; ++i) {
        const int n = A->ia[i];
        A->ia[i] = sum;
        sum += n;
    }
    A->ia[0] = 0;
    A->nnz = sum;
    A->ja = (int*) malloc(A->nnz * sizeof(int));
    A->sa = (double*) malloc(A->nnz * sizeof(double));
    return A->nnz;
}
void csrmatrix_sortrows(CSRMatrix* A)
{
    for (size_t i = 0; i < A->m; ++i) std::sort(A->ja + A->ia[i], A->ja + A->ia[i+1]);
}
size_t csrmatrix_elm_index(int i, int j, const CSRMatrix* A)
{
    size_t absent;   // no requirement when the element is not present
    const int* p = std::lower_bound(A->ja + A->ia[i], A->ja + A->ia[i+1], j);
    return (p != A->ja + A->ia[i+1] && *p == j) ? p - A->ja : absent;
}
void csrmatrix_zero(CSRMatrix* A) { for (size_t k = 0; k < A->nnz; ++k) A->sa[k] = 0.0; }
void vector_zero(size_t n, double* v) { for (size_t k = 0; k < n; ++k) v[k] = 0.0; }
}
