From b0773a9ca74199145d44907f49a9412a12580fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:20 +0000
Subject: [PATCH 01/12] fix: compr_bc never recorded its capacity, overflowing
 its tables on the second append

---
 opm/core/pressure/tpfa/compr_bc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/pressure/tpfa/compr_bc.c b/opm/core/pressure/tpfa/compr_bc.c
index 32c5bc1..dce5e82 100644
--- a/opm/core/pressure/tpfa/compr_bc.c
+++ b/opm/core/pressure/tpfa/compr_bc.c
@@ -60,6 +60,7 @@ expand_source_tables(int alloc, struct compr_bc *bc)
 
         alloc = 0;
     } else {
+        bc->cpty       = alloc;
         bc->type       = t;  bc->face = f;
         bc->press      = p;  bc->flux = v;
         bc->saturation = s;
-- 
2.43.0


From 5c63a6f3ff1a68981ab0e01b7314fd333aa29e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 02/12] fix: csrmatrix_new_count_nnz freed uninitialised
 pointers on failure; fclose(NULL) after failed fopen

---
 opm/core/linalg/sparse_sys.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/opm/core/linalg/sparse_sys.c b/opm/core/linalg/sparse_sys.c
index 3546965..02cbebf 100644
--- a/opm/core/linalg/sparse_sys.c
+++ b/opm/core/linalg/sparse_sys.c
@@ -37,6 +37,8 @@ csrmatrix_new_count_nnz(size_t m)
 
     new = malloc(1 * sizeof *new);
     if (new != NULL) {
+        new->ja = NULL;
+        new->sa = NULL;
         new->ia = malloc((m + 1) * sizeof *new->ia);
 
         if (new->ia != NULL) {
@@ -44,9 +46,6 @@ csrmatrix_new_count_nnz(size_t m)
 
             new->m   = m;
             new->nnz = 0;
-
-            new->ja  = NULL;
-            new->sa  = NULL;
         } else {
             csrmatrix_delete(new);
             new = NULL;
@@ -211,9 +210,9 @@ csrmatrix_write(const struct CSRMatrix *A, const char *fn)
 
     if (fp != NULL) {
         csrmatrix_write_stream(A, fp);
-    }
 
-    fclose(fp);
+        fclose(fp);
+    }
 }
 
 
@@ -245,9 +244,9 @@ vector_write(size_t n, const double *v, const char *fn)
 
     if (fp != NULL) {
         vector_write_stream(n, v, fp);
-    }
 
-    fclose(fp);
+        fclose(fp);
+    }
 }
 
 
-- 
2.43.0


From d1481e5ad21b70994a32f22e846dd3d0f840271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 03/12] fix: failed growth of source and boundary tables left
 dangling pointers behind

---
 opm/core/pressure/tpfa/compr_bc.c              | 15 +++++++++------
 opm/core/pressure/tpfa/compr_source.c          | 11 +++++++----
 opm/core/transport/implicit/transport_source.c | 14 +++++++++-----
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/opm/core/pressure/tpfa/compr_bc.c b/opm/core/pressure/tpfa/compr_bc.c
index dce5e82..3722ff1 100644
--- a/opm/core/pressure/tpfa/compr_bc.c
+++ b/opm/core/pressure/tpfa/compr_bc.c
@@ -53,17 +53,20 @@ expand_source_tables(int alloc, struct compr_bc *bc)
     v = realloc(bc->flux      , alloc * 1           * sizeof *v);
     s = realloc(bc->saturation, alloc * bc->nphases * sizeof *s);
 
+    /* A successful realloc() invalidates the old block, even if a
+     * different one fails. */
+    if (t != NULL) { bc->type       = t; }
+    if (f != NULL) { bc->face       = f; }
+    if (p != NULL) { bc->press      = p; }
+    if (v != NULL) { bc->flux       = v; }
+    if (s != NULL) { bc->saturation = s; }
+
     if ((t == NULL) || (f == NULL) ||
         (p == NULL) || (v == NULL) || (s == NULL)) {
 
-        free(s);  free(v);  free(p);  free(f);  free(t);
-
         alloc = 0;
     } else {
-        bc->cpty       = alloc;
-        bc->type       = t;  bc->face = f;
-        bc->press      = p;  bc->flux = v;
-        bc->saturation = s;
+        bc->cpty = alloc;
     }
 
     return alloc;
diff --git a/opm/core/pressure/tpfa/compr_source.c b/opm/core/pressure/tpfa/compr_source.c
index eef23bb..0a6dc61 100644
--- a/opm/core/pressure/tpfa/compr_source.c
+++ b/opm/core/pressure/tpfa/compr_source.c
@@ -50,14 +50,17 @@ expand_source_tables(int alloc, struct compr_src *src)
     v = realloc(src->flux      , alloc * 1            * sizeof *v);
     s = realloc(src->saturation, alloc * src->nphases * sizeof *s);
 
-    if ((c == NULL) || (v == NULL) || (s == NULL)) {
+    /* A successful realloc() invalidates the old block, even if a
+     * different one fails. */
+    if (c != NULL) { src->cell       = c; }
+    if (v != NULL) { src->flux       = v; }
+    if (s != NULL) { src->saturation = s; }
 
-        free(s);  free(v);   free(c);
+    if ((c == NULL) || (v == NULL) || (s == NULL)) {
 
         alloc = 0;
     } else {
-        src->cell = c;  src->cpty       = alloc;
-        src->flux = v;  src->saturation = s;
+        src->cpty = alloc;
     }
 
     return alloc;
diff --git a/opm/core/transport/implicit/transport_source.c b/opm/core/transport/implicit/transport_source.c
index 8daf198..59967ac 100644
--- a/opm/core/transport/implicit/transport_source.c
+++ b/opm/core/transport/implicit/transport_source.c
@@ -54,17 +54,21 @@ expand_source_tables(int alloc, struct TransportSource *src)
     s = realloc(src->saturation, alloc * src->nphase * sizeof *s);
     z = realloc(src->surfvolume, alloc * src->nphase * sizeof *z);
 
+    /* A successful realloc() invalidates the old block, even if a
+     * different one fails. */
+    if (c != NULL) { src->cell       = c; }
+    if (p != NULL) { src->pressure   = p; }
+    if (v != NULL) { src->flux       = v; }
+    if (s != NULL) { src->saturation = s; }
+    if (z != NULL) { src->surfvolume = z; }
+
     if ((c == NULL) ||
         (p == NULL) || (v == NULL) ||
         (s == NULL) || (z == NULL)) {
 
-        free(z);  free(s);  free(v);  free(p);   free(c);
-
         alloc = 0;
     } else {
-        src->cell       = c;  src->cpty       = alloc;
-        src->pressure   = p;  src->flux       = v;
-        src->saturation = s;  src->surfvolume = z;
+        src->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From 53597ae26c9a4ea61d2c1376c67a4d04f17ade1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 04/12] fix: wells container dereferenced NULL and leaked
 controls when allocation fails

---
 opm/core/wells/wells.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index c1327f7..276da8b 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -263,6 +263,13 @@ initialise_new_wells(int nwells, struct Wells *W)
         for (; w < nwells; w++) {
             W->ctrls[w] = NULL;
         }
+
+        /* Capacity is not increased upon failure, so nobody else
+         * releases these. */
+        for (w = m->well_cpty; w < nwells; w++) {
+            well_controls_destroy(W->ctrls[w]);
+            W->ctrls[w] = NULL;
+        }
     }
 
     return ok;
@@ -410,11 +417,12 @@ destroy_wells(struct Wells *W)
     if (W != NULL) {
         m = W->data;
 
-        for (w = 0; w < m->well_cpty; w++) {
+        /* No wells exist if create_wells() failed to allocate 'm'. */
+        for (w = 0; (m != NULL) && (w < m->well_cpty); w++) {
             well_controls_destroy(W->ctrls[w]);
         }
 
-        for (w = 0; w < m->well_cpty; w++) {
+        for (w = 0; (m != NULL) && (w < m->well_cpty); w++) {
             free(W->name[w]);
         }
 
-- 
2.43.0


From 0351c6096bc5bacb14fc10743ba2557c1d0199f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 05/12] fix: GCONINJE reservoir volume rate limit was not
 converted to SI units

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 9041b28..c2b59b1 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1085,6 +1085,7 @@ struct GCONINJE : public SpecialBase
             } else {
                 gconinje[i].surface_flow_max_rate_ *= units.liqvol_s/units.time;
             }
+            gconinje[i].resv_flow_max_rate_ *= units.liqvol_r/units.time;
         }
     }
 };
-- 
2.43.0


From 4f67407d8dfbb4d8530e85b844110671157d38e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 06/12] fix: gas and liquid rate limits of WCONPROD never
 reached the well

---
 opm/core/wells/WellsGroup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 5e9c4ed..d5b10b8 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -1088,6 +1088,8 @@ namespace Opm
                         production_specification.oil_max_rate_ = line.oil_max_rate_;
                         production_specification.control_mode_ = toProductionControlMode(line.control_mode_);
                         production_specification.water_max_rate_ = line.water_max_rate_;
+                        production_specification.gas_max_rate_ = line.gas_max_rate_;
+                        production_specification.liquid_max_rate_ = line.liquid_max_rate_;
                         injection_specification.guide_rate_ = 0.0; // we know we're not an injector
                     }
                 }
-- 
2.43.0


From eded0c0834b161762fdcd0f5b15e5cbeae4f18fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 07/12] fix: WellReport used the first well's injection
 composition for every well

---
 opm/core/utility/miscUtilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 468dad6..475ccab 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -617,7 +617,7 @@ namespace Opm
                 well_rate_total += perf_rate;
                 if (perf_rate > 0.0) {
                     // Injection.
-                    well_rate_water += perf_rate*wells.comp_frac[0];
+                    well_rate_water += perf_rate*wells.comp_frac[np*w];
                 } else {
                     // Production.
                     const int cell = wells.well_cells[perf];
@@ -675,7 +675,7 @@ namespace Opm
                 well_rate_total += perf_rate;
                 if (perf_rate > 0.0) {
                     // Injection.
-                    well_rate_water += perf_rate*wells.comp_frac[0];
+                    well_rate_water += perf_rate*wells.comp_frac[np*w];
                 } else {
                     // Production.
                     const int cell = wells.well_cells[perf];
-- 
2.43.0


From 8d5ed6eae20be6b858ef23edae061a7a72d30ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:16 +0000
Subject: [PATCH 08/12] fix: wellsToSrc kept stale sources and dropped all but
 the last well in a cell

---
 opm/core/utility/miscUtilities.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 475ccab..067dad5 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -454,7 +454,8 @@ namespace Opm
         if (np != 2) {
             THROW("wellsToSrc() requires a 2 phase case.");
         }
-        src.resize(num_cells);
+        src.clear();
+        src.resize(num_cells, 0.0);
         for (int w = 0; w < wells.number_of_wells; ++w) {
             const int cur = wells.ctrls[w]->current;
             if (wells.ctrls[w]->num != 1) {
@@ -476,7 +477,7 @@ namespace Opm
                 flow *= wells.comp_frac[np*w + 0]; // Obtaining water rate for inflow source.
             }
             const int cell = wells.well_cells[wells.well_connpos[w]];
-            src[cell] = flow;
+            src[cell] += flow;
         }
     }
 
-- 
2.43.0


From 64a4b770469632c4d506e0670af98ca5de8dd4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:16 +0000
Subject: [PATCH 09/12] fix: hydrostatic pressure beyond the contact was
 stepped with the wrong interval and count

---
 opm/core/simulator/initState_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index d8e53bd..7c81dc6 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -234,9 +234,10 @@ namespace Opm
             // Switching phase and z_end.
             phase = (phase + 1) % 2;
             z_end = (datum_z > woc) ? zlim[0] : zlim[1];
+            num_steps = int(std::ceil(std::fabs(z_end - woc)/hmin));
             pval = woc_p;
             zval = woc;
-            h = (z_end - datum_z)/double(num_steps);
+            h = (z_end - woc)/double(num_steps);
             for (int i = 0; i < num_steps; ++i) {
                 zval += h;
                 const double dp = rho(pval, phase)*gravity;
-- 
2.43.0


From 3ebdaaad8d9d3cb2f3ca3e3a1a532341745b92ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 10/12] fix: black-oil default initialisation used water
 density for an oil-filled reservoir

---
 opm/core/simulator/initState_impl.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index 7c81dc6..d244487 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -454,7 +454,12 @@ namespace Opm
             // Initialise pressure to hydrostatic state.
             const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
-            const double woc = -1e100;
+            // Minimum water everywhere: put the contact at the deepest cell,
+            // so that pressure follows the oil density throughout.
+            double woc = ref_z;
+            for (int cell = 0; cell < num_cells; ++cell) {
+                woc = std::max(woc, grid.cell_centroids[grid.dimensions*cell + grid.dimensions - 1]);
+            }
             initHydrostaticPressure(grid, props, woc, gravity, ref_z, ref_p, state);
         }
 
-- 
2.43.0


From 169836b9f5be544dd9294fafa5e21e51ec3a2cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:13 +0000
Subject: [PATCH 11/12] fix: GravityColumnSolver headers included each other
 under a path that does not exist

---
 opm/core/transport/implicit/GravityColumnSolver.hpp      | 2 +-
 opm/core/transport/implicit/GravityColumnSolver_impl.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/transport/implicit/GravityColumnSolver.hpp b/opm/core/transport/implicit/GravityColumnSolver.hpp
index 1213297..0d058e5 100644
--- a/opm/core/transport/implicit/GravityColumnSolver.hpp
+++ b/opm/core/transport/implicit/GravityColumnSolver.hpp
@@ -61,6 +61,6 @@ namespace Opm
 
 } // namespace Opm
 
-#include <opm/core/transport/GravityColumnSolver_impl.hpp>
+#include <opm/core/transport/implicit/GravityColumnSolver_impl.hpp>
 
 #endif // OPM_GRAVITYCOLUMNSOLVER_HEADER_INCLUDED
diff --git a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
index 7e31778..d3c9b26 100644
--- a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
+++ b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
@@ -17,7 +17,7 @@
   along with OPM.  If not, see <http://www.gnu.org/licenses/>.
 */
 
-#include <opm/core/transport/GravityColumnSolver.hpp>
+#include <opm/core/transport/implicit/GravityColumnSolver.hpp>
 #include <opm/core/linalg/blas_lapack.h>
 #include <opm/core/utility/ErrorMacros.hpp>
 #include <sys/time.h>
-- 
2.43.0


From 7c4ecbbb52ef724eeed10fec84d4e2cce9cc409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:08 +0000
Subject: [PATCH 12/12] fix: SimulatorTimer::setCurrentStepNum checked the
 current step instead of the requested one

---
 opm/core/simulator/SimulatorTimer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/simulator/SimulatorTimer.cpp b/opm/core/simulator/SimulatorTimer.cpp
index 4aa52ec..f46cc20 100644
--- a/opm/core/simulator/SimulatorTimer.cpp
+++ b/opm/core/simulator/SimulatorTimer.cpp
@@ -72,8 +72,8 @@ namespace Opm
     /// Set current step number.
     void SimulatorTimer::setCurrentStepNum(int step)
     {
-        if (current_step_ < 0 || current_step_ > int(timesteps_.size())) {
-            // Note that we do allow current_step_ == timesteps_.size(),
+        if (step < 0 || step > int(timesteps_.size())) {
+            // Note that we do allow step == timesteps_.size(),
             // that is the done() state.
             THROW("Trying to set invalid step number: " << step);
         }
-- 
2.43.0

