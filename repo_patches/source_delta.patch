From 01a81392bcf30889b1121ee4f77b0f7c5aa0e0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 01/46] fix: integer width of Fortran API arguments as
 documented (64-bit integer builds)

---
 src/mmg2d/API_functionsf_2d.c | 10 +++++-----
 src/mmg3d/API_functionsf_3d.c | 12 ++++++------
 src/mmgs/API_functionsf_s.c   | 12 ++++++------
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/mmg2d/API_functionsf_2d.c b/src/mmg2d/API_functionsf_2d.c
index 930c6e1..ef8781f 100644
--- a/src/mmg2d/API_functionsf_2d.c
+++ b/src/mmg2d/API_functionsf_2d.c
@@ -210,7 +210,7 @@ FORTRAN_NAME(MMG2D_SET_MULTIMAT,mmg2d_set_multimat,
  * See \ref MMG2D_Set_lsBaseReference function in \ref mmg2d/libmmg2d.h file.
  */
 FORTRAN_NAME(MMG2D_SET_LSBASEREFERENCE,mmg2d_set_lsbasereference,
-             (MMG5_pMesh *mesh,MMG5_pSol *sol, int *br, int* retval),
+             (MMG5_pMesh *mesh,MMG5_pSol *sol, MMG5_int *br, int* retval),
              (mesh,sol,br,retval)){
   *retval = MMG2D_Set_lsBaseReference(*mesh,*sol,*br);
   return;
@@ -673,7 +673,7 @@ FORTRAN_NAME(MMG2D_GET_TENSORSOLS,mmg2d_get_tensorsols,
  * See \ref MMG2D_Set_ithSol_solsAtVertices function in \ref mmg2d/libmmg2d.h file.
  */
 FORTRAN_NAME(MMG2D_SET_ITHSOL_INSOLSATVERTICES,mmg2d_set_ithsol_insolsatvertices,
-             (MMG5_pSol *sol, MMG5_int *i,double *s,MMG5_int *pos, int* retval),
+             (MMG5_pSol *sol, int *i,double *s,MMG5_int *pos, int* retval),
              (sol,i,s,pos,retval)) {
   *retval = MMG2D_Set_ithSol_inSolsAtVertices(*sol,*i,s,*pos);
   return;
@@ -683,7 +683,7 @@ FORTRAN_NAME(MMG2D_SET_ITHSOL_INSOLSATVERTICES,mmg2d_set_ithsol_insolsatvertices
  * See \ref MMG2D_Get_ithSol_inSolsAtVertices function in \ref mmg2d/libmmg2d.h file.
  */
 FORTRAN_NAME(MMG2D_GET_ITHSOL_INSOLSATVERTICES,mmg2d_get_ithsol_insolsatvertices,
-             (MMG5_pSol *sol, MMG5_int* i,double *s,MMG5_int *pos, int* retval),
+             (MMG5_pSol *sol, int* i,double *s,MMG5_int *pos, int* retval),
              (sol,i,s,pos,retval)) {
   *retval = MMG2D_Get_ithSol_inSolsAtVertices(*sol,*i,s,*pos);
   return;
@@ -694,7 +694,7 @@ FORTRAN_NAME(MMG2D_GET_ITHSOL_INSOLSATVERTICES,mmg2d_get_ithsol_insolsatvertices
  * See \ref MMG2D_Set_ithSols_inSolsAtVertices function in \ref mmg2d/libmmg2d.h file.
  */
 FORTRAN_NAME(MMG2D_SET_ITHSOLS_INSOLSATVERTICES,mmg2d_set_ithsols_insolsatvertices,
-             (MMG5_pSol *sol, MMG5_int *i,double *s, int* retval),
+             (MMG5_pSol *sol, int *i,double *s, int* retval),
              (sol,i,s,retval)) {
   *retval = MMG2D_Set_ithSols_inSolsAtVertices(*sol,*i,s);
   return;
@@ -704,7 +704,7 @@ FORTRAN_NAME(MMG2D_SET_ITHSOLS_INSOLSATVERTICES,mmg2d_set_ithsols_insolsatvertic
  * See \ref MMG2D_Get_ithSols_inSolsAtVertices function in \ref mmg2d/libmmg2d.h file.
  */
 FORTRAN_NAME(MMG2D_GET_ITHSOLS_INSOLSATVERTICES,mmg2d_get_ithsols_insolsatvertices,
-             (MMG5_pSol *sol, MMG5_int* i,double *s, int* retval),
+             (MMG5_pSol *sol, int* i,double *s, int* retval),
              (sol,i,s,retval)) {
   *retval = MMG2D_Get_ithSols_inSolsAtVertices(*sol,*i,s);
   return;
diff --git a/src/mmg3d/API_functionsf_3d.c b/src/mmg3d/API_functionsf_3d.c
index 0c56932..f8324ab 100644
--- a/src/mmg3d/API_functionsf_3d.c
+++ b/src/mmg3d/API_functionsf_3d.c
@@ -833,7 +833,7 @@ FORTRAN_NAME(MMG3D_GET_TENSORSOLS,mmg3d_get_tensorsols,
  * See \ref MMG3D_Set_ithSol_solsAtVertices function in \ref mmg3d/libmmg3d.h file.
  */
 FORTRAN_NAME(MMG3D_SET_ITHSOL_INSOLSATVERTICES,mmg3d_set_ithsol_insolsatvertices,
-             (MMG5_pSol *sol, MMG5_int *i,double *s,MMG5_int *pos, int* retval),
+             (MMG5_pSol *sol, int *i,double *s,MMG5_int *pos, int* retval),
              (sol,i,s,pos,retval)) {
   *retval = MMG3D_Set_ithSol_inSolsAtVertices(*sol,*i,s,*pos);
   return;
@@ -842,7 +842,7 @@ FORTRAN_NAME(MMG3D_SET_ITHSOL_INSOLSATVERTICES,mmg3d_set_ithsol_insolsatvertices
  * See \ref MMG3D_Get_ithSol_inSolsAtVertices function in \ref mmg3d/libmmg3d.h file.
  */
 FORTRAN_NAME(MMG3D_GET_ITHSOL_INSOLSATVERTICES,mmg3d_get_ithsol_insolsatvertices,
-             (MMG5_pSol *sol, MMG5_int* i,double *s,MMG5_int *pos, int* retval),
+             (MMG5_pSol *sol, int* i,double *s,MMG5_int *pos, int* retval),
              (sol,i,s,pos,retval)) {
   *retval = MMG3D_Get_ithSol_inSolsAtVertices(*sol,*i,s,*pos);
   return;
@@ -851,7 +851,7 @@ FORTRAN_NAME(MMG3D_GET_ITHSOL_INSOLSATVERTICES,mmg3d_get_ithsol_insolsatvertices
  * See \ref MMG3D_Set_ithSols_inSolsAtVertices function in \ref mmg3d/libmmg3d.h file.
  */
 FORTRAN_NAME(MMG3D_SET_ITHSOLS_INSOLSATVERTICES,mmg3d_set_ithsols_insolsatvertices,
-             (MMG5_pSol *sol, MMG5_int *i,double *s, int* retval),
+             (MMG5_pSol *sol, int *i,double *s, int* retval),
              (sol,i,s,retval)) {
   *retval = MMG3D_Set_ithSols_inSolsAtVertices(*sol,*i,s);
   return;
@@ -860,7 +860,7 @@ FORTRAN_NAME(MMG3D_SET_ITHSOLS_INSOLSATVERTICES,mmg3d_set_ithsols_insolsatvertic
  * See \ref MMG3D_Get_ithSols_inSolsAtVertices function in \ref mmg3d/libmmg3d.h file.
  */
 FORTRAN_NAME(MMG3D_GET_ITHSOLS_INSOLSATVERTICES,mmg3d_get_ithsols_insolsatvertices,
-             (MMG5_pSol *sol, MMG5_int* i,double *s, int* retval),
+             (MMG5_pSol *sol, int* i,double *s, int* retval),
              (sol,i,s,retval)) {
   *retval = MMG3D_Get_ithSols_inSolsAtVertices(*sol,*i,s);
   return;
@@ -922,7 +922,7 @@ FORTRAN_NAME(MMG3D_SET_IPARAMETER,mmg3d_set_iparameter,
  * See \ref MMG3D_Get_iparameter function in \ref mmg3d/libmmg3d.h file.
  */
 FORTRAN_NAME(MMG3D_GET_IPARAMETER,mmg3d_get_iparameter,
-             (MMG5_pMesh *mesh, int *iparam, MMG5_int* retval),
+             (MMG5_pMesh *mesh, MMG5_int *iparam, int* retval),
              (mesh,iparam,retval)){
   *retval = MMG3D_Get_iparameter(*mesh,*iparam);
   return;
@@ -964,7 +964,7 @@ FORTRAN_NAME(MMG3D_SET_MULTIMAT,mmg3d_set_multimat,
  * See \ref MMG3D_Set_lsBaseReference function in \ref mmg3d/libmmg3d.h file.
  */
 FORTRAN_NAME(MMG3D_SET_LSBASEREFERENCE,mmg3d_set_lsbasereference,
-             (MMG5_pMesh *mesh,MMG5_pSol *sol, int *br, int* retval),
+             (MMG5_pMesh *mesh,MMG5_pSol *sol, MMG5_int *br, int* retval),
              (mesh,sol,br,retval)){
   *retval = MMG3D_Set_lsBaseReference(*mesh,*sol,*br);
   return;
diff --git a/src/mmgs/API_functionsf_s.c b/src/mmgs/API_functionsf_s.c
index 0e0413a..713f225 100644
--- a/src/mmgs/API_functionsf_s.c
+++ b/src/mmgs/API_functionsf_s.c
@@ -607,7 +607,7 @@ FORTRAN_NAME(MMGS_GET_TENSORSOLS,mmgs_get_tensorsols,
  * See \ref MMGS_Set_ithSol_solsAtVertices function in \ref mmgs/libmmgs.h file.
  */
 FORTRAN_NAME(MMGS_SET_ITHSOL_INSOLSATVERTICES,mmgs_set_ithsol_insolsatvertices,
-             (MMG5_pSol *sol, MMG5_int *i,double *s,MMG5_int *pos, int* retval),
+             (MMG5_pSol *sol, int *i,double *s,MMG5_int *pos, int* retval),
              (sol,i,s,pos,retval)) {
   *retval = MMGS_Set_ithSol_inSolsAtVertices(*sol,*i,s,*pos);
   return;
@@ -616,7 +616,7 @@ FORTRAN_NAME(MMGS_SET_ITHSOL_INSOLSATVERTICES,mmgs_set_ithsol_insolsatvertices,
  * See \ref MMGS_Get_ithSol_inSolsAtVertices function in \ref mmgs/libmmgs.h file.
  */
 FORTRAN_NAME(MMGS_GET_ITHSOL_INSOLSATVERTICES,mmgs_get_ithsol_insolsatvertices,
-             (MMG5_pSol *sol, MMG5_int* i,double *s,MMG5_int *pos, int* retval),
+             (MMG5_pSol *sol, int* i,double *s,MMG5_int *pos, int* retval),
              (sol,i,s,pos,retval)) {
   *retval = MMGS_Get_ithSol_inSolsAtVertices(*sol,*i,s,*pos);
   return;
@@ -626,7 +626,7 @@ FORTRAN_NAME(MMGS_GET_ITHSOL_INSOLSATVERTICES,mmgs_get_ithsol_insolsatvertices,
  * See \ref MMGS_Set_ithSols_inSolsAtVertices function in \ref mmgs/libmmgs.h file.
  */
 FORTRAN_NAME(MMGS_SET_ITHSOLS_INSOLSATVERTICES,mmgs_set_ithsols_insolsatvertices,
-             (MMG5_pSol *sol, MMG5_int *i,double *s, int* retval),
+             (MMG5_pSol *sol, int *i,double *s, int* retval),
              (sol,i,s,retval)) {
   *retval = MMGS_Set_ithSols_inSolsAtVertices(*sol,*i,s);
   return;
@@ -635,7 +635,7 @@ FORTRAN_NAME(MMGS_SET_ITHSOLS_INSOLSATVERTICES,mmgs_set_ithsols_insolsatvertices
  * See \ref MMGS_Get_ithSols_inSolsAtVertices function in \ref mmgs/libmmgs.h file.
  */
 FORTRAN_NAME(MMGS_GET_ITHSOLS_INSOLSATVERTICES,mmgs_get_ithsols_insolsatvertices,
-             (MMG5_pSol *sol, MMG5_int* i,double *s, int* retval),
+             (MMG5_pSol *sol, int* i,double *s, int* retval),
              (sol,i,s,retval)) {
   *retval = MMGS_Get_ithSols_inSolsAtVertices(*sol,*i,s);
   return;
@@ -664,7 +664,7 @@ FORTRAN_NAME(MMGS_SET_IPARAMETER,mmgs_set_iparameter,
  * See \ref MMGS_Get_iparameter function in \ref mmgs/libmmgs.h file.
  */
 FORTRAN_NAME(MMGS_GET_IPARAMETER,mmgs_get_iparameter,
-             (MMG5_pMesh *mesh, int *iparam, MMG5_int* retval),
+             (MMG5_pMesh *mesh, MMG5_int *iparam, int* retval),
              (mesh,iparam,retval)){
   *retval = MMGS_Get_iparameter(*mesh,*iparam);
   return;
@@ -706,7 +706,7 @@ FORTRAN_NAME(MMGS_SET_MULTIMAT,mmgs_set_multimat,
  * See \ref MMGS_Set_lsBaseReference function in \ref mmgs/libmmgs.h file.
  */
 FORTRAN_NAME(MMGS_SET_LSBASEREFERENCE,mmgs_set_lsbasereference,
-             (MMG5_pMesh *mesh,MMG5_pSol *sol, int *br, int* retval),
+             (MMG5_pMesh *mesh,MMG5_pSol *sol, MMG5_int *br, int* retval),
              (mesh,sol,br,retval)){
   *retval = MMGS_Set_lsBaseReference(*mesh,*sol,*br);
   return;
-- 
2.43.0


From 68c4235f4621360c49f95697fae0e8a7aa79d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 02/46] fix: deliver the documented return value of the Fortran
 usage and default values routines

---
 src/mmg2d/libmmg2d_toolsf.c |  6 +++---
 src/mmg3d/libmmg3d_toolsf.c | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mmg2d/libmmg2d_toolsf.c b/src/mmg2d/libmmg2d_toolsf.c
index 075a5e5..183dfc5 100644
--- a/src/mmg2d/libmmg2d_toolsf.c
+++ b/src/mmg2d/libmmg2d_toolsf.c
@@ -206,14 +206,14 @@ FORTRAN_NAME(MMG2D_SET_CONSTANTSIZE,mmg2d_set_constantsize,
  * See \ref MMG2D_usage function in \ref mmg2d/libmmg2d.h file.
  */
 FORTRAN_NAME(MMG2D_USAGE,mmg2d_usage,
-             (char *prog, int *strlen),
-             (prog,strlen)) {
+             (char *prog, int *strlen, int *retval),
+             (prog,strlen,retval)) {
   char *tmp = NULL;
 
   tmp = (char*)malloc((*strlen+1)*sizeof(char));
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
-  MMG2D_usage(tmp);
+  *retval = MMG2D_usage(tmp);
   MMG5_SAFE_FREE(tmp);
 
   return;
diff --git a/src/mmg3d/libmmg3d_toolsf.c b/src/mmg3d/libmmg3d_toolsf.c
index cbfefb1..117373f 100644
--- a/src/mmg3d/libmmg3d_toolsf.c
+++ b/src/mmg3d/libmmg3d_toolsf.c
@@ -80,14 +80,14 @@ FORTRAN_NAME(MMG3D_GET_NONBDYTRIANGLE,mmg3d_get_nonbdytriangle,
  * See \ref MMG3D_usage function in \ref mmg3d/libmmg3d.h file.
  */
 FORTRAN_NAME(MMG3D_USAGE,mmg3d_usage,
-             (char *prog, int *strlen),
-             (prog,strlen)) {
+             (char *prog, int *strlen, int *retval),
+             (prog,strlen,retval)) {
   char *tmp = NULL;
 
   tmp = (char*)malloc((*strlen+1)*sizeof(char));
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
-  MMG3D_usage(tmp);
+  *retval = MMG3D_usage(tmp);
   MMG5_SAFE_FREE(tmp);
 
   return;
@@ -109,9 +109,9 @@ FORTRAN_NAME(MMG3D_PARSOP,mmg3d_parsop,
  * See \ref MMG3D_defaultValues function in \ref mmg3d/libmmg3d.h file.
  */
 FORTRAN_NAME(MMG3D_DEFAULTVALUES,mmg3d_defaultvalues,
-             (MMG5_pMesh *mesh),
-             (mesh)) {
-  MMG3D_defaultValues(*mesh);
+             (MMG5_pMesh *mesh, int *retval),
+             (mesh,retval)) {
+  *retval = MMG3D_defaultValues(*mesh);
   return;
 }
 
-- 
2.43.0


From 2d87cd5988bf0d1185d0aeb4770121b1d28d1bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 03/46] fix: name of the Fortran interface of
 MMG3D_switch_metricStorage as documented

---
 src/mmg3d/API_functionsf_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/API_functionsf_3d.c b/src/mmg3d/API_functionsf_3d.c
index f8324ab..8cdc5fc 100644
--- a/src/mmg3d/API_functionsf_3d.c
+++ b/src/mmg3d/API_functionsf_3d.c
@@ -1437,7 +1437,7 @@ FORTRAN_NAME(MMG3D_SAVEALLSOLS,mmg3d_saveallsols,
 /**
  * See \ref MMG3D_switch_metricStorage function in \ref mmg3d/libmmg3d.h file.
  */
-FORTRAN_NAME(MMG3D_SWITCH_METRIC_STORAGE,mmg3d_swith_metricstorage,
+FORTRAN_NAME(MMG3D_SWITCH_METRICSTORAGE,mmg3d_switch_metricstorage,
              (MMG5_pMesh *mesh,MMG5_pSol *met,int* retval),
              (mesh,met,retval)){
 
-- 
2.43.0


From afee86dabab711c45ec23e7f6b182439df537d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 04/46] fix: keep the position of the prism and quadrilateral
 getters in the mesh, not in a static variable

---
 src/common/libmmgtypes.h     |  2 ++
 src/mmg2d/API_functions_2d.c | 25 +++++++++++-----------
 src/mmg3d/API_functions_3d.c | 40 +++++++++++++++++-------------------
 3 files changed, 33 insertions(+), 34 deletions(-)

diff --git a/src/common/libmmgtypes.h b/src/common/libmmgtypes.h
index fe75d61..cdee971 100644
--- a/src/common/libmmgtypes.h
+++ b/src/common/libmmgtypes.h
@@ -618,6 +618,8 @@ typedef struct {
   int       dim; /*!< Dimension of the mesh */
   int       type; /*!< Type of the mesh */
   MMG5_int  npi,nti,nai,nei,np,na,nt,ne,npmax,namax,ntmax,nemax,xpmax,xtmax;
+  MMG5_int  npri; /*!< Number of prisms already delivered by the getter that reads them one by one */
+  MMG5_int  nqi; /*!< Number of quadrilaterals already delivered by the getter that reads them one by one */
   MMG5_int  nquad,nprism; /*!< number of quadrangles and prisms */
   int       nsols; /*!< number of solutions (metric excluded) in the solution file (lower than \a NSOLS_MAX)*/
   MMG5_int  nc1;
diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 3205094..9c5ac1e 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -496,6 +496,7 @@ int MMG2D_Set_meshSize(MMG5_pMesh mesh, MMG5_int np, MMG5_int nt, MMG5_int nquad
   mesh->na  = na;
   mesh->npi = mesh->np;
   mesh->nti = mesh->nt;
+  mesh->nqi = 0;
   mesh->nai = mesh->na;
 
   /*tester si -m definie : renvoie 0 si pas ok et met la taille min dans info.mem */
@@ -1138,10 +1139,8 @@ int MMG2D_Set_quadrilateral(MMG5_pMesh mesh, MMG5_int v0, MMG5_int v1, MMG5_int
 
 int MMG2D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_int* v2, MMG5_int* v3,
                             MMG5_int* ref, int* isRequired) {
-  static MMG5_int nqi = 0;
-
-  if ( nqi == mesh->nquad ) {
-    nqi = 0;
+  if ( mesh->nqi == mesh->nquad ) {
+    mesh->nqi = 0;
     if ( mesh->info.ddebug ) {
       fprintf(stderr,"\n  ## Warning: %s: reset the internal counter of"
               " quadrilaterals.\n",__func__);
@@ -1152,27 +1151,27 @@ int MMG2D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_in
     }
   }
 
-  ++nqi;
+  ++mesh->nqi;
 
-  if ( nqi > mesh->nquad ) {
+  if ( mesh->nqi > mesh->nquad ) {
     fprintf(stderr,"\n  ## Error: %s: unable to get quadra.\n",__func__);
     fprintf(stderr,"    The number of call of MMG2D_Get_quadrilateral function");
     fprintf(stderr," can not exceed the number of quadra: %" MMG5_PRId "\n ",mesh->nquad);
     return 0;
   }
 
-  *v0  = mesh->quadra[nqi].v[0];
-  *v1  = mesh->quadra[nqi].v[1];
-  *v2  = mesh->quadra[nqi].v[2];
-  *v3  = mesh->quadra[nqi].v[3];
+  *v0  = mesh->quadra[mesh->nqi].v[0];
+  *v1  = mesh->quadra[mesh->nqi].v[1];
+  *v2  = mesh->quadra[mesh->nqi].v[2];
+  *v3  = mesh->quadra[mesh->nqi].v[3];
 
   if ( ref != NULL ) {
-    *ref = mesh->quadra[nqi].ref;
+    *ref = mesh->quadra[mesh->nqi].ref;
   }
 
   if ( isRequired != NULL ) {
-    if ( ( mesh->quadra[nqi].tag[0] & MG_REQ) && ( mesh->quadra[nqi].tag[1] & MG_REQ) &&
-         ( mesh->quadra[nqi].tag[2] & MG_REQ) && ( mesh->quadra[nqi].tag[3] & MG_REQ) ) {
+    if ( ( mesh->quadra[mesh->nqi].tag[0] & MG_REQ) && ( mesh->quadra[mesh->nqi].tag[1] & MG_REQ) &&
+         ( mesh->quadra[mesh->nqi].tag[2] & MG_REQ) && ( mesh->quadra[mesh->nqi].tag[3] & MG_REQ) ) {
       *isRequired = 1;
     }
     else
diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index d862907..3187705 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -256,6 +256,8 @@ int MMG3D_setMeshSize_initData(MMG5_pMesh mesh, MMG5_int np, MMG5_int ne, MMG5_i
   mesh->npi = mesh->np;
   mesh->nei = mesh->ne;
   mesh->nti = mesh->nt;
+  mesh->npri = 0;
+  mesh->nqi = 0;
   mesh->nai = mesh->na;
 
   return 1;
@@ -756,10 +758,8 @@ int MMG3D_Set_prism(MMG5_pMesh mesh, MMG5_int v0, MMG5_int v1, MMG5_int v2,
 
 int MMG3D_Get_prism(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_int* v2, MMG5_int* v3,
                     MMG5_int* v4, MMG5_int* v5, MMG5_int* ref, int* isRequired) {
-  static MMG5_int npri = 0;
-
-  if ( npri == mesh->nprism ) {
-    npri = 0;
+  if ( mesh->npri == mesh->nprism ) {
+    mesh->npri = 0;
     if ( mesh->info.ddebug ) {
       fprintf(stderr,"\n  ## Warning: %s: reset the internal counter of prisms.\n",
               __func__);
@@ -770,28 +770,28 @@ int MMG3D_Get_prism(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_int* v2, M
     }
   }
 
-  ++npri;
+  ++mesh->npri;
 
-  if ( npri > mesh->nprism ) {
+  if ( mesh->npri > mesh->nprism ) {
     fprintf(stderr,"\n  ## Error: %s: unable to get prism.\n",__func__);
     fprintf(stderr,"    The number of call of MMG3D_Get_prism function");
     fprintf(stderr," can not exceed the number of prism: %" MMG5_PRId "\n ",mesh->nprism);
     return 0;
   }
 
-  *v0  = mesh->prism[npri].v[0];
-  *v1  = mesh->prism[npri].v[1];
-  *v2  = mesh->prism[npri].v[2];
-  *v3  = mesh->prism[npri].v[3];
-  *v4  = mesh->prism[npri].v[4];
-  *v5  = mesh->prism[npri].v[5];
+  *v0  = mesh->prism[mesh->npri].v[0];
+  *v1  = mesh->prism[mesh->npri].v[1];
+  *v2  = mesh->prism[mesh->npri].v[2];
+  *v3  = mesh->prism[mesh->npri].v[3];
+  *v4  = mesh->prism[mesh->npri].v[4];
+  *v5  = mesh->prism[mesh->npri].v[5];
 
   if ( ref != NULL ) {
-    *ref = mesh->prism[npri].ref;
+    *ref = mesh->prism[mesh->npri].ref;
   }
 
   if ( isRequired != NULL ) {
-    if ( mesh->prism[npri].tag & MG_REQ )
+    if ( mesh->prism[mesh->npri].tag & MG_REQ )
       *isRequired = 1;
     else
       *isRequired = 0;
@@ -1009,10 +1009,8 @@ int MMG3D_Set_quadrilateral(MMG5_pMesh mesh, MMG5_int v0, MMG5_int v1, MMG5_int
 int MMG3D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_int* v2, MMG5_int* v3,
                             MMG5_int* ref,int* isRequired) {
   MMG5_pQuad       pq;
-  static MMG5_int  nqi = 0;
-
-  if ( nqi == mesh->nquad ) {
-    nqi = 0;
+  if ( mesh->nqi == mesh->nquad ) {
+    mesh->nqi = 0;
     if ( mesh->info.ddebug ) {
       fprintf(stderr,"\n  ## Warning: %s: reset the internal counter"
               " of quadrilaterals.\n",__func__);
@@ -1023,16 +1021,16 @@ int MMG3D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_in
     }
   }
 
-  nqi++;
+  mesh->nqi++;
 
-  if ( nqi > mesh->nquad ) {
+  if ( mesh->nqi > mesh->nquad ) {
     fprintf(stderr,"\n  ## Error: %s: unable to get quadrilateral.\n",__func__);
     fprintf(stderr,"    The number of call of MMG3D_Get_quadrilateral function");
     fprintf(stderr," can not exceed the number of quadrilaterals: %" MMG5_PRId "\n ",mesh->nquad);
     return 0;
   }
 
-  pq = &mesh->quadra[nqi];
+  pq = &mesh->quadra[mesh->nqi];
   *v0  = pq->v[0];
   *v1  = pq->v[1];
   *v2  = pq->v[2];
-- 
2.43.0


From 419a37bd47d73291520ad4f3a95a3ec050163338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:26 +0000
Subject: [PATCH 05/46] fix: MMG3D_Get_prisms delivers the vertices of a prism
 in their order

---
 src/mmg3d/API_functions_3d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index 3187705..0928b27 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -839,8 +839,8 @@ int  MMG3D_Get_prisms(MMG5_pMesh mesh, MMG5_int *prisms, MMG5_int *refs, int * a
     j = (i-1)*6;
     pp = &mesh->prism[i];
     prisms[j]   = pp->v[0];
-    prisms[j+2] = pp->v[1];
-    prisms[j+1] = pp->v[2];
+    prisms[j+1] = pp->v[1];
+    prisms[j+2] = pp->v[2];
     prisms[j+3] = pp->v[3];
     prisms[j+4] = pp->v[4];
     prisms[j+5] = pp->v[5];
-- 
2.43.0


From f936fac8caf250c9b10c62b10d8f8362f2808bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:59 +0000
Subject: [PATCH 06/46] fix: MMGS_Set_edges reads the references of the edges
 from the start of the array

---
 src/mmgs/API_functions_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index 71cefa6..52da79a 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -670,7 +670,7 @@ int MMGS_Set_edges(MMG5_pMesh mesh, MMG5_int *edges, MMG5_int *refs) {
     mesh->edge[i].a    = edges[j];
     mesh->edge[i].b    = edges[j+1];
     if ( refs != NULL )
-      mesh->edge[i].ref  = refs[i];
+      mesh->edge[i].ref  = refs[i-1];
     mesh->edge[i].tag |= MG_REF;
   }
 
-- 
2.43.0


From e7e3b749d89323d8e68b68461634d6a1382a5283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:14 +0000
Subject: [PATCH 07/46] fix: MMG2D vector solutions set through the API are
 stored where the library reads them

---
 src/mmg2d/API_functions_2d.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 9c5ac1e..35cf7cc 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1558,7 +1558,7 @@ int MMG2D_Set_vectorSol(MMG5_pSol met, double vx,double vy, MMG5_int pos) {
     return 0;
   }
 
-  isol = (pos-1) * met->size + 1;
+  isol = pos * met->size;
 
   met->m[isol]   = vx;
   met->m[isol+1] = vy;
@@ -1592,8 +1592,8 @@ int MMG2D_Get_vectorSol(MMG5_pSol met, double* vx, double* vy) {
     return 0;
   }
 
-  *vx = met->m[met->size*(met->npi-1)+1];
-  *vy = met->m[met->size*(met->npi-1)+2];
+  *vx = met->m[met->size*met->npi];
+  *vy = met->m[met->size*met->npi+1];
 
   return 1;
 }
@@ -1612,9 +1612,9 @@ int MMG2D_Set_vectorSols(MMG5_pSol met, double *sols) {
 
   for ( k=0; k<met->np; ++k ) {
     j = 2*k;
-    m = &met->m[j];
-    m[1] = sols[j];
-    m[2] = sols[j+1];
+    m = &met->m[j+2];
+    m[0] = sols[j];
+    m[1] = sols[j+1];
   }
 
   return 1;
@@ -1626,10 +1626,10 @@ int MMG2D_Get_vectorSols(MMG5_pSol met, double* sols) {
 
   for ( k=0; k<met->np; ++k ) {
     j = 2*k;
-    m = &met->m[j];
+    m = &met->m[j+2];
 
-    sols[j]   = m[1];
-    sols[j+1] = m[2];
+    sols[j]   = m[0];
+    sols[j+1] = m[1];
   }
 
   return 1;
-- 
2.43.0


From de304bfa19ffae4b9a7d0ac62a82c2c2c6b57f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:27 +0000
Subject: [PATCH 08/46] fix: refusals of vector and tensor solutions by the
 ithSol(s) setters and getters are reported

---
 src/mmg2d/API_functions_2d.c | 16 ++++++++--------
 src/mmg3d/API_functions_3d.c | 16 ++++++++--------
 src/mmgs/API_functions_s.c   | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 35cf7cc..c205b07 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1755,11 +1755,11 @@ int  MMG2D_Set_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG2D_Set_vectorSols(psl,s);
+    return MMG2D_Set_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Set_tensorSols(psl,s);
+    return MMG2D_Set_tensorSols(psl,s);
     break;
 
   default:
@@ -1783,11 +1783,11 @@ int  MMG2D_Get_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG2D_Get_vectorSols(psl,s);
+    return MMG2D_Get_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Get_tensorSols(psl,s);
+    return MMG2D_Get_tensorSols(psl,s);
     break;
 
   default:
@@ -1811,11 +1811,11 @@ int  MMG2D_Set_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double* s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG2D_Set_vectorSol(psl,s[0],s[1],pos);
+    return MMG2D_Set_vectorSol(psl,s[0],s[1],pos);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Set_tensorSol(psl,s[0],s[1],s[2],pos);
+    return MMG2D_Set_tensorSol(psl,s[0],s[1],s[2],pos);
     break;
 
   default:
@@ -1840,11 +1840,11 @@ int  MMG2D_Get_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double *s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG2D_Get_vectorSol(psl,&s[0],&s[1]);
+    return MMG2D_Get_vectorSol(psl,&s[0],&s[1]);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Get_tensorSol(psl,&s[0],&s[1],&s[2]);
+    return MMG2D_Get_tensorSol(psl,&s[0],&s[1],&s[2]);
     break;
 
   default:
diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index 0928b27..1dae7e2 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -1761,11 +1761,11 @@ int  MMG3D_Set_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double* s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG3D_Set_vectorSol(psl,s[0],s[1],s[2],pos);
+    return MMG3D_Set_vectorSol(psl,s[0],s[1],s[2],pos);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
+    return MMG3D_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
     break;
 
   default:
@@ -1790,11 +1790,11 @@ int  MMG3D_Get_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double *s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG3D_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
+    return MMG3D_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
+    return MMG3D_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
     break;
 
   default:
@@ -1818,11 +1818,11 @@ int  MMG3D_Set_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG3D_Set_vectorSols(psl,s);
+    return MMG3D_Set_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Set_tensorSols(psl,s);
+    return MMG3D_Set_tensorSols(psl,s);
     break;
 
   default:
@@ -1846,11 +1846,11 @@ int  MMG3D_Get_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG3D_Get_vectorSols(psl,s);
+    return MMG3D_Get_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Get_tensorSols(psl,s);
+    return MMG3D_Get_tensorSols(psl,s);
     break;
 
   default:
diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index 52da79a..c9e2f88 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -1155,11 +1155,11 @@ int  MMGS_Set_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double* s,MMG5_int po
     break;
 
   case MMG5_Vector:
-    MMGS_Set_vectorSol(psl,s[0],s[1],s[2],pos);
+    return MMGS_Set_vectorSol(psl,s[0],s[1],s[2],pos);
     break;
 
   case MMG5_Tensor:
-    MMGS_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
+    return MMGS_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
     break;
 
   default:
@@ -1184,11 +1184,11 @@ int  MMGS_Get_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double *s,MMG5_int po
     break;
 
   case MMG5_Vector:
-    MMGS_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
+    return MMGS_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
     break;
 
   case MMG5_Tensor:
-    MMGS_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
+    return MMGS_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
     break;
 
   default:
@@ -1212,11 +1212,11 @@ int  MMGS_Set_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMGS_Set_vectorSols(psl,s);
+    return MMGS_Set_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMGS_Set_tensorSols(psl,s);
+    return MMGS_Set_tensorSols(psl,s);
     break;
 
   default:
@@ -1240,11 +1240,11 @@ int  MMGS_Get_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMGS_Get_vectorSols(psl,s);
+    return MMGS_Get_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMGS_Get_tensorSols(psl,s);
+    return MMGS_Get_tensorSols(psl,s);
     break;
 
   default:
-- 
2.43.0


From 087f5be9a6423cbdad8bda6b5cc4b87cc00ed1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:27 +0000
Subject: [PATCH 09/46] fix: the displacement file of mmg2d is written from the
 entries the library uses

---
 src/mmg2d/inout_2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg2d/inout_2d.c b/src/mmg2d/inout_2d.c
index 685264e..dd621ab 100644
--- a/src/mmg2d/inout_2d.c
+++ b/src/mmg2d/inout_2d.c
@@ -2026,7 +2026,7 @@ int MMG2D_savedisp_db(MMG5_pMesh mesh,MMG5_pSol disp,char *filename,int8_t pack)
   for (k=1; k<=mesh->np; k++) {
     ppt = &mesh->point[k];
     if ( ( pack && MG_VOK(ppt) ) || !pack )
-      fprintf(out,"%f %f\n",disp->m[2*(k-1)+1],disp->m[2*(k-1)+2]);
+      fprintf(out,"%f %f\n",disp->m[2*k],disp->m[2*k+1]);
   }
 
   /* End keyword */
-- 
2.43.0


From a40fa28e49155d4110c210b2a20e0148bc38a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 10/46] fix: MMG2D_Set_scalarSol and MMG2D_Set_tensorSol refuse
 positions below 1

---
 src/mmg2d/API_functions_2d.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index c205b07..f2c51ed 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1449,6 +1449,12 @@ int MMG2D_Set_scalarSol(MMG5_pSol met, double s, MMG5_int pos) {
     return 0;
   }
 
+  if ( pos < 1 ) {
+    fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
+            __func__);
+    fprintf(stderr,"    Minimal index of the solution position must be 1.\n");
+    return 0;
+  }
   if ( pos >= met->npmax ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
             __func__);
@@ -1648,6 +1654,12 @@ int MMG2D_Set_tensorSol(MMG5_pSol met, double m11, double m12, double m22,
     return 0;
   }
 
+  if ( pos < 1 ) {
+    fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
+            __func__);
+    fprintf(stderr,"    Minimal index of the solution position must be 1.\n");
+    return 0;
+  }
   if ( pos >= met->npmax ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
             __func__);
-- 
2.43.0


From 73216d18674d65329cfc5695114206abef306274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:34 +0000
Subject: [PATCH 11/46] fix: -isoref as last word of the command line is
 refused instead of read past the arguments

---
 src/mmg2d/libmmg2d_tools.c | 12 +++++++++---
 src/mmg3d/libmmg3d_tools.c | 12 +++++++++---
 src/mmgs/libmmgs_tools.c   | 12 +++++++++---
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/mmg2d/libmmg2d_tools.c b/src/mmg2d/libmmg2d_tools.c
index 0ebf7e9..030b635 100644
--- a/src/mmg2d/libmmg2d_tools.c
+++ b/src/mmg2d/libmmg2d_tools.c
@@ -230,10 +230,16 @@ int MMG2D_parsar(int argc,char *argv[],MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol s
             return 0;
           }
         }
-        else if ( !strcmp(argv[i],"-isoref") && ++i <= argc ) {
-          if ( !MMG2D_Set_iparameter(mesh,met,MMG2D_IPARAM_isoref,
-                                     atoi(argv[i])) )
+        else if ( !strcmp(argv[i],"-isoref") ) {
+          if ( ++i < argc ) {
+            if ( !MMG2D_Set_iparameter(mesh,met,MMG2D_IPARAM_isoref,
+                                       atoi(argv[i])) )
+              return 0;
+          }
+          else {
+            fprintf(stderr,"\nMissing argument option %s\n",argv[i-1]);
             return 0;
+          }
         }
         else {
           MMG2D_usage(argv[0]);
diff --git a/src/mmg3d/libmmg3d_tools.c b/src/mmg3d/libmmg3d_tools.c
index 43fa2b7..fa48512 100644
--- a/src/mmg3d/libmmg3d_tools.c
+++ b/src/mmg3d/libmmg3d_tools.c
@@ -372,10 +372,16 @@ int MMG3D_storeknownar(int argc,char *argv[],MMG5_pMesh mesh,MMG5_pSol met,
             return 0;
           }
         }
-        else if ( !strcmp(argv[i],"-isoref") && ++i <= argc ) {
-          if ( !MMG3D_Set_iparameter(mesh,met,MMG3D_IPARAM_isoref,
-                                     atoi(argv[i])) )
+        else if ( !strcmp(argv[i],"-isoref") ) {
+          if ( ++i < argc ) {
+            if ( !MMG3D_Set_iparameter(mesh,met,MMG3D_IPARAM_isoref,
+                                       atoi(argv[i])) )
+              return 0;
+          }
+          else {
+            fprintf(stderr,"\nMissing argument option %s\n",argv[i-1]);
             return 0;
+          }
         }
         else {
           /* Arg unknown by Mmg: arg starts with -i but is not known */
diff --git a/src/mmgs/libmmgs_tools.c b/src/mmgs/libmmgs_tools.c
index 89f3e88..d72d4ac 100644
--- a/src/mmgs/libmmgs_tools.c
+++ b/src/mmgs/libmmgs_tools.c
@@ -254,10 +254,16 @@ int MMGS_parsar(int argc,char *argv[],MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol so
             return 0;
           }
         }
-        else if ( !strcmp(argv[i],"-isoref") && ++i <= argc ) {
-          if ( !MMGS_Set_iparameter(mesh,met,MMGS_IPARAM_isoref,
-                                    atoi(argv[i])) )
+        else if ( !strcmp(argv[i],"-isoref") ) {
+          if ( ++i < argc ) {
+            if ( !MMGS_Set_iparameter(mesh,met,MMGS_IPARAM_isoref,
+                                       atoi(argv[i])) )
+              return 0;
+          }
+          else {
+            fprintf(stderr,"\nMissing argument option %s\n",argv[i-1]);
             return 0;
+          }
         }
         else {
           MMGS_usage(argv[0]);
-- 
2.43.0


From 98041815c9ded6ba080581f1519676a670964795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:34 +0000
Subject: [PATCH 12/46] fix: -octree as last word of the command line is
 refused instead of read past the arguments

---
 src/mmg3d/libmmg3d_tools.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mmg3d/libmmg3d_tools.c b/src/mmg3d/libmmg3d_tools.c
index fa48512..a77c554 100644
--- a/src/mmg3d/libmmg3d_tools.c
+++ b/src/mmg3d/libmmg3d_tools.c
@@ -527,10 +527,16 @@ int MMG3D_storeknownar(int argc,char *argv[],MMG5_pMesh mesh,MMG5_pSol met,
             return 0;
         }
 #ifndef MMG_PATTERN
-        else if ( !strcmp(argv[i],"-octree") && ++i < argc ) {
-          if ( !MMG3D_Set_iparameter(mesh,met,MMG3D_IPARAM_octree,
-                                     atoi(argv[i])) )
+        else if ( !strcmp(argv[i],"-octree") ) {
+          if ( ++i < argc ) {
+            if ( !MMG3D_Set_iparameter(mesh,met,MMG3D_IPARAM_octree,
+                                       atoi(argv[i])) )
+              return 0;
+          }
+          else {
+            fprintf(stderr,"\nMissing argument option %s\n",argv[i-1]);
             return 0;
+          }
         }
 #endif
         else if( !strcmp(argv[i],"-optimLES") ) {
-- 
2.43.0


From 52c3aa6b7ef2a88d3fbc97fba18471f7438858b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 13/46] fix: -in does not change the verbosity (mmgs, mmg2d)

---
 src/mmg2d/libmmg2d_tools.c | 3 ---
 src/mmgs/libmmgs_tools.c   | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/src/mmg2d/libmmg2d_tools.c b/src/mmg2d/libmmg2d_tools.c
index 030b635..226c6ec 100644
--- a/src/mmg2d/libmmg2d_tools.c
+++ b/src/mmg2d/libmmg2d_tools.c
@@ -221,9 +221,6 @@ int MMG2D_parsar(int argc,char *argv[],MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol s
           if ( ++i < argc && isascii(argv[i][0]) && argv[i][0]!='-') {
             if ( !MMG2D_Set_inputMeshName(mesh, argv[i]) )
               return 0;
-
-            if ( !MMG2D_Set_iparameter(mesh,met,MMG2D_IPARAM_verbose,5) )
-              return 0;
           }else{
             fprintf(stderr,"\nMissing filname for %s\n",argv[i]);
             MMG2D_usage(argv[0]);
diff --git a/src/mmgs/libmmgs_tools.c b/src/mmgs/libmmgs_tools.c
index d72d4ac..54ce3ef 100644
--- a/src/mmgs/libmmgs_tools.c
+++ b/src/mmgs/libmmgs_tools.c
@@ -245,9 +245,6 @@ int MMGS_parsar(int argc,char *argv[],MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol so
           if ( ++i < argc && isascii(argv[i][0]) && argv[i][0]!='-') {
             if ( !MMGS_Set_inputMeshName(mesh, argv[i]) )
               return 0;
-
-            if ( !MMGS_Set_iparameter(mesh,met,MMGS_IPARAM_verbose,5) )
-              return 0;
           }else{
             fprintf(stderr,"\nMissing filname for %s\n",argv[i-1]);
             MMGS_usage(argv[0]);
-- 
2.43.0


From 66d54d0aa04197b46c491c73d592313adb745cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:59 +0000
Subject: [PATCH 14/46] fix: split3op sets the orientation flag of the face it
 makes interior

In the configuration imin12==ip2, imin03==ip3 the second tetra gets faces ip0, ip2
and ip3 as interior faces but the flag was set on ip1 (a parent face) instead of ip0.
---
 src/mmg3d/split_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/split_3d.c b/src/mmg3d/split_3d.c
index d48af88..a8c1713 100644
--- a/src/mmg3d/split_3d.c
+++ b/src/mmg3d/split_3d.c
@@ -2816,7 +2816,7 @@ int MMG5_split3op(MMG5_pMesh mesh, MMG5_pSol met, MMG5_int k, MMG5_int vx[6],int
     xt[1].edg[ie3] = 0;  xt[1].edg[ie4] = 0;
     xt[1].ref [ip0] = 0 ; xt[1].ref [ip2] = 0 ; xt[1].ref [ip3] = 0 ;
     xt[1].ftag[ip0] = 0 ; xt[1].ftag[ip2] = 0 ; xt[1].ftag[ip3] = 0 ;
-    MG_SET(xt[1].ori, ip1); MG_SET(xt[1].ori, ip2); MG_SET(xt[1].ori, ip3);
+    MG_SET(xt[1].ori, ip0); MG_SET(xt[1].ori, ip2); MG_SET(xt[1].ori, ip3);
 
     pt[2]->v[ip0] = vx[ie0] ; pt[2]->v[ip2] = vx[ie5] ;
     xt[2].tag[ie1] = 0;  xt[2].tag[ie2] = ftag[ip2];
-- 
2.43.0


From c743ba23ef48c52465bec2987dda825e4a5d776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:59 +0000
Subject: [PATCH 15/46] fix: split6 takes the face tags of the split tetra from
 its boundary record

They were read from a local structure before it is initialised.
---
 src/mmg3d/split_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/split_3d.c b/src/mmg3d/split_3d.c
index a8c1713..8953e4b 100644
--- a/src/mmg3d/split_3d.c
+++ b/src/mmg3d/split_3d.c
@@ -4518,7 +4518,7 @@ int MMG5_split6(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,MMG5_int vx[6],int8_t m
 
   /* Store face tags and refs from split tetra*/
   for (i=0; i<4; i++) {
-    ftag[i] = (xt.ftag[i] & ~MG_REF);
+    ftag[i] = (xt0.ftag[i] & ~MG_REF);
   }
 
   /* Modify first tetra */
-- 
2.43.0


From d8ea91d491703b0c5bd9a0d5235ec0a95b033488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:59 +0000
Subject: [PATCH 16/46] fix: split6 gives edge vx[1]-vx[5] the tag of the face
 it lies on

The edge joining the middles of edges 1 and 5 lies on face 1, not on face 3.
---
 src/mmg3d/split_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/split_3d.c b/src/mmg3d/split_3d.c
index 8953e4b..178c619 100644
--- a/src/mmg3d/split_3d.c
+++ b/src/mmg3d/split_3d.c
@@ -4762,7 +4762,7 @@ int MMG5_split6(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,MMG5_int vx[6],int8_t m
     xt.tag[3] = ftag[3];  xt.tag[4] = ftag[0];
     xt.edg[1] = 0;  xt.edg[2] = 0;
     xt.edg[3] = 0;  xt.edg[4] = 0;
-    xt.tag[5] = ftag[3];  xt.edg[5] = 0;
+    xt.tag[5] = ftag[1];  xt.edg[5] = 0;
     xt.ref [0] = 0 ; xt.ref [2] = 0 ; xt.ref [3] = 0;
     xt.ftag[0] = 0 ; xt.ftag[2] = 0 ; xt.ftag[3] = 0;
     MG_SET(xt.ori, 0); MG_SET(xt.ori, 2); MG_SET(xt.ori, 3);
-- 
2.43.0


From cbc1f59e7ab42d13449489921f31f35fc2e76b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 17/46] fix: splitbar resets the tags of the new inner edges,
 not those of the kept edges

Each of the three triangles keeps one edge of the split triangle and gets two new
inner edges; the tag and reference of the kept edge were erased instead.
---
 src/mmg2d/split_2d.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mmg2d/split_2d.c b/src/mmg2d/split_2d.c
index f87344f..7bbe43c 100644
--- a/src/mmg2d/split_2d.c
+++ b/src/mmg2d/split_2d.c
@@ -794,14 +794,14 @@ int MMG2D_splitbar(MMG5_pMesh mesh,MMG5_int k,MMG5_int ip) {
   pt1->v[2] = ip;
   pt2->v[0] = ip;
 
-  pt->tag[1] = MG_NOTAG;
-  pt->edg[1] = 0;
+  pt->tag[0] = pt->tag[2] = MG_NOTAG;
+  pt->edg[0] = pt->edg[2] = 0;
 
-  pt1->tag[2] = MG_NOTAG;
-  pt1->edg[2] = 0;
+  pt1->tag[0] = pt1->tag[1] = MG_NOTAG;
+  pt1->edg[0] = pt1->edg[1] = 0;
 
-  pt2->tag[0] = MG_NOTAG;
-  pt2->edg[0] = 0;
+  pt2->tag[1] = pt2->tag[2] = MG_NOTAG;
+  pt2->edg[1] = pt2->edg[2] = 0;
 
   /* Update external adjacencies */
 #ifndef NDEBUG
-- 
2.43.0


From 946425f97c3ff412320c2a4074db0b4f0b78c209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:30 +0000
Subject: [PATCH 18/46] fix: keep the orientation of the boundary faces of the
 second tetra in swap23

MMG3D_swap23 only set the orientation bit of a face inherited from the neighbour and never cleared it, so a face between two
materials seen from the lower one was turned over.
---
 src/mmg3d/swap_3d.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mmg3d/swap_3d.c b/src/mmg3d/swap_3d.c
index 92cf128..a9b3dc6 100644
--- a/src/mmg3d/swap_3d.c
+++ b/src/mmg3d/swap_3d.c
@@ -917,7 +917,8 @@ int MMG3D_swap23(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,int8_t metRidTyp,
     xt[0].ftag[tau0[2]] = 0;
     xt[0].ftag[tau0[3]] = 0;
 
-    if ( MG_GET(pxt1->ori,tau1[1]) ) MG_SET(xt[0].ori, tau0[0]);
+    if ( xt1 && !MG_GET(pxt1->ori,tau1[1]) ) MG_CLR(xt[0].ori, tau0[0]);
+    else MG_SET(xt[0].ori, tau0[0]);
     MG_SET(xt[0].ori, tau0[2]);
     MG_SET(xt[0].ori, tau0[3]);
 
@@ -943,7 +944,8 @@ int MMG3D_swap23(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,int8_t metRidTyp,
     xt[1].ftag[tau0[1]] = 0;
     xt[1].ftag[tau0[3]] = 0;
 
-    if ( MG_GET(pxt1->ori,tau1[3]) ) MG_SET(xt[1].ori, tau0[0]);
+    if ( xt1 && !MG_GET(pxt1->ori,tau1[3]) ) MG_CLR(xt[1].ori, tau0[0]);
+    else MG_SET(xt[1].ori, tau0[0]);
     MG_SET(xt[1].ori, tau0[1]);
     MG_SET(xt[1].ori, tau0[3]);
 
@@ -969,7 +971,8 @@ int MMG3D_swap23(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,int8_t metRidTyp,
     xt[2].ftag[tau0[1]] = 0;
     xt[2].ftag[tau0[2]] = 0;
 
-    if ( MG_GET(pxt1->ori,tau1[2]) ) MG_SET(xt[2].ori, tau0[0]);
+    if ( xt1 && !MG_GET(pxt1->ori,tau1[2]) ) MG_CLR(xt[2].ori, tau0[0]);
+    else MG_SET(xt[2].ori, tau0[0]);
     MG_SET(xt[2].ori, tau0[1]);
     MG_SET(xt[2].ori, tau0[2]);
   }
-- 
2.43.0


From 04e836e718d43c30b94f065c042e71e0d766f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:49 +0000
Subject: [PATCH 19/46] fix: Fortran file-name and usage wrappers allocate with
 the allocator that frees, and test the allocation

---
 src/common/API_functionsf.c | 8 ++++----
 src/mmg2d/libmmg2d_toolsf.c | 2 +-
 src/mmg3d/libmmg3d_toolsf.c | 2 +-
 src/mmgs/libmmgs_toolsf.c   | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common/API_functionsf.c b/src/common/API_functionsf.c
index 6b94a51..76e74e7 100644
--- a/src/common/API_functionsf.c
+++ b/src/common/API_functionsf.c
@@ -58,7 +58,7 @@ FORTRAN_NAME(MMG5_SET_INPUTMESHNAME, mmg5_set_inputmeshname,
              (mesh,meshin,strlen,retval)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,*retval = 0; return);
   strncpy(tmp,meshin,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_inputMeshName(*mesh,tmp);
@@ -76,7 +76,7 @@ FORTRAN_NAME(MMG5_SET_INPUTSOLNAME, mmg5_set_inputsolname,
 
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,*retval = 0; return);
   strncpy(tmp,solin,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_inputSolName(*mesh,*sol,tmp);
@@ -94,7 +94,7 @@ FORTRAN_NAME(MMG5_SET_OUTPUTMESHNAME,mmg5_set_outputmeshname,
              (mesh,meshout,strlen,retval)){
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,*retval = 0; return);
   strncpy(tmp,meshout,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_outputMeshName(*mesh, tmp);
@@ -111,7 +111,7 @@ FORTRAN_NAME(MMG5_SET_OUTPUTSOLNAME,mmg5_set_outputsolname,
              (mesh,sol,solout,strlen,retval)){
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,*retval = 0; return);
   strncpy(tmp,solout,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_outputSolName(*mesh,*sol,tmp);
diff --git a/src/mmg2d/libmmg2d_toolsf.c b/src/mmg2d/libmmg2d_toolsf.c
index 183dfc5..7014487 100644
--- a/src/mmg2d/libmmg2d_toolsf.c
+++ b/src/mmg2d/libmmg2d_toolsf.c
@@ -210,7 +210,7 @@ FORTRAN_NAME(MMG2D_USAGE,mmg2d_usage,
              (prog,strlen,retval)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,*retval = 0; return);
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG2D_usage(tmp);
diff --git a/src/mmg3d/libmmg3d_toolsf.c b/src/mmg3d/libmmg3d_toolsf.c
index 117373f..85e707e 100644
--- a/src/mmg3d/libmmg3d_toolsf.c
+++ b/src/mmg3d/libmmg3d_toolsf.c
@@ -84,7 +84,7 @@ FORTRAN_NAME(MMG3D_USAGE,mmg3d_usage,
              (prog,strlen,retval)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,*retval = 0; return);
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG3D_usage(tmp);
diff --git a/src/mmgs/libmmgs_toolsf.c b/src/mmgs/libmmgs_toolsf.c
index 417685f..dbcbbac 100644
--- a/src/mmgs/libmmgs_toolsf.c
+++ b/src/mmgs/libmmgs_toolsf.c
@@ -82,7 +82,7 @@ FORTRAN_NAME(MMGS_USAGE,mmgs_usage,
              (prog,strlen,retval)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,*retval = 0; return);
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMGS_usage(tmp);
-- 
2.43.0


From 1a998c78ab5b67dd7b6f0325cacc90713ca32906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:49 +0000
Subject: [PATCH 20/46] fix: free the local parameters with the deallocator
 matching their allocation

---
 src/mmg2d/libmmg2d_tools.c | 2 +-
 src/mmg3d/libmmg3d_tools.c | 2 +-
 src/mmgs/libmmgs_tools.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mmg2d/libmmg2d_tools.c b/src/mmg2d/libmmg2d_tools.c
index 226c6ec..31ac5fc 100644
--- a/src/mmg2d/libmmg2d_tools.c
+++ b/src/mmg2d/libmmg2d_tools.c
@@ -693,7 +693,7 @@ int MMG2D_parsop(MMG5_pMesh mesh,MMG5_pSol met) {
 /* Free the structure dedicated to the management of multiple local parameters */
 int MMG2D_freeLocalPar(MMG5_pMesh mesh) {
 
-  free(mesh->info.par);
+  MMG5_DEL_MEM(mesh,mesh->info.par);
   mesh->info.npar = 0;
 
   return 1;
diff --git a/src/mmg3d/libmmg3d_tools.c b/src/mmg3d/libmmg3d_tools.c
index a77c554..6656f44 100644
--- a/src/mmg3d/libmmg3d_tools.c
+++ b/src/mmg3d/libmmg3d_tools.c
@@ -919,7 +919,7 @@ int MMG3D_parsop(MMG5_pMesh mesh,MMG5_pSol met) {
 
 int MMG3D_freeLocalPar(MMG5_pMesh mesh) {
 
-  free(mesh->info.par);
+  MMG5_DEL_MEM(mesh,mesh->info.par);
   mesh->info.npar = 0;
 
   return 1;
diff --git a/src/mmgs/libmmgs_tools.c b/src/mmgs/libmmgs_tools.c
index 54ce3ef..f40b361 100644
--- a/src/mmgs/libmmgs_tools.c
+++ b/src/mmgs/libmmgs_tools.c
@@ -546,7 +546,7 @@ int MMGS_parsar(int argc,char *argv[],MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol so
 
 int MMGS_freeLocalPar(MMG5_pMesh mesh) {
 
-  free(mesh->info.par);
+  MMG5_DEL_MEM(mesh,mesh->info.par);
   mesh->info.npar = 0;
 
   return 1;
-- 
2.43.0


From f8c7533ff7caca0f68032e28369555f36216844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:57 +0000
Subject: [PATCH 21/46] fix: test the result of fopen, calloc and strdup before
 using it

---
 src/common/inout.c     |  5 +++++
 src/common/mmg3.c      |  7 ++++++-
 src/common/tools.c     |  4 ++++
 src/mmg2d/inout_2d.c   | 19 +++++++++++++++++++
 src/mmg3d/quality_3d.c |  4 ++++
 src/mmg3d/tools_3d.c   |  4 ++++
 6 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/common/inout.c b/src/common/inout.c
index bef21a1..ff17b12 100644
--- a/src/common/inout.c
+++ b/src/common/inout.c
@@ -1943,6 +1943,11 @@ int MMG5_saveMshMesh(MMG5_pMesh mesh,MMG5_pSol *sol,const char *filename,
 
     if ( psl->namein ) {
       char *tmp = MMG5_Get_basename(psl->namein);
+      if ( !tmp ) {
+        perror("  ## Memory problem: strdup");
+        fclose(inm);
+        return 0;
+      }
       if ( metricData ) {
         fprintf(inm,"\"%s:metric\"\n",tmp);
       }
diff --git a/src/common/mmg3.c b/src/common/mmg3.c
index 2285142..1dd5408 100644
--- a/src/common/mmg3.c
+++ b/src/common/mmg3.c
@@ -118,10 +118,15 @@ int MMG5_saveDisp(MMG5_pMesh mesh,MMG5_pSol disp) {
 
   strcpy(data,disp->namein);
   ptr = strstr(data,".sol");
-  *ptr = '\0';
+  if ( ptr )
+    *ptr = '\0';
   strcat(data,".o.disp.sol");
 
   out = fopen(data,"w");
+  if ( !out ) {
+    fprintf(stderr,"  ## Error: %s: unable to open %s.\n",__func__,data);
+    return 0;
+  }
 
   fprintf(out,"MeshVersionFormatted 1\n\nDimension\n%d\n\n",disp->dim);
   fprintf(out,"SolAtVertices\n%"MMG5_PRId"\n 1 2\n",disp->np);
diff --git a/src/common/tools.c b/src/common/tools.c
index 7578d6f..a3501d0 100644
--- a/src/common/tools.c
+++ b/src/common/tools.c
@@ -828,6 +828,10 @@ void MMG5_printTria(MMG5_pMesh mesh,char* fileName) {
   FILE       *inm;
 
   inm = fopen(fileName,"w");
+  if ( !inm ) {
+    fprintf(stderr,"  ## Error: %s: unable to open %s.\n",__func__,fileName);
+    return;
+  }
 
   fprintf(inm,"----------> %" MMG5_PRId " TRIANGLES <----------\n",mesh->nt);
   for(k=1; k<=mesh->nt; k++) {
diff --git a/src/mmg2d/inout_2d.c b/src/mmg2d/inout_2d.c
index dd621ab..4f2386c 100644
--- a/src/mmg2d/inout_2d.c
+++ b/src/mmg2d/inout_2d.c
@@ -1786,6 +1786,10 @@ int MMG2D_savemesh_db(MMG5_pMesh mesh,char *filename,int8_t pack) {
   FILE               *out;
 
   out = fopen(filename,"w");
+  if ( !out ) {
+    fprintf(stderr,"  ## Error: %s: unable to open %s.\n",__func__,filename);
+    return 0;
+  }
 
   np = nt = 0;
   /* Write Header */
@@ -1888,6 +1892,11 @@ int MMG2D_savemet_db(MMG5_pMesh mesh,MMG5_pSol met,char *filename,int8_t pack) {
 
   strcat(data,".sol");
   out = fopen(data,"w");
+  if ( !out ) {
+    fprintf(stderr,"  ## Error: %s: unable to open %s.\n",__func__,data);
+    MMG5_SAFE_FREE(data);
+    return 0;
+  }
 
   MMG5_SAFE_FREE(data);
 
@@ -1945,6 +1954,11 @@ int MMG2D_savenor_db(MMG5_pMesh mesh,char *filename,int8_t pack) {
 
   strcat(data,".nor.sol");
   out = fopen(data,"w");
+  if ( !out ) {
+    fprintf(stderr,"  ## Error: %s: unable to open %s.\n",__func__,data);
+    MMG5_SAFE_FREE(data);
+    return 0;
+  }
 
   MMG5_SAFE_FREE(data);
 
@@ -2000,6 +2014,11 @@ int MMG2D_savedisp_db(MMG5_pMesh mesh,MMG5_pSol disp,char *filename,int8_t pack)
 
   strcat(data,".disp.sol");
   out = fopen(data,"w");
+  if ( !out ) {
+    fprintf(stderr,"  ## Error: %s: unable to open %s.\n",__func__,data);
+    MMG5_SAFE_FREE(data);
+    return 0;
+  }
   MMG5_SAFE_FREE(data);
 
   np = 0;
diff --git a/src/mmg3d/quality_3d.c b/src/mmg3d/quality_3d.c
index 4f61083..3997da1 100644
--- a/src/mmg3d/quality_3d.c
+++ b/src/mmg3d/quality_3d.c
@@ -836,6 +836,10 @@ int MMG5_countelt(MMG5_pMesh mesh,MMG5_pSol sol, double *weightelt, long *npcibl
   //FILE *inm;
 
   pdel = (MMG5_int*) calloc(mesh->np+1,sizeof(MMG5_int));
+  if ( !pdel ) {
+    perror("  ## Memory problem: calloc");
+    return 0;
+  }
   nptot = (long) mesh->np;
 
   // svg des poids
diff --git a/src/mmg3d/tools_3d.c b/src/mmg3d/tools_3d.c
index 45e20e2..1816e21 100644
--- a/src/mmg3d/tools_3d.c
+++ b/src/mmg3d/tools_3d.c
@@ -979,6 +979,10 @@ void MMG5_printTetra(MMG5_pMesh mesh,char* fileName) {
     FILE         *inm;
 
     inm = fopen(fileName,"w");
+    if ( !inm ) {
+        fprintf(stderr,"  ## Error: %s: unable to open %s.\n",__func__,fileName);
+        return;
+    }
 
     fprintf(inm,"----------> %" MMG5_PRId " MMG5_TETRAHEDRAS <----------\n",mesh->ne);
     for(k=1; k<=mesh->ne; k++) {
-- 
2.43.0


From 6dabb27a084ad394e2a0eed223c744f6f95b203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 22/46] fix: close the mesh and parameter files on the failure
 paths too

---
 src/mmg2d/inout_2d.c       |  99 ++++++++++++++++++++--------------
 src/mmg2d/libmmg2d_tools.c | 100 ++++++++++++++++++++--------------
 src/mmg3d/inout_3d.c       |   1 +
 src/mmg3d/libmmg3d_tools.c | 107 ++++++++++++++++++++++---------------
 src/mmgs/inout_s.c         |  97 +++++++++++++++++++--------------
 src/mmgs/mmgs.c            |  98 +++++++++++++++++++--------------
 6 files changed, 301 insertions(+), 201 deletions(-)

diff --git a/src/mmg2d/inout_2d.c b/src/mmg2d/inout_2d.c
index 4f2386c..cf40d67 100644
--- a/src/mmg2d/inout_2d.c
+++ b/src/mmg2d/inout_2d.c
@@ -24,9 +24,17 @@
 #include "libmmg2d.h"
 #include "libmmg2d_private.h"
 
-/* read mesh data */
-int MMG2D_loadMesh(MMG5_pMesh mesh,const char *filename) {
-  FILE        *inm;
+/**
+ * \param mesh pointer to the mesh structure.
+ * \param inm pointer to the opened mesh file.
+ * \param bin 1 if the file is at binary format.
+ *
+ * \return 0 if no data, -1 if fail, 1 if success.
+ *
+ * Read mesh data in an opened file (the caller closes it).
+ *
+ */
+static int MMG2D_loadMesh_opened(MMG5_pMesh mesh,FILE *inm,int bin) {
   MMG5_pPoint  ppt;
   MMG5_pEdge   ped;
   MMG5_pTria   pt;
@@ -34,52 +42,18 @@ int MMG2D_loadMesh(MMG5_pMesh mesh,const char *filename) {
   float        fc;
   long         posnp,posnt,posncor,posned,posnq,posreq,posreqed,posntreq,posnqreq;
   MMG5_int     k,tmp,ncor,norient,nreq,ntreq,nreqed,nqreq,nref;
-  int          bin,iswp;
+  int          iswp;
   double       air,dtmp;
   int          bdim,binch,bpos;
   MMG5_int     ref,i;
-  char         *ptr,*data;
   char         chaine[MMG5_FILESTR_LGTH],strskip[MMG5_FILESTR_LGTH];
 
   posnp = posnt = posncor = posned = posnq = posreq = posreqed = posntreq = posnqreq = 0;
   ncor = nreq = nreqed = ntreq = nqreq = 0;
-  bin = 0;
   iswp = 0;
   bpos = 0;
-  mesh->np = mesh->nt = mesh->na = mesh->xp = 0;
   nref = 0;
 
-  MMG5_SAFE_CALLOC(data,strlen(filename)+7,char,return -1);
-  strcpy(data,filename);
-  ptr = strstr(data,".mesh");
-  if ( !ptr ) {
-    strcat(data,".meshb");
-    if (!(inm = fopen(data,"rb")) ) {
-      ptr  = strstr(data,".mesh");
-      *ptr = '\0';
-      strcat(data,".mesh");
-      if (!(inm = fopen(data,"rb")) ) {
-        MMG5_SAFE_FREE(data);
-        return 0;
-      }
-    }
-    else  bin = 1;
-  }
-  else {
-    ptr = strstr(data,".meshb");
-
-    if ( ptr )  bin = 1;
-
-    if( !(inm = fopen(data,"rb")) ) {
-      MMG5_SAFE_FREE(data);
-      return 0;
-    }
-  }
-  if ( mesh->info.imprim >= 0 ) {
-    fprintf(stdout,"  %%%% %s OPENED\n",data);
-  }
-  MMG5_SAFE_FREE(data);
-
   if (!bin) {
     strcpy(chaine,"D");
     while(fscanf(inm,"%127s",&chaine[0])!=EOF && strncmp(chaine,"End",strlen("End")) ) {
@@ -558,8 +532,6 @@ int MMG2D_loadMesh(MMG5_pMesh mesh,const char *filename) {
     }
   }
 
-  fclose(inm);
-
   if ( nref ) {
     fprintf(stdout,"\n     $$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$ \n");
     fprintf(stdout,"         WARNING : %" MMG5_PRId " entities with unexpected refs (ref< 0).\n",nref);
@@ -594,6 +566,52 @@ int MMG2D_loadMesh(MMG5_pMesh mesh,const char *filename) {
   return 1;
 }
 
+/* read mesh data */
+int MMG2D_loadMesh(MMG5_pMesh mesh,const char *filename) {
+  FILE *inm;
+  int  bin,ier;
+  char *ptr,*data;
+
+  bin = 0;
+  mesh->np = mesh->nt = mesh->na = mesh->xp = 0;
+
+  MMG5_SAFE_CALLOC(data,strlen(filename)+7,char,return -1);
+  strcpy(data,filename);
+  ptr = strstr(data,".mesh");
+  if ( !ptr ) {
+    strcat(data,".meshb");
+    if (!(inm = fopen(data,"rb")) ) {
+      ptr  = strstr(data,".mesh");
+      *ptr = '\0';
+      strcat(data,".mesh");
+      if (!(inm = fopen(data,"rb")) ) {
+        MMG5_SAFE_FREE(data);
+        return 0;
+      }
+    }
+    else  bin = 1;
+  }
+  else {
+    ptr = strstr(data,".meshb");
+
+    if ( ptr )  bin = 1;
+
+    if( !(inm = fopen(data,"rb")) ) {
+      MMG5_SAFE_FREE(data);
+      return 0;
+    }
+  }
+  if ( mesh->info.imprim >= 0 ) {
+    fprintf(stdout,"  %%%% %s OPENED\n",data);
+  }
+  MMG5_SAFE_FREE(data);
+
+  ier = MMG2D_loadMesh_opened(mesh,inm,bin);
+  fclose(inm);
+
+  return ier;
+}
+
 int MMG2D_loadGenericMesh(MMG5_pMesh mesh, MMG5_pSol met, MMG5_pSol sol, const char *filename) {
   int ier=0;
   const char *filenameptr,*solnameptr;
@@ -2170,6 +2188,7 @@ int MMG2D_saveNeigh(MMG5_pMesh mesh,const char *filename) {
   if ( ! mesh->adja ) {
     if ( !MMG2D_hashTria(mesh) ) {
       printf("\n  ## Error: %s: unable to compute triangle adjacencies\n.",__func__);
+      fclose(inm);
       return 0;
     }
   }
diff --git a/src/mmg2d/libmmg2d_tools.c b/src/mmg2d/libmmg2d_tools.c
index 31ac5fc..266db27 100644
--- a/src/mmg2d/libmmg2d_tools.c
+++ b/src/mmg2d/libmmg2d_tools.c
@@ -540,54 +540,22 @@ int MMG2D_defaultValues(MMG5_pMesh mesh) {
 }
 
 /**
- * \param mesh pointer to the mesh
- * \param met pointer to the metric
+ * \param mesh pointer to the mesh structure.
+ * \param met pointer to the sol structure.
+ * \param in pointer to the opened parameter file.
  *
- * \return 1 if success, 0 if fail
+ * \return 1 if success, 0 or -1 if fail.
  *
- * Read parameter file DEFAULT.mmg2d
+ * Read the parameters in an opened file (the caller closes it).
  *
  */
-int MMG2D_parsop(MMG5_pMesh mesh,MMG5_pSol met) {
+static int MMG2D_parsop_opened(MMG5_pMesh mesh,MMG5_pSol met,FILE *in) {
   int        ret,i,j,npar,nbr,split;
   MMG5_int   ref,rin,rex,br;
   float      fp1,fp2,fp3;
-  char       *ptr,data[256];
-  FILE       *in;
+  char       data[256];
   fpos_t     position;
 
-  /* Check for parameter file */
-  if (mesh->info.fparam) {
-    strcpy(data,mesh->info.fparam);
-  }
-  else {
-    strcpy(data,mesh->namein);
-  }
-
-  ptr = MMG5_Get_filenameExt(data);
-
-  if ( ptr ) *ptr = '\0';
-  strcat(data,".mmg2d");
-
-  in = fopen(data,"rb");
-
-  if ( !in ) {
-    if ( !mesh->info.fparam ) {
-      sprintf(data,"%s","DEFAULT.mmg2d");
-      in = fopen(data,"rb");
-      if ( !in )
-        return 1;
-    }
-    else if (mesh->info.fparam ) {
-      fprintf(stderr,"  ** In %s: %s file NOT FOUND. \n",__func__,data);
-      fprintf(stdout,"  ## ERROR: UNABLE TO LOAD PARAMETER FILE.\n");
-      return 0;
-    }
-  }
-  if ( mesh->info.imprim >= 0 ) {
-    fprintf(stdout,"\n  %%%% %s OPENED\n",data);
-  }
-
   /* Read parameters */
   while ( !feof(in) ) {
     ret = fscanf(in,"%255s",data);
@@ -686,10 +654,62 @@ int MMG2D_parsop(MMG5_pMesh mesh,MMG5_pSol met) {
     }
   }
 
-  fclose(in);
   return 1;
 }
 
+/**
+ * \param mesh pointer to the mesh
+ * \param met pointer to the metric
+ *
+ * \return 1 if success, 0 if fail
+ *
+ * Read parameter file DEFAULT.mmg2d
+ *
+ */
+int MMG2D_parsop(MMG5_pMesh mesh,MMG5_pSol met) {
+  char *ptr,data[256];
+  FILE *in;
+  int  ier;
+
+  /* Check for parameter file */
+  if (mesh->info.fparam) {
+    strcpy(data,mesh->info.fparam);
+  }
+  else {
+    strcpy(data,mesh->namein);
+  }
+
+  ptr = MMG5_Get_filenameExt(data);
+
+  if ( ptr ) *ptr = '\0';
+  strcat(data,".mmg2d");
+
+  in = fopen(data,"rb");
+
+  if ( !in ) {
+    if ( !mesh->info.fparam ) {
+      sprintf(data,"%s","DEFAULT.mmg2d");
+      in = fopen(data,"rb");
+      if ( !in )
+        return 1;
+    }
+    else if (mesh->info.fparam ) {
+      fprintf(stderr,"  ** In %s: %s file NOT FOUND. \n",__func__,data);
+      fprintf(stdout,"  ## ERROR: UNABLE TO LOAD PARAMETER FILE.\n");
+      return 0;
+    }
+  }
+  if ( mesh->info.imprim >= 0 ) {
+    fprintf(stdout,"\n  %%%% %s OPENED\n",data);
+  }
+
+  ier = MMG2D_parsop_opened(mesh,met,in);
+  fclose(in);
+
+  /* a truncated file (ier<0) is an error too */
+  return ( ier > 0 );
+}
+
 /* Free the structure dedicated to the management of multiple local parameters */
 int MMG2D_freeLocalPar(MMG5_pMesh mesh) {
 
diff --git a/src/mmg3d/inout_3d.c b/src/mmg3d/inout_3d.c
index 84701a8..589491c 100644
--- a/src/mmg3d/inout_3d.c
+++ b/src/mmg3d/inout_3d.c
@@ -2553,6 +2553,7 @@ int MMG3D_saveNeigh(MMG5_pMesh mesh,const char *filename) {
   if ( ! mesh->adja ) {
     if ( !MMG3D_hashTetra(mesh,1) ) {
       printf("\n  ## Error: %s: unable to compute triangle adjacencies\n.",__func__);
+      fclose(inm);
       return 0;
     }
   }
diff --git a/src/mmg3d/libmmg3d_tools.c b/src/mmg3d/libmmg3d_tools.c
index 6656f44..a397096 100644
--- a/src/mmg3d/libmmg3d_tools.c
+++ b/src/mmg3d/libmmg3d_tools.c
@@ -777,53 +777,23 @@ int MMG3D_parsar(int argc,char *argv[],MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol s
   return 1;
 }
 
-int MMG3D_parsop(MMG5_pMesh mesh,MMG5_pSol met) {
+/**
+ * \param mesh pointer to the mesh structure.
+ * \param met pointer to the sol structure.
+ * \param in pointer to the opened parameter file.
+ *
+ * \return 1 if success, 0 or -1 if fail.
+ *
+ * Read the parameters in an opened file (the caller closes it).
+ *
+ */
+static int MMG3D_parsop_opened(MMG5_pMesh mesh,MMG5_pSol met,FILE *in) {
   float      fp1,fp2,hausd;
   int        i,j,ret,npar,nbr,split;
   MMG5_int   ref,rin,rex,br;
-  char       *ptr,buf[256],data[256];
-  FILE       *in;
+  char       buf[256],data[256];
   fpos_t     position;
 
-  /* check for parameter file */
-  if (mesh->info.fparam) {
-    strcpy(data,mesh->info.fparam);
-  }
-  else {
-    strcpy(data,mesh->namein);
-  }
-
-  ptr = MMG5_Get_filenameExt(data);
-
-  if ( ptr )  *ptr = '\0';
-  strcat(data,".mmg3d");
-
-  in = fopen(data,"rb");
-  if ( !in ) {
-    if ( !mesh->info.fparam ) {
-      strcat(data,".mmg3d5");
-      in = fopen(data,"rb");
-      if ( !in ) {
-        sprintf(data,"%s","DEFAULT.mmg3d");
-        in = fopen(data,"rb");
-        if ( !in ) {
-          sprintf(data,"%s","DEFAULT.mmg3d5");
-          in = fopen(data,"rb");
-          if ( !in ) {
-            return 1;
-          }
-        }
-      }
-    }
-    else if (mesh->info.fparam ) {
-      fprintf(stderr,"  ** In %s: %s file NOT FOUND. \n",__func__,data);
-      fprintf(stdout,"  ## ERROR: UNABLE TO LOAD PARAMETER FILE.\n");
-      return 0;
-    }
-  }
-  if ( mesh->info.imprim >= 0 )
-    fprintf(stdout,"\n  %%%% %s OPENED\n",data);
-
   /* read parameters */
   while ( !feof(in) ) {
     /* scan line */
@@ -913,10 +883,61 @@ int MMG3D_parsop(MMG5_pMesh mesh,MMG5_pSol met) {
       }
     }
   }
-  fclose(in);
+
   return 1;
 }
 
+int MMG3D_parsop(MMG5_pMesh mesh,MMG5_pSol met) {
+  char *ptr,data[256];
+  FILE *in;
+  int  ier;
+
+  /* check for parameter file */
+  if (mesh->info.fparam) {
+    strcpy(data,mesh->info.fparam);
+  }
+  else {
+    strcpy(data,mesh->namein);
+  }
+
+  ptr = MMG5_Get_filenameExt(data);
+
+  if ( ptr )  *ptr = '\0';
+  strcat(data,".mmg3d");
+
+  in = fopen(data,"rb");
+  if ( !in ) {
+    if ( !mesh->info.fparam ) {
+      strcat(data,".mmg3d5");
+      in = fopen(data,"rb");
+      if ( !in ) {
+        sprintf(data,"%s","DEFAULT.mmg3d");
+        in = fopen(data,"rb");
+        if ( !in ) {
+          sprintf(data,"%s","DEFAULT.mmg3d5");
+          in = fopen(data,"rb");
+          if ( !in ) {
+            return 1;
+          }
+        }
+      }
+    }
+    else if (mesh->info.fparam ) {
+      fprintf(stderr,"  ** In %s: %s file NOT FOUND. \n",__func__,data);
+      fprintf(stdout,"  ## ERROR: UNABLE TO LOAD PARAMETER FILE.\n");
+      return 0;
+    }
+  }
+  if ( mesh->info.imprim >= 0 )
+    fprintf(stdout,"\n  %%%% %s OPENED\n",data);
+
+  ier = MMG3D_parsop_opened(mesh,met,in);
+  fclose(in);
+
+  /* a truncated file (ier<0) is an error too */
+  return ( ier > 0 );
+}
+
 int MMG3D_freeLocalPar(MMG5_pMesh mesh) {
 
   MMG5_DEL_MEM(mesh,mesh->info.par);
diff --git a/src/mmgs/inout_s.c b/src/mmgs/inout_s.c
index 222717b..db75e0f 100644
--- a/src/mmgs/inout_s.c
+++ b/src/mmgs/inout_s.c
@@ -38,8 +38,17 @@
 #include "libmmgs_private.h"
 #include <math.h>
 
-int MMGS_loadMesh(MMG5_pMesh mesh, const char *filename) {
-  FILE        *inm;
+/**
+ * \param mesh pointer to the mesh structure.
+ * \param inm pointer to the opened mesh file.
+ * \param bin 1 if the file is at binary format.
+ *
+ * \return 0 if no data, -1 if fail, 1 if success.
+ *
+ * Read mesh data in an opened file (the caller closes it).
+ *
+ */
+static int MMGS_loadMesh_opened(MMG5_pMesh mesh,FILE *inm,int bin) {
   MMG5_pTria  pt1,pt2;
   MMG5_pPoint ppt;
   double      *norm,*n,dd;
@@ -49,54 +58,19 @@ int MMGS_loadMesh(MMG5_pMesh mesh, const char *filename) {
   MMG5_int    k,ia,nq,nri,ip,idn,ng,npreq,nref;
   int         i;
   MMG5_int    ncor,nedreq,ntreq,posnedreq,bpos;
-  int         binch,bin,iswp,bdim;
+  int         binch,iswp,bdim;
   MMG5_int    na;
-  char        *ptr,*data;
   char        chaine[MMG5_FILESTR_LGTH],strskip[MMG5_FILESTR_LGTH];
 
   posnp = posnt = posne = posncor = posnq = 0;
   posned = posnr = posnpreq = posntreq = posnc1 = npreq = 0;
   posnedreq = posnormal = 0;
   ncor = nri = ng = nedreq = nq = ntreq = 0;
-  bin = 0;
   iswp = 0;
   bpos = ia = idn = ip = 0;
-  mesh->np = mesh->nt = mesh->nti = mesh->npi = 0;
 
   nref = 0;
 
-  MMG5_SAFE_CALLOC(data,strlen(filename)+7,char,return -1);
-
-  strcpy(data,filename);
-  ptr = strstr(data,".mesh");
-  if ( !ptr ) {
-    /* data contains the filename without extension */
-    strcat(data,".meshb");
-    if( !(inm = fopen(data,"rb")) ) {
-      /* our file is not a .meshb file, try with .mesh ext */
-      ptr = strstr(data,".mesh");
-      *ptr = '\0';
-      strcat(data,".mesh");
-      if( !(inm = fopen(data,"rb")) ) {
-        MMG5_SAFE_FREE(data);
-        return 0;
-      }
-    }
-    else  bin = 1;
-  }
-  else {
-    ptr = strstr(data,".meshb");
-    if ( ptr )  bin = 1;
-    if( !(inm = fopen(data,"rb")) ) {
-      MMG5_SAFE_FREE(data);
-      return 0;
-    }
-  }
-
-  if ( mesh->info.imprim >= 0 )
-    fprintf(stdout,"  %%%% %s OPENED\n",data);
-  MMG5_SAFE_FREE(data);
-
   if (!bin) {
     strcpy(chaine,"D");
     while(fscanf(inm,"%127s",&chaine[0])!=EOF && strncmp(chaine,"End",strlen("End")) ) {
@@ -638,10 +612,55 @@ int MMGS_loadMesh(MMG5_pMesh mesh, const char *filename) {
     if ( mesh->na )
       fprintf(stdout,"     NUMBER OF EDGES      %8" MMG5_PRId "  RIDGES %6" MMG5_PRId "\n",mesh->na,nri);
   }
-  fclose(inm);
   return 1;
 }
 
+int MMGS_loadMesh(MMG5_pMesh mesh, const char *filename) {
+  FILE *inm;
+  int  bin,ier;
+  char *ptr,*data;
+
+  bin = 0;
+  mesh->np = mesh->nt = mesh->nti = mesh->npi = 0;
+
+  MMG5_SAFE_CALLOC(data,strlen(filename)+7,char,return -1);
+
+  strcpy(data,filename);
+  ptr = strstr(data,".mesh");
+  if ( !ptr ) {
+    /* data contains the filename without extension */
+    strcat(data,".meshb");
+    if( !(inm = fopen(data,"rb")) ) {
+      /* our file is not a .meshb file, try with .mesh ext */
+      ptr = strstr(data,".mesh");
+      *ptr = '\0';
+      strcat(data,".mesh");
+      if( !(inm = fopen(data,"rb")) ) {
+        MMG5_SAFE_FREE(data);
+        return 0;
+      }
+    }
+    else  bin = 1;
+  }
+  else {
+    ptr = strstr(data,".meshb");
+    if ( ptr )  bin = 1;
+    if( !(inm = fopen(data,"rb")) ) {
+      MMG5_SAFE_FREE(data);
+      return 0;
+    }
+  }
+
+  if ( mesh->info.imprim >= 0 )
+    fprintf(stdout,"  %%%% %s OPENED\n",data);
+  MMG5_SAFE_FREE(data);
+
+  ier = MMGS_loadMesh_opened(mesh,inm,bin);
+  fclose(inm);
+
+  return ier;
+}
+
 int MMGS_loadMshMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
   FILE*       inm;
   long        posNodes,posElts,*posNodeData;
diff --git a/src/mmgs/mmgs.c b/src/mmgs/mmgs.c
index 9179317..03fbc86 100644
--- a/src/mmgs/mmgs.c
+++ b/src/mmgs/mmgs.c
@@ -54,52 +54,20 @@ static void MMG5_endcod(void) {
 /**
  * \param mesh pointer to the mesh structure.
  * \param met pointer to the sol structure.
- * \return 1.
+ * \param in pointer to the opened parameter file.
  *
- * Read local parameters file. This file must have the same name as
- * the mesh with the \a .mmgs extension or must be named \a
- * DEFAULT.mmgs.
+ * \return 1 if success, 0 or -1 if fail.
+ *
+ * Read the parameters in an opened file (the caller closes it).
  *
  */
-static int MMGS_parsop(MMG5_pMesh mesh,MMG5_pSol met) {
+static int MMGS_parsop_opened(MMG5_pMesh mesh,MMG5_pSol met,FILE *in) {
   float      fp1,fp2,hausd;
   int        i,j,ret,npar,nbr,split;
   MMG5_int   ref,rin,rex,br;
-  char       *ptr,buf[256],data[256];
-  FILE       *in;
+  char       buf[256],data[256];
   fpos_t     position;
 
-  /* check for parameter file */
-  if (mesh->info.fparam) {
-    strcpy(data,mesh->info.fparam);
-  }
-  else {
-    strcpy(data,mesh->namein);
-  }
-
-  ptr = MMG5_Get_filenameExt(data);
-
-  if ( ptr )  *ptr = '\0';
-  strcat(data,".mmgs");
-
-  in = fopen(data,"rb");
-  if ( !in ) {
-    if ( !mesh->info.fparam ) {
-      sprintf(data,"%s","DEFAULT.mmgs");
-      in = fopen(data,"rb");
-      if ( !in )
-        return 1;
-    }
-    else if (mesh->info.fparam ) {
-      fprintf(stderr,"  ** In %s: %s file NOT FOUND. \n",__func__,data);
-      fprintf(stdout,"  ## ERROR: UNABLE TO LOAD PARAMETER FILE.\n");
-      return 0;
-    }
-  }
-  if ( mesh->info.imprim >= 0 ) {
-    fprintf(stdout,"\n  %%%% %s OPENED\n",data);
-  }
-
   /* read parameters */
   mesh->info.npar = 0;
   while ( !feof(in) ) {
@@ -196,10 +164,62 @@ static int MMGS_parsop(MMG5_pMesh mesh,MMG5_pSol met) {
     }
   }
 
-  fclose(in);
   return 1;
 }
 
+/**
+ * \param mesh pointer to the mesh structure.
+ * \param met pointer to the sol structure.
+ * \return 1.
+ *
+ * Read local parameters file. This file must have the same name as
+ * the mesh with the \a .mmgs extension or must be named \a
+ * DEFAULT.mmgs.
+ *
+ */
+static int MMGS_parsop(MMG5_pMesh mesh,MMG5_pSol met) {
+  char *ptr,data[256];
+  FILE *in;
+  int  ier;
+
+  /* check for parameter file */
+  if (mesh->info.fparam) {
+    strcpy(data,mesh->info.fparam);
+  }
+  else {
+    strcpy(data,mesh->namein);
+  }
+
+  ptr = MMG5_Get_filenameExt(data);
+
+  if ( ptr )  *ptr = '\0';
+  strcat(data,".mmgs");
+
+  in = fopen(data,"rb");
+  if ( !in ) {
+    if ( !mesh->info.fparam ) {
+      sprintf(data,"%s","DEFAULT.mmgs");
+      in = fopen(data,"rb");
+      if ( !in )
+        return 1;
+    }
+    else if (mesh->info.fparam ) {
+      fprintf(stderr,"  ** In %s: %s file NOT FOUND. \n",__func__,data);
+      fprintf(stdout,"  ## ERROR: UNABLE TO LOAD PARAMETER FILE.\n");
+      return 0;
+    }
+  }
+  if ( mesh->info.imprim >= 0 ) {
+    fprintf(stdout,"\n  %%%% %s OPENED\n",data);
+  }
+
+  ier = MMGS_parsop_opened(mesh,met,in);
+  fclose(in);
+
+  /* a truncated file (ier<0) is an error too */
+  return ( ier > 0 );
+}
+
 /**
  * \param mesh pointer to the mesh structure.
  * \return 1 if success, 0 otherwise.
-- 
2.43.0


From 56a60012411a0ffdb70652f91c497111fc45c324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 23/46] fix: edge-tag check gives up when its hash table cannot
 be allocated

---
 src/mmg3d/chkmsh_3d.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mmg3d/chkmsh_3d.c b/src/mmg3d/chkmsh_3d.c
index 0e00d3c..5ce5333 100644
--- a/src/mmg3d/chkmsh_3d.c
+++ b/src/mmg3d/chkmsh_3d.c
@@ -221,7 +221,11 @@ void MMG3D_chkmeshedgestags(MMG5_pMesh mesh) {
   nt = nt/2 + 1;
 
   /* Travel mesh edges and hash boundary ones */
-  MMG5_hNew(mesh,&hash,nt,3*nt);
+  if ( !MMG5_hNew(mesh,&hash,nt,3*nt) ) {
+    fprintf(stderr,"  ## Warning: %s: not enough memory to check the edge tags.\n",
+            __func__);
+    return;
+  }
 
   uint16_t ignored_tag = (~MG_PARBDYBDY) & (~MG_OLDPARBDY);
 
-- 
2.43.0


From 5ab47f26204968633433eab3bc2749e814ec16f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:23 +0000
Subject: [PATCH 24/46] fix: release the temporary memory on the failure paths
 too

---
 src/common/inout.c         |   3 +-
 src/common/mmg2.c          |   6 ++
 src/mmg2d/hash_2d.c        |   4 +-
 src/mmg2d/inout_2d.c       |  15 +++-
 src/mmg2d/libmmg2d.c       |   9 +-
 src/mmg2d/solmap_2d.c      |  10 ++-
 src/mmg3d/hash_3d.c        |  12 ++-
 src/mmg3d/inout_3d.c       | 167 ++++++++++++++++++++++---------------
 src/mmg3d/libmmg3d.c       |   2 +
 src/mmg3d/libmmg3d_tools.c |  21 +++--
 src/mmg3d/mmg3d2.c         |   4 +
 src/mmg3d/mmg3d2s.c        |   2 +
 src/mmg3d/optlap_3d.c      |   9 +-
 src/mmgs/inout_s.c         | 157 +++++++++++++++++++++-------------
 src/mmgs/libmmgs.c         |   1 +
 src/mmgs/libmmgs_tools.c   |   5 +-
 16 files changed, 284 insertions(+), 143 deletions(-)

diff --git a/src/common/inout.c b/src/common/inout.c
index ff17b12..3a09ab4 100644
--- a/src/common/inout.c
+++ b/src/common/inout.c
@@ -303,7 +303,8 @@ int MMG5_loadMshMesh_part1(MMG5_pMesh mesh,const char *filename,
    * solutions in the file (for a greater number of sol, posNoteData is
    * reallocated) */
   initPosNodeDataSize = posNodeDataSize = 20;
-  MMG5_SAFE_CALLOC(*posNodeData,posNodeDataSize,long,return -1);
+  MMG5_SAFE_CALLOC(*posNodeData,posNodeDataSize,long,
+                   MMG5_SAFE_FREE(data); return -1);
 
   strcpy(data,filename);
   ptr = strstr(data,".msh");
diff --git a/src/common/mmg2.c b/src/common/mmg2.c
index c278029..7d6361a 100644
--- a/src/common/mmg2.c
+++ b/src/common/mmg2.c
@@ -968,6 +968,7 @@ int MMG5_rmc(MMG5_pMesh mesh, MMG5_pSol sol){
               " Check that the level-set intersect the mesh.\n"
               " Exit program.\n");
 
+      MMG5_DEL_MEM(mesh,pile);
       return 0;
     }
 
@@ -999,6 +1000,7 @@ int MMG5_rmc(MMG5_pMesh mesh, MMG5_pSol sol){
             ipile++;
             if ( ipile > mesh->nt ) {
               fprintf(stderr,"\n  ## Problem in length of pile; function rmc. Exit program.\n");
+              MMG5_DEL_MEM(mesh,pile);
               return 0;
             }
           }
@@ -1014,6 +1016,7 @@ int MMG5_rmc(MMG5_pMesh mesh, MMG5_pSol sol){
             ipile++;
             if ( ipile > mesh->nt ) {
               fprintf(stderr,"\n  ## Problem in length of pile; function rmc. Exit program.\n");
+              MMG5_DEL_MEM(mesh,pile);
               return 0;
             }
           }
@@ -1063,6 +1066,7 @@ int MMG5_rmc(MMG5_pMesh mesh, MMG5_pSol sol){
     ipile++;
     if ( ipile > mesh->nt ) {
       fprintf(stderr,"\n  ## Problem in length of pile; function rmc. Exit program.\n");
+      MMG5_DEL_MEM(mesh,pile);
       return 0;
     }
 
@@ -1093,6 +1097,7 @@ int MMG5_rmc(MMG5_pMesh mesh, MMG5_pSol sol){
             ipile++;
             if ( ipile > mesh->nt ) {
               fprintf(stderr,"\n  ## Problem in length of pile; function rmc. Exit program.\n");
+              MMG5_DEL_MEM(mesh,pile);
               return 0;
             }
           }
@@ -1108,6 +1113,7 @@ int MMG5_rmc(MMG5_pMesh mesh, MMG5_pSol sol){
             ipile++;
             if ( ipile > mesh->nt ) {
               fprintf(stderr,"\n  ## Problem in length of pile; function rmc. Exit program.\n");
+              MMG5_DEL_MEM(mesh,pile);
               return 0;
             }
           }
diff --git a/src/mmg2d/hash_2d.c b/src/mmg2d/hash_2d.c
index 8d688fa..b15e400 100644
--- a/src/mmg2d/hash_2d.c
+++ b/src/mmg2d/hash_2d.c
@@ -48,8 +48,10 @@ int MMG2D_hashTria(MMG5_pMesh mesh) {
   /* memory alloc */
   MMG5_ADD_MEM(mesh,(3*mesh->ntmax+5)*sizeof(MMG5_int),"adjacency table",
                 printf("  Exit program.\n");
+                MMG5_SAFE_FREE(hcode);
                 return 0;);
-  MMG5_SAFE_CALLOC(mesh->adja,3*mesh->ntmax+5,MMG5_int,return 0);
+  MMG5_SAFE_CALLOC(mesh->adja,3*mesh->ntmax+5,MMG5_int,
+                   MMG5_SAFE_FREE(hcode); return 0);
 
   link  = mesh->adja;
   hsize = mesh->nt;
diff --git a/src/mmg2d/inout_2d.c b/src/mmg2d/inout_2d.c
index cf40d67..d631143 100644
--- a/src/mmg2d/inout_2d.c
+++ b/src/mmg2d/inout_2d.c
@@ -664,7 +664,8 @@ int MMG2D_loadGenericMesh(MMG5_pMesh mesh, MMG5_pSol met, MMG5_pSol sol, const c
 
     /* Optional metric */
     if ( sol ) {
-      MMG5_SAFE_MALLOC(soltmp,strlen(solnameptr)+1,char,return -1);
+      MMG5_SAFE_MALLOC(soltmp,strlen(solnameptr)+1,char,
+                       MMG5_SAFE_FREE(tmp); return -1);
       strcpy(soltmp,solnameptr);
 
       if ( MMG2D_loadSol(mesh,sol,tmp) == -1) {
@@ -1746,7 +1747,12 @@ int MMG2D_saveAllSols(MMG5_pMesh mesh,MMG5_pSol *sol,const char *filename) {
                             dim,mesh->nsols,entities,type,size);
 
 
-  if ( ier < 1 ) return ier;
+  if ( ier < 1 ) {
+    MMG5_SAFE_FREE(type);
+    MMG5_SAFE_FREE(size);
+    MMG5_SAFE_FREE(entities);
+    return ier;
+  }
 
   for (k=1; k<=mesh->np; k++) {
     ppt = &mesh->point[k];
@@ -2327,7 +2333,8 @@ int MMG2D_saveGenericMesh(MMG5_pMesh mesh, MMG5_pSol sol, const char *filename)
   if ( ier && savesolFile ) {
     /* Medit or tetgen output: save the solution in a .sol file */
     if ( sol && sol->np ) {
-      MMG5_SAFE_MALLOC(soltmp,strlen(solnameptr)+1,char,return 0);
+      MMG5_SAFE_MALLOC(soltmp,strlen(solnameptr)+1,char,
+                       MMG5_SAFE_FREE(tmp); return 0);
       strcpy(soltmp,solnameptr);
 
       if ( MMG2D_saveSol(mesh,sol,soltmp) == -1) {
@@ -2338,5 +2345,7 @@ int MMG2D_saveGenericMesh(MMG5_pMesh mesh, MMG5_pSol sol, const char *filename)
     }
   }
 
+  MMG5_SAFE_FREE(tmp);
+
   return ier;
 }
diff --git a/src/mmg2d/libmmg2d.c b/src/mmg2d/libmmg2d.c
index 892b952..b703e5f 100644
--- a/src/mmg2d/libmmg2d.c
+++ b/src/mmg2d/libmmg2d.c
@@ -566,6 +566,7 @@ int MMG2D_mmg2dls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet) {
   if ( mesh->info.lag >= 0 ) {
     fprintf(stdout,"\n  ## ERROR: LAGRANGIAN MODE UNAVAILABLE (MMG2D_IPARAM_lag):\n"
             "            YOU MUST CALL THE MMG2D_mmg2dmov FUNCTION TO MOVE A RIGIDBODY.\n");
+    if ( mettofree ) { MMG5_SAFE_FREE (met); }
     _LIBMMG5_RETURN(mesh,sol,met,MMG5_STRONGFAILURE);
   }
 
@@ -745,7 +746,13 @@ int MMG2D_mmg2dls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet) {
     }
     MMG2D_RETURN_AND_PACK(mesh,sol,met,MMG5_LOWFAILURE);
   }
-  if ( mesh->info.ddebug && !MMG5_chkmsh(mesh,1,1) )  _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
+  if ( mesh->info.ddebug && !MMG5_chkmsh(mesh,1,1) ) {
+    if ( mettofree ) {
+      MMG5_DEL_MEM(mesh,met->m);
+      MMG5_SAFE_FREE (met);
+    }
+    _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
+  }
 
   chrono(OFF,&(ctim[3]));
   printim(ctim[3].gdif,stim);
diff --git a/src/mmg2d/solmap_2d.c b/src/mmg2d/solmap_2d.c
index 91f4e94..32d4192 100644
--- a/src/mmg2d/solmap_2d.c
+++ b/src/mmg2d/solmap_2d.c
@@ -110,11 +110,14 @@ int MMG2D_doSol_iso(MMG5_pMesh mesh,MMG5_pSol sol) {
   if ( sol->size!=1 ) {
     fprintf(stderr,"\n  ## Error: %s: unexpected size of metric: %d.\n",
             __func__,sol->size);
+    MMG5_SAFE_FREE(mark);
     return 0;
   }
 
-  if ( !MMG2D_Set_solSize(mesh,sol,MMG5_Vertex,mesh->np,sol->size) )
+  if ( !MMG2D_Set_solSize(mesh,sol,MMG5_Vertex,mesh->np,sol->size) ) {
+    MMG5_SAFE_FREE(mark);
     return 0;
+  }
 
   /* Travel the triangles edges and add the edge contribution to edges
    * extermities */
@@ -188,11 +191,14 @@ int MMG2D_doSol_ani(MMG5_pMesh mesh,MMG5_pSol sol) {
   if ( sol->size!=3 ) {
     fprintf(stderr,"\n  ## Error: %s: unexpected size of metric: %d.\n",
               __func__,sol->size);
+      MMG5_SAFE_FREE(mark);
       return 0;
     }
 
-  if ( !MMG2D_Set_solSize(mesh,sol,MMG5_Vertex,mesh->np,sol->size) )
+  if ( !MMG2D_Set_solSize(mesh,sol,MMG5_Vertex,mesh->np,sol->size) ) {
+    MMG5_SAFE_FREE(mark);
     return 0;
+  }
 
   /* Travel the triangles edges and add the edge contribution to edges
    * extermities */
diff --git a/src/mmg3d/hash_3d.c b/src/mmg3d/hash_3d.c
index f0cfef1..e3b3a98 100644
--- a/src/mmg3d/hash_3d.c
+++ b/src/mmg3d/hash_3d.c
@@ -671,10 +671,15 @@ int MMG5_setVertexNmTag(MMG5_pMesh mesh,uint16_t func(uint16_t) ) {
   }
 
   /* Array to store info of incident feature edges at points */
-  MMG5_SAFE_CALLOC(nfeat,3*(np+1),MMG5_int,return 0);
+  MMG5_SAFE_CALLOC(nfeat,3*(np+1),MMG5_int,
+                   MMG5_SAFE_FREE(tmp); return 0);
 
   /* Hash table to store the list of seen feature edges */
-  if ( ! MMG5_hashNew(mesh,&hash,np,(MMG5_int)(3.71*np)) ) return 0;
+  if ( ! MMG5_hashNew(mesh,&hash,np,(MMG5_int)(3.71*np)) ) {
+    MMG5_SAFE_FREE(tmp);
+    MMG5_SAFE_FREE(nfeat);
+    return 0;
+  }
 
   for (k=1; k<=mesh->ne; ++k) {
     ptet = &mesh->tetra[k];
@@ -712,6 +717,9 @@ int MMG5_setVertexNmTag(MMG5_pMesh mesh,uint16_t func(uint16_t) ) {
         continue;
       }
       else if ( !ier ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        MMG5_SAFE_FREE(tmp);
+        MMG5_SAFE_FREE(nfeat);
         return 0;
       }
 
diff --git a/src/mmg3d/inout_3d.c b/src/mmg3d/inout_3d.c
index 589491c..1ae40bc 100644
--- a/src/mmg3d/inout_3d.c
+++ b/src/mmg3d/inout_3d.c
@@ -110,6 +110,92 @@ int MMG3D_openMesh(int imprim,const char *filename,FILE **inm,int *bin,
  return 1;
 }
 
+/**
+ * \param mesh pointer to the mesh structure.
+ * \param inm pointer to the opened mesh file.
+ * \param bin 1 if the file is binary.
+ * \param iswp 1 if the bytes of the file must be swapped.
+ * \param ng number of normals of the file.
+ * \param posnormal position of the normals in the file.
+ * \param posnc1 position of the normals at vertices in the file.
+ * \param norm array to store the normals, allocated (and freed) by the caller.
+ *
+ * \return -1 if the data is invalid, 1 otherwise.
+ *
+ * Read the normals and store them at their vertices.
+ *
+ */
+static
+int MMG3D_loadNormals(MMG5_pMesh mesh,FILE *inm,int bin,int iswp,MMG5_int ng,
+                      long posnormal,long posnc1,double *norm) {
+  double   *n,dd;
+  float    fc;
+  MMG5_int k,ip,idn;
+  int      i;
+
+  rewind(inm);
+  fseek(inm,posnormal,SEEK_SET);
+  for (k=1; k<=ng; k++) {
+    n = &norm[3*(k-1)+1];
+    if ( mesh->ver == 1 ) {
+      if (!bin) {
+        for (i=0 ; i<3 ; i++) {
+          MMG_FSCANF(inm,"%f",&fc);
+          n[i] = (double) fc;
+        }
+      } else {
+        for (i=0 ; i<3 ; i++) {
+          MMG_FREAD(&fc,MMG5_SW,1,inm);
+          if(iswp) fc=MMG5_swapf(fc);
+          n[i] = (double) fc;
+        }
+      }
+    }
+    else {
+      if (!bin) {
+        MMG_FSCANF(inm,"%lf %lf %lf",&n[0],&n[1],&n[2]);
+      }
+      else {
+        for (i=0 ; i<3 ; i++) {
+          MMG_FREAD(&n[i],MMG5_SD,1,inm);
+          if(iswp) n[i]=MMG5_swapd(n[i]);
+        }
+      }
+    }
+    dd = n[0]*n[0] + n[1]*n[1] + n[2]*n[2];
+    if ( dd > MMG5_EPSD2 ) {
+      dd = 1.0 / sqrt(dd);
+      n[0] *= dd;
+      n[1] *= dd;
+      n[2] *= dd;
+    }
+  }
+
+  rewind(inm);
+  fseek(inm,posnc1,SEEK_SET);
+
+  for (k=1; k<=mesh->nc1; k++) {
+    if (!bin) {
+      MMG_FSCANF(inm,"%" MMG5_PRId " %" MMG5_PRId "",&ip,&idn);
+    }
+    else {
+      MMG_FREAD(&ip,MMG5_SW,1,inm);
+      if(iswp) ip=MMG5_swapbin(ip);
+      MMG_FREAD(&idn,MMG5_SW,1,inm);
+      if(iswp) idn=MMG5_swapbin(idn);
+    }
+    if ( idn > 0 && ip < mesh->np+1 ) {
+      if ( (mesh->info.iso ) &&  mesh->point[ip].xp == -1 ) {
+        /* Do not store the normals at mesh->info.isoref points (ls mode) */
+        continue;
+      }
+      memcpy(&mesh->point[ip].n,&norm[3*(idn-1)+1],3*sizeof(double));
+    }
+  }
+
+  return 1;
+}
+
 int MMG3D_loadMesh_opened(MMG5_pMesh mesh,FILE *inm,int bin) {
   MMG5_pTetra pt;
   MMG5_pPrism pp;
@@ -117,7 +203,7 @@ int MMG3D_loadMesh_opened(MMG5_pMesh mesh,FILE *inm,int bin) {
   MMG5_pQuad  pq1;
   MMG5_pEdge  pa;
   MMG5_pPoint ppt;
-  double      *norm,*n,dd;
+  double      *norm;
   float       fc;
   long        posnp,posnt,posne,posned,posncor,posnpreq,posntreq,posnereq,posnedreq;
   long        posnr,posnprism,posnormal,posnc1,posnq,posnqreq;
@@ -125,7 +211,7 @@ int MMG3D_loadMesh_opened(MMG5_pMesh mesh,FILE *inm,int bin) {
   MMG5_int    npreq,ntreq,nereq,nedreq,nqreq,ncor,ned,ng;
   MMG5_int    nppar,nedpar,ntpar,nqpar,nepar;
   MMG5_int    k,ip,idn;
-  int         i,bdim,binch,iswp,bpos;
+  int         i,ier,bdim,binch,iswp,bpos;
   MMG5_int    na,nr,ia,aux,nref,ref;
   char        chaine[MMG5_FILESTR_LGTH],strskip[MMG5_FILESTR_LGTH];
 
@@ -913,67 +999,9 @@ int MMG3D_loadMesh_opened(MMG5_pMesh mesh,FILE *inm,int bin) {
 
     if ( ng > 0 ) {
       MMG5_SAFE_CALLOC(norm,3*ng+1,double,return -1);
-
-      rewind(inm);
-      fseek(inm,posnormal,SEEK_SET);
-      for (k=1; k<=ng; k++) {
-        n = &norm[3*(k-1)+1];
-        if ( mesh->ver == 1 ) {
-          if (!bin) {
-            for (i=0 ; i<3 ; i++) {
-              MMG_FSCANF(inm,"%f",&fc);
-              n[i] = (double) fc;
-            }
-          } else {
-            for (i=0 ; i<3 ; i++) {
-              MMG_FREAD(&fc,MMG5_SW,1,inm);
-              if(iswp) fc=MMG5_swapf(fc);
-              n[i] = (double) fc;
-            }
-          }
-        }
-        else {
-          if (!bin) {
-            MMG_FSCANF(inm,"%lf %lf %lf",&n[0],&n[1],&n[2]);
-          }
-          else {
-            for (i=0 ; i<3 ; i++) {
-              MMG_FREAD(&n[i],MMG5_SD,1,inm);
-              if(iswp) n[i]=MMG5_swapd(n[i]);
-            }
-          }
-        }
-        dd = n[0]*n[0] + n[1]*n[1] + n[2]*n[2];
-        if ( dd > MMG5_EPSD2 ) {
-          dd = 1.0 / sqrt(dd);
-          n[0] *= dd;
-          n[1] *= dd;
-          n[2] *= dd;
-        }
-      }
-
-      rewind(inm);
-      fseek(inm,posnc1,SEEK_SET);
-
-      for (k=1; k<=mesh->nc1; k++) {
-        if (!bin) {
-          MMG_FSCANF(inm,"%" MMG5_PRId " %" MMG5_PRId "",&ip,&idn);
-        }
-        else {
-          MMG_FREAD(&ip,MMG5_SW,1,inm);
-          if(iswp) ip=MMG5_swapbin(ip);
-          MMG_FREAD(&idn,MMG5_SW,1,inm);
-          if(iswp) idn=MMG5_swapbin(idn);
-        }
-        if ( idn > 0 && ip < mesh->np+1 ) {
-          if ( (mesh->info.iso ) &&  mesh->point[ip].xp == -1 ) {
-            /* Do not store the normals at mesh->info.isoref points (ls mode) */
-            continue;
-          }
-          memcpy(&mesh->point[ip].n,&norm[3*(idn-1)+1],3*sizeof(double));
-        }
-      }
+      ier = MMG3D_loadNormals(mesh,inm,bin,iswp,ng,posnormal,posnc1,norm);
       MMG5_SAFE_FREE(norm);
+      if ( ier < 1 ) return ier;
     }
 
     /* Delete the mark added iso mode */
@@ -1239,7 +1267,8 @@ int MMG3D_loadGenericMesh(MMG5_pMesh mesh, MMG5_pSol met, MMG5_pSol sol, const c
 
     /* Optional metric */
     if ( sol ) {
-      MMG5_SAFE_MALLOC(soltmp,strlen(solnameptr)+1,char,return -1);
+      MMG5_SAFE_MALLOC(soltmp,strlen(solnameptr)+1,char,
+                       MMG5_SAFE_FREE(tmp); return -1);
       strcpy(soltmp,solnameptr);
 
       if ( MMG3D_loadSol(mesh,sol,soltmp) == -1) {
@@ -2116,7 +2145,8 @@ int MMG3D_saveGenericMesh(MMG5_pMesh mesh, MMG5_pSol sol, const char *filename)
   if ( ier && savesolFile ) {
     /* Medit or tetgen output: save the solution in a .sol file */
     if ( sol && sol->np ) {
-      MMG5_SAFE_MALLOC(soltmp,strlen(solnameptr)+1,char,return 0);
+      MMG5_SAFE_MALLOC(soltmp,strlen(solnameptr)+1,char,
+                       MMG5_SAFE_FREE(tmp); return 0);
       strcpy(soltmp,solnameptr);
 
       if ( MMG3D_saveSol(mesh,sol,soltmp) == -1) {
@@ -2127,6 +2157,8 @@ int MMG3D_saveGenericMesh(MMG5_pMesh mesh, MMG5_pSol sol, const char *filename)
     }
   }
 
+  MMG5_SAFE_FREE(tmp);
+
   return ier;
 }
 
@@ -2390,7 +2422,12 @@ int MMG3D_saveAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
   ier = MMG5_saveSolHeader( mesh,filename,&inm,(*sol)[0].ver,&bin,&bpos,mesh->np,
                             (*sol)[0].dim,mesh->nsols,entities,type,size);
 
-  if ( ier < 1 )  return ier;
+  if ( ier < 1 ) {
+    MMG5_SAFE_FREE(type);
+    MMG5_SAFE_FREE(size);
+    MMG5_SAFE_FREE(entities);
+    return ier;
+  }
 
   for (k=1; k<=mesh->np; k++) {
     ppt = &mesh->point[k];
diff --git a/src/mmg3d/libmmg3d.c b/src/mmg3d/libmmg3d.c
index aab1443..da7601c 100644
--- a/src/mmg3d/libmmg3d.c
+++ b/src/mmg3d/libmmg3d.c
@@ -1298,6 +1298,7 @@ int MMG3D_mmg3dls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet) {
   /* clean old isosurface */
   if ( !MMG3D_Clean_isoSurf(mesh) ) {
     fprintf(stderr,"\n  ## Unable to clean old isosurface.\n");
+    if ( mettofree ) { MMG5_DEL_MEM(mesh,met->m);MMG5_SAFE_FREE (met); }
     _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
   }
 
@@ -1438,6 +1439,7 @@ int MMG3D_mmg3dls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet) {
   /* last renum to give back a good numbering to the user */
   if ( !MMG5_scotchCall(mesh,met,NULL,NULL) )
   {
+    if ( mettofree ) { MMG5_DEL_MEM(mesh,met->m);MMG5_SAFE_FREE (met); }
     if ( !MMG5_unscaleMesh(mesh,met,NULL) ) _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
     MMG5_RETURN_AND_PACK(mesh,met,sol,MMG5_LOWFAILURE);
   }
diff --git a/src/mmg3d/libmmg3d_tools.c b/src/mmg3d/libmmg3d_tools.c
index a397096..d5d8c74 100644
--- a/src/mmg3d/libmmg3d_tools.c
+++ b/src/mmg3d/libmmg3d_tools.c
@@ -692,7 +692,8 @@ int MMG3D_parsar(int argc,char *argv[],MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol s
   int        mmgArgc = 0;
   char**     mmgArgv = NULL;
   MMG5_SAFE_MALLOC( mmgArgv, argc, char*,return 0);
-  MMG_ARGV_APPEND ( argv, mmgArgv, 0, mmgArgc,return 0);
+  MMG_ARGV_APPEND ( argv, mmgArgv, 0, mmgArgc,
+                    MMG5_argv_cleanup(mmgArgv,mmgArgc); return 0);
 
   int ier = MMG3D_storeknownar( argc,argv,mesh,met,sol,&mmgArgc,mmgArgv);
 
@@ -703,12 +704,16 @@ int MMG3D_parsar(int argc,char *argv[],MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol s
       if ( *mmgArgv[i] != '-' ) {
         /* Arg doesn't start by '-', try to parse it as filname */
         if ( mesh->namein == NULL ) {
-          if ( !MMG3D_Set_inputMeshName(mesh,mmgArgv[i]) )
+          if ( !MMG3D_Set_inputMeshName(mesh,mmgArgv[i]) ) {
+            MMG5_argv_cleanup(mmgArgv,mmgArgc);
             return 0;
+          }
         }
         else if ( mesh->nameout == NULL ) {
-          if ( !MMG3D_Set_outputMeshName(mesh,mmgArgv[i]) )
+          if ( !MMG3D_Set_outputMeshName(mesh,mmgArgv[i]) ) {
+            MMG5_argv_cleanup(mmgArgv,mmgArgc);
             return 0;
+          }
         }
         else {
           fprintf(stdout,"Argument %s ignored\n",mmgArgv[i]);
@@ -1559,12 +1564,15 @@ int MMG3D_doSol_iso(MMG5_pMesh mesh,MMG5_pSol met) {
   if ( met->size!=1 ) {
     fprintf(stderr,"\n  ## Error: %s: unexpected size of metric: %d.\n",
             __func__,met->size);
+    MMG5_SAFE_FREE(mark);
     return 0;
           }
 
   type=1;
-  if ( !MMG3D_Set_solSize(mesh,met,MMG5_Vertex,mesh->np,type) )
+  if ( !MMG3D_Set_solSize(mesh,met,MMG5_Vertex,mesh->np,type) ) {
+    MMG5_SAFE_FREE(mark);
     return 0;
+  }
 
   /* Travel the triangles edges and add the edge contribution to edges
    * extermities */
@@ -1634,12 +1642,15 @@ int MMG3D_doSol_ani(MMG5_pMesh mesh,MMG5_pSol met) {
   if ( met->size!=6 ) {
     fprintf(stderr,"\n  ## Error: %s: unexpected size of metric: %d.\n",
             __func__,met->size);
+    MMG5_SAFE_FREE(mark);
     return 0;
   }
 
   type = 3;
-  if ( !MMG3D_Set_solSize(mesh,met,MMG5_Vertex,mesh->np,type) )
+  if ( !MMG3D_Set_solSize(mesh,met,MMG5_Vertex,mesh->np,type) ) {
+    MMG5_SAFE_FREE(mark);
     return 0;
+  }
 
   /* Travel the tetra edges and add the edge contribution to edges
    * extermities */
diff --git a/src/mmg3d/mmg3d2.c b/src/mmg3d/mmg3d2.c
index 094f96b..ebafa57 100644
--- a/src/mmg3d/mmg3d2.c
+++ b/src/mmg3d/mmg3d2.c
@@ -835,6 +835,7 @@ int MMG3D_rmc(MMG5_pMesh mesh, MMG5_pSol sol){
               " Check that the level-set intersect the mesh.\n"
               " Exit program.\n");
 
+      MMG5_DEL_MEM(mesh,pile);
       return 0;
     }
 
@@ -864,6 +865,7 @@ int MMG3D_rmc(MMG5_pMesh mesh, MMG5_pSol sol){
             ipile++;
             if ( ipile > mesh->ne ) {
               fprintf(stderr,"\n  ## Problem in length of pile; function rmc. Exit program.\n");
+              MMG5_DEL_MEM(mesh,pile);
               return 0;
             }
           }
@@ -916,6 +918,7 @@ int MMG3D_rmc(MMG5_pMesh mesh, MMG5_pSol sol){
     ipile++;
     if ( ipile > mesh->ne ) {
       fprintf(stderr,"\n  ## Problem in length of pile; function rmc. Exit program.\n");
+      MMG5_DEL_MEM(mesh,pile);
       return 0;
     }
 
@@ -945,6 +948,7 @@ int MMG3D_rmc(MMG5_pMesh mesh, MMG5_pSol sol){
             ipile++;
             if ( ipile > mesh->ne ) {
               fprintf(stderr,"\n  ## Problem in length of pile; function rmc. Exit program.\n");
+              MMG5_DEL_MEM(mesh,pile);
               return 0;
             }
           }
diff --git a/src/mmg3d/mmg3d2s.c b/src/mmg3d/mmg3d2s.c
index e3919cd..bc3b775 100755
--- a/src/mmg3d/mmg3d2s.c
+++ b/src/mmg3d/mmg3d2s.c
@@ -143,6 +143,8 @@ int MMG3D_snpval_lssurf(MMG5_pMesh mesh,MMG5_pSol sol) {
     }
   }
 
+  MMG5_DEL_MEM(mesh,tmp);
+
   return 1;
 }
 
diff --git a/src/mmg3d/optlap_3d.c b/src/mmg3d/optlap_3d.c
index 6b3abc2..eb35288 100644
--- a/src/mmg3d/optlap_3d.c
+++ b/src/mmg3d/optlap_3d.c
@@ -65,8 +65,13 @@ int MMG3D_optlap(MMG5_pMesh mesh,MMG5_pSol sol) {
   MMG5_ADD_MEM(mesh,(mesh->np+1)*sizeof(double),"compt",
                 return 0);
   MMG5_SAFE_CALLOC(nv, 3*mesh->np+1, double,return 0);
-  MMG5_SAFE_CALLOC(pos, 3*mesh->np+1, double,return 0);
-  MMG5_SAFE_CALLOC(compt, mesh->np+1, MMG5_int,return 0);
+  MMG5_SAFE_CALLOC(pos, 3*mesh->np+1, double,
+                   MMG5_DEL_MEM(mesh,nv);
+                   return 0);
+  MMG5_SAFE_CALLOC(compt, mesh->np+1, MMG5_int,
+                   MMG5_DEL_MEM(mesh,nv);
+                   MMG5_DEL_MEM(mesh,pos);
+                   return 0);
 
   it  = 1;
   declic = 3./MMG3D_ALPHAD;
diff --git a/src/mmgs/inout_s.c b/src/mmgs/inout_s.c
index db75e0f..800e3ec 100644
--- a/src/mmgs/inout_s.c
+++ b/src/mmgs/inout_s.c
@@ -38,6 +38,87 @@
 #include "libmmgs_private.h"
 #include <math.h>
 
+/**
+ * \param mesh pointer to the mesh structure.
+ * \param inm pointer to the opened mesh file.
+ * \param bin 1 if the file is binary.
+ * \param iswp 1 if the bytes of the file must be swapped.
+ * \param ng number of normals of the file.
+ * \param posnormal position of the normals in the file.
+ * \param posnc1 position of the normals at vertices in the file.
+ * \param norm array to store the normals, allocated (and freed) by the caller.
+ *
+ * \return -1 if the data is invalid, 1 otherwise.
+ *
+ * Read the normals and store them at their vertices.
+ *
+ */
+static
+int MMGS_loadNormals(MMG5_pMesh mesh,FILE *inm,int bin,int iswp,MMG5_int ng,
+                     long posnormal,long posnc1,double *norm) {
+  double   *n,dd;
+  float    fc;
+  MMG5_int k,ip,idn;
+  int      i;
+
+  rewind(inm);
+  fseek(inm,posnormal,SEEK_SET);
+  for (k=1; k<=ng; k++) {
+    n = &norm[3*(k-1)+1];
+    if ( mesh->ver == 1 ) {
+      if (!bin) {
+        for (i=0 ; i<3 ; i++) {
+          MMG_FSCANF(inm,"%f",&fc);
+          n[i] = (double) fc;
+        }
+      } else {
+        for (i=0 ; i<3 ; i++) {
+          MMG_FREAD(&fc,MMG5_SW,1,inm);
+          if(iswp) fc=MMG5_swapf(fc);
+          n[i] = (double) fc;
+        }
+      }
+    }
+    else {
+      if (!bin) {
+        MMG_FSCANF(inm,"%lf %lf %lf",&n[0],&n[1],&n[2]);
+      }
+      else {
+        for (i=0 ; i<3 ; i++) {
+          MMG_FREAD(&n[i],MMG5_SD,1,inm);
+          if(iswp) n[i]=MMG5_swapd(n[i]);
+        }
+      }
+    }
+    dd = n[0]*n[0] + n[1]*n[1] + n[2]*n[2];
+    if ( dd > MMG5_EPSD2 ) {
+      dd = 1.0 / sqrt(dd);
+      n[0] *= dd;
+      n[1] *= dd;
+      n[2] *= dd;
+    }
+  }
+
+  rewind(inm);
+  fseek(inm,posnc1,SEEK_SET);
+
+  for (k=1; k<=mesh->nc1; k++) {
+    if (!bin) {
+      MMG_FSCANF(inm,"%" MMG5_PRId " %" MMG5_PRId "",&ip,&idn);
+    }
+    else {
+      MMG_FREAD(&ip,MMG5_SW,1,inm);
+      if(iswp) ip=MMG5_swapbin(ip);
+      MMG_FREAD(&idn,MMG5_SW,1,inm);
+      if(iswp) idn=MMG5_swapbin(idn);
+    }
+    if ( idn > 0 && ip < mesh->np+1 )
+      memcpy(&mesh->point[ip].n,&norm[3*(idn-1)+1],3*sizeof(double));
+  }
+
+  return 1;
+}
+
 /**
  * \param mesh pointer to the mesh structure.
  * \param inm pointer to the opened mesh file.
@@ -51,12 +132,12 @@
 static int MMGS_loadMesh_opened(MMG5_pMesh mesh,FILE *inm,int bin) {
   MMG5_pTria  pt1,pt2;
   MMG5_pPoint ppt;
-  double      *norm,*n,dd;
+  double      *norm;
   float       fc;
   long        posnp,posnt,posne,posncor,posnq,posned,posnr;
   long        posntreq,posnpreq,posnormal,posnc1;
   MMG5_int    k,ia,nq,nri,ip,idn,ng,npreq,nref;
-  int         i;
+  int         i,ier;
   MMG5_int    ncor,nedreq,ntreq,posnedreq,bpos;
   int         binch,iswp,bdim;
   MMG5_int    na;
@@ -540,62 +621,9 @@ static int MMGS_loadMesh_opened(MMG5_pMesh mesh,FILE *inm,int bin) {
 
   if ( ng > 0 ) {
     MMG5_SAFE_CALLOC(norm,3*ng+1,double,return -1);
-
-    rewind(inm);
-    fseek(inm,posnormal,SEEK_SET);
-    for (k=1; k<=ng; k++) {
-      n = &norm[3*(k-1)+1];
-      if ( mesh->ver == 1 ) {
-        if (!bin) {
-          for (i=0 ; i<3 ; i++) {
-            MMG_FSCANF(inm,"%f",&fc);
-            n[i] = (double) fc;
-          }
-        } else {
-          for (i=0 ; i<3 ; i++) {
-            MMG_FREAD(&fc,MMG5_SW,1,inm);
-            if(iswp) fc=MMG5_swapf(fc);
-            n[i] = (double) fc;
-          }
-        }
-      }
-      else {
-        if (!bin) {
-          MMG_FSCANF(inm,"%lf %lf %lf",&n[0],&n[1],&n[2]);
-        }
-        else {
-          for (i=0 ; i<3 ; i++) {
-            MMG_FREAD(&n[i],MMG5_SD,1,inm);
-            if(iswp) n[i]=MMG5_swapd(n[i]);
-          }
-        }
-      }
-      dd = n[0]*n[0] + n[1]*n[1] + n[2]*n[2];
-      if ( dd > MMG5_EPSD2 ) {
-        dd = 1.0 / sqrt(dd);
-        n[0] *= dd;
-        n[1] *= dd;
-        n[2] *= dd;
-      }
-    }
-
-    rewind(inm);
-    fseek(inm,posnc1,SEEK_SET);
-
-    for (k=1; k<=mesh->nc1; k++) {
-      if (!bin) {
-        MMG_FSCANF(inm,"%" MMG5_PRId " %" MMG5_PRId "",&ip,&idn);
-      }
-      else {
-        MMG_FREAD(&ip,MMG5_SW,1,inm);
-        if(iswp) ip=MMG5_swapbin(ip);
-        MMG_FREAD(&idn,MMG5_SW,1,inm);
-        if(iswp) idn=MMG5_swapbin(idn);
-      }
-      if ( idn > 0 && ip < mesh->np+1 )
-        memcpy(&mesh->point[ip].n,&norm[3*(idn-1)+1],3*sizeof(double));
-    }
+    ier = MMGS_loadNormals(mesh,inm,bin,iswp,ng,posnormal,posnc1,norm);
     MMG5_SAFE_FREE(norm);
+    if ( ier < 1 ) return ier;
   }
 
   if ( nref ) {
@@ -836,7 +864,8 @@ int MMGS_loadGenericMesh(MMG5_pMesh mesh, MMG5_pSol met, MMG5_pSol sol, const ch
 
     /* Facultative metric */
     if ( sol ) {
-      MMG5_SAFE_MALLOC(soltmp,strlen(solnameptr)+1,char,return -1);
+      MMG5_SAFE_MALLOC(soltmp,strlen(solnameptr)+1,char,
+                       MMG5_SAFE_FREE(tmp); return -1);
       strcpy(soltmp,solnameptr);
 
       if ( MMGS_loadSol(mesh,sol,tmp) == -1) {
@@ -1578,7 +1607,12 @@ int MMGS_saveAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
   ier = MMG5_saveSolHeader( mesh,filename,&inm,(*sol)[0].ver,&bin,&bpos,mesh->np,
                             (*sol)[0].dim,mesh->nsols,entities,type,size);
 
-  if ( ier < 1 )  return ier;
+  if ( ier < 1 ) {
+    MMG5_SAFE_FREE(type);
+    MMG5_SAFE_FREE(size);
+    MMG5_SAFE_FREE(entities);
+    return ier;
+  }
 
   for (k=1; k<=mesh->np; k++) {
     ppt = &mesh->point[k];
@@ -1681,7 +1715,8 @@ int MMGS_saveGenericMesh(MMG5_pMesh mesh, MMG5_pSol sol, const char *filename) {
   if ( ier && savesolFile ) {
     /* Medit or tetgen output: save the solution in a .sol file */
     if ( sol && sol->np ) {
-      MMG5_SAFE_MALLOC(soltmp,strlen(solnameptr)+1,char,return 0);
+      MMG5_SAFE_MALLOC(soltmp,strlen(solnameptr)+1,char,
+                       MMG5_SAFE_FREE(tmp); return 0);
       strcpy(soltmp,solnameptr);
 
       if ( MMGS_saveSol(mesh,sol,soltmp) == -1) {
@@ -1692,5 +1727,7 @@ int MMGS_saveGenericMesh(MMG5_pMesh mesh, MMG5_pSol sol, const char *filename) {
     }
   }
 
+  MMG5_SAFE_FREE(tmp);
+
   return ier;
 }
diff --git a/src/mmgs/libmmgs.c b/src/mmgs/libmmgs.c
index e86930d..8b0ca95 100644
--- a/src/mmgs/libmmgs.c
+++ b/src/mmgs/libmmgs.c
@@ -401,6 +401,7 @@ int MMGS_mmgsls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet)
   /* clean old isosurface */
   if ( !MMGS_Clean_isoSurf(mesh) ) {
     fprintf(stderr,"\n  ## Unable to clean old isosurface.\n");
+    if ( mettofree ) { MMG5_DEL_MEM(mesh,met->m);MMG5_SAFE_FREE (met); }
     _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
   }
 
diff --git a/src/mmgs/libmmgs_tools.c b/src/mmgs/libmmgs_tools.c
index f40b361..862306d 100644
--- a/src/mmgs/libmmgs_tools.c
+++ b/src/mmgs/libmmgs_tools.c
@@ -875,12 +875,15 @@ int MMGS_doSol_iso(MMG5_pMesh mesh,MMG5_pSol met) {
   if ( met->size!=1 ) {
     fprintf(stderr,"\n  ## Error: %s: unexpected size of metric: %d.\n",
             __func__,met->size);
+    MMG5_SAFE_FREE(mark);
     return 0;
   }
 
   type = 1;
-  if ( !MMGS_Set_solSize(mesh,met,MMG5_Vertex,mesh->np,type) )
+  if ( !MMGS_Set_solSize(mesh,met,MMG5_Vertex,mesh->np,type) ) {
+    MMG5_SAFE_FREE(mark);
     return 0;
+  }
 
   /* Travel the triangles edges and add the edge contribution to edges
    * extermities */
-- 
2.43.0


From c47feaef7da71bed7a2fae38f2862959bb479a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:40 +0000
Subject: [PATCH 25/46] fix: close the solution and Gmsh files on the failure
 paths too

---
 src/common/inout.c   | 608 ++++++++++++++++++++++++-------------------
 src/mmg2d/inout_2d.c |  30 ++-
 src/mmg3d/inout_3d.c |  33 ++-
 src/mmgs/inout_s.c   |  30 ++-
 4 files changed, 415 insertions(+), 286 deletions(-)

diff --git a/src/common/inout.c b/src/common/inout.c
index 3a09ab4..14b695a 100644
--- a/src/common/inout.c
+++ b/src/common/inout.c
@@ -261,79 +261,35 @@ int MMG5_countBinaryElts(FILE **inm, const int nelts,const int iswp,
 
 /**
  * \param mesh pointer to the mesh
- * \param filename pointer to the name of file
- * \param inm pointer to the file pointer
+ * \param inm pointer to the pointer to the opened file
  * \param posNodes pointer to the position of nodes data in file
  * \param posElts pointer to the position of elts data in file
  * \param posNodeData pointer to the list of the positions of data in file
+ * \param posNodeDataSize size of this list
  * \param bin 1 if binary format
+ * \param iswp 1 if the bytes must be swapped
  * \param nelts number of elements in file
- * \param nsol number of data in file
- * \return 1 if success, 0 if file is not found, -1 if fail.
+ * \param nsols number of data in file
+ * \return 1 if success, -1 if fail
  *
- * Begin to read mesh at MSH file format. Read the mesh size informations.
+ * Read the fields of an opened file at MSH format to count its entities.
  *
- * \remark For now only intput files containing int32 integers are supported.
  */
-int MMG5_loadMshMesh_part1(MMG5_pMesh mesh,const char *filename,
-                           FILE **inm,
+static
+int MMG5_readMshMesh_part1(MMG5_pMesh mesh,FILE **inm,
                            long *posNodes, long *posElts,
-                           long **posNodeData, int *bin, int *iswp,
-                           MMG5_int *nelts,int *nsols) {
+                           long **posNodeData,int posNodeDataSize,
+                           int *bin, int *iswp,MMG5_int *nelts,int *nsols) {
   double      dbuf[9];
   float       fbuf[9];
-  int         ver,oneBin,i;
+  int         ver,oneBin,i,initPosNodeDataSize;
   int         k,nt,na,nq,ne,npr,np;
-  int         typ,tagNum,posNodeDataSize,initPosNodeDataSize;
-  char        *ptr,*data,chaine[MMG5_FILESTR_LGTH],verNum[5];
+  int         typ,tagNum;
+  char        chaine[MMG5_FILESTR_LGTH],verNum[5];
 
   ver = oneBin = 0;
-  *posNodes = 0;
-  *posElts = 0;
-  *nelts = 0;
-  *nsols = 0;
-  *bin = 0;
-  *iswp = 0;
-  mesh->np = mesh->nt = mesh->ne = 0;
   nt = na = nq = ne = npr = np = 0;
-
-  MMG5_SAFE_CALLOC(data,strlen(filename)+7,char,return -1);
-
-  /* Allocation of the posNodeData array: we assume that we have less than 20
-   * solutions in the file (for a greater number of sol, posNoteData is
-   * reallocated) */
-  initPosNodeDataSize = posNodeDataSize = 20;
-  MMG5_SAFE_CALLOC(*posNodeData,posNodeDataSize,long,
-                   MMG5_SAFE_FREE(data); return -1);
-
-  strcpy(data,filename);
-  ptr = strstr(data,".msh");
-  if ( !ptr ) {
-    /* data contains the filename without extension */
-    strcat(data,".mshb");
-    if (!(*inm = fopen(data,"rb")) ) {
-      ptr  = strstr(data,".msh");
-      *ptr = '\0';
-      strcat(data,".msh");
-      if( !((*inm) = fopen(data,"rb")) ) {
-        MMG5_SAFE_FREE(data);
-        MMG5_SAFE_FREE(*posNodeData);
-        return 0;
-      }
-    }
-  }
-  else {
-    if( !((*inm) = fopen(data,"rb")) ) {
-      MMG5_SAFE_FREE(data);
-      MMG5_SAFE_FREE(*posNodeData);
-      return 0;
-    }
-  }
-
-  if ( mesh->info.imprim >= 0 )
-    fprintf(stdout,"  %%%% %s OPENED\n",data);
-  MMG5_SAFE_FREE(data);
-
+  initPosNodeDataSize = posNodeDataSize;
 
   /* Detection of the different fields of the file */
   strcpy(chaine,"D");
@@ -473,8 +429,6 @@ int MMG5_loadMshMesh_part1(MMG5_pMesh mesh,const char *filename,
       }
       else {
         if ( !MMG5_countBinaryElts(inm,*nelts,*iswp,&np,&na,&nt,&nq,&ne,&npr) ) {
-          fclose(*inm);
-          MMG5_SAFE_FREE(*posNodeData);
           return -1;
         }
       }
@@ -489,8 +443,6 @@ int MMG5_loadMshMesh_part1(MMG5_pMesh mesh,const char *filename,
     fprintf(stderr,"  ** MISSING DATA.\n");
     fprintf(stderr,"     Check that your mesh contains points and elements.\n");
     fprintf(stderr,"     Exit program.\n");
-    fclose(*inm);
-    MMG5_SAFE_FREE(*posNodeData);
     return -1;
   }
 
@@ -506,14 +458,91 @@ int MMG5_loadMshMesh_part1(MMG5_pMesh mesh,const char *filename,
     fprintf(stderr,"  ** MISSING DATA.\n");
     fprintf(stderr,"     Check that your mesh contains points.\n");
     fprintf(stderr,"     Exit program.\n");
-    fclose(*inm);
-    MMG5_SAFE_FREE(*posNodeData);
     return -1;
   }
 
   return 1;
 }
 
+/**
+ * \param mesh pointer to the mesh
+ * \param filename pointer to the name of file
+ * \param inm pointer to the file pointer
+ * \param posNodes pointer to the position of nodes data in file
+ * \param posElts pointer to the position of elts data in file
+ * \param posNodeData pointer to the list of the positions of data in file
+ * \param bin 1 if binary format
+ * \param nelts number of elements in file
+ * \param nsol number of data in file
+ * \return 1 if success, 0 if file is not found, -1 if fail.
+ *
+ * Begin to read mesh at MSH file format. Read the mesh size informations.
+ *
+ * \remark For now only intput files containing int32 integers are supported.
+ */
+int MMG5_loadMshMesh_part1(MMG5_pMesh mesh,const char *filename,
+                           FILE **inm,
+                           long *posNodes, long *posElts,
+                           long **posNodeData, int *bin, int *iswp,
+                           MMG5_int *nelts,int *nsols) {
+  int         ier,posNodeDataSize;
+  char        *ptr,*data;
+
+  *posNodes = 0;
+  *posElts = 0;
+  *nelts = 0;
+  *nsols = 0;
+  *bin = 0;
+  *iswp = 0;
+  mesh->np = mesh->nt = mesh->ne = 0;
+
+  MMG5_SAFE_CALLOC(data,strlen(filename)+7,char,return -1);
+
+  /* Allocation of the posNodeData array: we assume that we have less than 20
+   * solutions in the file (for a greater number of sol, posNoteData is
+   * reallocated) */
+  posNodeDataSize = 20;
+  MMG5_SAFE_CALLOC(*posNodeData,posNodeDataSize,long,
+                   MMG5_SAFE_FREE(data); return -1);
+
+  strcpy(data,filename);
+  ptr = strstr(data,".msh");
+  if ( !ptr ) {
+    /* data contains the filename without extension */
+    strcat(data,".mshb");
+    if (!(*inm = fopen(data,"rb")) ) {
+      ptr  = strstr(data,".msh");
+      *ptr = '\0';
+      strcat(data,".msh");
+      if( !((*inm) = fopen(data,"rb")) ) {
+        MMG5_SAFE_FREE(data);
+        MMG5_SAFE_FREE(*posNodeData);
+        return 0;
+      }
+    }
+  }
+  else {
+    if( !((*inm) = fopen(data,"rb")) ) {
+      MMG5_SAFE_FREE(data);
+      MMG5_SAFE_FREE(*posNodeData);
+      return 0;
+    }
+  }
+
+  if ( mesh->info.imprim >= 0 )
+    fprintf(stdout,"  %%%% %s OPENED\n",data);
+  MMG5_SAFE_FREE(data);
+
+  ier = MMG5_readMshMesh_part1(mesh,inm,posNodes,posElts,posNodeData,
+                               posNodeDataSize,bin,iswp,nelts,nsols);
+  if ( ier < 1 ) {
+    fclose(*inm);
+    MMG5_SAFE_FREE(*posNodeData);
+  }
+
+  return ier;
+}
+
 /**
  * \param mesh pointer to an Mmg mesh
  * \param nref pointer to the number of negative refs (replaced by abolute values).
@@ -648,7 +677,7 @@ int  MMG5_check_readedMesh ( MMG5_pMesh mesh, MMG5_int nref ) {
 /**
  * \param mesh pointer to the mesh
  * \param sol pointer to the solutions array
- * \param inm pointer to the file pointer
+ * \param inm pointer to the opened file
  * \param posNodes position of nodes data in file
  * \param posElts position of elts data in file
  * \param posNodeData position of solution data in file
@@ -662,7 +691,8 @@ int  MMG5_check_readedMesh ( MMG5_pMesh mesh, MMG5_int nref ) {
  *
  * \remark For now only intput files containing int32 integers are supported.
  */
-int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
+static
+int MMG5_readMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE *inm,
                            const long posNodes,const long posElts,
                            const long *posNodeData,const int bin,const int iswp,
                            const MMG5_int nelts,const int nsols) {
@@ -684,26 +714,26 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
   static int8_t mmgWarn=0, mmgWarn1=0;
 
   /** Second step: read the nodes and elements */
-  rewind((*inm));
-  fseek((*inm),posNodes,SEEK_SET);
+  rewind(inm);
+  fseek(inm,posNodes,SEEK_SET);
 
   if ( mesh->ver < 2 ) {
     for ( k=0; k< mesh->np; ++k)
     {
       if ( !bin ) {
-        MMG_FSCANF((*inm),"%d ",&idx);
+        MMG_FSCANF(inm,"%d ",&idx);
         ppt = &mesh->point[idx];
         for (i=0 ; i<mesh->dim ; i++) {
-          MMG_FSCANF((*inm),"%f ",&fc);
+          MMG_FSCANF(inm,"%f ",&fc);
           ppt->c[i] = (double) fc;
         }
       }
       else {
-        MMG_FREAD(&idx,MMG5_SW,1,(*inm));
+        MMG_FREAD(&idx,MMG5_SW,1,inm);
         if ( iswp ) idx = MMG5_swapbin(idx);
         ppt = &mesh->point[idx];
         for (i=0 ; i<mesh->dim ; i++) {
-          MMG_FREAD(&fc,MMG5_SW,1,(*inm));
+          MMG_FREAD(&fc,MMG5_SW,1,inm);
           if(iswp) fc=MMG5_swapf(fc);
           ppt->c[i] = (double) fc;
         }
@@ -717,16 +747,16 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
     for ( k=0; k< mesh->np; ++k)
     {
       if ( !bin ) {
-        MMG_FSCANF((*inm),"%d ",&i);
+        MMG_FSCANF(inm,"%d ",&i);
         ppt = &mesh->point[i];
-        MMG_FSCANF((*inm),"%lf %lf %lf ",&ppt->c[0],&ppt->c[1],&ppt->c[2]);
+        MMG_FSCANF(inm,"%lf %lf %lf ",&ppt->c[0],&ppt->c[1],&ppt->c[2]);
       }
       else {
-        MMG_FREAD(&i,MMG5_SW,1,(*inm));
+        MMG_FREAD(&i,MMG5_SW,1,inm);
         if ( iswp ) i = MMG5_swapbin(i);
         ppt = &mesh->point[i];
         for (i=0 ; i<3 ; i++) {
-          MMG_FREAD(&ppt->c[i],MMG5_SD,1,(*inm));
+          MMG_FREAD(&ppt->c[i],MMG5_SD,1,inm);
           if(iswp) ppt->c[i]=MMG5_swapd(ppt->c[i]);
         }
       }
@@ -736,8 +766,8 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
     }
   }
 
-  rewind((*inm));
-  fseek((*inm),posElts,SEEK_SET);
+  rewind(inm);
+  fseek(inm,posElts,SEEK_SET);
 
   nbl_a = nbl_t = nt = na = nq = ne = npr = 0;
   nref = 0;
@@ -745,16 +775,15 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
   if ( !bin ) {
     for ( k=0; k<nelts; ++k)
     {
-      MMG_FSCANF((*inm),"%d %d %d ",&i,&typ, &tagNum);
+      MMG_FSCANF(inm,"%d %d %d ",&i,&typ, &tagNum);
       if ( tagNum < 2 ) {
         fprintf(stderr,"\n  ## Error: %s: elt %d (type %d): Expected at least 2 tags (%d given).\n",
                 __func__,k,typ,tagNum);
-        fclose(*inm);
         return -1;
       }
-      MMG_FSCANF((*inm),"%d %d ",&ref,&i);
+      MMG_FSCANF(inm,"%d %d ",&ref,&i);
       for ( l=2; l<tagNum; ++l ) {
-        MMG_FSCANF((*inm),"%d ",&i);
+        MMG_FSCANF(inm,"%d ",&i);
       }
 
       switch (typ) {
@@ -764,12 +793,12 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         if ( mesh->info.iso && MMG5_abs(ref)== mesh->info.isoref ) {
           /* Skip this edge but advance the file pointer */
           pa = &mesh->edge[0];
-          MMG_FSCANF((*inm),"%" MMG5_PRId " %" MMG5_PRId " ",&pa->a,&pa->b);
+          MMG_FSCANF(inm,"%" MMG5_PRId " %" MMG5_PRId " ",&pa->a,&pa->b);
           ++nbl_a;
         }
         else {
           pa = &mesh->edge[++na];
-          MMG_FSCANF((*inm),"%" MMG5_PRId " %" MMG5_PRId " ",&pa->a,&pa->b);
+          MMG_FSCANF(inm,"%" MMG5_PRId " %" MMG5_PRId " ",&pa->a,&pa->b);
           pa->ref = ref;
           if ( pa->ref < 0 ) {
             pa->ref = -pa->ref;
@@ -785,12 +814,12 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         if ( mesh->info.iso && MMG5_abs(ref)== mesh->info.isoref && mesh->dim == 3 ) {
           /* Skip this triangle but advance the file pointer */
           ptt = &mesh->tria[0];
-          MMG_FSCANF((*inm),"%" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId "",&ptt->v[0],&ptt->v[1],&ptt->v[2]);
+          MMG_FSCANF(inm,"%" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId "",&ptt->v[0],&ptt->v[1],&ptt->v[2]);
           ++nbl_t;
         }
         else {
           ptt = &mesh->tria[++nt];
-          MMG_FSCANF((*inm),"%" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " ",&ptt->v[0],&ptt->v[1],&ptt->v[2]);
+          MMG_FSCANF(inm,"%" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " ",&ptt->v[0],&ptt->v[1],&ptt->v[2]);
           ptt->ref = ref;
           if ( ptt->ref < 0 ) {
             ptt->ref = -ptt->ref;
@@ -802,7 +831,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
       case 3:
         /* Quad */
         pq1 = &mesh->quadra[++nq];
-        MMG_FSCANF((*inm),"%" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " ",&pq1->v[0],&pq1->v[1],&pq1->v[2],&pq1->v[3]);
+        MMG_FSCANF(inm,"%" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " ",&pq1->v[0],&pq1->v[1],&pq1->v[2],&pq1->v[3]);
         pq1->ref = ref;
         if ( pq1->ref < 0 ) {
           pq1->ref = -pq1->ref;
@@ -814,10 +843,10 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         /* Tetra for mmg3d */
         if ( mesh->ne ) {
           pt = &mesh->tetra[++ne];
-          MMG_FSCANF((*inm),"%" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " ",&pt->v[0],&pt->v[1],&pt->v[2],&pt->v[3]);
+          MMG_FSCANF(inm,"%" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " ",&pt->v[0],&pt->v[1],&pt->v[2],&pt->v[3]);
           pt->ref = MMG5_abs(ref);
         } else { /*skip tetra*/
-          MMG_FSCANF((*inm),"%d %d %d %d ",&v[0],&v[1],&v[2],&v[3]);
+          MMG_FSCANF(inm,"%d %d %d %d ",&v[0],&v[1],&v[2],&v[3]);
         }
 
         if(ref < 0) {
@@ -831,7 +860,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         if ( mesh->nprism )
         {
           pp = &mesh->prism[++npr];
-          MMG_FSCANF((*inm),"%" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " ",&pp->v[0],&pp->v[1],&pp->v[2],
+          MMG_FSCANF(inm,"%" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " %" MMG5_PRId " ",&pp->v[0],&pp->v[1],&pp->v[2],
                      &pp->v[3],&pp->v[4],&pp->v[5]);
           pp->ref = MMG5_abs(ref);
         }
@@ -842,7 +871,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         break;
       case 15:
         /* Node */
-        MMG_FSCANF((*inm),"%d ",&l);
+        MMG_FSCANF(inm,"%d ",&l);
         ppt = &mesh->point[l];
         ppt->ref = ref;
         if ( ppt->ref < 0 ) {
@@ -864,14 +893,14 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
     k = 0;
 
     while ( k<nelts ) {
-      MMG_FREAD(&typ,MMG5_SW,1,(*inm));
+      MMG_FREAD(&typ,MMG5_SW,1,inm);
       if(iswp) typ = MMG5_swapbin(typ);
 
       switch (typ) {
       case 1:
         /* Edge */
-        MMG_FREAD(&num,MMG5_SW,1,(*inm));
-        MMG_FREAD(&tagNum,MMG5_SW,1,(*inm));
+        MMG_FREAD(&num,MMG5_SW,1,inm);
+        MMG_FREAD(&tagNum,MMG5_SW,1,inm);
         if(iswp) {
           num = MMG5_swapbin(num);
           tagNum = MMG5_swapbin(tagNum);
@@ -879,18 +908,17 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         if ( tagNum < 2 ) {
           fprintf(stderr,"\n  ## Error: %s: Expected at least 2 tags per element (%d given).\n",
                   __func__,tagNum);
-          fclose(*inm);
           return -1;
         }
 
         for ( idx=0; idx<num; ++idx ) {
-          MMG_FREAD(&i,MMG5_SW,1,(*inm));
+          MMG_FREAD(&i,MMG5_SW,1,inm);
 
-          MMG_FREAD(&ref,MMG5_SW,1,(*inm));
-          MMG_FREAD(&i,MMG5_SW,1,(*inm));
+          MMG_FREAD(&ref,MMG5_SW,1,inm);
+          MMG_FREAD(&i,MMG5_SW,1,inm);
 
           for ( l=2; l<tagNum; ++l ) {
-            MMG_FREAD(&i,MMG5_SW,1,(*inm));
+            MMG_FREAD(&i,MMG5_SW,1,inm);
           }
 
           if(iswp) ref = MMG5_swapbin(ref);
@@ -899,15 +927,15 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           if ( mesh->info.iso &&  MMG5_abs(ref) == mesh->info.isoref ) {
             /* Skip this edge but advance the file pointer */
             pa = &mesh->edge[0];
-            MMG_FREAD(&pa->a,MMG5_SW,1,(*inm));
-            MMG_FREAD(&pa->b,MMG5_SW,1,(*inm));
+            MMG_FREAD(&pa->a,MMG5_SW,1,inm);
+            MMG_FREAD(&pa->b,MMG5_SW,1,inm);
             ++nbl_a;
           }
           else {
             pa = &mesh->edge[++na];
             int a,b;
-            MMG_FREAD(&a,MMG5_SW,1,(*inm));
-            MMG_FREAD(&b,MMG5_SW,1,(*inm));
+            MMG_FREAD(&a,MMG5_SW,1,inm);
+            MMG_FREAD(&b,MMG5_SW,1,inm);
             if ( iswp ) {
               pa->a = MMG5_swapbin(a);
               pa->b = MMG5_swapbin(b);
@@ -930,8 +958,8 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         break;
       case 2:
         /* Tria */
-        MMG_FREAD(&num,MMG5_SW,1,(*inm));
-        MMG_FREAD(&tagNum,MMG5_SW,1,(*inm));
+        MMG_FREAD(&num,MMG5_SW,1,inm);
+        MMG_FREAD(&tagNum,MMG5_SW,1,inm);
         if(iswp) {
           num = MMG5_swapbin(num);
           tagNum = MMG5_swapbin(tagNum);
@@ -939,18 +967,17 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         if ( tagNum < 2 ) {
           fprintf(stderr,"\n  ## Error: %s: Expected at least 2 tags per element (%d given).\n",
                   __func__,tagNum);
-          fclose(*inm);
           return -1;
         }
 
         for ( idx=0; idx<num; ++idx ) {
-          MMG_FREAD(&i,MMG5_SW,1,(*inm));
+          MMG_FREAD(&i,MMG5_SW,1,inm);
 
-          MMG_FREAD(&ref,MMG5_SW,1,(*inm));
-          MMG_FREAD(&i,MMG5_SW,1,(*inm));
+          MMG_FREAD(&ref,MMG5_SW,1,inm);
+          MMG_FREAD(&i,MMG5_SW,1,inm);
 
           for ( l=2; l<tagNum; ++l ) {
-            MMG_FREAD(&i,MMG5_SW,1,(*inm));
+            MMG_FREAD(&i,MMG5_SW,1,inm);
           }
 
           if(iswp) ref = MMG5_swapbin(ref);
@@ -959,14 +986,14 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           if ( mesh->info.iso && MMG5_abs(ref) == mesh->info.isoref && mesh->dim == 3 ) {
             /* Skip this triangle but advance the file pointer */
             for ( i=0; i<3 ; ++i ) {
-              MMG_FREAD(&l,MMG5_SW,1,(*inm));
+              MMG_FREAD(&l,MMG5_SW,1,inm);
             }
             ++nbl_t;
           }
           else {
             ptt = &mesh->tria[++nt];
             for ( i=0; i<3 ; ++i ) {
-              MMG_FREAD(&l,MMG5_SW,1,(*inm));
+              MMG_FREAD(&l,MMG5_SW,1,inm);
               if ( iswp ) l = MMG5_swapbin(l);
               ptt->v[i] = l;
             }
@@ -982,8 +1009,8 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         break;
       case 3:
         /* Quad */
-        MMG_FREAD(&num,MMG5_SW,1,(*inm));
-        MMG_FREAD(&tagNum,MMG5_SW,1,(*inm));
+        MMG_FREAD(&num,MMG5_SW,1,inm);
+        MMG_FREAD(&tagNum,MMG5_SW,1,inm);
         if(iswp) {
           num = MMG5_swapbin(num);
           tagNum = MMG5_swapbin(tagNum);
@@ -991,25 +1018,24 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         if ( tagNum < 2 ) {
           fprintf(stderr,"\n  ## Error: %s: Expected at least 2 tags per element (%d given).\n",
                   __func__,tagNum);
-          fclose(*inm);
           return -1;
         }
 
         for ( idx=0; idx<num; ++idx ) {
-          MMG_FREAD(&i,MMG5_SW,1,(*inm));
+          MMG_FREAD(&i,MMG5_SW,1,inm);
 
-          MMG_FREAD(&ref,MMG5_SW,1,(*inm));
-          MMG_FREAD(&i,MMG5_SW,1,(*inm));
+          MMG_FREAD(&ref,MMG5_SW,1,inm);
+          MMG_FREAD(&i,MMG5_SW,1,inm);
 
           for ( l=2; l<tagNum; ++l ) {
-            MMG_FREAD(&i,MMG5_SW,1,(*inm));
+            MMG_FREAD(&i,MMG5_SW,1,inm);
           }
 
           if(iswp) ref = MMG5_swapbin(ref);
 
           pq1 = &mesh->quadra[++nq];
           for ( i=0; i<4 ; ++i ) {
-            MMG_FREAD(&l,MMG5_SW,1,(*inm));
+            MMG_FREAD(&l,MMG5_SW,1,inm);
             if ( iswp ) l = MMG5_swapbin(l);
             pq1->v[i] = l;
           }
@@ -1024,8 +1050,8 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         break;
       case 4:
         /* Tetra */
-        MMG_FREAD(&num,MMG5_SW,1,(*inm));
-        MMG_FREAD(&tagNum,MMG5_SW,1,(*inm));
+        MMG_FREAD(&num,MMG5_SW,1,inm);
+        MMG_FREAD(&tagNum,MMG5_SW,1,inm);
         if(iswp) {
           num = MMG5_swapbin(num);
           tagNum = MMG5_swapbin(tagNum);
@@ -1034,18 +1060,17 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         if ( tagNum < 2 ) {
           fprintf(stderr,"\n  ## Error: %s: Expected at least 2 tags per element (%d given).\n",
                   __func__,tagNum);
-          fclose(*inm);
           return -1;
         }
 
         for ( idx=0; idx<num; ++idx ) {
-          MMG_FREAD(&i,MMG5_SW,1,(*inm));
+          MMG_FREAD(&i,MMG5_SW,1,inm);
 
-          MMG_FREAD(&ref,MMG5_SW,1,(*inm));
-          MMG_FREAD(&i,MMG5_SW,1,(*inm));
+          MMG_FREAD(&ref,MMG5_SW,1,inm);
+          MMG_FREAD(&i,MMG5_SW,1,inm);
 
           for ( l=2; l<tagNum; ++l ) {
-            MMG_FREAD(&i,MMG5_SW,1,(*inm));
+            MMG_FREAD(&i,MMG5_SW,1,inm);
           }
 
           if(iswp) ref = MMG5_swapbin(ref);
@@ -1053,7 +1078,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           if ( mesh->ne ) {
             pt = &mesh->tetra[++ne];
             for ( i=0; i<4 ; ++i ) {
-              MMG_FREAD(&l,MMG5_SW,1,(*inm));
+              MMG_FREAD(&l,MMG5_SW,1,inm);
               if ( iswp ) l = MMG5_swapbin(l);
               pt->v[i] = l;
             }
@@ -1062,7 +1087,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           }
           else
             for ( i=0; i<4 ; ++i )
-              MMG_FREAD(&l,MMG5_SW,1,(*inm));
+              MMG_FREAD(&l,MMG5_SW,1,inm);
 
           if(ref < 0) {
             nref++;
@@ -1072,8 +1097,8 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         break;
       case 6:
         /* Prism */
-        MMG_FREAD(&num,MMG5_SW,1,(*inm));
-        MMG_FREAD(&tagNum,MMG5_SW,1,(*inm));
+        MMG_FREAD(&num,MMG5_SW,1,inm);
+        MMG_FREAD(&tagNum,MMG5_SW,1,inm);
         if(iswp) {
           num = MMG5_swapbin(num);
           tagNum = MMG5_swapbin(tagNum);
@@ -1081,18 +1106,17 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         if ( tagNum < 2 ) {
           fprintf(stderr,"\n  ## Error: %s: Expected at least 2 tags per element (%d given).\n",
                   __func__,tagNum);
-          fclose(*inm);
           return -1;
         }
 
         for ( idx=0; idx<num; ++idx ) {
-          MMG_FREAD(&i,MMG5_SW,1,(*inm));
+          MMG_FREAD(&i,MMG5_SW,1,inm);
 
-          MMG_FREAD(&ref,MMG5_SW,1,(*inm));
-          MMG_FREAD(&i,MMG5_SW,1,(*inm));
+          MMG_FREAD(&ref,MMG5_SW,1,inm);
+          MMG_FREAD(&i,MMG5_SW,1,inm);
 
           for ( l=2; l<tagNum; ++l ) {
-            MMG_FREAD(&i,MMG5_SW,1,(*inm));
+            MMG_FREAD(&i,MMG5_SW,1,inm);
           }
 
           if(iswp) ref = MMG5_swapbin(ref);
@@ -1100,7 +1124,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           if ( mesh->nprism ) {
             pp = &mesh->prism[++npr];
             for ( i=0; i<6 ; ++i ) {
-              MMG_FREAD(&l,MMG5_SW,1,(*inm));
+              MMG_FREAD(&l,MMG5_SW,1,inm);
               if ( iswp ) l = MMG5_swapbin(l);
               pp->v[i] = l;
             }
@@ -1109,7 +1133,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           }
           else {
             for ( i=0; i<6 ; ++i )
-              MMG_FREAD(&l,MMG5_SW,1,(*inm));
+              MMG_FREAD(&l,MMG5_SW,1,inm);
           }
 
           if(ref < 0) {
@@ -1120,8 +1144,8 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         break;
       case 15:
         /* Node */
-        MMG_FREAD(&num,MMG5_SW,1,(*inm));
-        MMG_FREAD(&tagNum,MMG5_SW,1,(*inm));
+        MMG_FREAD(&num,MMG5_SW,1,inm);
+        MMG_FREAD(&tagNum,MMG5_SW,1,inm);
         if(iswp) {
           num = MMG5_swapbin(num);
           tagNum = MMG5_swapbin(tagNum);
@@ -1129,23 +1153,22 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         if ( tagNum < 2 ) {
           fprintf(stderr,"\n  ## Error: %s: Expected at least 2 tags per element (%d given).\n",
                   __func__,tagNum);
-          fclose(*inm);
           return -1;
         }
 
         for ( idx=0; idx<num; ++idx ) {
-          MMG_FREAD(&i,MMG5_SW,1,(*inm));
+          MMG_FREAD(&i,MMG5_SW,1,inm);
 
-          MMG_FREAD(&ref,MMG5_SW,1,(*inm));
-          MMG_FREAD(&i,MMG5_SW,1,(*inm));
+          MMG_FREAD(&ref,MMG5_SW,1,inm);
+          MMG_FREAD(&i,MMG5_SW,1,inm);
 
           for ( l=2; l<tagNum; ++l ) {
-            MMG_FREAD(&i,MMG5_SW,1,(*inm));
+            MMG_FREAD(&i,MMG5_SW,1,inm);
           }
 
           if(iswp) ref = MMG5_swapbin(ref);
 
-          MMG_FREAD(&l,MMG5_SW,1,(*inm));
+          MMG_FREAD(&l,MMG5_SW,1,inm);
           if(iswp) l = MMG5_swapbin(l);
           ppt = &mesh->point[l];
           ppt->ref = ref;
@@ -1160,7 +1183,6 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
       default:
         fprintf(stderr,"\n  ## Error: %s: unexpected type of element (%d)\n",
                 __func__,typ);
-        fclose(*inm);
         return -1;
       }
     }
@@ -1179,7 +1201,6 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
       else if ( nt < mesh->nt ) {
         MMG5_ADD_MEM(mesh,(nt-mesh->nt)*sizeof(MMG5_Tria),"triangles",
                      fprintf(stderr,"  Exit program.\n");
-                     fclose(*inm);
                      return -1);
         MMG5_SAFE_RECALLOC(mesh->tria,mesh->nt+1,(nt+1),MMG5_Tria,"triangles",
                            return -1);
@@ -1192,7 +1213,6 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
       else if ( na < mesh->na ) {
         MMG5_ADD_MEM(mesh,(na-mesh->na)*sizeof(MMG5_Edge),"edges",
                      fprintf(stderr,"  Exit program.\n");
-                     fclose(*inm);
                      return -1);
         MMG5_SAFE_RECALLOC(mesh->edge,mesh->na+1,(na+1),MMG5_Edge,"edges",
                            return -1);
@@ -1215,8 +1235,8 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
     for ( isol=0; isol < nsols; ++isol ) {
       assert ( posNodeData[isol] );
 
-      rewind((*inm));
-      fseek((*inm),posNodeData[isol],SEEK_SET);
+      rewind(inm);
+      fseek(inm,posNodeData[isol],SEEK_SET);
 
       psl = *sol + isol;
 
@@ -1226,9 +1246,9 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
       psl->type = 1;
 
       /* String tags: The first one stores the solution name */
-      MMG_FSCANF((*inm),"%d ",&tagNum);
-      if ( 1 != fscanf(*inm,"\"%127s\"\n",&chaine[0]) ) {
-        MMG_FSCANF(*inm,"%127s\n",&chaine[0]);
+      MMG_FSCANF(inm,"%d ",&tagNum);
+      if ( 1 != fscanf(inm,"\"%127s\"\n",&chaine[0]) ) {
+        MMG_FSCANF(inm,"%127s\n",&chaine[0]);
       }
 
       ptr = NULL;
@@ -1250,38 +1270,36 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
       }
 
       for ( k=1; k<tagNum; ++k ) {
-        if ( 0 != fscanf((*inm),"%*[^\n]%*c") ) return -1;
+        if ( 0 != fscanf(inm,"%*[^\n]%*c") ) return -1;
       }
 
       /* Real tags ignored */
-      if ( fscanf((*inm),"%d",&tagNum) ) {
+      if ( fscanf(inm,"%d",&tagNum) ) {
         for ( k=0; k<tagNum; ++k ) {
-          MMG_FSCANF((*inm),"%f",&fc);
+          MMG_FSCANF(inm,"%f",&fc);
         }
       }
 
       /* Integer tags : allow to recover the number of sols and their types */
-      MMG_FSCANF((*inm),"%d ",&tagNum);
+      MMG_FSCANF(inm,"%d ",&tagNum);
       if ( tagNum < 3 ) {
         fprintf(stderr,"   Error: %s: node data: Expected at least 3 tags (%d given).\n",
                 __func__,tagNum);
-        fclose(*inm);
         return -1;
       }
 
-      MMG_FSCANF((*inm),"%d ",&i); //time step;
-      MMG_FSCANF((*inm),"%d ",&typ); //type of solution: 1=scalar, 3=vector, 9=tensor ;
-      MMG_FSCANF((*inm),"%" MMG5_PRId " ",&psl->np);
+      MMG_FSCANF(inm,"%d ",&i); //time step;
+      MMG_FSCANF(inm,"%d ",&typ); //type of solution: 1=scalar, 3=vector, 9=tensor ;
+      MMG_FSCANF(inm,"%" MMG5_PRId " ",&psl->np);
 
       for ( k=3; k<tagNum; ++k ) {
-        MMG_FSCANF((*inm),"%d",&i);
+        MMG_FSCANF(inm,"%d",&i);
       }
 
       if ( mesh->np != psl->np ) {
         fprintf(stderr,"  ** MISMATCHES DATA: THE NUMBER OF VERTICES IN "
                 "THE MESH (%" MMG5_PRId ") DIFFERS FROM THE NUMBER OF VERTICES IN "
                 "THE SOLUTION (%" MMG5_PRId ") \n",mesh->np,psl->np);
-        fclose(*inm);
         return -1;
       }
 
@@ -1305,7 +1323,6 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
       }
       else {
         fprintf(stderr,"  ** DATA TYPE IGNORED %d \n",typ);
-        fclose(*inm);
         return -1;
       }
 
@@ -1315,7 +1332,6 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
 
       MMG5_ADD_MEM(mesh,(psl->size*(psl->npmax+1))*sizeof(double),"initial solution",
                    fprintf(stderr,"  Exit program.\n");
-                   fclose(*inm);
                    return -1);
       MMG5_SAFE_CALLOC(psl->m,psl->size*(psl->npmax+1),double,return -1);
 
@@ -1324,12 +1340,12 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         if ( psl->ver == 1 ) {
           for (k=1; k<=psl->np; k++) {
             if(!bin){
-              MMG_FSCANF((*inm),"%d ",&idx);
-              MMG_FSCANF((*inm),"%f ",&fbuf[0]);
+              MMG_FSCANF(inm,"%d ",&idx);
+              MMG_FSCANF(inm,"%f ",&fbuf[0]);
             } else {
-              MMG_FREAD(&idx,MMG5_SW,1, (*inm));
+              MMG_FREAD(&idx,MMG5_SW,1, inm);
               if(iswp) idx = MMG5_swapbin(idx);
-              MMG_FREAD(&fbuf[0],MMG5_SW,1,(*inm));
+              MMG_FREAD(&fbuf[0],MMG5_SW,1,inm);
               if(iswp) fbuf[0]=MMG5_swapf(fbuf[0]);
             }
             psl->m[idx] = fbuf[0];
@@ -1338,12 +1354,12 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         else {
           for (k=1; k<=psl->np; k++) {
             if(!bin){
-              MMG_FSCANF((*inm),"%d ",&idx);
-              MMG_FSCANF((*inm),"%lf ",&dbuf[0]);
+              MMG_FSCANF(inm,"%d ",&idx);
+              MMG_FSCANF(inm,"%lf ",&dbuf[0]);
             } else {
-              MMG_FREAD(&idx,MMG5_SW,1, (*inm));
+              MMG_FREAD(&idx,MMG5_SW,1, inm);
               if(iswp) idx = MMG5_swapbin(idx);
-              MMG_FREAD(&dbuf[0],MMG5_SD,1,(*inm));
+              MMG_FREAD(&dbuf[0],MMG5_SD,1,inm);
               if(iswp) dbuf[0]=MMG5_swapd(dbuf[0]);
             }
             psl->m[idx] = dbuf[0];
@@ -1355,16 +1371,16 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         if ( psl->ver == 1 ) {
           for (k=1; k<=psl->np; k++) {
             if(!bin){
-              MMG_FSCANF((*inm),"%d ",&idx);
+              MMG_FSCANF(inm,"%d ",&idx);
               for (i=0; i<psl->dim; i++) {
-                MMG_FSCANF((*inm),"%f ",&fbuf[0]);
+                MMG_FSCANF(inm,"%f ",&fbuf[0]);
                 psl->m[psl->dim*idx+i] = fbuf[0];
               }
             } else {
-              MMG_FREAD(&idx,MMG5_SW,1, (*inm));
+              MMG_FREAD(&idx,MMG5_SW,1, inm);
               if(iswp) idx = MMG5_swapbin(idx);
               for (i=0; i<psl->dim; i++) {
-                MMG_FREAD(&fbuf[0],MMG5_SW,1,(*inm));
+                MMG_FREAD(&fbuf[0],MMG5_SW,1,inm);
                 if(iswp) fbuf[0]=MMG5_swapf(fbuf[0]);
                 psl->m[psl->dim*idx+i] = fbuf[0];
               }
@@ -1374,19 +1390,19 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         else {
           for (k=1; k<=psl->np; k++) {
             if(!bin){
-              MMG_FSCANF((*inm),"%d ",&idx);
+              MMG_FSCANF(inm,"%d ",&idx);
 
               for (i=0; i<psl->dim; i++) {
-                MMG_FSCANF((*inm),"%lf ",&dbuf[0]);
+                MMG_FSCANF(inm,"%lf ",&dbuf[0]);
                 psl->m[psl->dim*idx+i] = dbuf[0];
               }
 
             } else {
-              MMG_FREAD(&idx,MMG5_SW,1, (*inm));
+              MMG_FREAD(&idx,MMG5_SW,1, inm);
               if(iswp) idx = MMG5_swapbin(idx);
 
               for (i=0; i<psl->dim; i++) {
-                MMG_FREAD(&dbuf[0],MMG5_SD,1,(*inm));
+                MMG_FREAD(&dbuf[0],MMG5_SD,1,inm);
                 if(iswp) dbuf[0]=MMG5_swapd(dbuf[0]);
                 psl->m[psl->dim*idx+i] = dbuf[0];
               }
@@ -1402,14 +1418,14 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           for (k=1; k<=psl->np; k++) {
 
             if(!bin){
-              MMG_FSCANF((*inm),"%d ",&idx);
+              MMG_FSCANF(inm,"%d ",&idx);
               for(i=0 ; i<9 ; i++)
-                MMG_FSCANF((*inm),"%f ",&fbuf[i]);
+                MMG_FSCANF(inm,"%f ",&fbuf[i]);
             } else {
-              MMG_FREAD(&idx,MMG5_SW,1, (*inm));
+              MMG_FREAD(&idx,MMG5_SW,1, inm);
               if(iswp) idx = MMG5_swapbin(idx);
               for(i=0 ; i<9 ; i++) {
-                MMG_FREAD(&fbuf[i],MMG5_SW,1,(*inm));
+                MMG_FREAD(&fbuf[i],MMG5_SW,1,inm);
                 if(iswp) fbuf[i]=MMG5_swapf(fbuf[i]);
               }
             }
@@ -1454,14 +1470,14 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           for (k=1; k<=psl->np; k++) {
             /* Solution at double precision */
             if(!bin){
-              MMG_FSCANF((*inm),"%d ",&idx);
+              MMG_FSCANF(inm,"%d ",&idx);
               for(i=0 ; i<9 ; i++)
-                MMG_FSCANF((*inm),"%lf ",&dbuf[i]);
+                MMG_FSCANF(inm,"%lf ",&dbuf[i]);
             } else {
-              MMG_FREAD(&idx,MMG5_SW,1, (*inm));
+              MMG_FREAD(&idx,MMG5_SW,1, inm);
               if(iswp) idx = MMG5_swapbin(idx);
               for(i=0 ; i<9 ; i++) {
-                MMG_FREAD(&dbuf[i],MMG5_SD,1,(*inm));
+                MMG_FREAD(&dbuf[i],MMG5_SD,1,inm);
                 if(iswp) dbuf[i]=MMG5_swapd(dbuf[i]);
               }
             }
@@ -1508,11 +1524,41 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
     }
   }
 
-  fclose((*inm));
-
   return 1;
 }
 
+/**
+ * \param mesh pointer to the mesh
+ * \param sol pointer to the solutions array
+ * \param inm pointer to the file pointer
+ * \param posNodes position of nodes data in file
+ * \param posElts position of elts data in file
+ * \param posNodeData position of solution data in file
+ * \param bin 1 if binary format
+ * \param nelts number of elements in file
+ * \param nsols number of silutions in file
+ * \return 1 if success, -1 if fail.
+ *
+ * End to read mesh and solution array at MSH file format after the
+ * mesh/solution array alloc. The file is closed whatever the result.
+ *
+ * \remark For now only intput files containing int32 integers are supported.
+ */
+int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
+                           const long posNodes,const long posElts,
+                           const long *posNodeData,const int bin,const int iswp,
+                           const MMG5_int nelts,const int nsols) {
+  int ier;
+
+  ier = MMG5_readMshMesh_part2(mesh,sol,*inm,posNodes,posElts,posNodeData,bin,
+                               iswp,nelts,nsols);
+
+  fclose(*inm);
+  *inm = NULL;
+
+  return ier;
+}
+
 /**
  * \param mesh pointer to the mesh structure
  * \param sol pointer to the sol structure.
@@ -2060,6 +2106,102 @@ int MMG5_saveMshMesh(MMG5_pMesh mesh,MMG5_pSol *sol,const char *filename,
   return 1;
 }
 
+/**
+ * \param meshDim mesh dimenson.
+ * \param inm pointer to the opened file
+ * \param ver file version (1=simple precision, 2=double)
+ * \param bin 1 if the file is a binary
+ * \param iswp 1 if the bytes must be swapped
+ * \param np number of solutions of each type
+ * \param dim solution dimension
+ * \param nsols number of solutions of different types in the file
+ * \param type type of solutions
+ * \param posnp pointer to the position of the point list in the file
+ * \return -1 data invalid or we fail, 1 ok.
+ *
+ * Read the header of an opened solution file.
+ *
+ */
+static
+int MMG5_readSolHeader( int meshDim,FILE *inm,int *ver,
+                        int *bin,int *iswp,MMG5_int *np,int *dim,int *nsols,int **type,
+                        long *posnp) {
+  int         binch,bdim;
+  int         bpos,i;
+  char        chaine[MMG5_FILESTR_LGTH];
+
+  /* read solution or metric */
+  if(!*bin) {
+    strcpy(chaine,"DDD");
+    while(fscanf(inm,"%127s",&chaine[0])!=EOF && strncmp(chaine,"End",strlen("End")) ) {
+      if(!strncmp(chaine,"Dimension",strlen("Dimension"))) {
+        MMG_FSCANF(inm,"%d",dim);
+        if ( *dim!=meshDim ) {
+          fprintf(stderr,"BAD SOL DIMENSION: %d\n",*dim);
+          return -1;
+        }
+        continue;
+      } else if(!strncmp(chaine,"SolAtVertices",strlen("SolAtVertices"))) {
+        MMG_FSCANF(inm,"%" MMG5_PRId "",np);
+        MMG_FSCANF(inm,"%d",nsols);
+        MMG5_SAFE_CALLOC(*type,*nsols,int,return -1);
+        for ( i=0; i<*nsols; ++i ) {
+          MMG_FSCANF(inm,"%d",&((*type)[i]));
+        }
+        *posnp = ftell(inm);
+        break;
+      }
+    }
+  } else {
+    MMG_FREAD(&binch,MMG5_SW,1,inm);
+    if(binch==16777216) (*iswp)=1;
+    else if(binch!=1) {
+      fprintf(stdout,"BAD FILE ENCODING\n");
+      return -1;
+    }
+    MMG_FREAD(ver,MMG5_SW,1,inm);
+    if ( *iswp ) *ver = MMG5_swapbin(*ver);
+    while(fread(&binch,MMG5_SW,1,inm)!=EOF && binch!=54 ) {
+      if ( *iswp ) binch=MMG5_swapbin(binch);
+      if(binch==54) break;
+      if(binch==3) {  //Dimension
+        MMG_FREAD(&bdim,MMG5_SW,1,inm);  //NulPos=>20
+        if ( *iswp ) bdim=MMG5_swapbin(bdim);
+        MMG_FREAD(dim,MMG5_SW,1,inm);
+        if ( *iswp ) *dim=MMG5_swapbin(*dim);
+        if ( *dim!=meshDim ) {
+          fprintf(stderr,"BAD SOL DIMENSION: %d\n",*dim);
+          printf("  Exit program.\n");
+          return -1;
+        }
+        continue;
+      } else if(binch==62) {  //SolAtVertices
+        MMG_FREAD(&binch,MMG5_SW,1,inm); //Pos
+        if ( *iswp ) binch=MMG5_swapbin(binch);
+        MMG_FREAD(np,MMG5_SW,1,inm);
+        if ( *iswp ) *np=MMG5_swapbin(*np);
+        MMG_FREAD(nsols,MMG5_SW,1,inm); //nb sol
+        if ( *iswp ) *nsols =MMG5_swapbin(*nsols);
+
+        MMG5_SAFE_CALLOC(*type,*nsols,int,return -1); //typSol
+        for ( i=0; i<*nsols; ++i ) {
+          MMG_FREAD(&((*type)[i]),MMG5_SW,1,inm);
+          if ( *iswp ) (*type)[i]=MMG5_swapbin((*type)[i]);
+        }
+        *posnp = ftell(inm);
+        break;
+      } else {
+        MMG_FREAD(&bpos,MMG5_SW,1,inm); //Pos
+        if ( *iswp ) bpos=MMG5_swapbin(bpos);
+        rewind(inm);
+        fseek(inm,bpos,SEEK_SET);
+      }
+    }
+  }
+
+  return 1;
+}
+
 /**
  * \param filename name of file.
  * \param meshDim mesh dimenson.
@@ -2082,14 +2224,14 @@ int MMG5_saveMshMesh(MMG5_pMesh mesh,MMG5_pSol *sol,const char *filename,
 int MMG5_loadSolHeader( const char *filename,int meshDim,FILE **inm,int *ver,
                         int *bin,int *iswp,MMG5_int *np,int *dim,int *nsols,int **type,
                         long *posnp, int imprim) {
-  int         binch,bdim;
-  int         bpos,i;
-  char        *ptr,*data,chaine[MMG5_FILESTR_LGTH];
+  int         ier;
+  char        *ptr,*data;
 
   *posnp = 0;
   *bin   = 0;
   *iswp  = 0;
   *ver   = 0;
+  *type  = NULL;
 
   MMG5_SAFE_CALLOC(data,strlen(filename)+6,char,return -1);
   strcpy(data,filename);
@@ -2138,79 +2280,13 @@ int MMG5_loadSolHeader( const char *filename,int meshDim,FILE **inm,int *ver,
     fprintf(stdout,"  %%%% %s OPENED\n",data);
   MMG5_SAFE_FREE(data);
 
-  /* read solution or metric */
-  if(!*bin) {
-    strcpy(chaine,"DDD");
-    while(fscanf(*inm,"%127s",&chaine[0])!=EOF && strncmp(chaine,"End",strlen("End")) ) {
-      if(!strncmp(chaine,"Dimension",strlen("Dimension"))) {
-        MMG_FSCANF(*inm,"%d",dim);
-        if ( *dim!=meshDim ) {
-          fprintf(stderr,"BAD SOL DIMENSION: %d\n",*dim);
-          fclose(*inm);
-          return -1;
-        }
-        continue;
-      } else if(!strncmp(chaine,"SolAtVertices",strlen("SolAtVertices"))) {
-        MMG_FSCANF(*inm,"%" MMG5_PRId "",np);
-        MMG_FSCANF(*inm,"%d",nsols);
-        MMG5_SAFE_CALLOC(*type,*nsols,int,return -1);
-        for ( i=0; i<*nsols; ++i ) {
-          MMG_FSCANF(*inm,"%d",&((*type)[i]));
-        }
-        *posnp = ftell(*inm);
-        break;
-      }
-    }
-  } else {
-    MMG_FREAD(&binch,MMG5_SW,1,*inm);
-    if(binch==16777216) (*iswp)=1;
-    else if(binch!=1) {
-      fprintf(stdout,"BAD FILE ENCODING\n");
-      fclose(*inm);
-      return -1;
-    }
-    MMG_FREAD(ver,MMG5_SW,1,*inm);
-    if ( *iswp ) *ver = MMG5_swapbin(*ver);
-    while(fread(&binch,MMG5_SW,1,*inm)!=EOF && binch!=54 ) {
-      if ( *iswp ) binch=MMG5_swapbin(binch);
-      if(binch==54) break;
-      if(binch==3) {  //Dimension
-        MMG_FREAD(&bdim,MMG5_SW,1,*inm);  //NulPos=>20
-        if ( *iswp ) bdim=MMG5_swapbin(bdim);
-        MMG_FREAD(dim,MMG5_SW,1,*inm);
-        if ( *iswp ) *dim=MMG5_swapbin(*dim);
-        if ( *dim!=meshDim ) {
-          fprintf(stderr,"BAD SOL DIMENSION: %d\n",*dim);
-          printf("  Exit program.\n");
-          fclose(*inm);
-          return -1;
-        }
-        continue;
-      } else if(binch==62) {  //SolAtVertices
-        MMG_FREAD(&binch,MMG5_SW,1,*inm); //Pos
-        if ( *iswp ) binch=MMG5_swapbin(binch);
-        MMG_FREAD(np,MMG5_SW,1,*inm);
-        if ( *iswp ) *np=MMG5_swapbin(*np);
-        MMG_FREAD(nsols,MMG5_SW,1,*inm); //nb sol
-        if ( *iswp ) *nsols =MMG5_swapbin(*nsols);
-
-        MMG5_SAFE_CALLOC(*type,*nsols,int,return -1); //typSol
-        for ( i=0; i<*nsols; ++i ) {
-          MMG_FREAD(&((*type)[i]),MMG5_SW,1,*inm);
-          if ( *iswp ) (*type)[i]=MMG5_swapbin((*type)[i]);
-        }
-        *posnp = ftell(*inm);
-        break;
-      } else {
-        MMG_FREAD(&bpos,MMG5_SW,1,*inm); //Pos
-        if ( *iswp ) bpos=MMG5_swapbin(bpos);
-        rewind(*inm);
-        fseek(*inm,bpos,SEEK_SET);
-      }
-    }
+  ier = MMG5_readSolHeader(meshDim,*inm,ver,bin,iswp,np,dim,nsols,type,posnp);
+  if ( ier < 1 ) {
+    fclose(*inm);
+    MMG5_SAFE_FREE(*type);
   }
 
-  return 1;
+  return ier;
 }
 
 /**
diff --git a/src/mmg2d/inout_2d.c b/src/mmg2d/inout_2d.c
index d631143..5b57567 100644
--- a/src/mmg2d/inout_2d.c
+++ b/src/mmg2d/inout_2d.c
@@ -809,7 +809,10 @@ int MMG2D_loadMshMesh_and_allData(MMG5_pMesh mesh,MMG5_pSol *sol,const char *fil
                 printf("  Exit program.\n"); fclose(inm);
                 MMG5_SAFE_FREE(posNodeData);
                 return -1);
-  MMG5_SAFE_CALLOC(*sol,nsols,MMG5_Sol,return -1);
+  MMG5_SAFE_CALLOC(*sol,nsols,MMG5_Sol,
+                   fclose(inm);
+                   MMG5_SAFE_FREE(posNodeData);
+                   return -1);
 
   if ( !MMG2D_zaldy(mesh) ) {
     fclose(inm);
@@ -985,13 +988,19 @@ int MMG2D_loadSol(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
   if ( sol->ver == 1 ) {
     /* Single precision */
     for (k=1; k<=sol->np; k++) {
-      if ( MMG2D_readFloatSol(sol,inm,bin,iswp,k) < 0 ) return -1;
+      if ( MMG2D_readFloatSol(sol,inm,bin,iswp,k) < 0 ) {
+        fclose(inm);
+        return -1;
+      }
     }
   }
   else {
     for (k=1; k<=sol->np; k++) {
       /* Double precision */
-      if ( MMG2D_readDoubleSol(sol,inm,bin,iswp,k) < 0 ) return -1;
+      if ( MMG2D_readDoubleSol(sol,inm,bin,iswp,k) < 0 ) {
+        fclose(inm);
+        return -1;
+      }
     }
   }
 
@@ -1059,7 +1068,10 @@ int MMG2D_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
                 printf("  Exit program.\n"); fclose(inm);
                 MMG5_SAFE_FREE(type);
                 return -1);
-  MMG5_SAFE_CALLOC(*sol,nsols,MMG5_Sol,return -1);
+  MMG5_SAFE_CALLOC(*sol,nsols,MMG5_Sol,
+                   fclose(inm);
+                   MMG5_SAFE_FREE(type);
+                   return -1);
 
   for ( j=0; j<nsols; ++j) {
     psl = *sol+j;
@@ -1096,7 +1108,10 @@ int MMG2D_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
     for (k=1; k<=mesh->np; k++) {
       for ( j=0; j<nsols; ++j ) {
         psl = *sol+j;
-        if ( MMG2D_readFloatSol(psl,inm,bin,iswp,k) < 0 ) return -1;
+        if ( MMG2D_readFloatSol(psl,inm,bin,iswp,k) < 0 ) {
+          fclose(inm);
+          return -1;
+        }
       }
     }
   }
@@ -1105,7 +1120,10 @@ int MMG2D_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
     for (k=1; k<=mesh->np; k++) {
       for ( j=0; j<nsols; ++j ) {
         psl = *sol+j;
-        if ( MMG2D_readDoubleSol(psl,inm,bin,iswp,k) < 0 ) return -1;
+        if ( MMG2D_readDoubleSol(psl,inm,bin,iswp,k) < 0 ) {
+          fclose(inm);
+          return -1;
+        }
       }
     }
   }
diff --git a/src/mmg3d/inout_3d.c b/src/mmg3d/inout_3d.c
index 1ae40bc..dd81de6 100644
--- a/src/mmg3d/inout_3d.c
+++ b/src/mmg3d/inout_3d.c
@@ -1081,10 +1081,9 @@ int MMG3D_loadMesh(MMG5_pMesh mesh,const char *filename) {
   ier = MMG3D_openMesh(mesh->info.imprim,filename,&inm,&bin,"rb","rb");
   if( ier < 1 ) return ier;
   ier = MMG3D_loadMesh_opened(mesh,inm,bin);
-  if( ier < 1 ) return ier;
 
   fclose(inm);
-  return 1;
+  return ier;
 }
 
 
@@ -1179,7 +1178,10 @@ int MMG3D_loadMshMesh_and_allData(MMG5_pMesh mesh,MMG5_pSol *sol,const char *fil
                 printf("  Exit program.\n"); fclose(inm);
                 MMG5_SAFE_FREE(posNodeData);
                 return -1);
-  MMG5_SAFE_CALLOC(*sol,nsols,MMG5_Sol,return -1);
+  MMG5_SAFE_CALLOC(*sol,nsols,MMG5_Sol,
+                   fclose(inm);
+                   MMG5_SAFE_FREE(posNodeData);
+                   return -1);
 
   if ( !MMG3D_zaldy(mesh) ) {
     fclose(inm);
@@ -2227,13 +2229,19 @@ int MMG3D_loadSol(MMG5_pMesh mesh,MMG5_pSol met, const char *filename) {
   if ( met->ver == 1 ) {
     /* Single precision */
     for (k=1; k<=mesh->np; k++) {
-      if ( MMG5_readFloatSol3D(met,inm,bin,iswp,k) < 0 ) return -1;
+      if ( MMG5_readFloatSol3D(met,inm,bin,iswp,k) < 0 ) {
+        fclose(inm);
+        return -1;
+      }
     }
   }
   else {
     /* Double precision */
     for (k=1; k<=mesh->np; k++) {
-      if ( MMG5_readDoubleSol3D(met,inm,bin,iswp,k) < 0 ) return -1;
+      if ( MMG5_readDoubleSol3D(met,inm,bin,iswp,k) < 0 ) {
+        fclose(inm);
+        return -1;
+      }
     }
   }
 
@@ -2285,7 +2293,10 @@ int MMG3D_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
                 printf("  Exit program.\n"); fclose(inm);
                 MMG5_SAFE_FREE(type);
                 return -1);
-  MMG5_SAFE_CALLOC(*sol,nsols,MMG5_Sol,return -1);
+  MMG5_SAFE_CALLOC(*sol,nsols,MMG5_Sol,
+                   fclose(inm);
+                   MMG5_SAFE_FREE(type);
+                   return -1);
 
   for ( j=0; j<nsols; ++j ) {
     psl = *sol + j;
@@ -2322,7 +2333,10 @@ int MMG3D_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
     for (k=1; k<=mesh->np; k++) {
       for ( j=0; j<nsols; ++j ) {
         psl = *sol + j;
-        if ( MMG5_readFloatSol3D(psl,inm,bin,iswp,k) < 0 ) return -1;
+        if ( MMG5_readFloatSol3D(psl,inm,bin,iswp,k) < 0 ) {
+          fclose(inm);
+          return -1;
+        }
       }
     }
   }
@@ -2331,7 +2345,10 @@ int MMG3D_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
     for (k=1; k<=mesh->np; k++) {
       for ( j=0; j<nsols; ++j ) {
         psl = *sol + j;
-        if ( MMG5_readDoubleSol3D(psl,inm,bin,iswp,k) < 0 ) return -1;
+        if ( MMG5_readDoubleSol3D(psl,inm,bin,iswp,k) < 0 ) {
+          fclose(inm);
+          return -1;
+        }
       }
     }
   }
diff --git a/src/mmgs/inout_s.c b/src/mmgs/inout_s.c
index 800e3ec..29ecd12 100644
--- a/src/mmgs/inout_s.c
+++ b/src/mmgs/inout_s.c
@@ -769,7 +769,10 @@ int MMGS_loadMshMesh_and_allData(MMG5_pMesh mesh,MMG5_pSol *sol,const char *file
                printf("  Exit program.\n"); fclose(inm);
                MMG5_SAFE_FREE(posNodeData);
                return -1);
-  MMG5_SAFE_CALLOC(*sol,nsols,MMG5_Sol,return -1);
+  MMG5_SAFE_CALLOC(*sol,nsols,MMG5_Sol,
+                   fclose(inm);
+                   MMG5_SAFE_FREE(posNodeData);
+                   return -1);
 
   if ( !MMGS_zaldy(mesh) ) {
     fclose(inm);
@@ -1414,13 +1417,19 @@ int MMGS_loadSol(MMG5_pMesh mesh,MMG5_pSol met,const char* filename) {
   if ( met->ver == 1 ) {
     /* Simple precision */
     for (k=1; k<=mesh->np; k++) {
-      if ( MMG5_readFloatSol3D(met,inm,bin,iswp,k) < 0 ) return -1;
+      if ( MMG5_readFloatSol3D(met,inm,bin,iswp,k) < 0 ) {
+        fclose(inm);
+        return -1;
+      }
     }
   }
   else {
     /* Double precision */
     for (k=1; k<=mesh->np; k++) {
-      if ( MMG5_readDoubleSol3D(met,inm,bin,iswp,k) < 0 ) return -1;
+      if ( MMG5_readDoubleSol3D(met,inm,bin,iswp,k) < 0 ) {
+        fclose(inm);
+        return -1;
+      }
     }
   }
 
@@ -1471,7 +1480,10 @@ int MMGS_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
                printf("  Exit program.\n"); fclose(inm);
                MMG5_SAFE_FREE(type);
                return -1);
-  MMG5_SAFE_CALLOC(*sol,nsols,MMG5_Sol,return -1);
+  MMG5_SAFE_CALLOC(*sol,nsols,MMG5_Sol,
+                   fclose(inm);
+                   MMG5_SAFE_FREE(type);
+                   return -1);
 
   for ( j=0; j<nsols; ++j ) {
     psl = *sol + j;
@@ -1507,7 +1519,10 @@ int MMGS_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
     for (k=1; k<=mesh->np; k++) {
       for ( j=0; j<nsols; ++j ) {
         psl = *sol + j;
-        if ( MMG5_readFloatSol3D(psl,inm,bin,iswp,k) < 0 ) return -1;
+        if ( MMG5_readFloatSol3D(psl,inm,bin,iswp,k) < 0 ) {
+          fclose(inm);
+          return -1;
+        }
       }
     }
   }
@@ -1516,7 +1531,10 @@ int MMGS_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
     for (k=1; k<=mesh->np; k++) {
       for ( j=0; j<nsols; ++j ) {
         psl = *sol + j;
-        if ( MMG5_readDoubleSol3D(psl,inm,bin,iswp,k) < 0 ) return -1;
+        if ( MMG5_readDoubleSol3D(psl,inm,bin,iswp,k) < 0 ) {
+          fclose(inm);
+          return -1;
+        }
       }
     }
   }
-- 
2.43.0


From cf58b03d0a9670c1c0eef0e75e38a8b33b10195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:53 +0000
Subject: [PATCH 26/46] fix: release the hash tables and the lists of
 references on the failure paths too

---
 src/mmg2d/delone_2d.c   |   5 +-
 src/mmg2d/mmg2d.c       |   3 +
 src/mmg2d/mmg2d1.c      |   8 ++-
 src/mmg2d/mmg2d6.c      |   7 ++-
 src/mmg3d/analys_3d.c   |   2 +
 src/mmg3d/delaunay_3d.c |  10 ++-
 src/mmg3d/hash_3d.c     |  98 +++++++++++++++++++++--------
 src/mmg3d/mmg3d.c       |   3 +
 src/mmg3d/mmg3d1.c      | 132 ++++++++++++++++++++++++++++++++--------
 src/mmg3d/mmg3d2.c      |  22 +++++--
 src/mmg3d/mmg3d2s.c     |  22 +++++--
 src/mmgs/hash_s.c       |   1 +
 src/mmgs/mmgs.c         |   1 +
 src/mmgs/mmgs1.c        |  16 +++--
 src/mmgs/mmgs2.c        |   8 ++-
 15 files changed, 260 insertions(+), 78 deletions(-)

diff --git a/src/mmg2d/delone_2d.c b/src/mmg2d/delone_2d.c
index 45e2588..dbf4a25 100644
--- a/src/mmg2d/delone_2d.c
+++ b/src/mmg2d/delone_2d.c
@@ -328,7 +328,7 @@ int MMG2D_delone(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int ip,MMG5_int *list,int il
                           fprintf(stderr,"\n  ## Error: %s: unable to allocate"
                                  " a new element.\n",__func__);
                           MMG5_INCREASE_MEM_MESSAGE();
-                          printf("  Exit program.\n");return -1);
+                          printf("  Exit program.\n");MMG5_DEL_MEM(mesh,hedg.item); return -1);
     }
   }
 
@@ -383,6 +383,7 @@ int MMG2D_delone(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int ip,MMG5_int *list,int il
               fprintf(stderr,"  ## Warning: %s: unable to update adjacency"
                       " relationship (elt %" MMG5_PRId ", edge %d).\n",
                       __func__,MMG2D_indElt(mesh,iel),j);
+              MMG5_DEL_MEM(mesh,hedg.item);
               return -1;
             }
           }
@@ -403,6 +404,6 @@ int MMG2D_delone(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int ip,MMG5_int *list,int il
 
   //ppt = &mesh->point[ip];
   //  ppt->flag = mesh->flag;
-  MMG5_SAFE_FREE(hedg.item);
+  MMG5_DEL_MEM(mesh,hedg.item);
   return 1;
 }
diff --git a/src/mmg2d/mmg2d.c b/src/mmg2d/mmg2d.c
index 65f8c7d..ae12d67 100644
--- a/src/mmg2d/mmg2d.c
+++ b/src/mmg2d/mmg2d.c
@@ -141,12 +141,15 @@ int MMG2D_writeLocalParam( MMG5_pMesh mesh ) {
 
   nparEdg = MMG2D_countLocalParamAtEdg( mesh, &edgRefs);
   if ( !nparEdg ) {
+    MMG5_Free_ilinkedList(mesh,edgRefs);
     fclose(out);
     return 0;
   }
 
   nparTri = MMG5_countLocalParamAtTri( mesh, &triRefs);
   if ( !nparTri ) {
+    MMG5_Free_ilinkedList(mesh,edgRefs);
+    MMG5_Free_ilinkedList(mesh,triRefs);
     fclose(out);
     return 0;
   }
diff --git a/src/mmg2d/mmg2d1.c b/src/mmg2d/mmg2d1.c
index 3f1c7dd..f247106 100644
--- a/src/mmg2d/mmg2d1.c
+++ b/src/mmg2d/mmg2d1.c
@@ -186,7 +186,7 @@ MMG5_int MMG2D_anaelt(MMG5_pMesh mesh,MMG5_pSol met,int typchk) {
                             MMG5_INCREASE_MEM_MESSAGE();
                             do {
                               MMG2D_delPt(mesh,mesh->np);
-                            } while ( mesh->np>npinit );return -1;,
+                            } while ( mesh->np>npinit );MMG5_DEL_MEM(mesh,hash.item); return -1;,
                             o,pt->tag[i]);
       }
       ppt = &mesh->point[ip];
@@ -322,6 +322,7 @@ MMG5_int MMG2D_anaelt(MMG5_pMesh mesh,MMG5_pSol met,int typchk) {
             fprintf(stderr,"\n  ## Error: %s: unable to create point on"
                     " at least 1 edge.\n Exit program.\n",__func__);
           }
+          MMG5_DEL_MEM(mesh,hash.item);
           return -1;
         }
       }
@@ -338,7 +339,10 @@ MMG5_int MMG2D_anaelt(MMG5_pMesh mesh,MMG5_pSol met,int typchk) {
       ier = MMG2D_split2(mesh,met,k,vx);
       ns++;
     }
-    if ( !ier ) return -1;
+    if ( !ier ) {
+      MMG5_DEL_MEM(mesh,hash.item);
+      return -1;
+    }
   }
   if ( (mesh->info.ddebug || abs(mesh->info.imprim) > 5) && ns > 0 )
     fprintf(stdout,"     %7" MMG5_PRId " splitted\n",ns);
diff --git a/src/mmg2d/mmg2d6.c b/src/mmg2d/mmg2d6.c
index 23e32bb..79af1d3 100644
--- a/src/mmg2d/mmg2d6.c
+++ b/src/mmg2d/mmg2d6.c
@@ -141,7 +141,7 @@ int MMG2D_cuttri(MMG5_pMesh mesh, MMG5_pSol sol, MMG5_pSol met){
                             fprintf(stderr,"\n  ## Error: %s: unable to"
                                     " allocate a new point.\n",__func__);
                             MMG5_INCREASE_MEM_MESSAGE();
-                            return 0;,
+                            MMG5_DEL_MEM(mesh,hash.item); return 0;,
                             c,0);
       }
       sol->m[np] = 0.0;
@@ -189,7 +189,10 @@ int MMG2D_cuttri(MMG5_pMesh mesh, MMG5_pSol sol, MMG5_pSol met){
         assert(pt->flag==0);
         break;
     }
-    if ( !ier ) return 0;
+    if ( !ier ) {
+      MMG5_DEL_MEM(mesh,hash.item);
+      return 0;
+    }
   }
 
   if ( (mesh->info.ddebug || abs(mesh->info.imprim) > 5) && ns > 0 )
diff --git a/src/mmg3d/analys_3d.c b/src/mmg3d/analys_3d.c
index 7f3c94d..0cb4147 100644
--- a/src/mmg3d/analys_3d.c
+++ b/src/mmg3d/analys_3d.c
@@ -1416,6 +1416,7 @@ int MMG3D_analys(MMG5_pMesh mesh) {
   /* regularize vertices coordinates*/
   if ( mesh->info.xreg && !MMG3D_regver(mesh) ) {
     fprintf(stderr,"\n  ## Coordinates regularization problem. Exit program.\n");
+    MMG5_DEL_MEM(mesh,hash.item);
     return 0;
   }
 
@@ -1427,6 +1428,7 @@ int MMG3D_analys(MMG5_pMesh mesh) {
   }
   if ( mesh->info.nreg && !MMG5_regnor(mesh) ) {
     fprintf(stderr,"\n  ## Normal regularization problem. Exit program.\n");
+    MMG5_DEL_MEM(mesh,hash.item);
     return 0;
   }
 
diff --git a/src/mmg3d/delaunay_3d.c b/src/mmg3d/delaunay_3d.c
index a072995..3721df8 100644
--- a/src/mmg3d/delaunay_3d.c
+++ b/src/mmg3d/delaunay_3d.c
@@ -201,6 +201,7 @@ int MMG5_delone(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int ip,int64_t *list,int ilis
   if ( size > 3*MMG3D_LONMAX )  return 0;
   if ( !MMG5_hashNew(mesh,&hedg,size,3*size) ) { /*3*size suffit */
     fprintf(stderr,"\n  ## Error: %s: unable to complete mesh.\n",__func__);
+    MMG5_DEL_MEM(mesh,hedg.item);
     return -1;
   }
 
@@ -213,7 +214,7 @@ int MMG5_delone(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int ip,int64_t *list,int ilis
       MMG3D_TETRA_REALLOC(mesh,ielnum[k],mesh->gap,
                           fprintf(stderr,"\n  ## Error: %s: unable to allocate a"
                                   " new element.\n",__func__);
-                          return -1);
+                          MMG5_DEL_MEM(mesh,hedg.item); return -1);
     }
   }
 
@@ -279,7 +280,7 @@ int MMG5_delone(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int ip,int64_t *list,int ilis
                 MMG5_TAB_RECALLOC(mesh,mesh->xtetra,mesh->xtmax,MMG5_GAP,MMG5_xTetra,
                                    "larger xtetra table",
                                    mesh->xt--;
-                                   fprintf(stderr,"  Exit program.\n"); return -1;);
+                                   fprintf(stderr,"  Exit program.\n"); MMG5_DEL_MEM(mesh,hedg.item); return -1;);
               }
               pt1->xt = mesh->xt;
               pxt0 = &mesh->xtetra[pt1->xt];
@@ -326,7 +327,10 @@ int MMG5_delone(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int ip,int64_t *list,int ilis
 #endif
   for (k=0; k<ilist; k++) {
     assert(tref==mesh->tetra[list[k]].ref);
-    if ( !MMG3D_delElt(mesh,list[k]) ) return -1;
+    if ( !MMG3D_delElt(mesh,list[k]) ) {
+      MMG5_DEL_MEM(mesh,hedg.item);
+      return -1;
+    }
   }
 
   // ppt = &mesh->point[ip];
diff --git a/src/mmg3d/hash_3d.c b/src/mmg3d/hash_3d.c
index e3b3a98..45542ff 100644
--- a/src/mmg3d/hash_3d.c
+++ b/src/mmg3d/hash_3d.c
@@ -1296,7 +1296,10 @@ int MMG5_bdryTria(MMG5_pMesh mesh, MMG5_int ntmesh) {
   }
   else if ( mesh->nt ) {
     /* Hash given bdry triangles */
-    if ( ! MMG5_hashNew(mesh,&hash,(MMG5_int)(0.51*mesh->nt),(MMG5_int)(1.51*mesh->nt)) ) return 0;
+    if ( ! MMG5_hashNew(mesh,&hash,(MMG5_int)(0.51*mesh->nt),(MMG5_int)(1.51*mesh->nt)) ) {
+      MMG5_DEL_MEM(mesh,hash.item);
+      return 0;
+    }
     tofree=1;
   }
 
@@ -1993,7 +1996,10 @@ int MMG5_bdrySet(MMG5_pMesh mesh) {
   if ( ! MMG5_hashNew(mesh,&hash,0.51*mesh->nt,1.51*mesh->nt) ) return 0;
   for (k=1; k<=mesh->nt; k++) {
     ptt = &mesh->tria[k];
-    if ( !MMG5_hashFace(mesh,&hash,ptt->v[0],ptt->v[1],ptt->v[2],k) ) return 0;
+    if ( !MMG5_hashFace(mesh,&hash,ptt->v[0],ptt->v[1],ptt->v[2],k) ) {
+      MMG5_DEL_MEM(mesh,hash.item);
+      return 0;
+    }
   }
 
   mesh->xt     = 0;
@@ -2002,8 +2008,8 @@ int MMG5_bdrySet(MMG5_pMesh mesh) {
 
   MMG5_ADD_MEM(mesh,(mesh->xtmax+1)*sizeof(MMG5_xTetra),"boundary tetrahedra",
                 fprintf(stderr,"  Exit program.\n");
-                return 0);
-  MMG5_SAFE_CALLOC(mesh->xtetra,mesh->xtmax+1,MMG5_xTetra,return 0);
+                MMG5_DEL_MEM(mesh,hash.item); return 0);
+  MMG5_SAFE_CALLOC(mesh->xtetra,mesh->xtmax+1,MMG5_xTetra,MMG5_DEL_MEM(mesh,hash.item); return 0);
 
   /* assign references to tetras faces */
   if ( !mesh->info.opnbdy ) {
@@ -2027,7 +2033,7 @@ int MMG5_bdrySet(MMG5_pMesh mesh) {
               MMG5_TAB_RECALLOC(mesh,mesh->xtetra,mesh->xtmax,MMG5_GAP,MMG5_xTetra,
                                  "larger xtetra table",
                                  mesh->xt--;
-                                 fprintf(stderr,"  Exit program.\n");return 0;);
+                                 fprintf(stderr,"  Exit program.\n");MMG5_DEL_MEM(mesh,hash.item); return 0;);
             }
             pt->xt = mesh->xt;
           }
@@ -2071,7 +2077,7 @@ int MMG5_bdrySet(MMG5_pMesh mesh) {
             MMG5_TAB_RECALLOC(mesh,mesh->xtetra,mesh->xtmax,MMG5_GAP,MMG5_xTetra,
                                "larger xtetra table",
                                mesh->xt--;
-                               fprintf(stderr,"  Exit program.\n");return 0;);
+                               fprintf(stderr,"  Exit program.\n");MMG5_DEL_MEM(mesh,hash.item); return 0;);
           }
           pt->xt = mesh->xt;
         }
@@ -2126,8 +2132,10 @@ int MMG5_bdrySet(MMG5_pMesh mesh) {
               for (j=0; j<3; j++) {
                 tag = pxt->ftag[i] | ptt->tag[j];
                 if ( tag ) {
-                  if ( !MMG5_settag(mesh,k,MMG5_iarf[i][j],tag,ptt->edg[j]) )
+                  if ( !MMG5_settag(mesh,k,MMG5_iarf[i][j],tag,ptt->edg[j]) ) {
+                    MMG5_DEL_MEM(mesh,hash.item);
                     return 0;
+                  }
                 }
               }
             }
@@ -2206,8 +2214,10 @@ int MMG5_bdrySet(MMG5_pMesh mesh) {
             for (j=0; j<3; j++) {
               tag = pxt->ftag[i] | ptt->tag[j];
               if ( tag ) {
-                if ( !MMG5_settag(mesh,k,MMG5_iarf[i][j],tag,ptt->edg[j]) )
+                if ( !MMG5_settag(mesh,k,MMG5_iarf[i][j],tag,ptt->edg[j]) ) {
+                  MMG5_DEL_MEM(mesh,hash.item);
                   return 0;
+                }
               }
             }
           }
@@ -2224,8 +2234,8 @@ int MMG5_bdrySet(MMG5_pMesh mesh) {
   mesh->xpr     = 0;
   MMG5_ADD_MEM(mesh,(mesh->nprism+1)*sizeof(MMG5_xPrism),"boundary prisms",
                 fprintf(stderr,"  Exit program.\n");
-                return 0);
-  MMG5_SAFE_CALLOC(mesh->xprism,mesh->nprism+1,MMG5_xPrism,return 0);
+                MMG5_DEL_MEM(mesh,hash.item); return 0);
+  MMG5_SAFE_CALLOC(mesh->xprism,mesh->nprism+1,MMG5_xPrism,MMG5_DEL_MEM(mesh,hash.item); return 0);
 
   /* assign references to prism faces */
   for (k=1; k<=mesh->nprism; k++) {
@@ -2274,9 +2284,9 @@ int MMG5_bdrySet(MMG5_pMesh mesh) {
   }
   MMG5_ADD_MEM(mesh,(mesh->xpr-mesh->nprism)*sizeof(MMG5_xPrism),"boundary prisms",
                 fprintf(stderr,"  Exit program.\n");
-                return 0);
+                MMG5_DEL_MEM(mesh,hash.item); return 0);
   MMG5_SAFE_RECALLOC(mesh->xprism,mesh->nprism+1,mesh->xpr+1,MMG5_xPrism,
-                      "boundary prisms",return 0);
+                      "boundary prisms",MMG5_DEL_MEM(mesh,hash.item); return 0);
 
   MMG5_DEL_MEM(mesh,hash.item);
   return 1;
@@ -2327,22 +2337,58 @@ int MMG5_bdryUpdate(MMG5_pMesh mesh) {
       mesh->point[mesh->tetra[k].v[1]].tag |= MG_REQ;
       mesh->point[mesh->tetra[k].v[2]].tag |= MG_REQ;
       mesh->point[mesh->tetra[k].v[3]].tag |= MG_REQ;
-      if ( !MMG5_settag(mesh,k,0,MG_REQ,0) ) return 0;
-      if ( !MMG5_settag(mesh,k,1,MG_REQ,0) ) return 0;
-      if ( !MMG5_settag(mesh,k,2,MG_REQ,0) ) return 0;
-      if ( !MMG5_settag(mesh,k,3,MG_REQ,0) ) return 0;
-      if ( !MMG5_settag(mesh,k,4,MG_REQ,0) ) return 0;
-      if ( !MMG5_settag(mesh,k,5,MG_REQ,0) ) return 0;
+      if ( !MMG5_settag(mesh,k,0,MG_REQ,0) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return 0;
+      }
+      if ( !MMG5_settag(mesh,k,1,MG_REQ,0) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return 0;
+      }
+      if ( !MMG5_settag(mesh,k,2,MG_REQ,0) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return 0;
+      }
+      if ( !MMG5_settag(mesh,k,3,MG_REQ,0) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return 0;
+      }
+      if ( !MMG5_settag(mesh,k,4,MG_REQ,0) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return 0;
+      }
+      if ( !MMG5_settag(mesh,k,5,MG_REQ,0) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return 0;
+      }
       mesh->point[mesh->tetra[k].v[0]].tag &= ~MG_NOSURF;
       mesh->point[mesh->tetra[k].v[1]].tag &= ~MG_NOSURF;
       mesh->point[mesh->tetra[k].v[2]].tag &= ~MG_NOSURF;
       mesh->point[mesh->tetra[k].v[3]].tag &= ~MG_NOSURF;
-      if ( !MMG5_deltag(mesh,k,0,MG_NOSURF) ) return 0;
-      if ( !MMG5_deltag(mesh,k,1,MG_NOSURF) ) return 0;
-      if ( !MMG5_deltag(mesh,k,2,MG_NOSURF) ) return 0;
-      if ( !MMG5_deltag(mesh,k,3,MG_NOSURF) ) return 0;
-      if ( !MMG5_deltag(mesh,k,4,MG_NOSURF) ) return 0;
-      if ( !MMG5_deltag(mesh,k,5,MG_NOSURF) ) return 0;
+      if ( !MMG5_deltag(mesh,k,0,MG_NOSURF) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return 0;
+      }
+      if ( !MMG5_deltag(mesh,k,1,MG_NOSURF) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return 0;
+      }
+      if ( !MMG5_deltag(mesh,k,2,MG_NOSURF) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return 0;
+      }
+      if ( !MMG5_deltag(mesh,k,3,MG_NOSURF) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return 0;
+      }
+      if ( !MMG5_deltag(mesh,k,4,MG_NOSURF) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return 0;
+      }
+      if ( !MMG5_deltag(mesh,k,5,MG_NOSURF) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return 0;
+      }
     }
 
     if ( !pt->xt )  continue;
@@ -2371,8 +2417,10 @@ int MMG5_bdryUpdate(MMG5_pMesh mesh) {
         for ( j=0; j<3; j++ ) {
           tag = ptt->tag[j];
           if ( tag || ptt->edg[j] ) {
-            if ( !MMG5_settag(mesh,k,MMG5_iarf[i][j],tag,ptt->edg[j]) )
+            if ( !MMG5_settag(mesh,k,MMG5_iarf[i][j],tag,ptt->edg[j]) ) {
+              MMG5_DEL_MEM(mesh,hash.item);
               return 0;
+            }
           }
         }
       }
diff --git a/src/mmg3d/mmg3d.c b/src/mmg3d/mmg3d.c
index 863ea54..e01b29f 100644
--- a/src/mmg3d/mmg3d.c
+++ b/src/mmg3d/mmg3d.c
@@ -150,12 +150,15 @@ int MMG3D_writeLocalParam( MMG5_pMesh mesh ) {
 
   nparTri = MMG5_countLocalParamAtTri( mesh, &triRefs);
   if ( !nparTri ) {
+    MMG5_Free_ilinkedList(mesh,triRefs);
     fclose(out);
     return 0;
   }
 
   nparTet = MMG5_countLocalParamAtTet( mesh, &tetRefs);
   if ( !nparTet ) {
+    MMG5_Free_ilinkedList(mesh,triRefs);
+    MMG5_Free_ilinkedList(mesh,tetRefs);
     fclose(out);
     return 0;
   }
diff --git a/src/mmg3d/mmg3d1.c b/src/mmg3d/mmg3d1.c
index dc005e3..4188223 100644
--- a/src/mmg3d/mmg3d1.c
+++ b/src/mmg3d/mmg3d1.c
@@ -1386,7 +1386,10 @@ MMG5_anatetv(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
         ip1 = pt->v[MMG5_iare[i][0]];
         ip2 = pt->v[MMG5_iare[i][1]];
         ip  = -1;
-        if ( !MMG5_hashEdge(mesh,&hash,ip1,ip2,ip) )  return -1;
+        if ( !MMG5_hashEdge(mesh,&hash,ip1,ip2,ip) ) {
+          MMG5_DEL_MEM(mesh,hash.item);
+          return -1;
+        }
       }
       continue;
     }
@@ -1400,7 +1403,10 @@ MMG5_anatetv(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
           ip1 = pt->v[MMG5_idir[i][MMG5_inxt2[j]]];
           ip2 = pt->v[MMG5_idir[i][MMG5_iprv2[j]]];
           ip  = -1;
-          if ( !MMG5_hashEdge(mesh,&hash,ip1,ip2,ip) )  return -1;
+          if ( !MMG5_hashEdge(mesh,&hash,ip1,ip2,ip) ) {
+            MMG5_DEL_MEM(mesh,hash.item);
+            return -1;
+          }
         }
       }
     }
@@ -1502,6 +1508,7 @@ MMG5_anatetv(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
 
           if (!ier) {
             // Unable to compute the metric
+            MMG5_DEL_MEM(mesh,hash.item);
             return -1;
           }
           else if ( ier < 0 ) {
@@ -1510,7 +1517,10 @@ MMG5_anatetv(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
           }
         }
 
-        if ( !MMG5_hashEdge(mesh,&hash,ip1,ip2,ip) )  return -1;
+        if ( !MMG5_hashEdge(mesh,&hash,ip1,ip2,ip) ) {
+          MMG5_DEL_MEM(mesh,hash.item);
+          return -1;
+        }
         MG_SET(pt->flag,i);
         nap++;
       }
@@ -1525,7 +1535,10 @@ MMG5_anatetv(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
 split:
   if ( mincal < MMG5_EPS ) {
     /* Delete the useless added points */
-    if ( !MMG3D_delPatternPts(mesh,hash) ) return -1;
+    if ( !MMG3D_delPatternPts(mesh,hash) ) {
+      MMG5_DEL_MEM(mesh,hash.item);
+      return -1;
+    }
 
     /* Avoid the creation of bad quality elements */
     if ( mesh->info.imprim > 5 || mesh->info.ddebug ) {
@@ -1554,55 +1567,85 @@ split:
 
     switch (pt->flag) {
     case 1: case 2: case 4: case 8: case 16: case 32: /* 1 edge split */
-      if ( ! MMG5_split1(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split1(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
     case 48: case 24: case 40: case 6: case 34: case 36:
     case 20: case 5: case 17: case 9: case 3: case 10: /* 2 edges (same face) split */
-      if ( ! MMG5_split2sf(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split2sf(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
     case 33: case 18: case 12: /* 2 opposite edges split */
-      if ( ! MMG5_split2(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split2(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
     case 11: case 21: case 38: case 56: /* 3 edges on the same faces splitted */
-      if ( ! MMG5_split3(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split3(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
     case 7: case 25: case 42: case 52: /* 3 edges on conic configuration splitted */
-      if ( ! MMG5_split3cone(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split3cone(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
     case 35: case 19: case 13: case 37: case 22: case 28: case 26:
     case 14: case 49: case 50: case 44: case 41: /* 3 edges on opposite configuration splitted */
-      if ( ! MMG5_split3op(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split3op(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
     case 23: case 29: case 53: case 60: case 57: case 58:
     case 27: case 15: case 43: case 39: case 54: case 46: /* 4 edges with 3 lying on the same face splitted */
-      if ( ! MMG5_split4sf(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split4sf(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
       /* 4 edges with no 3 lying on the same face splitted */
     case 30: case 45: case 51:
-      if ( ! MMG5_split4op(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split4op(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
     case 62: case 61: case 59: case 55: case 47: case 31: /* 5 edges split */
-      if ( ! MMG5_split5(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split5(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
     case 63: /* 6 edges split */
-      if ( ! MMG5_split6(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split6(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
     }
@@ -1612,7 +1655,10 @@ split:
     fprintf(stdout,"     %7" MMG5_PRId " splitted\n",nap);
 
   MMG5_DEL_MEM(mesh,hash.item);
-  if ( memlack )  return -1;
+  if ( memlack ) {
+    MMG5_DEL_MEM(mesh,hash.item);
+    return -1;
+  }
   return nap;
 }
 
@@ -2381,7 +2427,10 @@ MMG3D_anatets_iso(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
             pb.p[1] = &mesh->point[ptt.v[1]];
             pb.p[2] = &mesh->point[ptt.v[2]];
           }
-          if ( !MMG5_hashEdge(mesh,&hash,ip1,ip2,ip) )  return -1;
+          if ( !MMG5_hashEdge(mesh,&hash,ip1,ip2,ip) ) {
+            MMG5_DEL_MEM(mesh,hash.item);
+            return -1;
+          }
           ppt = &mesh->point[ip];
 
           assert ( met );
@@ -2401,6 +2450,7 @@ MMG3D_anatets_iso(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
                         " 1 metric.\n",__func__);
                 mmgWarn = 1;
               }
+              MMG5_DEL_MEM(mesh,hash.item);
               return -1;
             }
             else if ( ier < 0 ) {
@@ -2668,55 +2718,85 @@ MMG3D_anatets_iso(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
     }
     switch (pt->flag) {
     case 1: case 2: case 4: case 8: case 16: case 32: /* 1 edge split */
-      if ( ! MMG5_split1(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split1(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
     case 48: case 24: case 40: case 6: case 34: case 36:
     case 20: case 5: case 17: case 9: case 3: case 10: /* 2 edges (same face) split */
-      if ( ! MMG5_split2sf(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split2sf(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
     case 33: case 18: case 12: /* 2 opposite edges split */
-      if ( ! MMG5_split2(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split2(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
     case 11: case 21: case 38: case 56: /* 3 edges on the same faces splitted */
-      if ( ! MMG5_split3(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split3(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
     case 7: case 25: case 42: case 52: /* 3 edges on conic configuration splitted */
-      if ( ! MMG5_split3cone(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split3cone(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
     case 35: case 19: case 13: case 37: case 22: case 28: case 26:
     case 14: case 49: case 50: case 44: case 41: /* 3 edges on opposite configuration splitted */
-      if ( ! MMG5_split3op(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split3op(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
     case 23: case 29: case 53: case 60: case 57: case 58:
     case 27: case 15: case 43: case 39: case 54: case 46: /* 4 edges with 3 lying on the same face splitted */
-      if ( ! MMG5_split4sf(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split4sf(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
       /* 4 edges with no 3 lying on the same face splitted */
     case 30: case 45: case 51:
-      if ( ! MMG5_split4op(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split4op(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
     case 62: case 61: case 59: case 55: case 47: case 31: /* 5 edges split */
-      if ( ! MMG5_split5(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split5(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
 
     case 63: /* 6 edges split */
-      if ( ! MMG5_split6(mesh,met,k,vx,typchk-1) ) return -1;
+      if ( ! MMG5_split6(mesh,met,k,vx,typchk-1) ) {
+        MMG5_DEL_MEM(mesh,hash.item);
+        return -1;
+      }
       ns++;
       break;
     }
diff --git a/src/mmg3d/mmg3d2.c b/src/mmg3d/mmg3d2.c
index ebafa57..18e379a 100644
--- a/src/mmg3d/mmg3d2.c
+++ b/src/mmg3d/mmg3d2.c
@@ -1079,7 +1079,10 @@ int MMG3D_cuttet_ls(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
         ip0 = pt->v[MMG5_iare[ia][0]];
         ip1 = pt->v[MMG5_iare[ia][1]];
         np  = -1;
-        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) )  return -1;
+        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) ) {
+          MMG5_DEL_MEM(mesh,hash.item);
+          return -1;
+        }
       }
       continue;
     }
@@ -1096,7 +1099,10 @@ int MMG3D_cuttet_ls(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
         ip0 = pt->v[MMG5_idir[ia][MMG5_inxt2[j]]];
         ip1 = pt->v[MMG5_idir[ia][MMG5_iprv2[j]]];
         np  = -1;
-        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) )  return -1;
+        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) ) {
+          MMG5_DEL_MEM(mesh,hash.item);
+          return -1;
+        }
       }
     }
   }
@@ -1144,7 +1150,7 @@ int MMG3D_cuttet_ls(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
                              fprintf(stderr,"\n  ## Error: %s: unable to"
                                      " allocate a new point\n",__func__);
                              MMG5_INCREASE_MEM_MESSAGE();
-                             return 0
+                             MMG5_DEL_MEM(mesh,hash.item); return 0
                              ,c,0,src);
         if( met ) {
           if( met->m ) {
@@ -1155,7 +1161,7 @@ int MMG3D_cuttet_ls(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
                          mesh->npmax = oldnpmax;
                          mesh->np = mesh->npmax-1;
                          mesh->npnil = 0;
-                         return 0);
+                         MMG5_DEL_MEM(mesh,hash.item); return 0);
             MMG5_SAFE_REALLOC(met->m,met->size*(met->npmax+1),
                               met->size*(mesh->npmax+1),
                               double,"larger solution",
@@ -1164,7 +1170,7 @@ int MMG3D_cuttet_ls(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
                               mesh->npmax = oldnpmax;
                               mesh->np = mesh->npmax-1;
                               mesh->npnil = 0;
-                              return 0);
+                              MMG5_DEL_MEM(mesh,hash.item); return 0);
           }
           met->npmax = mesh->npmax;
         }
@@ -1183,6 +1189,7 @@ int MMG3D_cuttet_ls(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
           fprintf(stderr,"\n  ## Error: %s: unable to"
                   " interpolate the metric during the level-set"
                   " discretization\n",__func__);
+          MMG5_DEL_MEM(mesh,hash.item);
           return 0;
         }
       }
@@ -1240,7 +1247,10 @@ int MMG3D_cuttet_ls(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
       assert(pt->flag == 0);
       break;
     }
-    if ( !ier ) return 0;
+    if ( !ier ) {
+      MMG5_DEL_MEM(mesh,hash.item);
+      return 0;
+    }
   }
   if ( (mesh->info.ddebug || abs(mesh->info.imprim) > 5) && ns > 0 )
     fprintf(stdout,"     %7" MMG5_PRId " splitted\n",ns);
diff --git a/src/mmg3d/mmg3d2s.c b/src/mmg3d/mmg3d2s.c
index bc3b775..15486e6 100755
--- a/src/mmg3d/mmg3d2s.c
+++ b/src/mmg3d/mmg3d2s.c
@@ -219,7 +219,10 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
         ip0 = pt->v[MMG5_iare[ia][0]];
         ip1 = pt->v[MMG5_iare[ia][1]];
         np  = -1;
-        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) )  return -1;
+        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) ) {
+          MMG5_DEL_MEM(mesh,hash.item);
+          return -1;
+        }
       }
       continue;
     }
@@ -236,7 +239,10 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
         ip0 = pt->v[MMG5_idir[ia][MMG5_inxt2[j]]];
         ip1 = pt->v[MMG5_idir[ia][MMG5_iprv2[j]]];
         np  = -1;
-        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) )  return -1;
+        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) ) {
+          MMG5_DEL_MEM(mesh,hash.item);
+          return -1;
+        }
       }
     }
   }
@@ -287,7 +293,7 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
                              fprintf(stderr,"\n  ## Error: %s: unable to"
                                      " allocate a new point\n",__func__);
                              MMG5_INCREASE_MEM_MESSAGE();
-                             return 0
+                             MMG5_DEL_MEM(mesh,hash.item); return 0
                              ,c,0,src);
           if( met ) {
             if( met->m ) {
@@ -298,7 +304,7 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
                          mesh->npmax = oldnpmax;
                          mesh->np = mesh->npmax-1;
                          mesh->npnil = 0;
-                         return 0);
+                         MMG5_DEL_MEM(mesh,hash.item); return 0);
               MMG5_SAFE_REALLOC(met->m,met->size*(met->npmax+1),
                               met->size*(mesh->npmax+1),
                               double,"larger solution",
@@ -307,7 +313,7 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
                               mesh->npmax = oldnpmax;
                               mesh->np = mesh->npmax-1;
                               mesh->npnil = 0;
-                              return 0);
+                              MMG5_DEL_MEM(mesh,hash.item); return 0);
             }
             met->npmax = mesh->npmax;
           }
@@ -328,6 +334,7 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
             fprintf(stderr,"\n  ## Error: %s: unable to"
                     " interpolate the metric during the level-set"
                     " discretization\n",__func__);
+            MMG5_DEL_MEM(mesh,hash.item);
             return 0;
           }
         }
@@ -401,7 +408,10 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
       break;
     }
 
-    if ( !ier ) return 0;
+    if ( !ier ) {
+      MMG5_DEL_MEM(mesh,hash.item);
+      return 0;
+    }
   }
   if ( (mesh->info.ddebug || abs(mesh->info.imprim) > 5) && ns > 0 )
     fprintf(stdout,"     %7" MMG5_PRId " splitted\n",ns);
diff --git a/src/mmgs/hash_s.c b/src/mmgs/hash_s.c
index 041b049..b3c693a 100644
--- a/src/mmgs/hash_s.c
+++ b/src/mmgs/hash_s.c
@@ -191,6 +191,7 @@ int MMGS_bdryUpdate(MMG5_pMesh mesh) {
         i2 = MMG5_iprv2[i];
         if ( !MMG5_hashEdgeTag(mesh,&hash,pt->v[i1],pt->v[i2],pt->tag[i]) ) {
           printf("  # Error: %s: Lack of memory.",__func__);
+          MMG5_DEL_MEM(mesh,hash.item);
           return 0;
         }
         ++nad;
diff --git a/src/mmgs/mmgs.c b/src/mmgs/mmgs.c
index 03fbc86..3e6768f 100644
--- a/src/mmgs/mmgs.c
+++ b/src/mmgs/mmgs.c
@@ -255,6 +255,7 @@ int MMGS_writeLocalParam( MMG5_pMesh mesh ) {
   npar = MMG5_countLocalParamAtTri( mesh, &triRefs);
 
   if ( !npar ) {
+    MMG5_Free_ilinkedList(mesh,triRefs);
     fclose(out);
     return 0;
   }
diff --git a/src/mmgs/mmgs1.c b/src/mmgs/mmgs1.c
index e619e85..988d589 100644
--- a/src/mmgs/mmgs1.c
+++ b/src/mmgs/mmgs1.c
@@ -620,7 +620,10 @@ static int anaelt(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
         i1 = MMG5_inxt2[i];
         i2 = MMG5_iprv2[i];
         len = MMG5_lenSurfEdg(mesh,met,pt->v[i1],pt->v[i2],0);
-        if ( !len ) return -1;
+        if ( !len ) {
+          MMG5_DEL_MEM(mesh,hash.item);
+          return -1;
+        }
         else if ( len > MMGS_LLONG )  {
           MG_SET(pt->flag,i);
         }
@@ -657,7 +660,7 @@ static int anaelt(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
                                       " allocate a new point.\n",__func__);
                               MMG5_INCREASE_MEM_MESSAGE();
                               MMGS_delPatternPts( mesh, hash);
-                              return -1
+                              MMG5_DEL_MEM(mesh,hash.item); return -1
                               ,o,MG_EDG(pt->tag[i]) ? to : no);
           // Now pb->p contain a wrong memory address.
           pb.p[0] = &mesh->point[pt->v[0]];
@@ -676,7 +679,7 @@ static int anaelt(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
             /* reallocation of xpoint table */
             MMG5_TAB_RECALLOC(mesh,mesh->xpoint,mesh->xpmax,MMG5_GAP,MMG5_xPoint,
                                "larger xpoint table",
-                               return -1);
+                               MMG5_DEL_MEM(mesh,hash.item); return -1);
           }
           ppt->xp  = mesh->xp;
           ppt->tag = pt->tag[i];
@@ -712,6 +715,7 @@ static int anaelt(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
                     " 1 metric.\n",__func__);
             mmgWarn0 = 1;
           }
+          MMG5_DEL_MEM(mesh,hash.item);
           return -1;
         }
       }
@@ -914,6 +918,7 @@ static int anaelt(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
             fprintf(stderr,"\n  ## Error: %s: unable to create point on"
                     " at least 1 edge.\n Exit program.\n",__func__);
           }
+          MMG5_DEL_MEM(mesh,hash.item);
           return -1;
         }
         j = i;
@@ -931,7 +936,10 @@ static int anaelt(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
       ier = MMGS_split2(mesh,met,k,vx);
       ns++;
     }
-    if ( !ier ) return -1;
+    if ( !ier ) {
+      MMG5_DEL_MEM(mesh,hash.item);
+      return -1;
+    }
   }
   if ( (mesh->info.ddebug || abs(mesh->info.imprim) > 5) && ns > 0 )
     fprintf(stdout,"     %7" MMG5_PRId " splitted\n",ns);
diff --git a/src/mmgs/mmgs2.c b/src/mmgs/mmgs2.c
index 0b68f15..15313d5 100644
--- a/src/mmgs/mmgs2.c
+++ b/src/mmgs/mmgs2.c
@@ -146,7 +146,7 @@ static int MMGS_cuttri(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
                             fprintf(stderr,"\n  ## Error: %s: unable to"
                                     " allocate a new point\n",__func__);
                             MMG5_INCREASE_MEM_MESSAGE();
-                            return 0
+                            MMG5_DEL_MEM(mesh,hash.item); return 0
                             ,c,NULL);
       }
       sol->m[np] = 0.0;
@@ -164,6 +164,7 @@ static int MMGS_cuttri(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
           fprintf(stderr,"\n  ## Error: %s: unable to"
                   " interpolate the metric during the level-set"
                   " discretization\n",__func__);
+          MMG5_DEL_MEM(mesh,hash.item);
           return 0;
         }
       }
@@ -213,7 +214,10 @@ static int MMGS_cuttri(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
       assert(pt->flag == 0);
       break;
     }
-    if ( !ier ) return 0;
+    if ( !ier ) {
+      MMG5_DEL_MEM(mesh,hash.item);
+      return 0;
+    }
   }
 
   if ( (mesh->info.ddebug || abs(mesh->info.imprim) > 5) && ns > 0 )
-- 
2.43.0


From c6e5d9ab57e5cd4bde74918a860129da3ba9958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:27 +0000
Subject: [PATCH 27/46] fix: restore the signal handlers when packing or an
 allocation fails

---
 src/mmg2d/libmmg2d.c | 14 ++++----------
 src/mmg3d/libmmg3d.c |  9 +--------
 src/mmgs/libmmgs.c   |  9 +--------
 3 files changed, 6 insertions(+), 26 deletions(-)

diff --git a/src/mmg2d/libmmg2d.c b/src/mmg2d/libmmg2d.c
index b703e5f..59fcdde 100644
--- a/src/mmg2d/libmmg2d.c
+++ b/src/mmg2d/libmmg2d.c
@@ -33,14 +33,7 @@
 #define MMG2D_RETURN_AND_PACK(mesh,met,sol,val)do \
   {                                               \
     if ( !MMG2D_pack(mesh,met,sol) ) {            \
-      mesh->npi = mesh->np;                       \
-      mesh->nti = mesh->nt;                       \
-      mesh->nai = mesh->na;                       \
-      mesh->nei = mesh->ne;                       \
-      mesh->xt  = 0;                              \
-      if ( met ) { met->npi  = met->np; }         \
-      if ( sol ) { sol->npi  = sol->np; }         \
-      return MMG5_LOWFAILURE;                     \
+      _LIBMMG5_RETURN(mesh,met,sol,MMG5_LOWFAILURE); \
     }                                             \
     _LIBMMG5_RETURN(mesh,met,sol,val);            \
   }while(0)
@@ -418,8 +411,9 @@ int MMG2D_mmg2dmesh(MMG5_pMesh mesh,MMG5_pSol met) {
   /* Memory alloc */
   MMG5_ADD_MEM(mesh,(3*mesh->ntmax+5)*sizeof(MMG5_int),"adjacency table",
                printf("  Exit program.\n");
-               return MMG5_STRONGFAILURE);
-  MMG5_SAFE_CALLOC(mesh->adja,3*mesh->ntmax+5,MMG5_int,return MMG5_STRONGFAILURE);
+               _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE));
+  MMG5_SAFE_CALLOC(mesh->adja,3*mesh->ntmax+5,MMG5_int,
+                   _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE));
 
   /* Delaunay triangulation of the set of points contained in the mesh,
    * enforcing the edges of the mesh */
diff --git a/src/mmg3d/libmmg3d.c b/src/mmg3d/libmmg3d.c
index da7601c..f18623c 100644
--- a/src/mmg3d/libmmg3d.c
+++ b/src/mmg3d/libmmg3d.c
@@ -51,14 +51,7 @@
 #define MMG5_RETURN_AND_PACK(mesh,met,sol,val)do  \
   {                                               \
     if ( !MMG3D_packMesh(mesh,met,sol) )  {       \
-      mesh->npi = mesh->np;                       \
-      mesh->nti = mesh->nt;                       \
-      mesh->nai = mesh->na;                       \
-      mesh->nei = mesh->ne;                       \
-      mesh->xt   = 0;                             \
-      if ( met ) { met->npi  = met->np; }         \
-      if ( sol ) { sol->npi  = sol->np; }         \
-      return MMG5_STRONGFAILURE;                  \
+      _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE); \
     }                                             \
     _LIBMMG5_RETURN(mesh,met,sol,val);            \
   }while(0)
diff --git a/src/mmgs/libmmgs.c b/src/mmgs/libmmgs.c
index 8b0ca95..e0bace2 100644
--- a/src/mmgs/libmmgs.c
+++ b/src/mmgs/libmmgs.c
@@ -49,14 +49,7 @@
 #define MMGS_RETURN_AND_PACK(mesh,met,sol,val)do  \
   {                                               \
     if ( !MMGS_packMesh(mesh,met,sol) )  {        \
-      mesh->npi = mesh->np;                       \
-      mesh->nti = mesh->nt;                       \
-      mesh->nai = mesh->na;                       \
-      mesh->nei = mesh->ne;                       \
-      met->npi  = met->np;                        \
-      if ( met ) { met->npi  = met->np; }         \
-      if ( sol ) { sol->npi  = sol->np; }         \
-      return MMG5_LOWFAILURE;                     \
+      _LIBMMG5_RETURN(mesh,met,sol,MMG5_LOWFAILURE); \
     }                                             \
     _LIBMMG5_RETURN(mesh,met,sol,val);            \
   }while(0)
-- 
2.43.0


From 3ae4eb4209e1f83c1fd471f52d0a3e2741e04827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:15 +0000
Subject: [PATCH 28/46] fix: do not let a debug-only check of the edge tags
 change the result

---
 src/mmg3d/intmet_3d.c | 5 +++--
 src/mmg3d/swap_3d.c   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mmg3d/intmet_3d.c b/src/mmg3d/intmet_3d.c
index 27b5fd4..83753b2 100644
--- a/src/mmg3d/intmet_3d.c
+++ b/src/mmg3d/intmet_3d.c
@@ -99,9 +99,10 @@ int MMG5_intmet_ani(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,int8_t i,MMG5_int i
     if ( !MMG3D_get_shellEdgeTag(mesh,k,i,&tag,&ref) ) {
       fprintf(stderr,"\n  ## Warning: %s: 0. unable to get edge info"
               " (tetra %d).\n",__func__,MMG3D_indElt(mesh,k));
-      return 0;
     }
-    assert ( (!(tag & MG_BDY)) && "Boundary edge is seen as internal");
+    else {
+      assert ( (!(tag & MG_BDY)) && "Boundary edge is seen as internal");
+    }
   }
 #endif
 
diff --git a/src/mmg3d/swap_3d.c b/src/mmg3d/swap_3d.c
index a9b3dc6..9f0eded 100644
--- a/src/mmg3d/swap_3d.c
+++ b/src/mmg3d/swap_3d.c
@@ -353,9 +353,10 @@ int MMG5_chkswpbdy(MMG5_pMesh mesh, MMG5_pSol met, int64_t *list,int ilist,
   if ( !MMG3D_get_shellEdgeTag(mesh,list[0]/6,list[0]%6,&tag,&ref) ) {
     fprintf(stderr,"\n  ## Warning: %s: 0. unable to get edge info"
             " (tetra %d).\n",__func__,MMG3D_indElt(mesh,list[0]/6));
-    return 0;
   }
-  assert ( (tag & MG_BDY)  && "Edge should be boundary but is not");
+  else {
+    assert ( (tag & MG_BDY)  && "Edge should be boundary but is not");
+  }
 #endif
 
   if ( met->m ) {
-- 
2.43.0


From fbcba03b7887d2699aa0b5606be8c40eefdcd244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:34 +0000
Subject: [PATCH 29/46] fix: failures and corrections must not depend on a
 message having been printed before

---
 src/common/scalem.c        | 2 +-
 src/mmg2d/anisosiz_2d.c    | 2 +-
 src/mmg2d/enforcement_2d.c | 8 ++++++--
 src/mmgs/chkmsh_s.c        | 2 +-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/common/scalem.c b/src/common/scalem.c
index 33155d9..d2d6b02 100644
--- a/src/common/scalem.c
+++ b/src/common/scalem.c
@@ -232,8 +232,8 @@ int MMG5_scale_scalarMetric(MMG5_pMesh mesh, MMG5_pSol met, double dd) {
         mmgWarn0 = 1;
         fprintf(stderr,"\n  ## Error: %s: at least 1 wrong metric.\n",
                 __func__);
-        return 0;
       }
+      return 0;
     }
     /* normalization */
     met->m[k] *= dd;
diff --git a/src/mmg2d/anisosiz_2d.c b/src/mmg2d/anisosiz_2d.c
index 23a5b63..1bd32a8 100644
--- a/src/mmg2d/anisosiz_2d.c
+++ b/src/mmg2d/anisosiz_2d.c
@@ -189,8 +189,8 @@ int MMG2D_defmetbdy_2d(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,int8_t i) {
       assert ( isloc && "Non compatible local parameters" );
       fprintf(stderr,"\n  ## Warning: %s: Non compatible local parameters:\n"
               " hmin (%.15lg) > hmax (%.15lg).\nhmax ignored.",__func__,hmin,hmax);
-      hmax = MMG5_HMINMAXGAP*hmin;
     }
+    hmax = MMG5_HMINMAXGAP*hmin;
     mmgWarn2 = 1;
   }
   sqhmin   = hmin*hmin;
diff --git a/src/mmg2d/enforcement_2d.c b/src/mmg2d/enforcement_2d.c
index 490c792..efaea03 100644
--- a/src/mmg2d/enforcement_2d.c
+++ b/src/mmg2d/enforcement_2d.c
@@ -39,6 +39,7 @@ int MMG2D_bdryenforcement(MMG5_pMesh mesh,MMG5_pSol sol) {
   MMG5_int        k,l,kk,nex,kdep,lon,iel;
   int             iare,ied;
   MMG5_int        ia,ib,ilon,rnd,idep,*adja,ir,adj;
+  uint32_t        seed;
   int8_t          i,i1,i2,j;
 //  int       iadr2,*adja2,ndel,iadr,ped0,ped1;
   static int8_t   mmgWarn0=0,mmgWarn1=0,mmgWarn2=0,mmgWarn3=0;
@@ -183,10 +184,13 @@ int MMG2D_bdryenforcement(MMG5_pMesh mesh,MMG5_pSol sol) {
 
       /* Randomly swap edges in the list, while... */
       ilon = lon;
-      srand(time(NULL));
+      seed = 1;
 
       while ( ilon > 0 ) {
-        rnd = ( rand() % lon );
+        /* Pseudo-random sequence that restarts for each edge: the result must
+         * depend neither on the time nor on the random generator of the caller */
+        seed = 1103515245u*seed + 12345u;
+        rnd  = ((seed >> 16) & 0x7fff) % lon;
         k   = list[rnd] / 3;
 
         /* Check for triangle k in the pipe until one triangle with base+1 is met (indicating that it is
diff --git a/src/mmgs/chkmsh_s.c b/src/mmgs/chkmsh_s.c
index 58be6b8..408d6b7 100644
--- a/src/mmgs/chkmsh_s.c
+++ b/src/mmgs/chkmsh_s.c
@@ -220,8 +220,8 @@ int MMG5_mmgsChkmsh(MMG5_pMesh mesh,int severe,MMG5_int base) {
                 mmgErr7 = 1;
                 fprintf(stderr,"\n  ## Error: %s: 7. at least 1 incorrect"
                         " ball (%" MMG5_PRId ": %d %d).\n",__func__,MMGS_indPt(mesh,ip),lon,len);
-                ppt->tag |= MG_CRN + MG_REQ;
               }
+              ppt->tag |= MG_CRN + MG_REQ;
               return 0;
             }
         }
-- 
2.43.0


From c16b590b009903ad393e994d136803e063b469b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:29 +0000
Subject: [PATCH 30/46] fix: do not use pointers into arrays that may have been
 reallocated

---
 src/mmg2d/split_2d.c      | 2 ++
 src/mmg3d/mmg3d1.c        | 8 +++++++-
 src/mmg3d/mmg3d1_delone.c | 4 ++++
 src/mmg3d/optbdry_3d.c    | 3 +++
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/mmg2d/split_2d.c b/src/mmg2d/split_2d.c
index 7bbe43c..e874b8c 100644
--- a/src/mmg2d/split_2d.c
+++ b/src/mmg2d/split_2d.c
@@ -769,6 +769,8 @@ int MMG2D_splitbar(MMG5_pMesh mesh,MMG5_int k,MMG5_int ip) {
                         printf("  Exit program.\n");return 0);
   }
 
+  /* The array of triangles may have been reallocated */
+  pt = &mesh->tria[k];
   pt->flag = 0;
   pt->base = mesh->base;
 
diff --git a/src/mmg3d/mmg3d1.c b/src/mmg3d/mmg3d1.c
index 4188223..5de7c78 100644
--- a/src/mmg3d/mmg3d1.c
+++ b/src/mmg3d/mmg3d1.c
@@ -639,6 +639,9 @@ MMG5_int MMG5_swpmsh(MMG5_pMesh mesh,MMG5_pSol met,MMG3D_pPROctree PROctree, int
             ier = MMG5_swpbdy(mesh,met,list,ret,it1,PROctree,typchk);
             if ( ier > 0 )  ns++;
             else if ( ier < 0 )  return -1;
+            /* The arrays of tetra and xtetra may have been reallocated */
+            pt  = &mesh->tetra[k];
+            pxt = &mesh->xtetra[pt->xt];
             break;
           }
         }
@@ -1165,7 +1168,10 @@ static MMG5_int MMG5_coltet(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
         if ( ilist > 0 ) {
           ier = MMG5_colver(mesh,met,list,ilist,iq,typchk);
           if ( ier < 0 ) return -5;
-          else if ( ier ) {
+
+          /* The array of xtetra may have been reallocated */
+          pxt = pt->xt ? &mesh->xtetra[pt->xt] : 0;
+          if ( ier ) {
             MMG3D_delPt(mesh,ier);
             break;
           }
diff --git a/src/mmg3d/mmg3d1_delone.c b/src/mmg3d/mmg3d1_delone.c
index 6291111..0cab145 100644
--- a/src/mmg3d/mmg3d1_delone.c
+++ b/src/mmg3d/mmg3d1_delone.c
@@ -516,6 +516,10 @@ int MMG5_adpsplcol(MMG5_pMesh mesh, MMG5_pSol met,MMG3D_pPROctree *PROctree,
     assert(lmin);
 
     for (ii=0; ii<6; ii++) {
+      /* The arrays of tetra and xtetra may have been reallocated */
+      pt  = &mesh->tetra[k];
+      pxt = pt->xt ? &mesh->xtetra[pt->xt] : 0;
+
       if ( pt->xt && (pxt->tag[ii] & MG_REQ) )  continue;
       if ( (ii==imintet) && (lmintet < MMG3D_LOPTS)) continue;
       if ( (ii==imaxtet) && (lmaxtet > MMG3D_LOPTL_DEL) ) continue;
diff --git a/src/mmg3d/optbdry_3d.c b/src/mmg3d/optbdry_3d.c
index 9164230..76921cd 100644
--- a/src/mmg3d/optbdry_3d.c
+++ b/src/mmg3d/optbdry_3d.c
@@ -321,6 +321,9 @@ int MMG3D_optbdry(MMG5_pMesh mesh,MMG5_pSol met,MMG3D_pPROctree PROctree,MMG5_in
     for (j=0; j<3; j++) {
       ia  = MMG5_iarf[i][j];
 
+      /* The array of xtetra may have been reallocated by the previous swaps */
+      pxt = &mesh->xtetra[mesh->tetra[k].xt];
+
       /* Mark the edge as boundary in case that the tag is missing */
       pxt->tag[ia] |= MG_BDY;
 
-- 
2.43.0


From 81d528b210d5ec9997994d9aad090a7ebc626d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:35 +0000
Subject: [PATCH 31/46] fix: bring the mesh back to its own coordinates when
 the computation of the initial qualities fails (mmg3d)

---
 src/mmg3d/libmmg3d.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mmg3d/libmmg3d.c b/src/mmg3d/libmmg3d.c
index f18623c..d4932df 100644
--- a/src/mmg3d/libmmg3d.c
+++ b/src/mmg3d/libmmg3d.c
@@ -1089,7 +1089,10 @@ int MMG3D_mmg3dlib(MMG5_pMesh mesh,MMG5_pSol met) {
     }
   }
 
-  if ( !MMG3D_tetraQual(mesh,met,0) )   _LIBMMG5_RETURN(mesh,met,sol,MMG5_LOWFAILURE);
+  if ( !MMG3D_tetraQual(mesh,met,0) ) {
+    if ( !MMG5_unscaleMesh(mesh,met,NULL) )   _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
+    _LIBMMG5_RETURN(mesh,met,sol,MMG5_LOWFAILURE);
+  }
 
   if ( mesh->info.imprim > 0  ||  mesh->info.imprim < -1 ) {
     if ( !MMG3D_inqua(mesh,met) ) {
@@ -1319,6 +1322,9 @@ int MMG3D_mmg3dls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet) {
 
   if ( !MMG3D_tetraQual(mesh,met,0) ) {
     if ( mettofree ) { MMG5_DEL_MEM(mesh,met->m);MMG5_SAFE_FREE (met); }
+    if ( !MMG5_unscaleMesh(mesh,met,sol) ) {
+      _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
+    }
     _LIBMMG5_RETURN(mesh,met,sol,MMG5_LOWFAILURE);
   }
 
@@ -1580,7 +1586,10 @@ int MMG3D_mmg3dmov(MMG5_pMesh mesh,MMG5_pSol met, MMG5_pSol disp) {
 
   MMG3D_setfunc(mesh,met);
 
-  if ( !MMG3D_tetraQual(mesh,met,0) )   _LIBMMG5_RETURN(mesh,met,disp,MMG5_LOWFAILURE);
+  if ( !MMG3D_tetraQual(mesh,met,0) ) {
+    if ( !MMG5_unscaleMesh(mesh,met,disp) )   _LIBMMG5_RETURN(mesh,met,disp,MMG5_STRONGFAILURE);
+    _LIBMMG5_RETURN(mesh,met,disp,MMG5_LOWFAILURE);
+  }
 
   if ( mesh->info.imprim > 0  ||  mesh->info.imprim < -1 ) {
     if ( !MMG3D_inqua(mesh,met) ) {
-- 
2.43.0


From 9a51864408129fac45f02d0ad600c2a33a8511eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:35 +0000
Subject: [PATCH 32/46] fix: bring the mesh back to its own coordinates when
 the final qualities are bad (mmg2d)

---
 src/mmg2d/libmmg2d.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmg2d/libmmg2d.c b/src/mmg2d/libmmg2d.c
index 59fcdde..15309dd 100644
--- a/src/mmg2d/libmmg2d.c
+++ b/src/mmg2d/libmmg2d.c
@@ -486,6 +486,7 @@ int MMG2D_mmg2dmesh(MMG5_pMesh mesh,MMG5_pSol met) {
 
   /* Print quality histories */
   if ( !MMG2D_outqua(mesh,met) ) {
+    if ( !MMG5_unscaleMesh(mesh,met,NULL) )  _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
     MMG2D_RETURN_AND_PACK(mesh,met,sol,MMG5_LOWFAILURE);
   }
 
@@ -781,6 +782,7 @@ int MMG2D_mmg2dls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet) {
       MMG5_DEL_MEM(mesh,met->m);
       MMG5_SAFE_FREE (met);
     }
+    if ( !MMG5_unscaleMesh(mesh,met,NULL) ) _LIBMMG5_RETURN(mesh,sol,met,MMG5_STRONGFAILURE);
     MMG2D_RETURN_AND_PACK(mesh,sol,met,MMG5_LOWFAILURE);
   }
 
-- 
2.43.0


From e14c9862ef427ba63cf8d6715d14fc852d975af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:35 +0000
Subject: [PATCH 33/46] fix: bring the level-set back to its own coordinates
 when the metric for the optim mode fails (mmg2dls)

---
 src/mmg2d/libmmg2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg2d/libmmg2d.c b/src/mmg2d/libmmg2d.c
index 15309dd..3c1e566 100644
--- a/src/mmg2d/libmmg2d.c
+++ b/src/mmg2d/libmmg2d.c
@@ -691,7 +691,7 @@ int MMG2D_mmg2dls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet) {
         MMG5_SAFE_FREE (met);
       }
 
-      if ( !MMG5_unscaleMesh(mesh,met,NULL) ) {
+      if ( !MMG5_unscaleMesh(mesh,met,sol) ) {
         _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE); }
       MMG2D_RETURN_AND_PACK(mesh,met,sol,MMG5_LOWFAILURE);
     }
-- 
2.43.0


From 331729bc40ffd2d4a9b38aa77c4855ec43277024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:03 +0000
Subject: [PATCH 34/46] fix: bring the mesh back to its own coordinates when
 the initial qualities are bad (mmg3dmov)

---
 src/mmg3d/libmmg3d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmg3d/libmmg3d.c b/src/mmg3d/libmmg3d.c
index d4932df..7952839 100644
--- a/src/mmg3d/libmmg3d.c
+++ b/src/mmg3d/libmmg3d.c
@@ -1593,6 +1593,7 @@ int MMG3D_mmg3dmov(MMG5_pMesh mesh,MMG5_pSol met, MMG5_pSol disp) {
 
   if ( mesh->info.imprim > 0  ||  mesh->info.imprim < -1 ) {
     if ( !MMG3D_inqua(mesh,met) ) {
+      if ( !MMG5_unscaleMesh(mesh,met,disp) )   _LIBMMG5_RETURN(mesh,met,disp,MMG5_STRONGFAILURE);
       _LIBMMG5_RETURN(mesh,met,disp,MMG5_LOWFAILURE);
     }
   }
-- 
2.43.0


From e97a65592b9be14a767025dbf9f81fda4d256010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:16 +0000
Subject: [PATCH 35/46] fix: MMG3D_mmg3dcheck hands the mesh back in its own
 coordinates

---
 src/mmg3d/libmmg3d_tools.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mmg3d/libmmg3d_tools.c b/src/mmg3d/libmmg3d_tools.c
index d5d8c74..9ef9ee6 100644
--- a/src/mmg3d/libmmg3d_tools.c
+++ b/src/mmg3d/libmmg3d_tools.c
@@ -1323,10 +1323,14 @@ int MMG3D_mmg3dcheck(MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol sol,double critmin,
   if ( met ) {
     MMG3D_searchqua(mesh,met,critmin,eltab,metRidTyp);
     ier = MMG3D_searchlen(mesh,met,lmin,lmax,eltab,metRidTyp);
-    if ( !ier )
+    if ( !ier ) {
+      if ( !MMG5_unscaleMesh(mesh,met,sol) ) _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
       _LIBMMG5_RETURN(mesh,met,sol,MMG5_LOWFAILURE);
+    }
   }
 
+  if ( !MMG5_unscaleMesh(mesh,met,sol) ) _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
+
   _LIBMMG5_RETURN(mesh,met,sol,MMG5_SUCCESS);
 }
 
-- 
2.43.0


From 69dc424dbfa391a72230fc26bd726e0e8323998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:19 +0000
Subject: [PATCH 36/46] fix: a negative status of the level-set cut, of the
 file opening and of the element count is a failure

---
 src/common/inout.c   | 2 +-
 src/mmg3d/inout_3d.c | 2 +-
 src/mmg3d/mmg3d2.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/inout.c b/src/common/inout.c
index 14b695a..2194352 100644
--- a/src/common/inout.c
+++ b/src/common/inout.c
@@ -428,7 +428,7 @@ int MMG5_readMshMesh_part1(MMG5_pMesh mesh,FILE **inm,
         }
       }
       else {
-        if ( !MMG5_countBinaryElts(inm,*nelts,*iswp,&np,&na,&nt,&nq,&ne,&npr) ) {
+        if ( MMG5_countBinaryElts(inm,*nelts,*iswp,&np,&na,&nt,&nq,&ne,&npr) <= 0 ) {
           return -1;
         }
       }
diff --git a/src/mmg3d/inout_3d.c b/src/mmg3d/inout_3d.c
index dd81de6..875614a 100644
--- a/src/mmg3d/inout_3d.c
+++ b/src/mmg3d/inout_3d.c
@@ -1317,7 +1317,7 @@ int MMG3D_saveMesh(MMG5_pMesh mesh, const char *filename) {
 
   mesh->ver = 2;
 
-  if ( !MMG3D_openMesh(mesh->info.imprim,filename,&inm,&bin,"w","wb") ) {
+  if ( MMG3D_openMesh(mesh->info.imprim,filename,&inm,&bin,"w","wb") <= 0 ) {
     return 0;
   }
 
diff --git a/src/mmg3d/mmg3d2.c b/src/mmg3d/mmg3d2.c
index 18e379a..1b1aacb 100644
--- a/src/mmg3d/mmg3d2.c
+++ b/src/mmg3d/mmg3d2.c
@@ -2325,7 +2325,7 @@ int MMG3D_mmg3d2(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
     mesh->point[ip].src = ip;
 #endif
 
-  if ( !MMG3D_cuttet(mesh,sol,met) ) {
+  if ( MMG3D_cuttet(mesh,sol,met) <= 0 ) {
     fprintf(stderr,"\n  ## Problem in discretizing implicit function. Exit program.\n");
     return 0;
   }
-- 
2.43.0


From 22f5ae9566b3f1db3eb7420453639adcbd537f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:19 +0000
Subject: [PATCH 37/46] fix: a failed swap, collapse or move is not lost in the
 Delaunay loops of mmg3d

---
 src/mmg3d/mmg3d1_delone.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/mmg3d/mmg3d1_delone.c b/src/mmg3d/mmg3d1_delone.c
index 0cab145..fadc79a 100644
--- a/src/mmg3d/mmg3d1_delone.c
+++ b/src/mmg3d/mmg3d1_delone.c
@@ -590,12 +590,13 @@ int MMG5_optbad(MMG5_pMesh mesh, MMG5_pSol met,MMG3D_pPROctree PROctree) {
       }
       nnf += nf;
 
-      nf += MMG5_swptet(mesh,met,crit,MMG3D_SWAP06,PROctree,2,mesh->mark-1);
-      if ( nf < 0 ) {
+      MMG5_int nft = MMG5_swptet(mesh,met,crit,MMG3D_SWAP06,PROctree,2,mesh->mark-1);
+      if ( nft < 0 ) {
         fprintf(stderr,"\n  ## Error: %s: unable to improve mesh. Exiting.\n",
           __func__);
         return 0;
       }
+      nf += nft;
     }
     else  nf = 0;
 
@@ -673,16 +674,17 @@ int MMG5_adpdel(MMG5_pMesh mesh,MMG5_pSol met,MMG3D_pPROctree *PROctree, int* wa
       if ( nf < 0 ) {
         fprintf(stderr,"\n  ## Error: %s: unable to improve mesh. Exiting.\n",
           __func__);
-        return 0;
+        return -1;
       }
       nnf += nf;
-      nf += MMG5_swptet(mesh,met,MMG3D_SSWAPIMPROVE,declic,*PROctree,2,mesh->mark-2);
+      MMG5_int nft = MMG5_swptet(mesh,met,MMG3D_SSWAPIMPROVE,declic,*PROctree,2,mesh->mark-2);
 
-      if ( nf < 0 ) {
+      if ( nft < 0 ) {
         fprintf(stderr,"\n  ## Error: %s: unable to improve mesh. Exiting.\n",
           __func__);
-        return 0;
+        return -1;
       }
+      nf += nft;
     } else {
       nf = 0;
     }
@@ -697,7 +699,7 @@ int MMG5_adpdel(MMG5_pMesh mesh,MMG5_pSol met,MMG3D_pPROctree *PROctree, int* wa
 
       if ( nm < 0 ) {
         fprintf(stderr,"\n  ## Error: %s: Unable to improve mesh.\n",__func__);
-        return 0;
+        return -1;
       }
     }
     else  nm = 0;
@@ -887,12 +889,13 @@ int MMG5_optet(MMG5_pMesh mesh, MMG5_pSol met,MMG3D_pPROctree PROctree) {
       }
       nnf += nf;
 
-      nf += MMG5_swptet(mesh,met,crit,declic,PROctree,2,mesh->mark-1);
-      if ( nf < 0 ) {
+      MMG5_int nft = MMG5_swptet(mesh,met,crit,declic,PROctree,2,mesh->mark-1);
+      if ( nft < 0 ) {
         fprintf(stderr,"\n  ## Error: %s: unable to improve mesh. Exiting.\n",
           __func__);
         return 0;
       }
+      nf += nft;
     }
     else  nf = 0;
 
-- 
2.43.0


From 315c3d043b824d6262771eeb5eb07d8043178556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:19 +0000
Subject: [PATCH 38/46] fix: swpItem and splitItem hand on the failure of the
 operation instead of using it as an index

---
 src/mmg3d/opttyp_3d.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mmg3d/opttyp_3d.c b/src/mmg3d/opttyp_3d.c
index 01d3bd1..4a6df9a 100644
--- a/src/mmg3d/opttyp_3d.c
+++ b/src/mmg3d/opttyp_3d.c
@@ -342,7 +342,8 @@ int MMG3D_swpItem(MMG5_pMesh mesh,  MMG5_pSol met,MMG3D_pPROctree PROctree,MMG5_
   }
 
   nconf = MMG5_chkswpgen(mesh,met,k,iar,&lon,list,OCRIT,2);
-  if ( nconf ) {
+  if ( nconf < 0 ) return -1;
+  else if ( nconf ) {
     ier = MMG5_swpgen(mesh,met,nconf,lon,list,PROctree,2);
     if ( ier < 0 ) return -1;
     else
@@ -407,6 +408,7 @@ int MMG3D_splitItem(MMG5_pMesh mesh,  MMG5_pSol met,MMG3D_pPROctree PROctree,
   len = MMG5_lenedg(mesh,met,iar,pt);
   if(len > LLONG2) {
     ier = MMG5_splitedg(mesh,met,k,iar,OCRIT);
+    if ( ier < 0 ) return -1;
   }
 
   if ( ier && !mesh->info.nomove ) {
-- 
2.43.0


From bc263f117f80739e0d39de7e55a58e7a9a4b2d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:19 +0000
Subject: [PATCH 39/46] fix: doSol fails when the truncation of the metric
 fails

---
 src/mmg2d/solmap_2d.c      | 8 ++++++--
 src/mmg3d/libmmg3d_tools.c | 8 ++++++--
 src/mmgs/libmmgs_tools.c   | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/mmg2d/solmap_2d.c b/src/mmg2d/solmap_2d.c
index 32d4192..2ff593f 100644
--- a/src/mmg2d/solmap_2d.c
+++ b/src/mmg2d/solmap_2d.c
@@ -153,7 +153,9 @@ int MMG2D_doSol_iso(MMG5_pMesh mesh,MMG5_pSol sol) {
   MMG5_SAFE_FREE(mark);
 
   /* Computation of hmin/hmax if not provided + size truncature */
-  MMG2D_solTruncatureForOptim(mesh,sol,0);
+  if ( !MMG2D_solTruncatureForOptim(mesh,sol,0) ) {
+    return 0;
+  }
 
   /* compute quality */
   if ( MMG2D_caltri ) {
@@ -270,7 +272,9 @@ int MMG2D_doSol_ani(MMG5_pMesh mesh,MMG5_pSol sol) {
   MMG5_SAFE_FREE(mark);
 
   /* Size truncature */
-  MMG2D_solTruncatureForOptim(mesh,sol,1);
+  if ( !MMG2D_solTruncatureForOptim(mesh,sol,1) ) {
+    return 0;
+  }
 
   /* compute quality */
   if ( MMG2D_caltri ) {
diff --git a/src/mmg3d/libmmg3d_tools.c b/src/mmg3d/libmmg3d_tools.c
index 9ef9ee6..6ac5599 100644
--- a/src/mmg3d/libmmg3d_tools.c
+++ b/src/mmg3d/libmmg3d_tools.c
@@ -1616,7 +1616,9 @@ int MMG3D_doSol_iso(MMG5_pMesh mesh,MMG5_pSol met) {
   MMG5_SAFE_FREE(mark);
 
   /* Metric truncation */
-  MMG3D_solTruncatureForOptim(mesh,met,0);
+  if ( !MMG3D_solTruncatureForOptim(mesh,met,0) ) {
+    return 0;
+  }
 
   return 1;
 }
@@ -1739,7 +1741,9 @@ int MMG3D_doSol_ani(MMG5_pMesh mesh,MMG5_pSol met) {
 
   MMG5_SAFE_FREE(mark);
 
-  MMG3D_solTruncatureForOptim(mesh,met,1);
+  if ( !MMG3D_solTruncatureForOptim(mesh,met,1) ) {
+    return 0;
+  }
 
   return 1;
 }
diff --git a/src/mmgs/libmmgs_tools.c b/src/mmgs/libmmgs_tools.c
index 862306d..4ba1eac 100644
--- a/src/mmgs/libmmgs_tools.c
+++ b/src/mmgs/libmmgs_tools.c
@@ -920,7 +920,9 @@ int MMGS_doSol_iso(MMG5_pMesh mesh,MMG5_pSol met) {
 
   MMG5_SAFE_FREE(mark);
 
-  MMGS_solTruncatureForOptim(mesh,met,0);
+  if ( !MMGS_solTruncatureForOptim(mesh,met,0) ) {
+    return 0;
+  }
 
   return 1;
 }
@@ -1577,7 +1579,9 @@ int MMGS_doSol_ani(MMG5_pMesh mesh,MMG5_pSol met) {
 #endif
 
   /** Step 4: computation of hmin/hmax (if needed) and metric truncature */
-  MMGS_solTruncatureForOptim(mesh,met,1);
+  if ( !MMGS_solTruncatureForOptim(mesh,met,1) ) {
+    return 0;
+  }
 
   return 1;
 }
-- 
2.43.0


From ec8fa8c420dc568039047322e1098aac4994d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:19 +0000
Subject: [PATCH 40/46] fix: the programs stop when the command line cannot be
 read (negative status of parsar)

---
 src/mmg2d/mmg2d.c | 2 +-
 src/mmg3d/mmg3d.c | 2 +-
 src/mmgs/mmgs.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mmg2d/mmg2d.c b/src/mmg2d/mmg2d.c
index ae12d67..52346ee 100644
--- a/src/mmg2d/mmg2d.c
+++ b/src/mmg2d/mmg2d.c
@@ -326,7 +326,7 @@ int main(int argc,char *argv[]) {
     MMG2D_RETURN_AND_FREE(mesh,met,ls,disp,MMG5_STRONGFAILURE);
 
   /* Read command line */
-  if ( !MMG2D_parsar(argc,argv,mesh,met,ls) )  return MMG5_STRONGFAILURE;
+  if ( MMG2D_parsar(argc,argv,mesh,met,ls) <= 0 )  return MMG5_STRONGFAILURE;
 
   /* load data */
   if ( mesh->info.imprim >= 0 )
diff --git a/src/mmg3d/mmg3d.c b/src/mmg3d/mmg3d.c
index e01b29f..0575a17 100644
--- a/src/mmg3d/mmg3d.c
+++ b/src/mmg3d/mmg3d.c
@@ -350,7 +350,7 @@ int main(int argc,char *argv[]) {
     MMG5_RETURN_AND_FREE(mesh,met,ls,disp,MMG5_STRONGFAILURE);
 
   /* Read command line */
-  if ( !MMG3D_parsar(argc,argv,mesh,met,ls) )  return MMG5_STRONGFAILURE;
+  if ( MMG3D_parsar(argc,argv,mesh,met,ls) <= 0 )  return MMG5_STRONGFAILURE;
 
   /* load data */
   if ( mesh->info.imprim >= 0 )
diff --git a/src/mmgs/mmgs.c b/src/mmgs/mmgs.c
index 3e6768f..7f586ea 100644
--- a/src/mmgs/mmgs.c
+++ b/src/mmgs/mmgs.c
@@ -419,7 +419,7 @@ int main(int argc,char *argv[]) {
                   MMG5_ARG_end);
 
   /* command line */
-  if ( !MMGS_parsar(argc,argv,mesh,met,ls) )  return MMG5_STRONGFAILURE;
+  if ( MMGS_parsar(argc,argv,mesh,met,ls) <= 0 )  return MMG5_STRONGFAILURE;
 
   /* load data */
   if ( mesh->info.imprim >= 0 )
-- 
2.43.0


From 5cd34106451c7ba54a6ed040dfa6fe86787391eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:58 +0000
Subject: [PATCH 41/46] fix: release the previous solutions array at every
 verbosity level

---
 src/mmg2d/API_functions_2d.c | 8 +++++---
 src/mmg3d/API_functions_3d.c | 8 +++++---
 src/mmgs/API_functions_s.c   | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index f2c51ed..251f7a8 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -568,10 +568,12 @@ int MMG2D_Set_solsAtVerticesSize(MMG5_pMesh mesh, MMG5_pSol *sol,int nsols,
   char      data[18];
   int       j;
 
-  if ( ( (mesh->info.imprim > 5) || mesh->info.ddebug ) && mesh->nsols ) {
+  if ( mesh->nsols ) {
     if ( *sol ) {
-      fprintf(stderr,"\n  ## Warning: %s: old solutions array deletion.\n",
-              __func__);
+      if ( (mesh->info.imprim > 5) || mesh->info.ddebug ) {
+        fprintf(stderr,"\n  ## Warning: %s: old solutions array deletion.\n",
+                __func__);
+      }
       MMG5_DEL_MEM(mesh,*sol);
     }
   }
diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index 1dae7e2..545d524 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -164,10 +164,12 @@ int MMG3D_Set_solsAtVerticesSize(MMG5_pMesh mesh, MMG5_pSol *sol,int nsols,
   char      data[18];
   int       j;
 
-  if ( ( (mesh->info.imprim > 5) || mesh->info.ddebug ) && mesh->nsols ) {
+  if ( mesh->nsols ) {
     if ( *sol ) {
-      fprintf(stderr,"\n  ## Warning: %s: old solutions array deletion.\n",
-              __func__);
+      if ( (mesh->info.imprim > 5) || mesh->info.ddebug ) {
+        fprintf(stderr,"\n  ## Warning: %s: old solutions array deletion.\n",
+                __func__);
+      }
       MMG5_DEL_MEM(mesh,*sol);
     }
   }
diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index c9e2f88..51badc7 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -143,10 +143,12 @@ int MMGS_Set_solsAtVerticesSize(MMG5_pMesh mesh, MMG5_pSol *sol,int nsols,
   char      data[18];
   int       j;
 
-  if ( ( (mesh->info.imprim > 5) || mesh->info.ddebug ) && mesh->nsols ) {
+  if ( mesh->nsols ) {
     if ( *sol ) {
-      fprintf(stderr,"\n  ## Warning: %s: old solutions array deletion.\n",
-              __func__);
+      if ( (mesh->info.imprim > 5) || mesh->info.ddebug ) {
+        fprintf(stderr,"\n  ## Warning: %s: old solutions array deletion.\n",
+                __func__);
+      }
       MMG5_DEL_MEM(mesh,*sol);
     }
   }
-- 
2.43.0


From 0009751b8a3da7ea276ef1dde626ab3edeee82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:58 +0000
Subject: [PATCH 42/46] fix: reset the count of reoriented triangles at every
 debug level

---
 src/mmg2d/API_functions_2d.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 251f7a8..aba1cad 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -941,9 +941,11 @@ int MMG2D_Set_triangle(MMG5_pMesh mesh, MMG5_int v0, MMG5_int v1, MMG5_int v2, M
     /* mesh->xt temporary used to count reoriented tria */
     mesh->xt++;
   }
-  if ( mesh->info.ddebug && (mesh->nt == pos) && mesh->xt > 0 ) {
-    fprintf(stderr,"\n  ## Warning: %s: %" MMG5_PRId " triangles reoriented\n",
-            __func__,mesh->xt);
+  if ( (mesh->nt == pos) && mesh->xt > 0 ) {
+    if ( mesh->info.ddebug ) {
+      fprintf(stderr,"\n  ## Warning: %s: %" MMG5_PRId " triangles reoriented\n",
+              __func__,mesh->xt);
+    }
     mesh->xt = 0;
   }
 
-- 
2.43.0


From 8bce0e2ed078e9645b3d4e51ffcaf2a0a01b654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:48 +0000
Subject: [PATCH 43/46] fix: saving a binary mesh does not change the
 references of the mesh

---
 src/mmg3d/inout_3d.c |  6 +++---
 src/mmgs/inout_s.c   | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mmg3d/inout_3d.c b/src/mmg3d/inout_3d.c
index 875614a..d772b7c 100644
--- a/src/mmg3d/inout_3d.c
+++ b/src/mmg3d/inout_3d.c
@@ -1310,7 +1310,7 @@ int MMG3D_saveMesh(MMG5_pMesh mesh, const char *filename) {
   MMG5_pQuad    pq;
   MMG5_xPoint   *pxp;
   MMG5_int      k,na,nc,np,ne,nn,nr,nre,npar,nedreq,nedpar,ntreq,ntpar,nt,nereq,nepar;
-  MMG5_int      npr,nq,nqreq,nqpar,bpos;
+  MMG5_int      npr,nq,nqreq,nqpar,bpos,ref;
   int           bin,binch;
   char          chaine[MMG5_FILESTR_LGTH];
   static int8_t parWarn = 0;
@@ -1384,8 +1384,8 @@ int MMG3D_saveMesh(MMG5_pMesh mesh, const char *filename) {
         fwrite((unsigned char*)&ppt->c[0],MMG5_SD,1,inm);
         fwrite((unsigned char*)&ppt->c[1],MMG5_SD,1,inm);
         fwrite((unsigned char*)&ppt->c[2],MMG5_SD,1,inm);
-        ppt->ref = MMG5_abs(ppt->ref);
-        fwrite((unsigned char*)&ppt->ref,MMG5_SW,1,inm);
+        ref = MMG5_abs(ppt->ref);
+        fwrite((unsigned char*)&ref,MMG5_SW,1,inm);
       }
     }
   }
diff --git a/src/mmgs/inout_s.c b/src/mmgs/inout_s.c
index 29ecd12..83fb80e 100644
--- a/src/mmgs/inout_s.c
+++ b/src/mmgs/inout_s.c
@@ -895,7 +895,7 @@ int MMGS_saveMesh(MMG5_pMesh mesh, const char* filename) {
   MMG5_pPoint  ppt;
   MMG5_pTria   pt;
   MMG5_pxPoint go;
-  MMG5_int     k,np,nt,nc,ng,nn,nr,nre,ntreq,bpos;
+  MMG5_int     k,np,nt,nc,ng,nn,nr,nre,ntreq,bpos,ref;
   int          bin,binch;
   // int          outm;
   char         *data,*ptr,chaine[MMG5_FILESTR_LGTH];
@@ -996,8 +996,8 @@ int MMGS_saveMesh(MMG5_pMesh mesh, const char* filename) {
         fwrite((unsigned char*)&ppt->c[0],MMG5_SD,1,inm);
         fwrite((unsigned char*)&ppt->c[1],MMG5_SD,1,inm);
         fwrite((unsigned char*)&ppt->c[2],MMG5_SD,1,inm);
-        ppt->ref = MMG5_abs(ppt->ref);
-        fwrite((unsigned char*)&ppt->ref,MMG5_SW,1,inm);
+        ref = MMG5_abs(ppt->ref);
+        fwrite((unsigned char*)&ref,MMG5_SW,1,inm);
       }
       if ( !((ppt->tag & MG_GEO) || ppt->tag & MG_CRN) )  nn++;
     }
@@ -1155,8 +1155,8 @@ int MMGS_saveMesh(MMG5_pMesh mesh, const char* filename) {
           fwrite(&mesh->point[pt->v[0]].tmp,MMG5_SW,1,inm);
           fwrite(&mesh->point[pt->v[1]].tmp,MMG5_SW,1,inm);
           fwrite(&mesh->point[pt->v[2]].tmp,MMG5_SW,1,inm);
-          pt->ref = MMG5_abs(pt->ref);
-          fwrite(&pt->ref,MMG5_SW,1,inm);
+          ref = MMG5_abs(pt->ref);
+          fwrite(&ref,MMG5_SW,1,inm);
         }
 
         if ( (pt->tag[0] & MG_REQ) && (pt->tag[1] & MG_REQ) && (pt->tag[2] & MG_REQ) ) {
-- 
2.43.0


From fee0f643d1ecd0b6aeb28b4a3add9bb3def597b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:08 +0000
Subject: [PATCH 44/46] fix: MMG2D_readDoubleSol: swap the bytes of a double as
 a double

---
 src/mmg2d/inout_2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg2d/inout_2d.c b/src/mmg2d/inout_2d.c
index 5b57567..e2aae01 100644
--- a/src/mmg2d/inout_2d.c
+++ b/src/mmg2d/inout_2d.c
@@ -908,7 +908,7 @@ int MMG2D_readDoubleSol(MMG5_pSol sol,FILE *inm,int bin,int iswp,MMG5_int pos) {
     }
     else {
       MMG_FREAD(&dbuf,MMG5_SD,1,inm);
-      if ( iswp ) dbuf=MMG5_swapf(dbuf);
+      if ( iswp ) dbuf=MMG5_swapd(dbuf);
       sol->m[sol->size*pos+i] = (double)dbuf;
     }
   }
-- 
2.43.0


From 9b396ec097bcc1c1641f8aa6e889b3ca73c77a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:08 +0000
Subject: [PATCH 45/46] fix: MMG5_swapbin_int: stay inside the integer when it
 has 32 bits

---
 src/common/inout.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/inout.c b/src/common/inout.c
index 2194352..390ce50 100644
--- a/src/common/inout.c
+++ b/src/common/inout.c
@@ -65,9 +65,9 @@ MMG5_int MMG5_swapbin_int(MMG5_int sbin)
   char     *p_out = (char *) &out;
   int8_t   i;
 
-  for(i=0;i<8;i++)
+  for(i=0;i<(int8_t)sizeof(MMG5_int);i++)
   {
-    p_out[i] = p_in[7-i];
+    p_out[i] = p_in[(int8_t)sizeof(MMG5_int)-1-i];
   }
 
   return out;
-- 
2.43.0


From 301214473988f7df40adbc86df70b0414cd11f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:21 +0000
Subject: [PATCH 46/46] fix: MMG5_movtetlag: do not relocate required vertices

---
 src/mmg3d/mmg3d3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/mmg3d3.c b/src/mmg3d/mmg3d3.c
index ede42ad..a9099c8 100644
--- a/src/mmg3d/mmg3d3.c
+++ b/src/mmg3d/mmg3d3.c
@@ -370,7 +370,7 @@ MMG5_int MMG5_movtetlag(MMG5_pMesh mesh,MMG5_pSol met, int itdeg) {
       for (i=0; i<4; i++) {
         ppt = &mesh->point[pt->v[i]];
         if ( ppt->flag == base )  continue;
-        else if ( ppt->tag & MG_BDY ) continue;
+        else if ( ppt->tag & (MG_BDY | MG_REQ) ) continue;
 
         ilistv = MMG5_boulevolp(mesh,k,i,listv);
         if ( !ilistv )  continue;
-- 
2.43.0

