From 442f2dcccab026634c8f82482c69656c944014de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:09 +0000
Subject: [PATCH 01/26] fix: assembleMass reports the outcome of this assembly

The status was only written on failure, so a successful assembly of the mass
matrix returned the status of the previous assembly (or an uninitialised value).
---
 src/gsThinShellAssembler.h   | 2 +-
 src/gsThinShellAssembler.hpp | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index c48014a..e7fc5a9 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -700,7 +700,7 @@ protected:
 
     mutable ifContainer m_inPlane, m_outPlane, m_uncoupled, m_strongC0, m_weakC0, m_strongC1, m_weakC1, m_unassigned;
 
-    mutable ThinShellAssemblerStatus m_status;
+    mutable ThinShellAssemblerStatus m_status = ThinShellAssemblerStatus::Success;
 };
 
 #ifdef GISMO_WITH_PYBIND11
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 937fc81..cf2d24f 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1464,6 +1464,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
             m_assembler.assemble(mm0.val()*(m_space.rowSum())*meas(m_ori));
 
         m_mass = m_assembler.matrix();
+        m_status = ThinShellAssemblerStatus::Success;
 
 /*        // assemble system
         if (!lumped)
-- 
2.43.0


From 5b1c379593d748b36fd783431c94b6d915466eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:09 +0000
Subject: [PATCH 02/26] fix: assembleMass evaluates the density on the geometry
 of the assembler

The undeformed geometry of the material was left as set by whoever used the
material last, e.g. by another assembler that no longer exists.
---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index cf2d24f..de1edd1 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1444,7 +1444,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
     // Initialize stystem
     m_assembler.initSystem();
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> m_mm(m_materialMatrices,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> m_mm(m_materialMatrices,&m_patches,&m_patches);
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     space       m_space = m_assembler.trialSpace(0);
-- 
2.43.0


From dc7cd4094d87195f633be67fa616dc4c05bd9bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:09 +0000
Subject: [PATCH 03/26] fix: assembleVector works when no matrix of the current
 space was assembled before

---
 src/gsThinShellAssembler.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index de1edd1..e747296 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1998,8 +1998,10 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
     geometryMap m_ori   = m_assembler.getMap(m_patches);
     geometryMap m_def   = m_assembler.getMap(deformed);
 
-    // Initialize vector
+    // Initialize vector; the matrix is kept if it belongs to the current space
     m_assembler.initVector(1);
+    if (m_assembler.fiberMatrix().cols()!=m_assembler.numDofs())
+        m_assembler.initMatrix();
 
     gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
     gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&m_patches,&deformed);
@@ -2075,8 +2077,10 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
     geometryMap m_ori   = m_assembler.getMap(m_patches);
     geometryMap m_def   = m_assembler.getMap(deformed);
 
-    // Initialize vector
+    // Initialize vector; the matrix is kept if it belongs to the current space
     m_assembler.initVector(1);
+    if (m_assembler.fiberMatrix().cols()!=m_assembler.numDofs())
+        m_assembler.initMatrix();
 
     gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
     auto S0  = m_assembler.getCoeff(m_S0);
-- 
2.43.0


From a8403e45207988ceab5fe1c6181cb5c7c6237440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:09 +0000
Subject: [PATCH 04/26] fix: linear assembly uses the prescribed Dirichlet
 values after a homogenised assembly

assembleMass, assembleMatrix and assembleVector leave the space with homogeneous
Dirichlet values, so a following assemble() lost the prescribed displacements.
---
 src/gsThinShellAssembler.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index e747296..d1eeb85 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1546,6 +1546,9 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
 
+    // Earlier assemblies can have left the space with homogeneous Dirichlet values
+    this->_assembleDirichlet();
+
     // Linear assembly: deformed and undeformed geometries are the same
     gsMultiPatch<T> & defpatches = m_patches;
     geometryMap m_ori   = m_assembler.getMap(m_patches);
@@ -1637,6 +1640,9 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
 
+    // Earlier assemblies can have left the space with homogeneous Dirichlet values
+    this->_assembleDirichlet();
+
     // Linear assembly: deformed and undeformed geometries are the same
     gsMultiPatch<T> & defpatches = m_patches;
     geometryMap m_ori   = m_assembler.getMap(m_patches);
-- 
2.43.0


From 2036a4d4eeaf0dda12ca8e6dce5e6575b65d3bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:09 +0000
Subject: [PATCH 05/26] fix: assemblePressureVector(def) and
 assembleFoundationVector(def) report failures

The inner call catches the exception and reports it in its status, which was
overwritten by Success.
---
 src/gsThinShellAssembler.hpp | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index d1eeb85..4f01a84 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2268,31 +2268,13 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVe
 template<short_t d, class T, bool bending>
 ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVector(const gsFunctionSet<T> & deformed)
 {
-    try
-    {
-        this->assemblePressureVector(*m_pressFun,deformed);
-        m_status = ThinShellAssemblerStatus::Success;
-    }
-    catch (...)
-    {
-        m_status = ThinShellAssemblerStatus::AssemblyError;
-    }
-    return m_status;
+    return this->assemblePressureVector(*m_pressFun,deformed);
 }
 
 template<short_t d, class T, bool bending>
 ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleFoundationVector(const gsFunctionSet<T> & deformed)
 {
-    try
-    {
-        this->assembleFoundationVector(*m_foundFun,deformed);
-        m_status = ThinShellAssemblerStatus::Success;
-    }
-    catch (...)
-    {
-        m_status = ThinShellAssemblerStatus::AssemblyError;
-    }
-    return m_status;
+    return this->assembleFoundationVector(*m_foundFun,deformed);
 }
 
 template<short_t d, class T, bool bending>
-- 
2.43.0


From f953aae17b6300ddf6cd5083c3590bc2e0a674a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:09 +0000
Subject: [PATCH 06/26] fix: keep pressure and foundation when the space is
 re-initialised

setGeometry, setBasis, setSpaceBasis and a change of the continuity silently
switched off the pressure and the foundation that the caller had set.
---
 src/gsThinShellAssembler.h   | 4 ++--
 src/gsThinShellAssembler.hpp | 5 -----
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index e7fc5a9..84936ca 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -690,8 +690,8 @@ protected:
 
     mutable gsOptionList m_options;
 
-    mutable bool m_foundInd;
-    mutable bool m_pressInd;
+    mutable bool m_foundInd = false; // foundation is off by default
+    mutable bool m_pressInd = false; // pressure is off by default
 
     mutable index_t m_continuity;
 
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 4f01a84..b24cbed 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -263,11 +263,6 @@ void gsThinShellAssembler<d, T, bending>::_initialize()
     m_ddofs = m_space.fixedPart();
     m_mapper = m_space.mapper();
 
-    // foundation is off by default
-    m_foundInd = false;
-    // pressure is off by default
-    m_pressInd = false;
-
     GISMO_ASSERT(m_forceFun->targetDim()==d,"Force must have " << d<<" dimensions but has "<<m_forceFun->targetDim());
 
     // test interfaces on in-plane and out-of-plane connection and put them in respective containers
-- 
2.43.0


From ba1aca6ab0d45a054d9265eb865528bf12a15129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:09 +0000
Subject: [PATCH 07/26] fix: initialise the pointers of gsThinShellAssembler

---
 src/gsThinShellAssembler.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index 84936ca..e3c1e1c 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -666,7 +666,7 @@ protected:
 
     gsMultiPatch<T> m_patches;
     // const gsFunctionSet<T> * m_defpatches;
-    const gsFunctionSet<T> * m_itpatches;
+    const gsFunctionSet<T> * m_itpatches = nullptr;
     mutable gsMultiBasis<T> m_basis;
     const gsFunctionSet<T> *  m_spaceBasis;
     gsBoundaryConditions<T> m_bcs;
@@ -677,8 +677,8 @@ protected:
 
     const gsFunctionSet<T> * m_forceFun;
     bool m_parametricForce;
-    const gsFunction<T> * m_foundFun;
-    const gsFunction<T> * m_pressFun;
+    const gsFunction<T> * m_foundFun = nullptr;
+    const gsFunction<T> * m_pressFun = nullptr;
 
     gsMaterialMatrixContainer<T> m_materialMatrices;
 
-- 
2.43.0


From 2613405d1632d39fb76777c930bf221e067d68b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:19 +0000
Subject: [PATCH 08/26] fix: rhs() always belongs to the last assembled vector

The vector with point loads was kept: after removing the point loads rhs() still
returned it, and assemblePressureVector/assembleFoundationVector had no effect on
rhs() in the presence of point loads.
---
 src/gsThinShellAssembler.h   |  3 +++
 src/gsThinShellAssembler.hpp | 41 ++++++++++++++++++------------------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index e3c1e1c..e2ba02d 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -527,6 +527,9 @@ protected:
     void _assembleDirichlet();
 
     void _applyLoads();
+
+    /// Makes the right-hand side the assembled vector plus the point loads (if any)
+    void _updateRhs();
     void _applyMass();
 
     void _ifcTest(const T tol = 1e-2);
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index b24cbed..392eeee 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1315,6 +1315,18 @@ void gsThinShellAssembler<d, T, bending>::homogenizeDirichlet()
     // const_cast<expr::gsFeSpace<T> & >(m_space).fixedPart().setZero();
 }
 
+template<short_t d, class T, bool bending>
+void gsThinShellAssembler<d, T, bending>::_updateRhs()
+{
+    if ( m_pLoads.numLoads() != 0 )
+    {
+        m_rhs = m_assembler.rhs();
+        _applyLoads();
+    }
+    else
+        m_rhs.resize(0,0);
+}
+
 template<short_t d, class T, bool bending>
 void gsThinShellAssembler<d, T, bending>::_applyLoads()
 {
@@ -1609,11 +1621,7 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
         this->_assembleNeumann();
 
         // Assemble the loads
-        if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
-            _applyLoads();
-        }
+        _updateRhs();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -1688,11 +1696,7 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
         this->_assembleNeumann();
 
         // Assemble the loads
-        if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
-            _applyLoads();
-        }
+        _updateRhs();
 
         m_status = ThinShellAssemblerStatus::Success;
     }
@@ -2050,11 +2054,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
         this->_assembleNeumann();
 
         // Assemble the loads
-        if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
-            _applyLoads();
-        }
+        _updateRhs();
 
         m_status = ThinShellAssemblerStatus::Success;
     }
@@ -2120,11 +2120,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
         this->_assembleNeumann();
 
         // Assemble the loads
-        if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
-            _applyLoads();
-        }
+        _updateRhs();
 
         m_status = ThinShellAssemblerStatus::Success;
     }
@@ -2204,6 +2200,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVe
     try
     {
         this->_assemblePressure<false>(pressFun);
+        if (m_rhs.size()!=0) _updateRhs();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -2220,6 +2217,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVe
     try
     {
         this->_assemblePressure<false>(pressFun);
+        if (m_rhs.size()!=0) _updateRhs();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -2235,6 +2233,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVe
     try
     {
         this->_assemblePressure<false>(pressFun,deformed);
+        if (m_rhs.size()!=0) _updateRhs();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -2251,6 +2250,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVe
     try
     {
         this->_assemblePressure<false>(pressFun, deformed);
+        if (m_rhs.size()!=0) _updateRhs();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -2278,6 +2278,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleFoundation
     try
     {
         this->_assembleFoundation<false>(foundFun,deformed);
+        if (m_rhs.size()!=0) _updateRhs();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
-- 
2.43.0


From 63d0cd0d6638c62cd08ef9b55602e9fcf6916694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:08 +0000
Subject: [PATCH 09/26] fix: the assembler owns its space basis whichever
 constructor is used

With a single material matrix the space pointed to the basis of the caller: setBasis
changed the integration elements but not the space, and the space dangled when the
caller's basis went out of scope.
---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 392eeee..9361fe6 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -77,7 +77,7 @@ gsThinShellAssembler<d, T, bending>::gsThinShellAssembler(const gsMultiPatch<T>
                                         :
                                         m_patches(patches),
                                         m_basis(basis),
-                                        m_spaceBasis(&basis),
+                                        m_spaceBasis(&m_basis),
                                         m_bcs(bconditions),
                                         m_forceFun(&surface_force)
 {
-- 
2.43.0


From f2f7113660f4cb283e57b639292810ed39d4ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:19 +0000
Subject: [PATCH 10/26] fix: copies and moves of an assembler do not use the
 space of the original

The copied gsExprAssembler kept pointing to the space, the integration domain and
the basis owned by the original: changing or destroying the original changed or
broke the copy. The status was not copied either.
---
 src/gsThinShellAssembler.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 9361fe6..89a5199 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -101,12 +101,12 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     if (this!=&other)
     {
         m_mapper=other.m_mapper;
-        m_assembler=other.m_assembler;
+        m_assembler=gsExprAssembler<>(); // a copy would use the space of other
         m_evaluator=other.m_evaluator;
         m_patches=other.m_patches;
         m_itpatches=other.m_itpatches;
         m_basis=other.m_basis;
-        m_spaceBasis=other.m_spaceBasis;
+        m_spaceBasis=(other.m_spaceBasis==&other.m_basis) ? &m_basis : other.m_spaceBasis;
         m_bcs=other.m_bcs;
         m_ddofs=other.m_ddofs;
         m_mass=other.m_mass;
@@ -136,11 +136,14 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
         m_strongC1=other.m_strongC1;
         m_weakC1=other.m_weakC1;
         m_unassigned=other.m_unassigned;
+        m_status=other.m_status;
 
+        this->_initialize();
+
+        // Take over the system assembled so far
         // To do: make copy constructor for the gsExprAssembler
-        m_assembler.setIntegrationElements(m_basis);
-        GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
-        m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
+        const_cast<gsSparseMatrix<T> &>(m_assembler.matrix()) = other.m_assembler.matrix();
+        const_cast<gsMatrix<T> &>(m_assembler.rhs()) = other.m_assembler.rhs();
     }
     return *this;
 }
@@ -154,7 +157,7 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     m_patches=give(other.m_patches);
     m_itpatches=give(other.m_itpatches);
     m_basis=give(other.m_basis);
-    m_spaceBasis=give(other.m_spaceBasis);
+    m_spaceBasis=(other.m_spaceBasis==&other.m_basis) ? &m_basis : other.m_spaceBasis;
     m_bcs=give(other.m_bcs);
     m_ddofs=give(other.m_ddofs);
     m_mass=give(other.m_mass);
@@ -184,10 +187,9 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     m_strongC1=give(other.m_strongC1);
     m_weakC1=give(other.m_weakC1);
     m_unassigned=give(other.m_unassigned);
-    // To do: make copy constructor for the gsExprAssembler
-    m_assembler.setIntegrationElements(m_basis);
-    GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
-    m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
+    m_status=other.m_status;
+
+    this->_initialize();
     return *this;
 }
 
-- 
2.43.0


From 1a02cc3ffa3e1f3aa4694d0872356dda744f31a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:13 +0000
Subject: [PATCH 11/26] fix: gsMaterialMatrixEval uses the undeformed geometry
 it is given

The deformed geometry was registered as undeformed geometry of the material, so
every following evaluation saw zero strain.
---
 src/gsMaterialMatrixEval.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixEval.hpp b/src/gsMaterialMatrixEval.hpp
index 5976767..cf61c64 100644
--- a/src/gsMaterialMatrixEval.hpp
+++ b/src/gsMaterialMatrixEval.hpp
@@ -149,7 +149,7 @@ m_z(z)
 template <class T, enum MaterialOutput out>
 gsMaterialMatrixEvalSingle<T,out>::gsMaterialMatrixEvalSingle(    index_t patch,
                                                         gsMaterialMatrixBase<T> * materialMatrix,
-                                                        const gsFunctionSet<T> * /*undeformed*/,
+                                                        const gsFunctionSet<T> * undeformed,
                                                         const gsFunctionSet<T> * deformed,
                                                         const gsMatrix<T> z
                                                    )
@@ -158,7 +158,7 @@ m_pIndex(patch),
 m_materialMat(materialMatrix),
 m_z(z)
 {
-    m_materialMat->setUndeformed(deformed);
+    m_materialMat->setUndeformed(undeformed);
     m_materialMat->setDeformed(deformed);
 
     if (m_z.cols()==0 || m_z.rows()==0)
-- 
2.43.0


From 27ec52cd40fdd4ddfbdf4b735baa3d7a8dda1fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:13 +0000
Subject: [PATCH 12/26] fix: gsMaterialMatrixIntegrate creates its pieces once
 all materials are set

For more than one patch the pieces were created once per patch (leaking them) and,
in the first rounds, for patches without a material (null dereference).
---
 src/gsMaterialMatrixIntegrate.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gsMaterialMatrixIntegrate.hpp b/src/gsMaterialMatrixIntegrate.hpp
index 7cc5797..d85252d 100644
--- a/src/gsMaterialMatrixIntegrate.hpp
+++ b/src/gsMaterialMatrixIntegrate.hpp
@@ -87,10 +87,8 @@ m_materialMatrices(deformed->nPieces()),
 m_deformed(deformed)
 {
     for (index_t p = 0; p!=deformed->nPieces(); ++p)
-    {
         m_materialMatrices.set(p,materialMatrix);
-        this->_makePieces(undeformed,deformed);
-    }
+    this->_makePieces(undeformed,deformed);
 }
 
 template <class T, enum MaterialOutput out>
-- 
2.43.0


From 2e443be508e00f9ac919e43b36d1262214d94b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:13 +0000
Subject: [PATCH 13/26] fix: stresses and principal stretches refer to the
 geometry of the assembler

They used the undeformed geometry that the material was used with last, e.g. that
of another assembler, which possibly no longer exists.
---
 src/gsThinShellAssembler.hpp |  4 ++--
 src/gsThinShellFunctions.hpp | 34 +++++++++++++++++-----------------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 89a5199..c1d95b7 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2743,7 +2743,7 @@ gsMatrix<T> gsThinShellAssembler<d, T, bending>::computePrincipalStretches(const
     // geometryMap m_def   = m_assembler.getMap(*m_defpatches);
     // m_assembler.initSystem();
 
-    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_mm(m_materialMatrices,&deformed,zmat);
+    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_mm(m_materialMatrices,&m_patches,&deformed,zmat);
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     gsExprEvaluator<T> evaluator(m_assembler);
@@ -2773,7 +2773,7 @@ gsMatrix<T> gsThinShellAssembler<d, T, bending>::computePrincipalStresses(const
     // geometryMap m_def   = m_assembler.getMap(*m_defpatches);
     // m_assembler.initSystem();
 
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_mm(m_materialMatrices,&deformed,zmat);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_mm(m_materialMatrices,&m_patches,&deformed,zmat);
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     gsExprEvaluator<T> evaluator(m_assembler);
diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index bcaae2f..c0381a0 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -37,47 +37,47 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     // Initialize stystem
     // m_assembler.initSystem(false);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_N0(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_N0(m_materialMatrices,m_patches,m_defpatches);
     variable N0 = ev.getVariable(m_N0);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_N1(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_N1(m_materialMatrices,m_patches,m_defpatches);
     variable N1 = ev.getVariable(m_N1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorN> m_Nc0(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorN> m_Nc0(m_materialMatrices,m_patches,m_defpatches);
     variable Nc0 = ev.getVariable(m_Nc0);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorM> m_Nc1(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorM> m_Nc1(m_materialMatrices,m_patches,m_defpatches);
     variable Nc1 = ev.getVariable(m_Nc1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::StressN> m_S0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::StressN> m_S0(m_materialMatrices,m_patches,m_defpatches,z);
     variable S0 = ev.getVariable(m_S0);
-    gsMaterialMatrixEval<T,MaterialOutput::StressM> m_S1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::StressM> m_S1(m_materialMatrices,m_patches,m_defpatches,z);
     variable S1 = ev.getVariable(m_S1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressN> m_Sc0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressN> m_Sc0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sc0 = ev.getVariable(m_Sc0);
-    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressM> m_Sc1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressM> m_Sc1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sc1 = ev.getVariable(m_Sc1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_Sp(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_Sp(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp = ev.getVariable(m_Sp);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressDir> m_pstressdir(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressDir> m_pstressdir(m_materialMatrices,m_patches,m_defpatches,z);
     variable pstressdir = ev.getVariable(m_pstressdir);
 
-    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressN> m_Sp0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressN> m_Sp0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp0 = ev.getVariable(m_Sp0);
-    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressM> m_Sp1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressM> m_Sp1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp1 = ev.getVariable(m_Sp1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::PStrainN> m_Ep0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStrainN> m_Ep0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Ep0 = ev.getVariable(m_Ep0);
-    gsMaterialMatrixEval<T,MaterialOutput::PStrainM> m_Ep1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStrainM> m_Ep1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Ep1 = ev.getVariable(m_Ep1);
 
-    gsMaterialMatrixEval<real_t,MaterialOutput::TensionField> m_TF(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<real_t,MaterialOutput::TensionField> m_TF(m_materialMatrices,m_patches,m_defpatches,z);
     variable TF  = ev.getVariable(m_TF);
 
-    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_lambda(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_lambda(m_materialMatrices,m_patches,m_defpatches,z);
     variable lambda = ev.getVariable(m_lambda);
-    gsMaterialMatrixEval<T,MaterialOutput::StretchDir> m_lambdadir(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchDir> m_lambdadir(m_materialMatrices,m_patches,m_defpatches,z);
     variable lambdadir = ev.getVariable(m_lambdadir);
 
     gsFunctionExpr<> mult2t("1","0","0","0","1","0","0","0","2",2);
-- 
2.43.0


From e14ca8253cdeb89143361a1a9f16f52a3c3d3869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:13 +0000
Subject: [PATCH 14/26] fix: deformationNorm hands the assembler its own option
 group

---
 src/gsThinShellAssembler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index c1d95b7..7c12aa9 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2889,7 +2889,8 @@ template <short_t d, class T, bool bending>
 T gsThinShellAssembler<d, T, bending>::deformationNorm(const gsMultiPatch<T> & deformed, const gsMultiPatch<T> & original)
 {
     m_assembler.cleanUp();
-    m_assembler.setOptions(m_options);
+    GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
+    m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
 
     geometryMap ori = m_assembler.getMap(original);
     geometryMap def = m_assembler.getMap(deformed);
-- 
2.43.0


From fa9c59cae8adc1a0b3b10c0e6918a08c37910d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:37 +0000
Subject: [PATCH 15/26] fix: the error estimator uses the boundary conditions
 given to updateBCs

---
 src/gsThinShellAssemblerDWR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.h b/src/gsThinShellAssemblerDWR.h
index 6e7b4a2..b9eed77 100644
--- a/src/gsThinShellAssemblerDWR.h
+++ b/src/gsThinShellAssemblerDWR.h
@@ -109,7 +109,7 @@ public:
     void setPressure(const gsFunction<T> & pressure) { m_assemblerL->setPressure(pressure);  m_assemblerH->setPressure(pressure); }
 
     /// See \ref gsThinShellAssemblerBase for details
-    void updateBCs(const gsBoundaryConditions<T> & bconditions) { m_assemblerL->updateBCs(bconditions);  m_assemblerH->updateBCs(bconditions); }
+    void updateBCs(const gsBoundaryConditions<T> & bconditions) { m_bcs = bconditions; m_assemblerL->updateBCs(bconditions);  m_assemblerH->updateBCs(bconditions); }
 
     /// See \ref gsThinShellAssemblerBase for details
     void setBasisL(const gsMultiBasis<T> & basis) { m_assemblerL->setBasis(basis); }
-- 
2.43.0


From f94782e6eadd058caf0d52b652fdc0e918af935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:37 +0000
Subject: [PATCH 16/26] fix: function-wise error estimates do not return the
 errors of an earlier estimate

---
 src/gsThinShellAssemblerDWR.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 0ad5d93..5c767c6 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -1776,7 +1776,8 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeError_impl( const gsMultiPat
     }
     else if (_elWise == 2) // function-wise
     {
-        integral = 0;
+        m_error = 0;
+        m_errors.clear();
     }
     else
         GISMO_ERROR("Unknown");
@@ -1890,7 +1891,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeError_impl(const gsMultiPatch<T>
     }
     else if (_elWise == 2) // function-wise
     {
-        integral = 0;
+        m_error = 0;
+        m_errors.clear();
     }
     else
         GISMO_ERROR("Unknown");
@@ -1985,7 +1987,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeError_impl(  const gsMultiPatch<T
     }
     else if (_elWise == 2) // function-wise
     {
-        integral = 0;
+        m_error = 0;
+        m_errors.clear();
     }
     else
         GISMO_ERROR("Unknown");
@@ -2089,7 +2092,8 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl( const gsM
     }
     else if (_elWise == 2) // function-wise
     {
-        integral = 0;
+        m_error = 0;
+        m_errors.clear();
     }
     else
         GISMO_ERROR("Unknown");
@@ -2202,7 +2206,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl(const gsMultiPa
     }
     else if (_elWise == 2) // function-wise
     {
-        integral = 0;
+        m_error = 0;
+        m_errors.clear();
     }
     else
         GISMO_ERROR("Unknown");
@@ -2297,7 +2302,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl(  const gsMulti
     }
     else if (_elWise == 2) // function-wise
     {
-        integral = 0;
+        m_error = 0;
+        m_errors.clear();
     }
     else
         GISMO_ERROR("Unknown");
@@ -2551,6 +2557,7 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     else if (_elWise == 2)
     {
         m_error = 0;
+        m_errors.clear();
     }
     else
         GISMO_ERROR("Unknown");
@@ -2727,7 +2734,10 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
         m_errors = ev.elementwise();
     }
     else if (_elWise == 2)
+    {
         m_error = 0;
+        m_errors.clear();
+    }
     else
         GISMO_ERROR("Unknown");
 
-- 
2.43.0


From 588467050e4222f42d2512430804cca64a097109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:37 +0000
Subject: [PATCH 17/26] fix: the error estimator evaluates materials on its own
 undeformed geometry

---
 src/gsThinShellAssemblerDWR.hpp | 182 ++++++++++++++++----------------
 1 file changed, 91 insertions(+), 91 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 5c767c6..5761818 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -224,40 +224,40 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(g
     auto usol   = exprAssembler.getCoeff(primal);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     auto Tpstress = exprAssembler.getCoeff(Tpstressf);
 
     // Material tensors at Z
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&m_patches,&deformed,Z);
     auto mmA = exprAssembler.getCoeff(mmAf);
     auto mmD = exprAssembler.getCoeff(mmDf);
 
     // Material tensors integrated
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&m_patches,&deformed);
     auto mmAi = exprAssembler.getCoeff(mmAfi);
     auto mmBi = exprAssembler.getCoeff(mmBfi);
     auto mmCi = exprAssembler.getCoeff(mmCfi);
     auto mmDi = exprAssembler.getCoeff(mmDfi);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Force and moment tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&m_patches,&deformed);
     auto N = exprAssembler.getCoeff(Nf);
     auto M = exprAssembler.getCoeff(Mf);
 
@@ -681,40 +681,40 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     auto usol   = exprAssembler.getCoeff(primal);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     auto Tpstress = exprAssembler.getCoeff(Tpstressf);
 
     // Material tensors at Z
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&m_patches,&deformed,Z);
     auto mmA = exprAssembler.getCoeff(mmAf);
     auto mmD = exprAssembler.getCoeff(mmDf);
 
     // Material tensors integrated
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&m_patches,&deformed);
     auto mmAi = exprAssembler.getCoeff(mmAfi);
     auto mmBi = exprAssembler.getCoeff(mmBfi);
     auto mmCi = exprAssembler.getCoeff(mmCfi);
     auto mmDi = exprAssembler.getCoeff(mmDfi);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Force and moment tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&m_patches,&deformed);
     auto N = exprAssembler.getCoeff(Nf);
     auto M = exprAssembler.getCoeff(Mf);
 
@@ -1146,40 +1146,40 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     auto usol   = exprAssembler.getCoeff(primal);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     auto Tpstress = exprAssembler.getCoeff(Tpstressf);
 
     // Material tensors at Z
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&m_patches,&deformed,Z);
     auto mmA = exprAssembler.getCoeff(mmAf);
     auto mmD = exprAssembler.getCoeff(mmDf);
 
     // Material tensors integrated
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&m_patches,&deformed);
     auto mmAi = exprAssembler.getCoeff(mmAfi);
     auto mmBi = exprAssembler.getCoeff(mmBfi);
     auto mmCi = exprAssembler.getCoeff(mmCfi);
     auto mmDi = exprAssembler.getCoeff(mmDfi);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Force and moment tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&m_patches,&deformed);
     auto N = exprAssembler.getCoeff(Nf);
     auto M = exprAssembler.getCoeff(Mf);
 
@@ -1834,8 +1834,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeError_impl(const gsMultiPatch<T>
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
 
@@ -1944,7 +1944,7 @@ gsThinShellAssemblerDWR<d, T, bending>::computeError_impl(  const gsMultiPatch<T
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
 
     auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
@@ -2150,8 +2150,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl(const gsMultiPa
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
 
@@ -2259,7 +2259,7 @@ gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl(  const gsMulti
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
 
     auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
@@ -2422,26 +2422,26 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches,&m_patches);
     auto mmA_L    = exprAssembler.getCoeff(mmAf_L);
     auto mmB_L    = exprAssembler.getCoeff(mmBf_L);
     auto mmC_L    = exprAssembler.getCoeff(mmCf_L);
     auto mmD_L    = exprAssembler.getCoeff(mmDf_L);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&m_patches,&deformed);
     auto mmA_NL    = exprAssembler.getCoeff(mmAf_NL);
     auto mmB_NL    = exprAssembler.getCoeff(mmBf_NL);
     auto mmC_NL    = exprAssembler.getCoeff(mmCf_NL);
     auto mmD_NL    = exprAssembler.getCoeff(mmDf_NL);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed);
     // gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
@@ -2678,18 +2678,18 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf(m_assemblerH->materials(),&m_patches,&m_patches);
     auto mmA    = exprAssembler.getCoeff(mmAf);
     auto mmB    = exprAssembler.getCoeff(mmBf);
     auto mmC    = exprAssembler.getCoeff(mmCf);
     auto mmD    = exprAssembler.getCoeff(mmDf);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches,&m_patches);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
     auto rho  = exprAssembler.getCoeff(rhof);
@@ -2773,18 +2773,18 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMultiPatch<T> & de
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Force tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&m_patches,&deformed);
     auto N  = exprAssembler.getCoeff(Nf);
     auto M  = exprAssembler.getCoeff(Mf);
 
@@ -2800,7 +2800,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMultiPatch<T> & de
     ///////// TEMPORARY
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Helper matrix for flexural components
@@ -2997,18 +2997,18 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const bContainer & bnds, c
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Force tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&m_patches,&deformed);
     auto N  = exprAssembler.getCoeff(Nf);
     auto M  = exprAssembler.getCoeff(Mf);
 
@@ -3024,7 +3024,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const bContainer & bnds, c
     ///////// TEMPORARY
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Helper matrix for flexural components
@@ -3221,24 +3221,24 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     // Material tensors
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Force tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&m_patches,&deformed);
     auto N  = exprAssembler.getCoeff(Nf);
     auto M  = exprAssembler.getCoeff(Mf);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto P0 = exprAssembler.getCoeff(P0f);
 
     // // Helper matrix for flexural components
@@ -3550,7 +3550,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches); // note: is this right?
+    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches,&m_patches); // note: is this right?
     auto rho = exprAssembler.getCoeff(rhof);
 
     auto usol = exprAssembler.getCoeff(primal);
@@ -3579,26 +3579,26 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches,&m_patches);
     auto mmA_L    = exprAssembler.getCoeff(mmAf_L);
     auto mmB_L    = exprAssembler.getCoeff(mmBf_L);
     auto mmC_L    = exprAssembler.getCoeff(mmCf_L);
     auto mmD_L    = exprAssembler.getCoeff(mmDf_L);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&m_patches,&deformed);
     auto mmA_NL    = exprAssembler.getCoeff(mmAf_NL);
     auto mmB_NL    = exprAssembler.getCoeff(mmBf_NL);
     auto mmC_NL    = exprAssembler.getCoeff(mmCf_NL);
     auto mmD_NL    = exprAssembler.getCoeff(mmDf_NL);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&defpatches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&defpatches);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
 
-- 
2.43.0


From 2c4fd5222b67f1a9d2cfb3c9d8a687ce618c50a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:06 +0000
Subject: [PATCH 18/26] fix: copies of an error estimator own their assemblers

---
 src/gsThinShellAssemblerDWR.h | 41 ++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.h b/src/gsThinShellAssemblerDWR.h
index b9eed77..f207318 100644
--- a/src/gsThinShellAssemblerDWR.h
+++ b/src/gsThinShellAssemblerDWR.h
@@ -68,6 +68,37 @@ public:
     // empty constructor
     gsThinShellAssemblerDWR() {};
 
+    /// Copy constructor (makes deep copy)
+    gsThinShellAssemblerDWR( const gsThinShellAssemblerDWR & other )
+    {
+        operator=(other);
+    }
+
+    /// Assignment operator
+    gsThinShellAssemblerDWR & operator= ( const gsThinShellAssemblerDWR & other )
+    {
+        if (this!=&other)
+        {
+            Base::operator=(other);
+            delete m_assemblerL;
+            delete m_assemblerH;
+            m_assemblerL = m_assemblerH = nullptr;
+            if (other.m_assemblerL) m_assemblerL = new Base(static_cast<const Base &>(*other.m_assemblerL));
+            if (other.m_assemblerH) m_assemblerH = new Base(static_cast<const Base &>(*other.m_assemblerH));
+
+            m_pL = other.m_pL; m_pH = other.m_pH; m_dL = other.m_dL; m_dH = other.m_dH;
+            m_matrixL = other.m_matrixL; m_matrixH = other.m_matrixH;
+            m_massL = other.m_massL;     m_massH = other.m_massH;
+            m_pLoads = other.m_pLoads;
+            m_error = other.m_error;
+            m_errors = other.m_errors;
+            m_bcs = other.m_bcs;
+            m_goalFunction = other.m_goalFunction;
+            m_component = other.m_component;
+        }
+        return *this;
+    }
+
     gsThinShellAssemblerDWR(
                                 const gsMultiPatch<T> & patches,
                                 const gsMultiBasis<T> & basisL,
@@ -409,8 +440,8 @@ protected:
 
 
 protected:
-    mutable gsThinShellAssemblerBase<T> * m_assemblerL;
-    mutable gsThinShellAssemblerBase<T> * m_assemblerH;
+    mutable gsThinShellAssemblerBase<T> * m_assemblerL = nullptr;
+    mutable gsThinShellAssemblerBase<T> * m_assemblerH = nullptr;
 
     gsVector<T> m_pL, m_pH, m_dL, m_dH;
     gsSparseMatrix<T> m_matrixL;
@@ -420,7 +451,7 @@ protected:
 
     gsPointLoads<T> m_pLoads;
 
-    T m_error;
+    T m_error = 0;
     std::vector<T> m_errors;
 
     typedef gsExprAssembler<>::geometryMap geometryMap;
@@ -441,8 +472,8 @@ protected:
     using Base::m_pressFun;
     using Base::m_pressInd;
 
-    enum GoalFunction m_goalFunction;
-    short_t m_component;
+    enum GoalFunction m_goalFunction = GoalFunction::Displacement;
+    short_t m_component = 9;
 };
 
 #ifdef GISMO_WITH_PYBIND11
-- 
2.43.0


From 0d8beffd2f999fb4c9b678c026999d9440286fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:19 +0000
Subject: [PATCH 19/26] fix: assembling the dual keeps the continuity of the
 space

The dual load was assembled on a space that is set up with continuity 0 after
the system was initialised, whatever the Continuity option is.  On multi-patch
geometries with the default option the first assembly fails (the number of
degrees of freedom changes under the initialised system), and the space of the
assembler stays in the other state afterwards.
---
 src/gsThinShellAssemblerDWR.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 5761818..aed5219 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -218,7 +218,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(g
     // Space
     space   space   = exprAssembler.trialSpace(0);
     // Homogenize Dirichlet
-    space.setup(m_bcs, dirichlet::homogeneous, 0);
+    space.setup(m_bcs, dirichlet::homogeneous, assembler->options().getInt("Continuity"));
 
     // Solution
     auto usol   = exprAssembler.getCoeff(primal);
@@ -675,7 +675,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     // Space
     space   space   = exprAssembler.trialSpace(0);
     // Homogenize Dirichlet
-    space.setup(m_bcs, dirichlet::homogeneous, 0);
+    space.setup(m_bcs, dirichlet::homogeneous, assembler->options().getInt("Continuity"));
 
     // Solution
     auto usol   = exprAssembler.getCoeff(primal);
@@ -1140,7 +1140,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     // Space
     space   space   = exprAssembler.trialSpace(0);
     // Homogenize Dirichlet
-    space.setup(m_bcs, dirichlet::homogeneous, 0);
+    space.setup(m_bcs, dirichlet::homogeneous, assembler->options().getInt("Continuity"));
 
     // Solution
     auto usol   = exprAssembler.getCoeff(primal);
-- 
2.43.0


From 4f542f89b7bdced84a5be3902be0606986c5a08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:19 +0000
Subject: [PATCH 20/26] fix: the elastic energy refers to the geometry of the
 assembler

getElasticEnergy evaluated the materials on whatever undeformed geometry was
last set on them, not on the geometry of this assembler.
---
 src/gsThinShellAssembler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 7c12aa9..f230c05 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2539,8 +2539,8 @@ T gsThinShellAssembler<d, T, bending>::getElasticEnergy(const gsFunctionSet<T> &
     geometryMap m_ori   = m_assembler.getMap(m_patches);
     geometryMap m_def   = m_assembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&m_patches,&deformed);
     auto S0  = m_assembler.getCoeff(m_S0);
     auto S1  = m_assembler.getCoeff(m_S1);
     auto u   = m_def - m_ori;
-- 
2.43.0


From f32df6a8835adde262c2b28187e73b9e1bdc7aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:25 +0000
Subject: [PATCH 21/26] fix: the error estimator releases its assemblers when
 its construction fails

---
 src/gsThinShellAssemblerDWR.h   | 14 +++++++++-----
 src/gsThinShellAssemblerDWR.hpp | 12 ++++++++----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.h b/src/gsThinShellAssemblerDWR.h
index f207318..c9c0bf9 100644
--- a/src/gsThinShellAssemblerDWR.h
+++ b/src/gsThinShellAssemblerDWR.h
@@ -80,11 +80,9 @@ public:
         if (this!=&other)
         {
             Base::operator=(other);
-            delete m_assemblerL;
-            delete m_assemblerH;
-            m_assemblerL = m_assemblerH = nullptr;
-            if (other.m_assemblerL) m_assemblerL = new Base(static_cast<const Base &>(*other.m_assemblerL));
-            if (other.m_assemblerH) m_assemblerH = new Base(static_cast<const Base &>(*other.m_assemblerH));
+            memory::unique_ptr<Base> assemblerL, assemblerH;
+            if (other.m_assemblerL) assemblerL.reset(new Base(static_cast<const Base &>(*other.m_assemblerL)));
+            if (other.m_assemblerH) assemblerH.reset(new Base(static_cast<const Base &>(*other.m_assemblerH)));
 
             m_pL = other.m_pL; m_pH = other.m_pH; m_dL = other.m_dL; m_dH = other.m_dH;
             m_matrixL = other.m_matrixL; m_matrixH = other.m_matrixH;
@@ -95,6 +93,12 @@ public:
             m_bcs = other.m_bcs;
             m_goalFunction = other.m_goalFunction;
             m_component = other.m_component;
+
+            // owned by this object from here on, nothing below may throw
+            delete m_assemblerL;
+            delete m_assemblerH;
+            m_assemblerL = assemblerL.release();
+            m_assemblerH = assemblerH.release();
         }
         return *this;
     }
diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index aed5219..27a32e2 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -56,11 +56,15 @@ gsThinShellAssemblerDWR<d, T, bending>::gsThinShellAssemblerDWR(
                                                             Base(patches,basisL,bconditions,surface_force,materialmatrix),
                                                             m_bcs(bconditions)
 {
-    m_assemblerL = new gsThinShellAssembler<d,T,bending>(patches,basisL,bconditions,surface_force,materialmatrix);
-    m_assemblerH = new gsThinShellAssembler<d,T,bending>(patches,basisH,bconditions,surface_force,materialmatrix);
+    memory::unique_ptr<Base> assemblerL(new Base(patches,basisL,bconditions,surface_force,materialmatrix));
+    memory::unique_ptr<Base> assemblerH(new Base(patches,basisH,bconditions,surface_force,materialmatrix));
 
-    m_dL = gsVector<T>::Zero(m_assemblerL->numDofs());
-    m_dH = gsVector<T>::Zero(m_assemblerH->numDofs());
+    m_dL = gsVector<T>::Zero(assemblerL->numDofs());
+    m_dH = gsVector<T>::Zero(assemblerH->numDofs());
+
+    // owned by this object from here on, nothing below may throw
+    m_assemblerL = assemblerL.release();
+    m_assemblerH = assemblerH.release();
  }
 
 template <short_t d, class T, bool bending>
-- 
2.43.0


From 0ab301b9ce8219883b02fa3523d7216de247f849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:56 +0000
Subject: [PATCH 22/26] fix: assembleMass(lumped) returned the matrix of an
 earlier assembly instead of the lumped mass

---
 src/gsThinShellAssembler.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index f230c05..1a7e97d 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1472,7 +1472,17 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
         else
             m_assembler.assemble(mm0.val()*(m_space.rowSum())*meas(m_ori));
 
-        m_mass = m_assembler.matrix();
+        if (!lumped)
+            m_mass = m_assembler.matrix();
+        else // the row sums are assembled in the right-hand side
+        {
+            const gsMatrix<T> & rowSums = m_assembler.rhs();
+            m_mass = gsSparseMatrix<T>(rowSums.rows(),rowSums.rows());
+            m_mass.reserve(gsVector<index_t>::Constant(rowSums.rows(),1));
+            for (index_t i = 0; i != rowSums.rows(); i++)
+                m_mass.insert(i,i) = rowSums(i,0);
+            m_mass.makeCompressed();
+        }
         m_status = ThinShellAssemblerStatus::Success;
 
 /*        // assemble system
-- 
2.43.0


From fbbc13631e7b062ae1c16f05f345eafef51074b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:48 +0000
Subject: [PATCH 23/26] fix: reading a material container from a damaged file
 accessed missing attributes, materials and patches

---
 src/gsMaterialMatrixContainer.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gsMaterialMatrixContainer.hpp b/src/gsMaterialMatrixContainer.hpp
index 17bd47a..2df18c1 100644
--- a/src/gsMaterialMatrixContainer.hpp
+++ b/src/gsMaterialMatrixContainer.hpp
@@ -113,7 +113,9 @@ public:
 
     static void get_into(gsXmlNode * node,Object & obj)
     {
+        GISMO_ENSURE(node->first_attribute("size"),"MaterialMatrixContainer without a size in the xml file");
         const int size = atoi(node->first_attribute("size")->value());
+        GISMO_ENSURE(size>=0,"MaterialMatrixContainer: Size must not be negative");
 
         // Read material inventory
         int count = countByTag("MaterialMatrix", node);
@@ -121,22 +123,32 @@ public:
         for (gsXmlNode * child = node->first_node("MaterialMatrix"); child; child =
                 child->next_sibling("MaterialMatrix"))
         {
+            GISMO_ENSURE(child->first_attribute("index"),"MaterialMatrixContainer: MaterialMatrix without an index in the xml file");
             const int i = atoi(child->first_attribute("index")->value());
+            GISMO_ENSURE(i>=0 && i<count && !mat[i],"MaterialMatrixContainer: The indices of the materials must be 0,...,"<<count-1);
             mat[i] = memory::make_shared(gsXml<gsMaterialMatrixBase<T>>::get(child));
+            GISMO_ENSURE(mat[i],"MaterialMatrixContainer: Material "<<i<<" could not be read");
         }
 
         obj = gsMaterialMatrixContainer<T>(size);
         for (gsXmlNode * child = node->first_node("group"); child;
                 child = child->next_sibling("group"))
         {
+            GISMO_ENSURE(child->first_attribute("material"),"MaterialMatrixContainer: Group without a material in the xml file");
             const int mIndex = atoi(child->first_attribute("material")->value());
+            GISMO_ENSURE(mIndex>=0 && mIndex<count,"MaterialMatrixContainer: There is no material "<<mIndex);
             std::istringstream group_str;
             group_str.str( child->value() );
 
             for(int patch; ( gsGetInt(group_str,patch)); )
+            {
+                GISMO_ENSURE(patch>=0 && patch<size,"MaterialMatrixContainer: There is no patch "<<patch);
                 obj.set(patch,mat[mIndex]);
+            }
         }
 
+        for (index_t p=0; p!=size; ++p)
+            GISMO_ENSURE(obj.piece(p),"MaterialMatrixContainer: Patch "<<p<<" has no material");
     }
 
     static gsXmlNode * put (const Object & /* obj */,
-- 
2.43.0


From b8d1fc94bdb3cbb1fe1680d48ae12d6a279ce7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:48 +0000
Subject: [PATCH 24/26] fix: a TFT material read from xml wrapped a null
 material and did not own its base material

---
 src/gsMaterialMatrixXml.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/gsMaterialMatrixXml.hpp b/src/gsMaterialMatrixXml.hpp
index 42c2b04..0e16c02 100644
--- a/src/gsMaterialMatrixXml.hpp
+++ b/src/gsMaterialMatrixXml.hpp
@@ -45,8 +45,9 @@ public:
 
     static void get_into(gsXmlNode * node, Object & obj)
     {
-        obj = *get(node);
-        // obj = *tmp;
+        typename Object::uPtr tmp(get(node));
+        GISMO_ENSURE(tmp,"MaterialMatrix could not be read from the xml file");
+        obj = *tmp;
     }
 
     static Object * get(gsXmlNode * node)
@@ -72,9 +73,11 @@ public:
         }
 
         std::string s = gtype->value() ;
-        Object * tmp = get_impl(node);
-        if (TFT)
+        Object * impl = get_impl(node);
+        if (TFT && impl)
         {
+            // The TFT model owns the material matrix it is based on
+            typename Object::Ptr tmp(impl);
             if      (   ( s == "Linear2"            ) )
                 return new gsMaterialMatrixTFT<2,T,true>(tmp);
             else if (   ( s == "Linear3"            ) )
@@ -104,7 +107,7 @@ public:
             }
         }
         else
-            return tmp;
+            return impl;
     }
 
     static Object * get_impl(gsXmlNode * node)
@@ -179,6 +182,7 @@ public:
            )
         {
             gsXmlNode * tmp = put_impl(ptr->material(),data);
+            if (NULL == tmp) return NULL;
             tmp->append_attribute(internal::makeAttribute("TFT","true",data));
             return tmp;
         }
-- 
2.43.0


From 3f30da190e1feeb0fa302dd2199a9ad3224683d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:48 +0000
Subject: [PATCH 25/26] fix: reading a material from a damaged file
 dereferenced missing elements and attributes

---
 src/gsMaterialMatrixXml.hpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixXml.hpp b/src/gsMaterialMatrixXml.hpp
index 0e16c02..dc32ee7 100644
--- a/src/gsMaterialMatrixXml.hpp
+++ b/src/gsMaterialMatrixXml.hpp
@@ -273,6 +273,18 @@ public:
     }
 };
 
+/// Reads a function expression, and throws if the node or one of its attributes is missing
+template<class T>
+void getFunctionExprFromXml ( gsXmlNode * node, gsFunctionExpr<T> & result)
+{
+    GISMO_ENSURE(node,"MaterialMatrix: Function is missing in the xml file");
+    gsXmlAttribute * ftype = node->first_attribute("type");
+    GISMO_ENSURE(ftype && gsXml<gsFunctionExpr<T> >::type() == ftype->value(),
+                 "MaterialMatrix: Function must be of type "<<gsXml<gsFunctionExpr<T> >::type());
+    GISMO_ENSURE(node->first_attribute("dim"),"MaterialMatrix: Function without a dim in the xml file");
+    gsXml<gsFunctionExpr<T> >::get_into(node, result);
+}
+
 template<class Object>
 Object getMaterialMatrixFromXml ( gsXmlNode * node)
 {
@@ -287,9 +299,9 @@ Object getMaterialMatrixFromXml ( gsXmlNode * node)
     gsXmlNode * tmp;
 
     tmp = node->first_node("Thickness");
-    GISMO_ASSERT(tmp,"Thickness must be assigned!");
+    GISMO_ENSURE(tmp,"Thickness must be assigned!");
     gsFunctionExpr<T> thickness;
-    gsXml<gsFunctionExpr<T> >::get_into(tmp->first_node("Function"), thickness);
+    getFunctionExprFromXml<T>(tmp->first_node("Function"), thickness);
     result.setThickness(thickness);
 
     tmp = node->first_node("Density");
@@ -297,18 +309,25 @@ Object getMaterialMatrixFromXml ( gsXmlNode * node)
     bool hasDensity = tmp;
     if ( hasDensity )
     {
-        gsXml<gsFunctionExpr<T> >::get_into(tmp->first_node("Function"), density);
+        getFunctionExprFromXml<T>(tmp->first_node("Function"), density);
         result.setDensity(density);
     }
 
     gsXmlNode * parNode = node->first_node("Parameters");
+    GISMO_ENSURE(parNode,"Parameters must be assigned!");
     // Read function inventory
+    const int count = countByTag("Function", parNode);
+    GISMO_ENSURE(count>=2,"MaterialMatrix: At least two parameters (Young's modulus and Poisson's ratio) are needed, but "<<count<<" are given");
+    std::vector<bool> found(count,false);
     gsFunctionExpr<T> fun;
     for (gsXmlNode * child = parNode->first_node("Function"); child; child =
             child->next_sibling("Function"))
     {
+        GISMO_ENSURE(child->first_attribute("index"),"MaterialMatrix: Parameter without an index in the xml file");
         const int i = atoi(child->first_attribute("index")->value());
-        gsXml<gsFunctionExpr<T> >::get_into(child, fun);
+        GISMO_ENSURE(i>=0 && i<count && !found[i],"MaterialMatrix: The indices of the parameters must be 0,...,"<<count-1);
+        found[i] = true;
+        getFunctionExprFromXml<T>(child, fun);
         result.setParameter(i,fun);
     }
     return result;
-- 
2.43.0


From e66d29a90dc999422876b23f97fd8e991b289dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:50 +0000
Subject: [PATCH 26/26] fix: a change of the continuity that failed could not
 be repeated: the numbering kept the old continuity

---
 src/gsThinShellAssembler.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 1a7e97d..40f6857 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -219,7 +219,10 @@ void gsThinShellAssembler<d, T, bending>::_getOptions()
     index_t continuity = m_continuity;
     m_continuity = m_options.getInt("Continuity");
     if (continuity != m_options.getInt("Continuity"))
-        this->_initialize();
+    {
+        try { this->_initialize(); }
+        catch (...) { m_continuity = continuity; throw; } // the space still has the old continuity
+    }
 
     m_alpha_d_bc = m_options.getReal("WeakDirichlet");
     m_alpha_r_bc = m_options.getReal("WeakClamped");
@@ -230,14 +233,10 @@ void gsThinShellAssembler<d, T, bending>::_getOptions()
 template<short_t d, class T, bool bending>
 void gsThinShellAssembler<d, T, bending>::setOptions(gsOptionList & options)
 {
-    // Check if the continuity option changed
-    // Get old continuity
-    index_t continuity = m_options.getInt("Continuity");
-
     m_options.update(options,gsOptionList::ignoreIfUnknown);
 
-    // If the continuity changed, we need to re-initialize the space.
-    if (continuity != m_options.getInt("Continuity"))
+    // If the continuity differs from the one of the space, we need to re-initialize the space.
+    if (m_continuity != m_options.getInt("Continuity"))
         this->_initialize();
 }
 
-- 
2.43.0

