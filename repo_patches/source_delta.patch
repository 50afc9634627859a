From db4a768cd0d49e2ab890b1985e549b7287b56408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 01/14] fix: debug checks of element access compare the
 window-local index with the window offset

SpatialField::operator()(i,j,k) takes indices local to the field window
(flat_index adds the offset), so requiring index >= offset rejected valid
points of every window with a non-zero offset.
---
 spatialops/structured/SpatialField.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index ec68e13..328a39c 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -1290,9 +1290,6 @@ SpatialField<Location,T>::operator()(const IntVec& ijk)
     assert( (size_t)ijk[0] <  fieldWindow_.extent(0) );
     assert( (size_t)ijk[1] <  fieldWindow_.extent(1) );
     assert( (size_t)ijk[2] <  fieldWindow_.extent(2) );
-    assert( (size_t)ijk[0] >= fieldWindow_.offset(0) );
-    assert( (size_t)ijk[1] >= fieldWindow_.offset(1) );
-    assert( (size_t)ijk[2] >= fieldWindow_.offset(2) );
 #   endif
     return fieldValues_[fieldWindow_.flat_index(ijk)];
   }
@@ -1318,9 +1315,6 @@ operator()( const size_t i, const size_t j, const size_t k ) const
     assert( i <  fieldWindow_.extent(0) );
     assert( j <  fieldWindow_.extent(1) );
     assert( k <  fieldWindow_.extent(2) );
-    assert( i >= fieldWindow_.offset(0) );
-    assert( j >= fieldWindow_.offset(1) );
-    assert( k >= fieldWindow_.offset(2) );
 #   endif
     IntVec ijk(i,j,k);
     return fieldValues_[fieldWindow_.flat_index(ijk)];
@@ -1342,9 +1336,9 @@ operator()( const IntVec& ijk ) const
 {
   if( memType_ == LOCAL_RAM || fieldValues_ != NULL ){
 #   ifndef NDEBUG
-    assert( (size_t)ijk[0] < fieldWindow_.extent(0) && (size_t)ijk[0] >= fieldWindow_.offset(0) );
-    assert( (size_t)ijk[1] < fieldWindow_.extent(1) && (size_t)ijk[1] >= fieldWindow_.offset(1) );
-    assert( (size_t)ijk[2] < fieldWindow_.extent(2) && (size_t)ijk[2] >= fieldWindow_.offset(2) );
+    assert( (size_t)ijk[0] < fieldWindow_.extent(0) );
+    assert( (size_t)ijk[1] < fieldWindow_.extent(1) );
+    assert( (size_t)ijk[2] < fieldWindow_.extent(2) );
 #   endif
     return fieldValues_[fieldWindow_.flat_index(ijk)];
   } else {
-- 
2.43.0


From b6db7b87e1a21e71a04f014e2ada0bba7b976a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 02/14] fix: ghost resizing leaves directions with a single
 point alone

A direction with one point carries no ghost points, but reset_valid_ghosts and
resize_ghost still shrank and moved the window there, so interior_assign (or an
operand with other ghosts) on a 1D/2D field built an invalid window.
---
 spatialops/NeboBasic.h               | 13 ++++++++++---
 spatialops/structured/SpatialField.h | 11 ++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/spatialops/NeboBasic.h b/spatialops/NeboBasic.h
index ba9e1be..e303986 100644
--- a/spatialops/NeboBasic.h
+++ b/spatialops/NeboBasic.h
@@ -124,10 +124,17 @@
 
           const structured::IntVec oldPlus = field.get_valid_ghost_data().get_plus();
 
-          const structured::IntVec offsetChange = oldMinus - minus;
+          structured::IntVec offsetChange = oldMinus - minus;
 
-          const structured::IntVec extentChange = minus + plus - oldMinus -
-          oldPlus;
+          structured::IntVec extentChange = minus + plus - oldMinus - oldPlus;
+
+          /* there are no ghost points in directions with a single point */
+          for(int ii = 0; ii < 3; ii++) {
+             if(field.window_with_ghost().glob_dim(ii) == 1) {
+                offsetChange[ii] = 0;
+                extentChange[ii] = 0;
+             };
+          };
 
           return field.reshape(extentChange, offsetChange);
        };
diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index 328a39c..984dde7 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -459,10 +459,15 @@ namespace structured{
      * This method should be used when a field assignment can only occur on a subset of the field due to invalidation of some of the ghost cells.
      */
     inline void reset_valid_ghosts( const GhostData& ghosts ){
-      const IntVec diff = validGhosts_.get_minus() - ghosts.get_minus();
+      IntVec minusDiff = validGhosts_.get_minus() - ghosts.get_minus();
+      IntVec plusDiff  = validGhosts_.get_plus()  - ghosts.get_plus();
+      for( int i=0; i<3; ++i ){
+        // there are no ghost points in directions with a single point
+        if( fieldWindow_.glob_dim(i) == 1 ) minusDiff[i] = plusDiff[i] = 0;
+      }
       fieldWindow_ = MemoryWindow( fieldWindow_.glob_dim(),
-                                   fieldWindow_.offset() + diff,
-                                   fieldWindow_.extent() - diff - validGhosts_.get_plus() + ghosts.get_plus() );
+                                   fieldWindow_.offset() + minusDiff,
+                                   fieldWindow_.extent() - minusDiff - plusDiff );
       validGhosts_ = ghosts;
     }
 
-- 
2.43.0


From 693636ba1370ea39a8da09249d6c145364667770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 03/14] fix: a one-entry coefficient list rejects index 1

---
 spatialops/NeboStencils.h     | 2 +-
 spatialops/NeboStencils.h.fmr | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/NeboStencils.h b/spatialops/NeboStencils.h
index 10a8907..6f5a162 100644
--- a/spatialops/NeboStencils.h
+++ b/spatialops/NeboStencils.h
@@ -100,7 +100,7 @@
                 throw(std::runtime_error(msg.str()));;
              };
 
-             if(index > 1) {
+             if(index >= 1) {
                 std::ostringstream msg;
                 msg << "Nebo error in " << "Nebo Stencil Coefficient Collection"
                 << ":\n";
diff --git a/spatialops/NeboStencils.h.fmr b/spatialops/NeboStencils.h.fmr
index bb9416f..bdcd5cb 100644
--- a/spatialops/NeboStencils.h.fmr
+++ b/spatialops/NeboStencils.h.fmr
@@ -237,7 +237,7 @@
                                      (list (nif (n< 'index "0")
                                                 (build-error '(Nebo Stencil Coefficient Collection)
                                                              '(given negative value for coefficient index)))
-                                           (nif (n> 'index "1")
+                                           (nif (n>= 'index "1")
                                                 (build-error '(Nebo Stencil Coefficient Collection)
                                                              '(trying to access a coefficient that does not exist))))
                                      (fc 'coef)))
-- 
2.43.0


From 360d4c6cbb3f6df3880492e7bee516f3415a76b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 04/14] fix: boundary conditions on a point list write the
 listed points

The stored flat indices are relative to the whole memory block, but were
decoded with the window extent and shifted by the window offset again.
---
 spatialops/structured/stencil/FVStaggeredBCOp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/stencil/FVStaggeredBCOp.h b/spatialops/structured/stencil/FVStaggeredBCOp.h
index a77e81a..1360664 100644
--- a/spatialops/structured/stencil/FVStaggeredBCOp.h
+++ b/spatialops/structured/stencil/FVStaggeredBCOp.h
@@ -234,8 +234,8 @@ namespace structured{
       std::vector<int>::const_iterator ia = flatGhostPoints_.begin(); // ia is the ghost flat index
       std::vector<int>::const_iterator ib = flatInteriorPoints_.begin(); // ib is the interior flat index
       for( ; ia != flatGhostPoints_.end(); ++ia, ++ib ){
-        const MemoryWindow wa( w.glob_dim(), w.offset()+w.ijk_index_from_local(*ia), IntVec(1,1,1) );
-        const MemoryWindow wb( w.glob_dim(), w.offset()+w.ijk_index_from_local(*ib), IntVec(1,1,1) );
+        const MemoryWindow wa( w.glob_dim(), w.ijk_index_from_global(*ia), IntVec(1,1,1) );
+        const MemoryWindow wb( w.glob_dim(), w.ijk_index_from_global(*ib), IntVec(1,1,1) );
         SrcFieldT fa( wa, f );
         SrcFieldT fb( wb, f );
         fa <<= ( bcEval_() - cb_ * fb ) / ca_;
-- 
2.43.0


From 17ef0b1e7fbba8659c66a29209700a2e43b5228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 05/14] fix: a detached work-field handle gives up its share of
 the field once

With other handles remaining, detach() lowered the count but kept the
pointers, so that destroying the handle lowered it again.
---
 spatialops/structured/SpatialFieldStore.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 01c66a7..99180b8 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -419,9 +419,11 @@ void SpatFldPtr<FieldT>::detach() {
       if( builtFromStore_ ){
 	SpatialFieldStore::restore_field(memType_, *f_);
       }
-      delete count_; count_ = NULL;
-      delete f_;     f_     = NULL;
+      delete count_;
+      delete f_;
     }
+    count_ = NULL;
+    f_     = NULL;
   }
 }
 
-- 
2.43.0


From df11faac68a952cb83986f84c9da216094d874f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 06/14] fix: work-field handles can be assigned to themselves
 and copied when empty

---
 spatialops/structured/SpatialFieldStore.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 99180b8..eb6bcd1 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -330,7 +330,7 @@ SpatFldPtr<FieldT>::SpatFldPtr(const SpatFldPtr<FieldT>& p)
     deviceIndex_( p.deviceIndex_),
     memType_( p.memType_ )
 {
-    ++(*count_);
+    if( count_ != NULL ) ++(*count_);
 }
 
 //------------------------------------------------------------------
@@ -349,6 +349,7 @@ template<typename FieldT>
 SpatFldPtr<FieldT>&
 SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
 {
+  if( this == &p ) return *this;
   // was this an active SpatFldPtr?
   if (count_ != NULL) {
     // this one is dying so decrement the count.
@@ -371,7 +372,7 @@ SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
   memType_ = p.memType_;
   deviceIndex_ = p.deviceIndex_;
   // increment copy count
-  ++(*count_);
+  if( count_ != NULL ) ++(*count_);
 
   return *this;
 }
-- 
2.43.0


From d705fde47c38b4d292d8fca6c46467b0b973b115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 07/14] fix: work fields get no extra boundary point in
 directions with a single point

---
 spatialops/structured/SpatialFieldStore.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index eb6bcd1..60b765e 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -254,7 +254,11 @@ public:
 
     const BoundaryCellInfo bc = BoundaryCellInfo::build<FieldT>( f.boundary_info().has_bc() );
 
-    const IntVec inc = bc.has_bc() * Subtract< typename FieldT::Location::BCExtra, typename ProtoT::Location::BCExtra >::result::int_vec();
+    IntVec inc = bc.has_bc() * Subtract< typename FieldT::Location::BCExtra, typename ProtoT::Location::BCExtra >::result::int_vec();
+    for( int i=0; i<3; ++i ){
+      // there are no extra boundary points in directions with a single point
+      if( ws.glob_dim(i) == 1 ) inc[i] = 0;
+    }
     const MemoryWindow w( ws.glob_dim() + inc,
                           ws.offset(),
                           ws.extent()   + inc );
-- 
2.43.0


From 3ac5db2536daca88da3f5d689a87bef308d03c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 08/14] fix: work fields modelled on a field take the ghosts
 that are valid on it

The window of the prototype covers its valid ghosts only, so pairing it with
all of its ghosts made the interior of the work field too small.
---
 spatialops/structured/SpatialFieldStore.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 60b765e..6f06245 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -250,7 +250,7 @@ public:
     if( mtype == UNKNOWN ) mtype = f.memory_device_type();
 
     const MemoryWindow& ws = f.window_with_ghost();
-    GhostData gs = f.get_ghost_data();
+    GhostData gs = f.get_valid_ghost_data();
 
     const BoundaryCellInfo bc = BoundaryCellInfo::build<FieldT>( f.boundary_info().has_bc() );
 
-- 
2.43.0


From c700001b457cbee8ab2bf53051cb26875b2c7fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 09/14] fix: field assignment copies the window, not the whole
 memory block

Assigning to a field that views part of a block overwrote the points of the
block outside its window.
---
 spatialops/structured/SpatialField.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index 984dde7..8b66290 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -1444,7 +1444,7 @@ SpatialField<Location,T>::operator=(const field_type& other)
       if( fieldValues_ == other.field_values() ){
         return *this;
       }
-      std::copy( other.fieldValues_, other.fieldValues_+other.fieldWindow_.glob_npts(), fieldValues_ );
+      std::copy( other.begin(), other.end(), begin() );
     }
     break;
 
-- 
2.43.0


From 9e019f16a0d4ca25ab4454e60c191a22af68afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 10/14] fix: grid coordinates count from the interior of
 windowed fields too

set_coord compared a window-local index with the interior offset in the whole
block, so fields with an offset window, among them those with narrowed ghosts,
got shifted coordinates.
---
 spatialops/structured/Grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/structured/Grid.cpp b/spatialops/structured/Grid.cpp
index 0612150..b09dd79 100644
--- a/spatialops/structured/Grid.cpp
+++ b/spatialops/structured/Grid.cpp
@@ -77,7 +77,7 @@ namespace structured{
     const IntVec lo(0,0,0);
     const IntVec hi( mw.extent() );
 
-    const int ixOffset = mwInterior.offset(dir);
+    const int ixOffset = mwInterior.offset()[dir] - mw.offset()[dir];
     IntVec ix;
     for( ix[2]=lo[2]; ix[2]<hi[2]; ++ix[2] ){
       for( ix[1]=lo[1]; ix[1]<hi[1]; ++ix[1] ){
-- 
2.43.0


From 696e2733a8b528ff9f99f741f236c4aceeaa19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 11/14] fix: particle operators locate cells from the mesh
 origin

---
 spatialops/particles/ParticleOperators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/particles/ParticleOperators.h b/spatialops/particles/ParticleOperators.h
index 6e1ea93..a158547 100644
--- a/spatialops/particles/ParticleOperators.h
+++ b/spatialops/particles/ParticleOperators.h
@@ -158,7 +158,7 @@ namespace Particle{
       //identify the location of the particle right boundary
       const double rightloc = *plociter+( 0.5 * *psizeiter );
       //identify the cell index where particle left boundary located
-      int leftcellIx1 = int((*plociter-( 0.5 * *psizeiter )) / dx_) + 1;
+      int leftcellIx1 = int( std::floor( (leftloc - xo_) / dx_ + 0.5 ) );
 #     ifndef NDEBUG
       if( (leftcellIx1 >= nmax) || (leftcellIx1<0) ){
         throw std::runtime_error( "Particle is outside of the domain!" );
@@ -219,7 +219,7 @@ namespace Particle{
     for( ; plociter!=particleCoord.end(); ++plociter, ++destiter, ++psizeiter ){
       double leftloc = *plociter-( *psizeiter / 2.0) ;
       const double rightloc = *plociter+( *psizeiter / 2.0) ;
-      int leftcellIx1 = int((*plociter-( *psizeiter / 2.0)) / dx_) + 1;
+      int leftcellIx1 = int( std::floor( (leftloc - xo_) / dx_ + 0.5 ) );
 #     ifndef NDEBUG
       if( leftcellIx1 >= nmax || leftcellIx1<0 ){
         throw std::runtime_error( "Particle is outside of the domain!" );
-- 
2.43.0


From 366fe7b47582d72f30b7ae67e09ce90f10265458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 12/14] fix: the derivative of the Gaussian function follows
 its formula

---
 spatialops/FieldFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/FieldFunctions.h b/spatialops/FieldFunctions.h
index cd4ae08..80a90b6 100644
--- a/spatialops/FieldFunctions.h
+++ b/spatialops/FieldFunctions.h
@@ -647,7 +647,7 @@ dx( FieldT& f ) const
 {
   this->set_fields();
   const FieldT& x = this->get_x();
-  f <<= -2/b_ * (x-xo_)*(x-xo_)*exp(-1.0/b_ * (x-xo_)*(x-xo_) ) + yo_;
+  f <<= -2.0*a_/b_ * (x-xo_)*exp(-1.0/b_ * (x-xo_)*(x-xo_) );
 }
 //------------------------------------------------------------------
 template<typename FieldT, typename PatchT>
-- 
2.43.0


From d62da0fc109ddd8d74d54d7973ee39bba4082dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 13/14] fix: shrinking a thread pool terminates exactly the
 surplus workers

Every worker that noticed the surplus before the first one was gone
terminated, leaving too few workers (possibly none) and tasks that never
run.  A terminating worker also blocked the active limit.
---
 .../threadpool/threadpool/detail/pool_core.hpp  | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 7b79d81..4190f34 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -109,6 +109,7 @@ namespace boost { namespace threadpool { namespace detail
     volatile size_t m_worker_count;
     volatile size_t m_target_worker_count;
     volatile size_t m_active_worker_count;
+    volatile size_t m_terminating_worker_count;		// Workers which were told to terminate but are not destructed yet.
     volatile size_t m_target_active_worker_count;
 
   private: // The following members are accessed only by _one_ thread at the same time:
@@ -129,6 +130,7 @@ namespace boost { namespace threadpool { namespace detail
       : m_worker_count(0)
       , m_target_worker_count(0)
       , m_active_worker_count(0)
+      , m_terminating_worker_count(0)
       , m_target_active_worker_count(0)
       , m_terminate_all_workers(false)
     {
@@ -320,10 +322,11 @@ namespace boost { namespace threadpool { namespace detail
         return false;
       }
 
-      if(m_worker_count <= m_target_worker_count){
+      // workers which are about to terminate do not count
+      if(m_worker_count - m_terminating_worker_count <= m_target_worker_count){
 
     	// increase worker count
-        while(m_worker_count < m_target_worker_count)
+        while(m_worker_count - m_terminating_worker_count < m_target_worker_count)
         {
           try {
             worker_thread<pool_type>::create_and_attach(lockedThis->shared_from_this());
@@ -374,7 +377,7 @@ namespace boost { namespace threadpool { namespace detail
     {
       locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
       m_worker_count--;
-      m_active_worker_count--;
+      m_terminating_worker_count--;
       lockedThis->m_worker_idle_or_terminated_event.notify_all();
 
       if(m_terminate_all_workers)
@@ -392,8 +395,10 @@ namespace boost { namespace threadpool { namespace detail
         recursive_mutex::scoped_lock lock(lockedThis->m_monitor);
 
         // decrease number of threads if necessary
-        if(m_worker_count > m_target_worker_count)
+        if(m_worker_count - m_terminating_worker_count > m_target_worker_count)
         {
+          m_terminating_worker_count++;
+          m_active_worker_count--;
           return false;	// terminate worker
         }
 
@@ -402,8 +407,10 @@ namespace boost { namespace threadpool { namespace detail
         while(lockedThis->m_scheduler.empty() || (m_active_worker_count > m_target_active_worker_count) )
         {
           // decrease number of workers if necessary
-          if(m_worker_count > m_target_worker_count)
+          if(m_worker_count - m_terminating_worker_count > m_target_worker_count)
           {
+            m_terminating_worker_count++;
+            m_active_worker_count--;
             return false;	// terminate worker
           }
           else
-- 
2.43.0


From fa6c6e518ca6d5f51ce611833a5de83cf6bb3249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 14/14] fix: raising the active limit of a thread pool resumes
 pending tasks

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 4190f34..aa3df08 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -350,7 +350,9 @@ namespace boost { namespace threadpool { namespace detail
      * @return
      */
     bool resize_active(size_t const worker_count) volatile {
+      locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
     	m_target_active_worker_count = ( worker_count < m_worker_count ) ? worker_count : m_worker_count;
+    	lockedThis->m_task_or_terminate_workers_event.notify_all();   // pending tasks may be executed now
     	return true;
     }
 
-- 
2.43.0

