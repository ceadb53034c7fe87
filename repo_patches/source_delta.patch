From f55112e22643b9650614ddd73b26028d570d38cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:17 +0000
Subject: [PATCH 01/69] fix: point of closest approach lies behind the initial
 position, not ahead of it

The initial distance is signed along the direction from the point of closest
approach, so it has to be subtracted from the initial position.
---
 projects/dataclasses/private/InteractionRecord.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 42f820e..f14a08f 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -421,9 +421,9 @@ void PrimaryDistributionRecord::UpdatePointOfClosestApproach() const {
         return;
     if(initial_position_set and direction_set and initial_distance_from_closest_approach_set) {
         point_of_closest_approach = {
-            initial_position.at(0) + initial_distance_from_closest_approach * direction.at(0),
-            initial_position.at(1) + initial_distance_from_closest_approach * direction.at(1),
-            initial_position.at(2) + initial_distance_from_closest_approach * direction.at(2)};
+            initial_position.at(0) - initial_distance_from_closest_approach * direction.at(0),
+            initial_position.at(1) - initial_distance_from_closest_approach * direction.at(1),
+            initial_position.at(2) - initial_distance_from_closest_approach * direction.at(2)};
     } else if(interaction_vertex_set and direction_set and vertex_distance_from_closest_approach_set) {
         point_of_closest_approach = {
             interaction_vertex.at(0) - vertex_distance_from_closest_approach * direction.at(0),
-- 
2.43.0


From bbca99817451c0ad003b27b64224baff5499c5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:17 +0000
Subject: [PATCH 02/69] fix: derive the direction before using it for closest
 approach distances

With only the point of closest approach, a position and the length set, the
distances were computed from the uninitialised direction. Derive the direction
from the momentum, or report that it is unavailable.
---
 projects/dataclasses/private/InteractionRecord.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index f14a08f..b7a30f9 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -514,6 +514,7 @@ void PrimaryDistributionRecord::UpdateVertexDistanceFromClosestApproach() const
         magnitude = std::sqrt(difference.at(0)*difference.at(0) + difference.at(1)*difference.at(1) + difference.at(2)*difference.at(2));
         vertex_distance_from_closest_approach = magnitude * sign;
     } else if(point_of_closest_approach_set and initial_position_set and length_set) {
+        std::array<double, 3> const direction = GetDirection();
         double p_dot_d = (
             (initial_position.at(0) * direction.at(0)) +
             (initial_position.at(1) * direction.at(1)) +
@@ -604,6 +605,7 @@ void PrimaryDistributionRecord::UpdateInitialDistanceFromClosestApproach() const
         magnitude = std::sqrt(difference.at(0)*difference.at(0) + difference.at(1)*difference.at(1) + difference.at(2)*difference.at(2));
         initial_distance_from_closest_approach = magnitude * sign;
     } else if(point_of_closest_approach_set and interaction_vertex_set and length_set) {
+        std::array<double, 3> const direction = GetDirection();
         double p_dot_d = (
             (interaction_vertex.at(0) * direction.at(0)) +
             (interaction_vertex.at(1) * direction.at(1)) +
-- 
2.43.0


From 0369ef059e8e8c1593e82911ef82a581e4989122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:48 +0000
Subject: [PATCH 03/69] fix: a secondary produced at rest has no direction
 instead of NaN

The direction was only zeroed when the energy was zero, so a particle at rest
got a NaN direction and a NaN interaction vertex.
---
 projects/dataclasses/private/InteractionRecord.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index b7a30f9..a4d1fc1 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -1127,8 +1127,8 @@ SecondaryDistributionRecord::SecondaryDistributionRecord(InteractionRecord & rec
     mass(record.primary_mass),
     direction([](InteractionRecord const & record) -> std::array<double, 3> {
         std::array<double, 3> direction;
-        if(record.primary_momentum.at(0) != 0) {
-            double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        if(magnitude > 0) {
             direction = {record.primary_momentum.at(1)/magnitude, record.primary_momentum.at(2)/magnitude, record.primary_momentum.at(3)/magnitude};
         } else {
             direction = {0, 0, 0};
@@ -1148,8 +1148,8 @@ SecondaryDistributionRecord::SecondaryDistributionRecord(InteractionRecord const
     mass(record.primary_mass),
     direction([](InteractionRecord const & record) -> std::array<double, 3> {
         std::array<double, 3> direction;
-        if(record.primary_momentum.at(0) != 0) {
-            double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        double magnitude = std::sqrt(record.primary_momentum.at(1)*record.primary_momentum.at(1) + record.primary_momentum.at(2)*record.primary_momentum.at(2) + record.primary_momentum.at(3)*record.primary_momentum.at(3));
+        if(magnitude > 0) {
             direction = {record.primary_momentum.at(1)/magnitude, record.primary_momentum.at(2)/magnitude, record.primary_momentum.at(3)/magnitude};
         } else {
             direction = {0, 0, 0};
-- 
2.43.0


From 365f0996a7c967f512ee8058b8d91bda974a91d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:48 +0000
Subject: [PATCH 04/69] fix: finalizing a secondary without a length is an
 error

With the interaction time set explicitly the vertex was computed from an
uninitialised length.
---
 projects/dataclasses/private/InteractionRecord.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index a4d1fc1..3503d3a 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -1191,6 +1191,7 @@ void SecondaryDistributionRecord::SetInteractionTime(double const & interaction_
 }
 
 void SecondaryDistributionRecord::Finalize(InteractionRecord & record) const {
+    double const length = GetLength();
     record.signature.primary_type = type;
     record.primary_id = id;
     record.primary_initial_position = initial_position;
-- 
2.43.0


From df407ee55ac71308f0827c984931cc5860e42d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:59 +0000
Subject: [PATCH 05/69] fix: particle IDs of a forked multi-threaded process
 can repeat the parent's

The new pid was published before the counters inherited from the parent were
reset, so a second thread could see the current pid together with the parent's
major ID and hand out an identity the parent had already used.
---
 projects/dataclasses/private/ParticleID.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/dataclasses/private/ParticleID.cxx b/projects/dataclasses/private/ParticleID.cxx
index 0f5c4b4..e9168b8 100644
--- a/projects/dataclasses/private/ParticleID.cxx
+++ b/projects/dataclasses/private/ParticleID.cxx
@@ -95,10 +95,12 @@ ParticleID ParticleID::GenerateID() {
                                                             //check whether another thread already updated this
         last_pid = global_last_pid_.load(std::memory_order_relaxed);
         if(this_pid != last_pid){
-            std::atomic_thread_fence(std::memory_order_release);
-            global_last_pid_.store(this_pid, std::memory_order_relaxed);
             global_major_id_.store(0, std::memory_order_relaxed); // this will cause a new major ID to be generated
             global_minor_id_.store(0, std::memory_order_relaxed); // reset the minor ID, too
+            // publish the new pid only after the reset, so that no thread of a
+            // forked process can pass the check above and reuse the parent's IDs
+            std::atomic_thread_fence(std::memory_order_release);
+            global_last_pid_.store(this_pid, std::memory_order_relaxed);
         }
     }
 
-- 
2.43.0


From 4c2e3e8c04f76703d052278c77ec2f356300257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:17 +0000
Subject: [PATCH 06/69] fix: replacing the distributions of a process refuses
 equal ones, as adding does

---
 projects/injection/private/Process.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/injection/private/Process.cxx b/projects/injection/private/Process.cxx
index 0543f7a..c375e25 100644
--- a/projects/injection/private/Process.cxx
+++ b/projects/injection/private/Process.cxx
@@ -96,7 +96,7 @@ std::vector<std::shared_ptr<distributions::WeightableDistribution>> const & Phys
 void PhysicalProcess::SetPhysicalDistributions(std::vector<std::shared_ptr<distributions::WeightableDistribution>> const & distributions) {
     for(std::vector<std::shared_ptr<distributions::WeightableDistribution>>::const_iterator it_1 = distributions.begin(); it_1 != distributions.end(); ++it_1) {
         for(std::vector<std::shared_ptr<distributions::WeightableDistribution>>::const_iterator it_2 = it_1 + 1; it_2 != distributions.end(); ++it_2) {
-            if((*it_1) == (*it_2))
+            if((**it_1) == (**it_2))
                 throw std::runtime_error("Cannot add duplicate WeightableDistributions");
         }
     }
@@ -136,7 +136,7 @@ void PrimaryInjectionProcess::AddPrimaryInjectionDistribution(std::shared_ptr<di
 void PrimaryInjectionProcess::SetPrimaryInjectionDistributions(std::vector<std::shared_ptr<distributions::PrimaryInjectionDistribution>> const & distributions) {
     for(std::vector<std::shared_ptr<distributions::PrimaryInjectionDistribution>>::const_iterator it_1 = distributions.begin(); it_1 != distributions.end(); ++it_1) {
         for(std::vector<std::shared_ptr<distributions::PrimaryInjectionDistribution>>::const_iterator it_2 = it_1 + 1; it_2 != distributions.end(); ++it_2) {
-            if((*it_1) == (*it_2))
+            if((**it_1) == (**it_2))
                 throw std::runtime_error("Cannot add duplicate PrimaryInjectionDistributions");
         }
     }
@@ -195,7 +195,7 @@ void SecondaryInjectionProcess::AddSecondaryInjectionDistribution(std::shared_pt
 void SecondaryInjectionProcess::SetSecondaryInjectionDistributions(std::vector<std::shared_ptr<distributions::SecondaryInjectionDistribution>> const & distributions) {
     for(std::vector<std::shared_ptr<distributions::SecondaryInjectionDistribution>>::const_iterator it_1 = distributions.begin(); it_1 != distributions.end(); ++it_1) {
         for(std::vector<std::shared_ptr<distributions::SecondaryInjectionDistribution>>::const_iterator it_2 = it_1 + 1; it_2 != distributions.end(); ++it_2) {
-            if((*it_1) == (*it_2))
+            if((**it_1) == (**it_2))
                 throw std::runtime_error("Cannot add duplicate SecondaryInjectionDistributions");
         }
     }
-- 
2.43.0


From eead63b63714775b23771a19e913c2748fdc9844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:42 +0000
Subject: [PATCH 07/69] fix: a decay of zero width has infinite length also at
 rest

---
 projects/interactions/private/Decay.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/Decay.cxx b/projects/interactions/private/Decay.cxx
index 3ff7cc8..6ad75d2 100644
--- a/projects/interactions/private/Decay.cxx
+++ b/projects/interactions/private/Decay.cxx
@@ -1,6 +1,7 @@
 #include "SIREN/interactions/Decay.h"
 
 #include <array>                                           // for array
+#include <limits>                                          // for numeric_limits
 
 #include <rk/rk.hh>                                        // for P4
 #include <rk/geom3.hh>                                     // for Vector3
@@ -21,7 +22,10 @@ bool Decay::operator==(Decay const & other) const {
 }
 
 double Decay::TotalDecayLengthAllFinalStates(dataclasses::InteractionRecord const & interaction) const {
-    double tau = 1./TotalDecayWidthAllFinalStates(interaction); // in inverse GeV
+    double width = TotalDecayWidthAllFinalStates(interaction);
+    if(width == 0) // stable, also at rest
+        return std::numeric_limits<double>::infinity();
+    double tau = 1./width; // in inverse GeV
     std::array<double, 4> const & p4 = interaction.primary_momentum;
     double const & mass = interaction.primary_mass;
     rk::P4 p1(geom3::Vector3(p4[1], p4[2], p4[3]), mass);
@@ -29,7 +33,10 @@ double Decay::TotalDecayLengthAllFinalStates(dataclasses::InteractionRecord cons
 }
 
 double Decay::TotalDecayLength(dataclasses::InteractionRecord const & interaction) const {
-    double tau = 1./TotalDecayWidth(interaction); // in inverse GeV
+    double width = TotalDecayWidth(interaction);
+    if(width == 0) // stable, also at rest
+        return std::numeric_limits<double>::infinity();
+    double tau = 1./width; // in inverse GeV
     std::array<double, 4> const & p4 = interaction.primary_momentum;
     double const & mass = interaction.primary_mass;
     rk::P4 p1(geom3::Vector3(p4[1], p4[2], p4[3]), mass);
-- 
2.43.0


From 38ded4e05fdbd913ff4e94f0dddba749b8a004c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:53 +0000
Subject: [PATCH 08/69] fix: irregular tables use the first interval at and
 below their first node

The index is unsigned, so index 0 minus one wrapped around and was clamped
to the last interval.
---
 projects/utilities/public/SIREN/utilities/Interpolator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index 2165732..818b822 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -124,10 +124,10 @@ struct IndexFinderIrregular {
         // begin is the first element
         // distance(begin, pointer to y) --> y
         // therefore this function returns the index of the lower bin edge
-        unsigned int index = std::distance(data.begin(), std::lower_bound(data.begin(), data.end(), x)) - 1;
+        int index = int(std::distance(data.begin(), std::lower_bound(data.begin(), data.end(), x))) - 1;
         if(index < 0)
             index = 0;
-        else if(index >= n_points - 1)
+        else if(index >= int(n_points) - 1)
             index = n_points - 2;
         return std::tuple<unsigned int, T, T, T>(index,
                 x,
-- 
2.43.0


From 2fab6f411dee795a9c9286f5f3c3d14bc0823ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:54 +0000
Subject: [PATCH 09/69] fix: keep the zero mask of logarithmic tables inside
 the vector

The mask was written into reserved storage of an empty vector<bool>, so a
copy of the table had no mask (null dereference), and in one dimension it
followed the order of the rows instead of the order of the nodes.
---
 .../utilities/public/SIREN/utilities/Interpolator.h    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index 818b822..db0bd9c 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -397,8 +397,10 @@ public:
 
         std::vector<T> function_values(table.f.begin(), table.f.end());
         if(is_log) {
-            zero_mask.reserve(function_values.size());
-            std::transform(function_values.begin(), function_values.end(), zero_mask.begin(), [](T t)->T{return t<=0;});
+            zero_mask.assign(function_values.size(), false);
+            for(unsigned int i=0; i<table.x.size(); ++i) {
+                zero_mask[xmap[table.x[i]]] = function_values[i] <= 0;
+            }
             std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{if(t > 0){return log(t);} else {return t;}});
         }
 
@@ -556,8 +558,8 @@ public:
         std::vector<T> function_values(table.f.begin(), table.f.end());
         std::vector<bool> z_mask;
         if(is_log) {
-            z_mask.reserve(function_values.size());
-            std::transform(function_values.begin(), function_values.end(), z_mask.begin(), [](T t)->T{return t<=0;});
+            z_mask.resize(function_values.size());
+            std::transform(function_values.begin(), function_values.end(), z_mask.begin(), [](T t)->bool{return t<=0;});
             std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{if(t > 0){return log(t);} else {return t;}});
             //std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{return log(t);});
         }
-- 
2.43.0


From 8248c573a9f08ffcfa135e4c5cd86d85e390dd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:54 +0000
Subject: [PATCH 10/69] fix: interpolate linearly next to a zero of a
 logarithmic table

The weights did not vanish at the nodes, so the interpolation missed its own
table values and jumped between cells.
---
 .../public/SIREN/utilities/Interpolator.h      | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index db0bd9c..f3f29e6 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -432,13 +432,13 @@ public:
         if(is_log) {
             if(zero_mask[index]) {
                 if(zero_mask[index+1]) {
-                    result = fa + (fb - fa) * exp(val - xa - delta);
+                    result = fa + (fb - fa) * expm1(val - xa) / expm1(delta);
                 } else {
-                    result = fa + (exp(fb) - fa) * exp(val - xa - delta);
+                    result = fa + (exp(fb) - fa) * expm1(val - xa) / expm1(delta);
                 }
             } else {
                 if(zero_mask[index+1]) {
-                    result = exp(fa) + (fb - exp(fa)) * exp(val - xa - delta);
+                    result = exp(fa) + (fb - exp(fa)) * expm1(val - xa) / expm1(delta);
                 } else {
                     result = exp(fa + (fb - fa) * (val - xa) / delta);
                 }
@@ -632,14 +632,14 @@ public:
             bool has_zero = zaa or zab or zba or zbb;
             if(has_zero) {
                 if(indexer_x.IsLog()) {
-                    da_x = exp(da_x);
-                    db_x = exp(db_x);
-                    delta_x = exp(delta_x);
+                    da_x = expm1(da_x);
+                    delta_x = expm1(delta_x);
+                    db_x = delta_x - da_x;
                 }
                 if(indexer_y.IsLog()) {
-                    da_y = exp(da_y);
-                    db_y = exp(db_y);
-                    delta_y = exp(delta_y);
+                    da_y = expm1(da_y);
+                    delta_y = expm1(delta_y);
+                    db_y = delta_y - da_y;
                 }
                 if(!zaa)
                     faa = exp(faa);
-- 
2.43.0


From 82dda3714c2aa5929e85789d38c206dbd2e82f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:02 +0000
Subject: [PATCH 11/69] fix: the cone is centred on its axis also for an axis
 that is not a unit vector

The constructor parameter hides the normalised member.
---
 projects/distributions/private/primary/direction/Cone.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/distributions/private/primary/direction/Cone.cxx b/projects/distributions/private/primary/direction/Cone.cxx
index 421da40..e3276ff 100644
--- a/projects/distributions/private/primary/direction/Cone.cxx
+++ b/projects/distributions/private/primary/direction/Cone.cxx
@@ -27,9 +27,9 @@ Cone::Cone(siren::math::Vector3D dir, double opening_angle) : dir(dir), opening_
     } else if(this->dir == siren::math::Vector3D(0,0,-1)) {
         rotation = siren::math::Quaternion(0,1,0,0);
     } else {
-        siren::math::Vector3D r = cross_product(siren::math::Vector3D(0, 0, 1), dir);
+        siren::math::Vector3D r = cross_product(siren::math::Vector3D(0, 0, 1), this->dir);
         rotation = siren::math::Quaternion(r);
-        rotation.SetW(1.0 + dir.GetZ());
+        rotation.SetW(1.0 + this->dir.GetZ());
         rotation.normalize();
     }
 }
-- 
2.43.0


From 25ce4673a7806c07523e024a481a99cd4fa7e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:02 +0000
Subject: [PATCH 12/69] fix: cones that differ are ordered

---
 .../private/primary/direction/Cone.cxx             | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/projects/distributions/private/primary/direction/Cone.cxx b/projects/distributions/private/primary/direction/Cone.cxx
index e3276ff..d373320 100644
--- a/projects/distributions/private/primary/direction/Cone.cxx
+++ b/projects/distributions/private/primary/direction/Cone.cxx
@@ -1,6 +1,7 @@
 #include "SIREN/distributions/primary/direction/Cone.h"
 
 #include <array>                                           // for array
+#include <tuple>                                           // for tie, opera...
 #include <math.h>                                          // for acos, cos
 #include <string>                                          // for basic_string
 #include <stdlib.h>                                        // for abs
@@ -78,9 +79,18 @@ bool Cone::equal(WeightableDistribution const & other) const {
 bool Cone::less(WeightableDistribution const & other) const {
     const Cone* x = dynamic_cast<const Cone*>(&other);
     if(abs(1.0 - siren::math::scalar_product(dir, x->dir)) < 1e-9) {
-        return false;
-    } else {
         return opening_angle < x->opening_angle;
+    } else {
+        double X = dir.GetX();
+        double Y = dir.GetY();
+        double Z = dir.GetZ();
+        double other_X = x->dir.GetX();
+        double other_Y = x->dir.GetY();
+        double other_Z = x->dir.GetZ();
+        return
+            std::tie(X, Y, Z)
+            <
+            std::tie(other_X, other_Y, other_Z);
     }
 }
 
-- 
2.43.0


From 02816b461dc69726a6a6a70570ec4fcb0c7dc2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:02 +0000
Subject: [PATCH 13/69] fix: fixed directions that differ are ordered

---
 .../private/primary/direction/FixedDirection.cxx            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/distributions/private/primary/direction/FixedDirection.cxx b/projects/distributions/private/primary/direction/FixedDirection.cxx
index fd23ec0..e809abe 100644
--- a/projects/distributions/private/primary/direction/FixedDirection.cxx
+++ b/projects/distributions/private/primary/direction/FixedDirection.cxx
@@ -61,9 +61,9 @@ bool FixedDirection::less(WeightableDistribution const & other) const {
         double X = dir.GetX();
         double Y = dir.GetY();
         double Z = dir.GetZ();
-        double other_X = dir.GetX();
-        double other_Y = dir.GetY();
-        double other_Z = dir.GetZ();
+        double other_X = x->dir.GetX();
+        double other_Y = x->dir.GetY();
+        double other_Z = x->dir.GetZ();
         return
             std::tie(X, Y, Z)
             <
-- 
2.43.0


From 6f2435108a3b316eb0c6790107427242d68bf55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:02 +0000
Subject: [PATCH 14/69] fix: a fixed direction is a unit vector

The density compares it with the normalised direction of the event, so a
direction of any other length had density zero for its own samples.
---
 .../SIREN/distributions/primary/direction/FixedDirection.h      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h b/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h
index 3ee4607..39fa3e5 100644
--- a/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h
+++ b/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h
@@ -32,7 +32,7 @@ protected:
 private:
     siren::math::Vector3D dir;
 public:
-    FixedDirection(siren::math::Vector3D dir) : dir(dir) {};
+    FixedDirection(siren::math::Vector3D dir) : dir(dir) { this->dir.normalize(); };
 private:
     siren::math::Vector3D SampleDirection(std::shared_ptr<siren::utilities::SIREN_random> rand, std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::PrimaryDistributionRecord & record) const override;
     virtual double GenerationProbability(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::InteractionRecord const & record) const override;
-- 
2.43.0


From 9ea4d49a8e91f817afcf192405bbc2eb5bb4f0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:02 +0000
Subject: [PATCH 15/69] fix: order of primary mass distributions

---
 projects/distributions/private/primary/mass/PrimaryMass.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/distributions/private/primary/mass/PrimaryMass.cxx b/projects/distributions/private/primary/mass/PrimaryMass.cxx
index da62235..32a508a 100644
--- a/projects/distributions/private/primary/mass/PrimaryMass.cxx
+++ b/projects/distributions/private/primary/mass/PrimaryMass.cxx
@@ -64,7 +64,7 @@ bool PrimaryMass::equal(WeightableDistribution const & other) const {
 
 bool PrimaryMass::less(WeightableDistribution const & other) const {
     const PrimaryMass* x = dynamic_cast<const PrimaryMass*>(&other);
-    return primary_mass == x->primary_mass;
+    return primary_mass < x->primary_mass;
 }
 
 } // namespace distributions
-- 
2.43.0


From d2a8636043895fd5c8d6629b58bfd6a86bf3e097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:02 +0000
Subject: [PATCH 16/69] fix: a normalization constant only equals another
 normalization constant

It compared equal to any physically normalized distribution of the same
normalization, while the converse comparison was false.
---
 projects/distributions/private/Distributions.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/distributions/private/Distributions.cxx b/projects/distributions/private/Distributions.cxx
index 33f6336..df78ee8 100644
--- a/projects/distributions/private/Distributions.cxx
+++ b/projects/distributions/private/Distributions.cxx
@@ -76,13 +76,13 @@ std::string NormalizationConstant::Name() const {
 }
 
 bool NormalizationConstant::equal(WeightableDistribution const & distribution) const {
-    const PhysicallyNormalizedDistribution* dist = dynamic_cast<const PhysicallyNormalizedDistribution*>(&distribution);
+    const NormalizationConstant* dist = dynamic_cast<const NormalizationConstant*>(&distribution);
     if(!dist) return false;
     return normalization==dist->GetNormalization();
 }
 
 bool NormalizationConstant::less(WeightableDistribution const & distribution) const {
-    const PhysicallyNormalizedDistribution* dist = dynamic_cast<const PhysicallyNormalizedDistribution*>(&distribution);
+    const NormalizationConstant* dist = dynamic_cast<const NormalizationConstant*>(&distribution);
     if(!dist) return false;
     return normalization<dist->GetNormalization();
 }
-- 
2.43.0


From 72b1eb54d2ff97243fd72e35ef306572e589be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:02 +0000
Subject: [PATCH 17/69] fix: the power law has no probability outside its
 energy range

Events outside [energyMin, energyMax], which it never generates, got the
continuation of the power law as their generation probability.
---
 .../private/primary/energy/PowerLaw.cxx             | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/projects/distributions/private/primary/energy/PowerLaw.cxx b/projects/distributions/private/primary/energy/PowerLaw.cxx
index 923dbb9..92956a7 100644
--- a/projects/distributions/private/primary/energy/PowerLaw.cxx
+++ b/projects/distributions/private/primary/energy/PowerLaw.cxx
@@ -1,6 +1,7 @@
 #include "SIREN/distributions/primary/energy/PowerLaw.h"
 
 #include <array>                                           // for array
+#include <algorithm>                                       // for min, max
 #include <tuple>                                           // for tie, opera...
 #include <math.h>                                          // for pow, log10
 #include <string>                                          // for basic_string
@@ -28,13 +29,15 @@ double PowerLaw::SampleEnergy(std::shared_ptr<siren::utilities::SIREN_random> ra
     if(energyMin == energyMax)
         return energyMin; //return the only allowed energy
 
+    double energy;
     if(powerLawIndex == 1.0) //sample uniformly in log space
-        return pow(10.0, rand->Uniform(log10(energyMin), log10(energyMax)));
+        energy = pow(10.0, rand->Uniform(log10(energyMin), log10(energyMax)));
     else {
         double u = rand->Uniform();
         double energyP = (1 - u) * pow(energyMin, 1 - powerLawIndex) + u * pow(energyMax, 1 - powerLawIndex);
-        return pow(energyP, 1 / (1 - powerLawIndex));
+        energy = pow(energyP, 1 / (1 - powerLawIndex));
     }
+    return std::min(std::max(energy, energyMin), energyMax); // rounding must not leave the range
 }
 
 double PowerLaw::pdf(double energy) const {
@@ -49,7 +52,11 @@ double PowerLaw::pdf(double energy) const {
 }
 
 double PowerLaw::GenerationProbability(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::InteractionRecord const & record) const {
-    return pdf(record.primary_momentum[0]);
+    double const & energy = record.primary_momentum[0];
+    if(energy < energyMin or energy > energyMax)
+        return 0.0;
+    else
+        return pdf(energy);
 }
 
 std::string PowerLaw::Name() const {
-- 
2.43.0


From c4d16a34123ee47f79b8161425f8e648af569799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:02 +0000
Subject: [PATCH 18/69] fix: SIREN_random::PowerLaw inverts the cumulative
 distribution at a number in [0, 1)

The number was drawn from [min, max), so samples left the requested range.
---
 projects/utilities/private/Random.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projects/utilities/private/Random.cxx b/projects/utilities/private/Random.cxx
index 0d268a4..8838387 100644
--- a/projects/utilities/private/Random.cxx
+++ b/projects/utilities/private/Random.cxx
@@ -39,9 +39,10 @@ namespace utilities {
     double SIREN_random::PowerLaw(double min, double max, double n) {
         if(max < min)
             std::swap(min, max);
-        double range = max - min;
-        double unif = range * (this->generator(configuration)) + min;
-        
+        double unif = this->generator(configuration);
+        if(n == -1)
+            return min * pow(max / min, unif);
+
         double base = (pow(max,n+1) - pow(min,n+1)) * unif + pow(min,n+1) ; 
         double exp = 1/(n+1) ; 
         return pow(base, exp);
-- 
2.43.0


From 12ef455d97002b4e5603442f4f0ccb83debe05b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:02 +0000
Subject: [PATCH 19/69] fix: keep the energy nodes of the cumulative flux

A local variable hid the member that GetCDFEnergyNodes returns.
---
 .../private/primary/energy/TabulatedFluxDistribution.cxx     | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
index cfae9cc..099005c 100644
--- a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
@@ -136,12 +136,9 @@ void TabulatedFluxDistribution::ComputeCDF() {
     );
     energies.push_back(energyMax);
 
-    // assign the energies vector so it's accessible outside of the function
-    //cdf_energy_nodes = energies;
-
     // declare the cdf vectors
     std::vector<double> cdf_vector;
-    std::vector<double> cdf_energy_nodes;
+    cdf_energy_nodes.clear();
 
     cdf_vector.push_back(0); // start the CDF at zero
     cdf_energy_nodes.push_back(energies[0]);
-- 
2.43.0


From 99e143bf3aeeefd3b59e8684d870c4519f65c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:39 +0000
Subject: [PATCH 20/69] fix: the two dimensional flux samples follow its
 density

Returning only the accepted steps of the Metropolis-Hastings chain, instead
of the position of the chain after every step, gives events where the flux is
small too large a share.
---
 .../Tabulated2DFluxDistribution.cxx           | 27 ++++++++++---------
 .../Tabulated2DFluxDistribution.h             |  2 ++
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
index ad58837..249d5de 100644
--- a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
@@ -291,22 +291,25 @@ std::pair<double,siren::math::Vector3D> Tabulated2DFluxDistribution::SampleEnerg
         bool accept = (MH_density <= 0) || (test_density >= MH_density) || (rand->Uniform() < test_density / MH_density);
         if(accept) {
             MH_density = test_density;
+            MH_energy = energy;
+            MH_cosZenith = cosZenith;
             MH_sampled_points++;
         }
     }
-    // Sample one point after burn-in
-    bool accept = false;
-    while(!accept) {
-        energy_cosZenith = SampleTablePoint(rand);
-        energy = energy_cosZenith.first;
-        cosZenith = energy_cosZenith.second;
-        test_density = pdf(energy, cosZenith);
-        accept = (MH_density <= 0) || (test_density >= MH_density) || (rand->Uniform() < test_density / MH_density);
-        if(accept) {
-            MH_density = test_density;
-            MH_sampled_points++;
-        }
+    // Take one step of the chain after burn-in; the chain stays where it is if the step is rejected
+    energy_cosZenith = SampleTablePoint(rand);
+    energy = energy_cosZenith.first;
+    cosZenith = energy_cosZenith.second;
+    test_density = pdf(energy, cosZenith);
+    bool accept = (MH_density <= 0) || (test_density >= MH_density) || (rand->Uniform() < test_density / MH_density);
+    if(accept) {
+        MH_density = test_density;
+        MH_energy = energy;
+        MH_cosZenith = cosZenith;
+        MH_sampled_points++;
     }
+    energy = MH_energy;
+    cosZenith = MH_cosZenith;
     // Convert cos(zenith) to a 3D direction vector
     double sin_theta = sqrt(1.0 - cosZenith * cosZenith);
     double phi = rand->Uniform(-M_PI, M_PI);
diff --git a/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h b/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
index ce422cb..f7622e9 100644
--- a/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
+++ b/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
@@ -52,6 +52,8 @@ private:
     const size_t burnin = 40;
     mutable size_t MH_sampled_points = 0;
     mutable double MH_density = 0;
+    mutable double MH_energy = 0;
+    mutable double MH_cosZenith = 0;
 
     double unnormed_pdf(double energy, double cosZenith) const;
     double pdf(double energy, double cosZenith) const;
-- 
2.43.0


From f7b3dc17dd730903fe63d919146e6bf5a2c164df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:39 +0000
Subject: [PATCH 21/69] fix: sample two dimensional fluxes with a logarithmic
 energy axis from their density

The steps of the chain are uniform in the logarithm of the energy, so the
density they are accepted with needs the factor dE/dlog(E).
---
 .../energy_direction/Tabulated2DFluxDistribution.cxx | 12 ++++++++++--
 .../energy_direction/Tabulated2DFluxDistribution.h   |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
index 249d5de..762e50b 100644
--- a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
@@ -277,6 +277,14 @@ std::pair<double, double> Tabulated2DFluxDistribution::SampleTablePoint(std::sha
     return std::make_pair(energy, cosZenith);
 }
 
+// Density of the target of the Metropolis-Hastings chain with respect to the variables of SampleTablePoint
+double Tabulated2DFluxDistribution::StepDensity(double energy, double cosZenith) const {
+    double density = pdf(energy, cosZenith);
+    if(fluxTable.IsLogX())
+        density *= energy;
+    return density;
+}
+
 std::pair<double,siren::math::Vector3D> Tabulated2DFluxDistribution::SampleEnergyAndDirection(std::shared_ptr<siren::utilities::SIREN_random> rand, std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::PrimaryDistributionRecord & record) const {
 
     double energy, cosZenith, test_density;
@@ -287,7 +295,7 @@ std::pair<double,siren::math::Vector3D> Tabulated2DFluxDistribution::SampleEnerg
         energy_cosZenith = SampleTablePoint(rand);
         energy = energy_cosZenith.first;
         cosZenith = energy_cosZenith.second;
-        test_density = pdf(energy, cosZenith);
+        test_density = StepDensity(energy, cosZenith);
         bool accept = (MH_density <= 0) || (test_density >= MH_density) || (rand->Uniform() < test_density / MH_density);
         if(accept) {
             MH_density = test_density;
@@ -300,7 +308,7 @@ std::pair<double,siren::math::Vector3D> Tabulated2DFluxDistribution::SampleEnerg
     energy_cosZenith = SampleTablePoint(rand);
     energy = energy_cosZenith.first;
     cosZenith = energy_cosZenith.second;
-    test_density = pdf(energy, cosZenith);
+    test_density = StepDensity(energy, cosZenith);
     bool accept = (MH_density <= 0) || (test_density >= MH_density) || (rand->Uniform() < test_density / MH_density);
     if(accept) {
         MH_density = test_density;
diff --git a/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h b/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
index f7622e9..2061bd9 100644
--- a/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
+++ b/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
@@ -57,6 +57,7 @@ private:
 
     double unnormed_pdf(double energy, double cosZenith) const;
     double pdf(double energy, double cosZenith) const;
+    double StepDensity(double energy, double cosZenith) const;
     void LoadFluxTable();
     void LoadFluxTable(std::vector<double> & energies, std::vector<double> & cosZeniths, std::vector<double> & flux);
 public:
-- 
2.43.0


From ebabb4c07b23e598020702a18947b782969bcffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:27 +0000
Subject: [PATCH 22/69] fix: a cone around the negative z axis has a rotation

The special case was never taken, because a normalised vector does not compare
equal to the same vector freshly constructed, and the general formula gives a
zero quaternion: all sampled directions were NaN.
---
 projects/distributions/private/primary/direction/Cone.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/distributions/private/primary/direction/Cone.cxx b/projects/distributions/private/primary/direction/Cone.cxx
index d373320..4ef16a2 100644
--- a/projects/distributions/private/primary/direction/Cone.cxx
+++ b/projects/distributions/private/primary/direction/Cone.cxx
@@ -23,9 +23,11 @@ namespace distributions {
 //---------------
 Cone::Cone(siren::math::Vector3D dir, double opening_angle) : dir(dir), opening_angle(opening_angle) {
     this->dir.normalize();
-    if(this->dir == siren::math::Vector3D(0,0,1)) {
+    // Compare components: operator== also compares the radius, which normalize() has set
+    bool along_z = this->dir.GetX() == 0 and this->dir.GetY() == 0;
+    if(along_z and this->dir.GetZ() > 0) {
         rotation = siren::math::Quaternion(0,0,0,1);
-    } else if(this->dir == siren::math::Vector3D(0,0,-1)) {
+    } else if(along_z and this->dir.GetZ() < 0) {
         rotation = siren::math::Quaternion(0,1,0,0);
     } else {
         siren::math::Vector3D r = cross_product(siren::math::Vector3D(0, 0, 1), this->dir);
-- 
2.43.0


From 1effe24d81d8cb1ac9a651bffa5902c8eea951a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:52 +0000
Subject: [PATCH 23/69] fix: the constant of the inverse density integral
 starts at the given point

With a constant, the inverse integral of a density along an axis added the
constant times the axis coordinate instead of the distance from the start.
---
 .../public/SIREN/detector/CartesianAxisDensityDistribution.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h b/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
index 13b697e..dd00b6c 100644
--- a/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
+++ b/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
@@ -124,7 +124,7 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
 
         double Ia = dist.AntiDerivative(a);
         std::function<double(double)> F = [&](double x)->double {
-            return (dist.AntiDerivative(x) - Ia) + constant*x - dist_integral;
+            return (dist.AntiDerivative(x) - Ia) + constant*(x - a) - dist_integral;
         };
 
         std::function<double(double)> dF = [&](double x)->double {
-- 
2.43.0


From bf706849d68f5046d693aefa84629669e9ab9936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:52 +0000
Subject: [PATCH 24/69] fix: density integrals perpendicular to the axis of the
 density

Along a direction perpendicular to the axis the column depth, its inverse and
the antiderivative were 0/0.
---
 .../CartesianAxisDensityDistribution.h        | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h b/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
index dd00b6c..00cd710 100644
--- a/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
+++ b/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
@@ -1,6 +1,7 @@
 #pragma once
 #ifndef SIREN_CartesianAxisDensityDistribution_H
 #define SIREN_CartesianAxisDensityDistribution_H
+#include <cmath>
 #include <memory>
 #include <string>
 #include <exception>
@@ -30,6 +31,9 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
    private:
     AxisT axis;
     DistributionT dist;
+    // Along a direction perpendicular to the axis the density does not change,
+    // and the substitution of the axis coordinate for the distance is singular
+    static bool Perpendicular(double dxdt) { return std::abs(dxdt) < 1e-9; };
    public:
     DensityDistribution1D() : axis(), dist() {};
     DensityDistribution1D(const AxisT& axis, const DistributionT& dist)
@@ -61,6 +65,8 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
         double a = 0;
         double b = axis.GetX(xi);
         double dxdt = axis.GetdX(xi, direction);
+        if(Perpendicular(dxdt))
+            return dist.Evaluate(b) * (xi * direction);
         return (dist.AntiDerivative(b) - dist.AntiDerivative(a)) / dxdt;
     };
 
@@ -71,6 +77,8 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
         math::Vector3D xj = xi + direction*distance;
         double b = axis.GetX(xj);
         double dxdt = axis.GetdX(xi, direction);
+        if(Perpendicular(dxdt))
+            return dist.Evaluate(a) * distance;
         return (dist.AntiDerivative(b) - dist.AntiDerivative(a)) / dxdt;
     }
 
@@ -79,8 +87,11 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
         double a = axis.GetX(xi);
         double b = axis.GetX(xj);
         math::Vector3D direction = xj-xi;
+        double distance = direction.magnitude();
         direction.normalize();
         double dxdt = axis.GetdX(xi, direction);
+        if(Perpendicular(dxdt))
+            return dist.Evaluate(a) * distance;
         return (dist.AntiDerivative(b) - dist.AntiDerivative(a)) / dxdt;
     };
 
@@ -91,6 +102,10 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
         double a = axis.GetX(xi);
         double b = axis.GetX(xi + direction*max_distance);
         double dxdt = axis.GetdX(xi, direction);
+        if(Perpendicular(dxdt)) {
+            double distance = integral / dist.Evaluate(a);
+            return distance > max_distance ? -1 : distance;
+        }
 
         double dist_integral = integral * dxdt;
 
@@ -119,6 +134,10 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
         double a = axis.GetX(xi);
         double b = axis.GetX(xi + direction*max_distance);
         double dxdt = axis.GetdX(xi, direction);
+        if(Perpendicular(dxdt)) {
+            double distance = integral / (dist.Evaluate(a) + constant);
+            return distance > max_distance ? -1 : distance;
+        }
 
         double dist_integral = integral * dxdt;
 
-- 
2.43.0


From fd6889710fa4eb36daea66ca3773e17be7ac345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:46 +0000
Subject: [PATCH 25/69] fix: the headers of the densities along an axis exclude
 each other

---
 .../detector/CartesianAxisExponentialDensityDistribution.h   | 5 +++--
 .../detector/CartesianAxisPolynomialDensityDistribution.h    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h b/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h
index b2fe4d8..4337170 100644
--- a/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h
+++ b/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h
@@ -1,6 +1,6 @@
 #pragma once
-#ifndef SIREN_CartesianAxisDensityDistribution_H
-#define SIREN_CartesianAxisDensityDistribution_H
+#ifndef SIREN_CartesianAxisExponentialDensityDistribution_H
+#define SIREN_CartesianAxisExponentialDensityDistribution_H
 #include <cereal/cereal.hpp>
 #include <cereal/archives/json.hpp>
 #include <cereal/archives/binary.hpp>
@@ -11,6 +11,7 @@
 #include "SIREN/detector/CartesianAxis1D.h"
 #include "SIREN/detector/DensityDistribution.h"
 #include "SIREN/detector/DensityDistribution1D.h"
+#include "SIREN/detector/CartesianAxisDensityDistribution.h"
 #include "SIREN/detector/ExponentialDistribution1D.h"
 
 namespace siren {
diff --git a/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h b/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h
index 4a2594d..b42b8e7 100644
--- a/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h
+++ b/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h
@@ -1,6 +1,6 @@
 #pragma once
-#ifndef SIREN_CartesianAxisDensityDistribution_H
-#define SIREN_CartesianAxisDensityDistribution_H
+#ifndef SIREN_CartesianAxisPolynomialDensityDistribution_H
+#define SIREN_CartesianAxisPolynomialDensityDistribution_H
 #include <cereal/cereal.hpp>
 #include <cereal/archives/json.hpp>
 #include <cereal/archives/binary.hpp>
@@ -11,6 +11,7 @@
 #include "SIREN/detector/CartesianAxis1D.h"
 #include "SIREN/detector/DensityDistribution.h"
 #include "SIREN/detector/DensityDistribution1D.h"
+#include "SIREN/detector/CartesianAxisDensityDistribution.h"
 #include "SIREN/detector/PolynomialDistribution1D.h"
 
 namespace siren {
-- 
2.43.0


From 1e584a6a45327ec45e762da939b378dc9259f02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:53 +0000
Subject: [PATCH 26/69] fix: radiation fractions were zero for the components
 of a material

---
 projects/detector/private/MaterialModel.cxx               | 2 +-
 projects/detector/public/SIREN/detector/MaterialModel.tcc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index 871abb5..a054d52 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -384,7 +384,7 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, s
     fractions.reserve(particle_types.size());
     for(auto const & particle_type : particle_types) {
         std::pair<int, siren::dataclasses::ParticleType> key(material_id, particle_type);
-        if(material_components_by_id_.find(key) != material_components_by_id_.end()) {
+        if(material_components_by_id_.find(key) == material_components_by_id_.end()) {
             fractions.push_back(0.0);
             continue;
         }
diff --git a/projects/detector/public/SIREN/detector/MaterialModel.tcc b/projects/detector/public/SIREN/detector/MaterialModel.tcc
index 4bb1f6a..460817d 100644
--- a/projects/detector/public/SIREN/detector/MaterialModel.tcc
+++ b/projects/detector/public/SIREN/detector/MaterialModel.tcc
@@ -46,7 +46,7 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, I
     fractions.reserve(std::distance(begin, end));
     for(Iterator it = begin; it != end; ++it) {
         std::pair<int, siren::dataclasses::ParticleType> key(material_id, *it);
-        if(material_components_by_id_.find(key) != material_components_by_id_.end()) {
+        if(material_components_by_id_.find(key) == material_components_by_id_.end()) {
             fractions.push_back(0.0);
             continue;
         }
-- 
2.43.0


From 17e07505d8bc67ad80f4fc8889a31a5122eef1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:53 +0000
Subject: [PATCH 27/69] fix: a redefined material keeps no components of its
 previous definition

---
 projects/detector/private/MaterialModel.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index a054d52..933e5e6 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -185,6 +185,13 @@ void MaterialModel::AddMaterial(std::string const & material_name, std::map<int,
         }
     } else {
         material_radiation_length_[material_id] = rad_length;
+        // Forget the components of the previous definition
+        for(auto it = material_components_by_id_.begin(); it != material_components_by_id_.end(); ) {
+            if(it->first.first == material_id)
+                it = material_components_by_id_.erase(it);
+            else
+                ++it;
+        }
         // Store material components by material id and component particle type
         for(auto const & material_component : material_components) {
             material_components_by_id_[std::make_pair(material_id, material_component.component.type)] = material_component;
-- 
2.43.0


From 6330d5dfecefb8251b72c44a3a73e75e864a66cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:53 +0000
Subject: [PATCH 28/69] fix: a materials file that ends within a material is
 refused

---
 projects/detector/private/MaterialModel.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index 933e5e6..311ea87 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -270,7 +270,8 @@ void MaterialModel::AddModelFile(std::string matratio) {
 
             std::map<int, double> component_mass_fractions;
             for(int i=0; i<num_components; ++i) {
-                std::getline(in, buffer);
+                if(not std::getline(in, buffer))
+                    throw(std::runtime_error("Unexpected end of materials file " + fname));
                 nread = buffer.size();
                 if(nread == 0 || buffer[0] == ' ' || buffer[0] == '\t' || buffer[0] == '#') {
                     // new line, start from white space, or comment line.
-- 
2.43.0


From e7b5b872239ed804c0afdb0211174687260b819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:06 +0000
Subject: [PATCH 29/69] fix: a malformed component in a materials file is
 refused

---
 projects/detector/private/MaterialModel.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index 311ea87..33fc7f4 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -279,7 +279,8 @@ void MaterialModel::AddModelFile(std::string matratio) {
                     continue;
                 } else {
                     std::stringstream ss2(buffer);
-                    ss2 >> component_pdg_code >> mass_fraction;
+                    if(not (ss2 >> component_pdg_code >> mass_fraction))
+                        throw(std::runtime_error("Malformed component of " + material_name + " in materials file " + fname));
                     component_mass_fractions[component_pdg_code] = mass_fraction;
                 }
             }
-- 
2.43.0


From 2f3a35ef8ad54d1177b9bb31f2c15a4e681f4c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:08 +0000
Subject: [PATCH 30/69] fix: the matrix of Euler angles in a rotating frame

---
 projects/math/public/SIREN/math/Conversions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/math/public/SIREN/math/Conversions.h b/projects/math/public/SIREN/math/Conversions.h
index a72d643..5133610 100644
--- a/projects/math/public/SIREN/math/Conversions.h
+++ b/projects/math/public/SIREN/math/Conversions.h
@@ -141,7 +141,7 @@ Matrix3D Matrix3DFromEulerAngles(EulerAngles const & euler) {
     double gamma = euler.GetGamma();
 
     if(f == EulerFrame::Rotating) {
-        std::swap(alpha, beta);
+        std::swap(alpha, gamma);
     }
 
     if(n == EulerParity::Odd) {
-- 
2.43.0


From 185553778d56baf99c2289d98e7de21e030831ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:08 +0000
Subject: [PATCH 31/69] fix: the rotation between opposite directions

---
 projects/math/private/Quaternion.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/math/private/Quaternion.cxx b/projects/math/private/Quaternion.cxx
index dbbf871..8dee087 100644
--- a/projects/math/private/Quaternion.cxx
+++ b/projects/math/private/Quaternion.cxx
@@ -509,7 +509,8 @@ Quaternion siren::math::rotation_between(Vector3D const & v0, Vector3D const & v
     Vector3D dir0 = v0.normalized();
     Vector3D dir1 = v1.normalized();
     double dot = scalar_product(dir0, dir1);
-    if(dot == -1.0) {
+    Vector3D cross = cross_product(dir0, dir1);
+    if(dot < 0 and cross.magnitude() < 1e-10) {
         // Special case for 180deg rotation
         // Find most perpendicular axis vector
         Vector3D vecs[3] = {
@@ -523,11 +524,10 @@ Quaternion siren::math::rotation_between(Vector3D const & v0, Vector3D const & v
             std::abs(scalar_product(vecs[2], dir0))
         };
         // Find axis vector most perpendicular to original direction
-        size_t idx = std::distance(&(dots), std::min_element(&(dots), &(dots)+3));
+        size_t idx = std::distance(dots, std::min_element(dots, dots + 3));
         // Initialize quaternion with unit vector perpendicular to original direction and selected axis
         return Quaternion(cross_product(vecs[idx], dir0).normalized());
     } else {
-        Vector3D cross = cross_product(dir0, dir1);
         Quaternion rot(cross);
         rot.SetW(1.0 + dot);
         rot.normalize();
-- 
2.43.0


From 35b96d39a0ca62a0c0b79332189b0c6db8258022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:08 +0000
Subject: [PATCH 32/69] fix: slerp between quaternions of the same rotation

---
 projects/math/private/Quaternion.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/math/private/Quaternion.cxx b/projects/math/private/Quaternion.cxx
index 8dee087..3f2aa4e 100644
--- a/projects/math/private/Quaternion.cxx
+++ b/projects/math/private/Quaternion.cxx
@@ -423,13 +423,16 @@ Quaternion Quaternion::lerp(Quaternion const & q1, Quaternion const & q2, double
 }
 
 Quaternion Quaternion::slerp(Quaternion const & q1, Quaternion const & q2, double t) {
-    double dotproduct = q1.DotProduct(q2);
+    // Rounding can take the product of unit quaternions out of the range of a cosine
+    double dotproduct = std::min(1.0, std::max(-1.0, q1.DotProduct(q2)));
 	double theta, st, sut, sout, coeff1, coeff2;
 
 	theta = (double) acos(dotproduct);
 	if (theta<0.0) theta = -theta;
 
 	st = (double) sin(theta);
+	if (st < 1e-6) // both describe (nearly) the same rotation
+		return (dotproduct > 0 ? lerp(q1, q2, t) : q1).normalized();
 	sut = (double) sin(t*theta);
 	sout = (double) sin((1.0 - t)*theta);
 	coeff1 = sout/st;
-- 
2.43.0


From 12f27dddb0d059ba438f4f974d4c7359f1cbdf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:41 +0000
Subject: [PATCH 33/69] fix: free the work space of a polynomial shift as the
 arrays it is

---
 projects/math/private/Polynomial.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/math/private/Polynomial.cxx b/projects/math/private/Polynomial.cxx
index fb658b3..beb78d1 100644
--- a/projects/math/private/Polynomial.cxx
+++ b/projects/math/private/Polynomial.cxx
@@ -75,7 +75,8 @@ void Polynom::shift(double x) {
         }
 
         for (int count = 0; count < N_; ++count)
-            delete t[count];
+            delete[] t[count];
+        delete[] t;
     }
 }
 
-- 
2.43.0


From 1f1c75d9246610ee0baa55d58436cf48e18559bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:41 +0000
Subject: [PATCH 34/69] fix: root finding that meets a root with vanishing
 slope

---
 projects/math/private/Polynomial.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/math/private/Polynomial.cxx b/projects/math/private/Polynomial.cxx
index beb78d1..4518d81 100644
--- a/projects/math/private/Polynomial.cxx
+++ b/projects/math/private/Polynomial.cxx
@@ -177,6 +177,10 @@ double NewtonRaphson(std::function<double(double)> func,
     df = dfunc(rts);
 
     for (int j = 1; j < MAX_STEPS; j++) {
+        if (f == 0.0) {
+            // exactly at a root, where the slope may vanish as well
+            return rts;
+        }
         if ((((rts - xh) * df - f) * ((rts - xl) * df - f) > 0.0) ||
             (std::abs(2.0 * f) > std::abs(dxold * df))) {
             // use bisection if Newton method produces an x that is out of range
-- 
2.43.0


From 874e81b93cbbe60ea645e8e81d2ca8df6900f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:20 +0000
Subject: [PATCH 35/69] fix: a download that ends before the announced length
 is refused

---
 python/download.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/download.py b/python/download.py
index 9c101ea..8ccb6d2 100644
--- a/python/download.py
+++ b/python/download.py
@@ -156,6 +156,11 @@ def download_file(url: str, dest: str, sha256: str = "",
             if show_progress and total > 0:
                 print()
 
+        if total > 0 and downloaded < total:
+            raise ConnectionError(
+                f"Connection closed early for {label}: "
+                f"received {downloaded} of {total} bytes")
+
         if sha256:
             got = h.hexdigest()
             if got != sha256:
-- 
2.43.0


From c66639db436888e837a63587db985263f8177947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:20 +0000
Subject: [PATCH 36/69] fix: concurrent downloads of a file do not share their
 temporary file

---
 python/download.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/download.py b/python/download.py
index 8ccb6d2..91c887d 100644
--- a/python/download.py
+++ b/python/download.py
@@ -42,6 +42,7 @@ import os
 import sys
 import urllib.error
 import urllib.request
+import uuid
 import zipfile
 from typing import Any
 
@@ -118,7 +119,8 @@ def download_file(url: str, dest: str, sha256: str = "",
     - Progress bar on stdout.
     """
     os.makedirs(os.path.dirname(dest) or ".", exist_ok=True)
-    tmp = dest + ".tmp"
+    # one temporary file per call: others may download the same file
+    tmp = f"{dest}.{uuid.uuid4().hex}.tmp"
 
     if not label:
         label = os.path.basename(dest)
@@ -171,7 +173,7 @@ def download_file(url: str, dest: str, sha256: str = "",
 
         os.replace(tmp, dest)
 
-    except Exception:
+    except BaseException:
         if os.path.exists(tmp):
             os.remove(tmp)
         raise
-- 
2.43.0


From ad20bfd2ada5bab84b18d6db37bb5b3ec9216aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:20 +0000
Subject: [PATCH 37/69] fix: concurrent probes of a data directory do not
 disturb each other

---
 python/download.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/download.py b/python/download.py
index 91c887d..dcae8cc 100644
--- a/python/download.py
+++ b/python/download.py
@@ -60,7 +60,7 @@ def writable_data_dir(module_dir: str) -> str:
     """
     try:
         os.makedirs(module_dir, exist_ok=True)
-        probe = os.path.join(module_dir, ".write_probe")
+        probe = os.path.join(module_dir, f".write_probe.{uuid.uuid4().hex}")
         with open(probe, "w") as f:
             f.write("")
         os.remove(probe)
-- 
2.43.0


From cc6ce2be39f79b8737e0e6d40d34b56ed6bce52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:52 +0000
Subject: [PATCH 38/69] fix: a cached archive is not taken for another one
 whose name begins alike

---
 python/download.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/download.py b/python/download.py
index dcae8cc..a197d41 100644
--- a/python/download.py
+++ b/python/download.py
@@ -319,7 +319,9 @@ def _cached_zip(dest_dir: str, record_id: str, filename: str,
     tag = f"{record_id}_{filename}"
     existing = sorted(
         (f for f in os.listdir(cache_dir)
-         if f.startswith(tag + ".") and f.endswith(".zip")),
+         if f.startswith(tag + ".") and f.endswith(".zip")
+         # exactly one digest in between: not an archive whose name begins alike
+         and "." not in f[len(tag) + 1:-len(".zip")]),
         key=lambda f: os.path.getmtime(os.path.join(cache_dir, f)),
         reverse=True,
     )
-- 
2.43.0


From 64f3367be64e635306dfc8e1dd5e7e7dfff83dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:52 +0000
Subject: [PATCH 39/69] fix: a damaged archive does not stay in the download
 cache

---
 python/download.py | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/python/download.py b/python/download.py
index a197d41..4282d3c 100644
--- a/python/download.py
+++ b/python/download.py
@@ -44,6 +44,7 @@ import urllib.error
 import urllib.request
 import uuid
 import zipfile
+import zlib
 from typing import Any
 
 
@@ -392,23 +393,28 @@ def ensure_zenodo_archive(record_id: str, filename: str, dest_dir: str,
     zip_path = _cached_zip(dest_dir, record_id, filename, token)
 
     os.makedirs(dest_dir, exist_ok=True)
-    with zipfile.ZipFile(zip_path, "r") as zf:
-        if prefix:
-            pfx = prefix.rstrip("/") + "/"
-            members = [m for m in zf.namelist()
-                       if m == prefix or m.startswith(pfx)]
-            if not members:
-                available = sorted(set(
-                    n.split("/")[0] for n in zf.namelist() if "/" in n))
-                raise FileNotFoundError(
-                    f"Prefix '{prefix}' not found in {filename}.\n"
-                    f"Top-level directories: {', '.join(available)}")
-            print(f"  Extracting {prefix} from {filename} "
-                  f"({len(members)} entries) ...")
-            _safe_extract(zf, dest_dir, members)
-        else:
-            print(f"  Extracting {filename} ...")
-            _safe_extract(zf, dest_dir)
+    try:
+        with zipfile.ZipFile(zip_path, "r") as zf:
+            if prefix:
+                pfx = prefix.rstrip("/") + "/"
+                members = [m for m in zf.namelist()
+                           if m == prefix or m.startswith(pfx)]
+                if not members:
+                    available = sorted(set(
+                        n.split("/")[0] for n in zf.namelist() if "/" in n))
+                    raise FileNotFoundError(
+                        f"Prefix '{prefix}' not found in {filename}.\n"
+                        f"Top-level directories: {', '.join(available)}")
+                print(f"  Extracting {prefix} from {filename} "
+                      f"({len(members)} entries) ...")
+                _safe_extract(zf, dest_dir, members)
+            else:
+                print(f"  Extracting {filename} ...")
+                _safe_extract(zf, dest_dir)
+    except (zipfile.BadZipFile, zlib.error):
+        # download it again next time
+        os.remove(zip_path)
+        raise
 
     os.makedirs(os.path.dirname(sentinel), exist_ok=True)
     with open(sentinel, "w") as f:
-- 
2.43.0


From 0ac56de4a8e6169e7eb86aa304804c4f924f5b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:52 +0000
Subject: [PATCH 40/69] fix: members of an archive are moved into place
 complete

---
 python/download.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/python/download.py b/python/download.py
index 4282d3c..cffa0bb 100644
--- a/python/download.py
+++ b/python/download.py
@@ -40,6 +40,7 @@ import hashlib
 import json
 import os
 import sys
+import tempfile
 import urllib.error
 import urllib.request
 import uuid
@@ -358,12 +359,22 @@ def _safe_extract(zf: zipfile.ZipFile, dest_dir: str,
     """
     abs_dest = os.path.realpath(dest_dir)
     names = members if members is not None else zf.namelist()
-    for name in names:
-        target = os.path.realpath(os.path.join(dest_dir, name))
-        if not target.startswith(abs_dest + os.sep) and target != abs_dest:
-            raise ValueError(
-                f"Zip entry '{name}' would extract outside {dest_dir}")
-        zf.extract(name, dest_dir)
+    # Extract beside the destination and move each file into place: a file
+    # that another process has completed is never truncated again.
+    with tempfile.TemporaryDirectory(prefix=".extract_",
+                                     dir=dest_dir) as staging:
+        for name in names:
+            target = os.path.realpath(os.path.join(dest_dir, name))
+            if not target.startswith(abs_dest + os.sep) and target != abs_dest:
+                raise ValueError(
+                    f"Zip entry '{name}' would extract outside {dest_dir}")
+            staged = zf.extract(name, staging)
+            final = os.path.join(dest_dir, os.path.relpath(staged, staging))
+            if os.path.isdir(staged):
+                os.makedirs(final, exist_ok=True)
+            else:
+                os.makedirs(os.path.dirname(final), exist_ok=True)
+                os.replace(staged, final)
 
 
 def ensure_zenodo_archive(record_id: str, filename: str, dest_dir: str,
-- 
2.43.0


From 96c63d7924f4b869b2291c32685a9d258c68ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:45 +0000
Subject: [PATCH 41/69] fix: the neutrino scattered off an electron carries the
 remaining momentum

---
 projects/interactions/private/ElasticScattering.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/ElasticScattering.cxx b/projects/interactions/private/ElasticScattering.cxx
index 6e136e4..2563682 100644
--- a/projects/interactions/private/ElasticScattering.cxx
+++ b/projects/interactions/private/ElasticScattering.cxx
@@ -200,8 +200,8 @@ void ElasticScattering::SampleFinalState(dataclasses::CrossSectionDistributionRe
     rk::P4 p3_lab(geom3::Vector3(p3x_lab, p3y_lab, 0), m3);
     p3_lab.rotate(x_to_p1_lab_rot);
     p3_lab.rotate(rand_rot);
-    // doing something dumb, ignore outgoing neutrino
-    rk::P4 p4_lab = p1_lab;//p2_lab + (p1_lab - p3_lab);
+    // the target is at rest: the neutrino carries what the electron does not
+    rk::P4 p4_lab(p1_lab.momentum() - p3_lab.momentum(), record.primary_mass);
 
     siren::dataclasses::SecondaryParticleRecord & electron = record.GetSecondaryParticleRecord(electron_index);
     siren::dataclasses::SecondaryParticleRecord & neutrino = record.GetSecondaryParticleRecord(nu_index);
-- 
2.43.0


From f27941c6db9a6d10b57f8a516c989f7b4850f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:45 +0000
Subject: [PATCH 42/69] fix: sample elastic scattering in proportion to its
 cross section in y

---
 projects/interactions/private/ElasticScattering.cxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/projects/interactions/private/ElasticScattering.cxx b/projects/interactions/private/ElasticScattering.cxx
index 2563682..c561d45 100644
--- a/projects/interactions/private/ElasticScattering.cxx
+++ b/projects/interactions/private/ElasticScattering.cxx
@@ -134,8 +134,6 @@ void ElasticScattering::SampleFinalState(dataclasses::CrossSectionDistributionRe
     double yMin = 1e-15;
     double yMax = 2*primary_energy / (2*primary_energy + siren::utilities::Constants::electronMass);
     assert(yMin > 0);
-    double log_yMax = log10(yMax);
-    double log_yMin = log10(yMin);
 
     bool accept;
 
@@ -145,11 +143,12 @@ void ElasticScattering::SampleFinalState(dataclasses::CrossSectionDistributionRe
     double cross_section, test_cross_section;
 
     // sample an intial point
-    test_y = std::pow(10.0,random->Uniform(log_yMin, log_yMax));
+    test_y = random->Uniform(yMin, yMax);
 
     // evalutates the differential spline at that point
     test_cross_section = ElasticScattering::DifferentialCrossSection(primary_type, primary_energy, test_y);
 
+    y = test_y;
     cross_section = test_cross_section;
 
     // this is the magic part. Metropolis Hastings Algorithm.
@@ -158,15 +157,14 @@ void ElasticScattering::SampleFinalState(dataclasses::CrossSectionDistributionRe
                               // big number means more accurate, but slower
     for(size_t j = 0; j <= burnin; j++) {
         // repeat the sampling from above to get a new valid point
-        test_y = std::pow(10.0,random->Uniform(log_yMin, log_yMax));
+        test_y = random->Uniform(yMin, yMax);
 
         // Load the differential cross section depending on sampling variable
         test_cross_section = ElasticScattering::DifferentialCrossSection(primary_type, primary_energy, test_y);
         if(std::isnan(test_cross_section) or test_cross_section <= 0)
             continue;
 
-        //double odds = ((test_y*test_cross_section) / (y*cross_section));
-        double odds = (test_cross_section / cross_section); // this gives a better match to the y distribution
+        double odds = (test_cross_section / cross_section); // the proposals are uniform in y
         accept = (cross_section == 0 || (odds > 1.) || random->Uniform(0, 1) < odds);
 
         if(accept) {
-- 
2.43.0


From 92f4472c68134b83fecaeadfcdc170b036be95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:45 +0000
Subject: [PATCH 43/69] fix: the dipole cross section of a record uses the
 target's mass

---
 projects/interactions/private/HNLDipoleFromTable.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index b7eea32..ad09ff0 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -165,7 +165,7 @@ double HNLDipoleFromTable::DifferentialCrossSection(dataclasses::InteractionReco
     siren::dataclasses::ParticleType target_type = interaction.signature.target_type;
     std::array<double, 4> const & primary_momentum = interaction.primary_momentum;
     double primary_mass = interaction.primary_mass;
-    double target_mass = interaction.primary_mass;
+    double target_mass = interaction.target_mass;
     rk::P4 p1(geom3::Vector3(primary_momentum[1], primary_momentum[2], primary_momentum[3]), primary_mass);
     rk::P4 p2(geom3::Vector3(0, 0, 0), target_mass);
     double primary_energy;
-- 
2.43.0


From 18c10ee364f7cbfc8ea9697feb9e50f7ba9d4ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:45 +0000
Subject: [PATCH 44/69] fix: sample the dipole scattering in proportion to its
 cross section in y

---
 projects/interactions/private/HNLDipoleFromTable.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index ad09ff0..18b1872 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -394,8 +394,8 @@ void HNLDipoleFromTable::SampleFinalState(dataclasses::CrossSectionDistributionR
         if(std::isnan(test_cross_section) or test_cross_section <= 0)
             continue;
 
-        //double odds = ((test_kin_vars[1]*test_cross_section) / (kin_vars[1]*cross_section));
-        double odds = (test_cross_section / cross_section); // this gives a better match to the y distribution
+        // the proposals are uniform in log(y), the cross section is differential in y
+        double odds = ((test_kin_vars[1]*test_cross_section) / (kin_vars[1]*cross_section));
         accept = (cross_section == 0 || (odds > 1.) || random->Uniform(0, 1) < odds);
 
         if(accept) {
-- 
2.43.0


From 54907c32a208e523e6a737968a8aa02d1701ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:45 +0000
Subject: [PATCH 45/69] fix: HNL decays to a lepton and hadrons can be sampled

---
 projects/interactions/private/HNLDecay.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 2f33d73..d38f65f 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -947,7 +947,9 @@ void HNLDecay::SampleFinalState(dataclasses::CrossSectionDistributionRecord & re
       double phi = random->Uniform(0, 2.0 * M_PI);
       geom3::Rotation3 rand_rot(pHNL_dir, phi);
 
-      double mX = siren::dataclasses::GetParticleMass(record.signature.secondary_types[X_index]);
+      double mX = (record.signature.secondary_types[X_index] == siren::dataclasses::ParticleType::Hadrons)
+        ? GetMass(record.signature.secondary_types[X_index])
+        : siren::dataclasses::GetParticleMass(record.signature.secondary_types[X_index]);
       double mLep = siren::dataclasses::GetParticleMass(record.signature.secondary_types[lep_index]);
       double EX_HNLrest = (hnl_mass*hnl_mass + mX*mX - mLep*mLep) / (2.*hnl_mass);
       rk::P4 pX_HNLrest(sqrt(pow(EX_HNLrest,2)-pow(mX,2))*geom3::Vector3(CosTheta,SinTheta,0),mX);
-- 
2.43.0


From d5db315dd5aca30ba8d7832c2ffc152a7dbce498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:45 +0000
Subject: [PATCH 46/69] fix: the helicity keeps the sign of a vector decay's
 asymmetry

---
 projects/interactions/private/HNLDecay.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index d38f65f..4fdefb5 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -843,7 +843,7 @@ double HNLDecay::DifferentialDecayWidth(dataclasses::InteractionRecord const & r
       X_dir.normalize();
       double CosThetaGamma = X_dir*hnl_dir; // scalar product
       double alpha = GetAlpha(record.signature.secondary_types[X_index]);
-      alpha = std::copysign(alpha,record.primary_helicity); // 1 for RH, -1 for LH
+      alpha *= std::copysign(1.0,record.primary_helicity); // 1 for RH, -1 for LH
       alpha = (record.signature.primary_type == siren::dataclasses::ParticleType::N4) ? -1*alpha : alpha;
       return DecayWidth/2. * (1 + alpha*CosThetaGamma);
     } // end 2 body decays
@@ -925,7 +925,7 @@ void HNLDecay::SampleFinalState(dataclasses::CrossSectionDistributionRecord & re
 
       double CosTheta;
       double alpha = GetAlpha(record.signature.secondary_types[X_index]);
-      alpha = std::copysign(alpha,record.primary_helicity); // 1 for RH, -1 for LH
+      alpha *= std::copysign(1.0,record.primary_helicity); // 1 for RH, -1 for LH
       alpha = (record.signature.primary_type == siren::dataclasses::ParticleType::N4) ? -1*alpha : alpha;
       if(nature==ChiralNature::Majorana || std::abs(alpha) < 1e-12) {
         CosTheta = random->Uniform(-1,1);
-- 
2.43.0


From adc4f069bc9d746e2b390ba3730a52b20638f60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:45 +0000
Subject: [PATCH 47/69] fix: W decays to leptons conserve the lepton flavour

---
 .../interactions/private/ElectroweakDecay.cxx   | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/projects/interactions/private/ElectroweakDecay.cxx b/projects/interactions/private/ElectroweakDecay.cxx
index d61fc2e..f2592d7 100644
--- a/projects/interactions/private/ElectroweakDecay.cxx
+++ b/projects/interactions/private/ElectroweakDecay.cxx
@@ -112,11 +112,10 @@ double ElectroweakDecay::TotalDecayWidth(dataclasses::InteractionRecord const &
     if (m1+m2>=record.primary_mass) return 0;
 
     if (record.signature.primary_type == siren::dataclasses::ParticleType::WMinus) {
-        for(auto l : Leptons) {
-          for(auto nubar : AntiNus) {
-            if (record.signature.secondary_types[0]==l && record.signature.secondary_types[1]==nubar) {
-              return GammaW;
-            }
+        // W decays to leptons conserve the lepton flavor
+        for(size_t i=0; i<Leptons.size(); ++i) {
+          if (record.signature.secondary_types[0]==Leptons[i] && record.signature.secondary_types[1]==AntiNus[i]) {
+            return GammaW;
           }
         }
         int iup = 0;
@@ -130,11 +129,9 @@ double ElectroweakDecay::TotalDecayWidth(dataclasses::InteractionRecord const &
         }
     }
     else if (record.signature.primary_type == siren::dataclasses::ParticleType::WPlus) {
-      for(auto lbar : AntiLeptons) {
-          for(auto nu : Nus) {
-            if (record.signature.secondary_types[0]==lbar && record.signature.secondary_types[1]==nu) {
-              return GammaW;
-            }
+        for(size_t i=0; i<AntiLeptons.size(); ++i) {
+          if (record.signature.secondary_types[0]==AntiLeptons[i] && record.signature.secondary_types[1]==Nus[i]) {
+            return GammaW;
           }
         }
         for(auto u : UpQuarks) {
-- 
2.43.0


From 34dfc96c737618ddd0b7daf1601dc3ccc22614fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:45 +0000
Subject: [PATCH 48/69] fix: the dummy cross section offers no signature for
 other targets

---
 projects/interactions/private/DummyCrossSection.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/DummyCrossSection.cxx b/projects/interactions/private/DummyCrossSection.cxx
index c415503..ef238b5 100644
--- a/projects/interactions/private/DummyCrossSection.cxx
+++ b/projects/interactions/private/DummyCrossSection.cxx
@@ -184,7 +184,7 @@ std::vector<dataclasses::InteractionSignature> DummyCrossSection::GetPossibleSig
     std::vector<dataclasses::InteractionSignature> sigs = DummyCrossSection::GetPossibleSignatures();
     std::vector<dataclasses::InteractionSignature> these_sigs;
     for(auto sig : sigs) {
-        if(sig.primary_type == primary_type)
+        if(sig.primary_type == primary_type and sig.target_type == target_type)
             these_sigs.push_back(sig);
     }
     return these_sigs;
-- 
2.43.0


From 23082207838679fdd26bc5aa237bd08cc4336049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 49/69] fix: the second product of a W or Z decay carries its
 own mass

---
 projects/interactions/private/ElectroweakDecay.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/ElectroweakDecay.cxx b/projects/interactions/private/ElectroweakDecay.cxx
index f2592d7..7e22b82 100644
--- a/projects/interactions/private/ElectroweakDecay.cxx
+++ b/projects/interactions/private/ElectroweakDecay.cxx
@@ -221,7 +221,7 @@ void ElectroweakDecay::SampleFinalState(dataclasses::CrossSectionDistributionRec
     pX_Bosonrest.rotate(rand_rot);
 
     rk::P4 pX = pX_Bosonrest.boost(boost_to_lab);
-    rk::P4 pY = pBoson - pX;
+    rk::P4 pY(pBoson.momentum() - pX.momentum(), mY); // ensures the mass, avoids rounding errors
     assert(abs(pY.m()-mY)<1e-6);
 
     siren::dataclasses::SecondaryParticleRecord & X = record.GetSecondaryParticleRecord(0);
-- 
2.43.0


From d4ba0364d26c45f6f08a62b9c108ff1d19b22c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:01 +0000
Subject: [PATCH 50/69] fix: the rotation between two directions takes one to
 the other

abs() resolved to the integer function, so that every direction less than
a right angle (or more than a right angle) away was taken for parallel
(or antiparallel).
---
 vendor/rk/rk/geom3_Vector3.icc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vendor/rk/rk/geom3_Vector3.icc b/vendor/rk/rk/geom3_Vector3.icc
index 3e443fe..e186128 100644
--- a/vendor/rk/rk/geom3_Vector3.icc
+++ b/vendor/rk/rk/geom3_Vector3.icc
@@ -292,14 +292,14 @@ namespace geom3 {
         UnitVector3 d2 = v2;
         Vector3 cross = d1.cross(d2);
         double scalar = d1.dot(d2);
-        if(abs(1.0 - scalar) < 1e-9) {
+        if(std::abs(1.0 - scalar) < 1e-9) {
             return Rotation3();
-        } else if (abs(1.0 + scalar) < 1e-9) {
-            double x = abs(v1.x());
-            double y = abs(v1.y());
-            double z = abs(v1.z());
+        } else if (std::abs(1.0 + scalar) < 1e-9) {
+            double x = std::abs(v1.x());
+            double y = std::abs(v1.y());
+            double z = std::abs(v1.z());
 
-            UnitVector3 other = x < y ? (x < z ? UnitVector3::xAxis() : UnitVector3::zAxis()) : (y < z ? UnitVector3::zAxis() : UnitVector3::zAxis());
+            UnitVector3 other = x < y ? (x < z ? UnitVector3::xAxis() : UnitVector3::zAxis()) : (y < z ? UnitVector3::yAxis() : UnitVector3::zAxis());
             UnitVector3 vo = v1.cross(other).direction();
             Rotation3::Quaternion q(vo.x(), vo.y(), vo.z(), 0.0);
             q.normalize();
-- 
2.43.0


From ad003f9f67ada8a2a7bbe2ee1396d4dce4caddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:18 +0000
Subject: [PATCH 51/69] fix: the upscattering cross section of a record is that
 of its target

---
 projects/interactions/private/DarkNewsCrossSection.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/DarkNewsCrossSection.cxx b/projects/interactions/private/DarkNewsCrossSection.cxx
index 70ebc2f..deb7fa9 100644
--- a/projects/interactions/private/DarkNewsCrossSection.cxx
+++ b/projects/interactions/private/DarkNewsCrossSection.cxx
@@ -33,7 +33,7 @@ bool DarkNewsCrossSection::equal(CrossSection const & other) const {
 
 double DarkNewsCrossSection::TotalCrossSection(dataclasses::InteractionRecord const & interaction) const {
     siren::dataclasses::ParticleType primary_type = interaction.signature.primary_type;
-    siren::dataclasses::ParticleType target_type = interaction.signature.primary_type;
+    siren::dataclasses::ParticleType target_type = interaction.signature.target_type;
     std::array<double, 4> const & primary_momentum = interaction.primary_momentum;
     double const & primary_mass = interaction.primary_mass;
     rk::P4 p1(geom3::Vector3(primary_momentum[1], primary_momentum[2], primary_momentum[3]), primary_mass);
-- 
2.43.0


From 216e79ce7f1df0ba10a208f61e15ec2fc674a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:18 +0000
Subject: [PATCH 52/69] fix: the momentum transfer of an upscattering record is
 that of its secondary

---
 projects/interactions/private/DarkNewsCrossSection.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projects/interactions/private/DarkNewsCrossSection.cxx b/projects/interactions/private/DarkNewsCrossSection.cxx
index deb7fa9..17ec68c 100644
--- a/projects/interactions/private/DarkNewsCrossSection.cxx
+++ b/projects/interactions/private/DarkNewsCrossSection.cxx
@@ -48,14 +48,13 @@ double DarkNewsCrossSection::DifferentialCrossSection(dataclasses::InteractionRe
     std::array<double, 4> const & secondary_momentum = interaction.secondary_momenta[0];
     double const & secondary_mass = interaction.secondary_masses[0];
     rk::P4 p1(geom3::Vector3(primary_momentum[1], primary_momentum[2], primary_momentum[3]), primary_mass);
-    rk::P4 p2(geom3::Vector3(0, 0, 0), interaction.target_mass);
     rk::P4 p3(geom3::Vector3(secondary_momentum[1], secondary_momentum[2], secondary_momentum[3]), secondary_mass);
 
     double primary_energy;
     rk::P4 p1_lab;
     rk::P4 p3_lab;
     p1_lab = p1;
-    p3_lab = p2;
+    p3_lab = p3;
     primary_energy = p1_lab.e();
     double Q2 = -1*(std::pow(p1_lab.m(),2) + std::pow(p3_lab.m(),2) - 2.0*p1_lab.dot(p3_lab));
 
-- 
2.43.0


From 6061d4d21947e0664d04f08d7e3828fdb8d55647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:18 +0000
Subject: [PATCH 53/69] fix: sample upscattering in proportion to its cross
 section in Q2

---
 projects/interactions/private/DarkNewsCrossSection.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/DarkNewsCrossSection.cxx b/projects/interactions/private/DarkNewsCrossSection.cxx
index 17ec68c..814b92b 100644
--- a/projects/interactions/private/DarkNewsCrossSection.cxx
+++ b/projects/interactions/private/DarkNewsCrossSection.cxx
@@ -182,7 +182,8 @@ void DarkNewsCrossSection::SampleFinalState(dataclasses::CrossSectionDistributio
         kin_vars[1] = std::pow(10,random->Uniform(log_minQ2,log_maxQ2));
     }
 
-    test_cross_section = DifferentialCrossSection(record.GetPrimaryType(), record.GetTargetType(), primary_energy, kin_vars[1]);
+    // the proposal is uniform in log(Q2), the cross section is differential in Q2
+    test_cross_section = kin_vars[1] * DifferentialCrossSection(record.GetPrimaryType(), record.GetTargetType(), primary_energy, kin_vars[1]);
     cross_section = test_cross_section;
 
     // this is the magic part. Metropolis Hastings Algorithm.
@@ -192,7 +193,7 @@ void DarkNewsCrossSection::SampleFinalState(dataclasses::CrossSectionDistributio
     for(size_t j = 0; j <= burnin; j++) {
         // repeat the sampling from above to get a new valid point
         test_kin_vars[1] = std::pow(10,random->Uniform(log_minQ2,log_maxQ2));
-        test_cross_section = DifferentialCrossSection(record.GetPrimaryType(), record.GetTargetType(), primary_energy, test_kin_vars[1]);
+        test_cross_section = test_kin_vars[1] * DifferentialCrossSection(record.GetPrimaryType(), record.GetTargetType(), primary_energy, test_kin_vars[1]);
         double odds = (test_cross_section / cross_section);
         accept = (cross_section == 0 || (odds > 1.) || random->Uniform(0, 1) < odds);
 
-- 
2.43.0


From c6851daa7eb57e5aa2aafd5fd7b85dc10acdd5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:20 +0000
Subject: [PATCH 54/69] fix: dipole cross sections with different coupling,
 units or elasticity differ

---
 projects/interactions/private/HNLDipoleFromTable.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index 18b1872..c4cca75 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -51,16 +51,22 @@ bool HNLDipoleFromTable::equal(CrossSection const & other) const {
         return
             std::tie(
                     z_samp,
+                    in_invGeV,
+                    inelastic,
                     primary_types,
                     hnl_mass,
+                    dipole_coupling,
                     channel,
                     differential,
                     total)
             ==
             std::tie(
                     x->z_samp,
+                    x->in_invGeV,
+                    x->inelastic,
                     x->primary_types,
                     x->hnl_mass,
+                    x->dipole_coupling,
                     x->channel,
                     x->differential,
                     x->total);
-- 
2.43.0


From ba0ca2657204abe18c476c5d572a02b3bf295913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:09 +0000
Subject: [PATCH 55/69] fix: the mass at the end of a dipole table name is read
 to the extension

---
 projects/interactions/private/HNLDipoleFromTable.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index c4cca75..0c0b9f3 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -567,8 +567,8 @@ void HNLDipoleFromTable::AddDifferentialCrossSectionFile(std::string filename, s
         }
         next_pos = filename.find(delimeter, pos);
         if(next_pos == std::string::npos) {
-            next_pos = filename.rfind(end_delimeter, pos);
-            if(next_pos == std::string::npos) {
+            next_pos = filename.rfind(end_delimeter);
+            if(next_pos == std::string::npos or next_pos < pos) {
                 bad = true;
                 return std::string();
             }
@@ -669,8 +669,8 @@ void HNLDipoleFromTable::AddTotalCrossSectionFile(std::string filename, siren::d
         }
         next_pos = filename.find(delimeter, pos);
         if(next_pos == std::string::npos) {
-            next_pos = filename.find(end_delimeter, pos);
-            if(next_pos == std::string::npos) {
+            next_pos = filename.rfind(end_delimeter);
+            if(next_pos == std::string::npos or next_pos < pos) {
                 bad = true;
                 return std::string();
             }
-- 
2.43.0


From 89bb7278e12247f0261123da6f303fcfe48c5364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:41 +0000
Subject: [PATCH 56/69] fix: order range and depth functions of different kinds
 by their kind

---
 .../distributions/private/primary/vertex/DepthFunction.cxx    | 4 ++--
 .../distributions/private/primary/vertex/RangeFunction.cxx    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/DepthFunction.cxx b/projects/distributions/private/primary/vertex/DepthFunction.cxx
index 74d88a1..3720ab9 100644
--- a/projects/distributions/private/primary/vertex/DepthFunction.cxx
+++ b/projects/distributions/private/primary/vertex/DepthFunction.cxx
@@ -25,10 +25,10 @@ bool DepthFunction::operator==(DepthFunction const & distribution) const {
 }
 
 bool DepthFunction::operator<(DepthFunction const & distribution) const {
-    if(typeid(this) == typeid(&distribution))
+    if(typeid(*this) == typeid(distribution))
         return this->less(distribution);
     else
-        return std::type_index(typeid(this)) < std::type_index(typeid(&distribution));
+        return std::type_index(typeid(*this)) < std::type_index(typeid(distribution));
 }
 
 } // namespace distributions
diff --git a/projects/distributions/private/primary/vertex/RangeFunction.cxx b/projects/distributions/private/primary/vertex/RangeFunction.cxx
index 737be7d..6c25241 100644
--- a/projects/distributions/private/primary/vertex/RangeFunction.cxx
+++ b/projects/distributions/private/primary/vertex/RangeFunction.cxx
@@ -24,10 +24,10 @@ bool RangeFunction::operator==(RangeFunction const & distribution) const {
 }
 
 bool RangeFunction::operator<(RangeFunction const & distribution) const {
-    if(typeid(this) == typeid(&distribution))
+    if(typeid(*this) == typeid(distribution))
         return this->less(distribution);
     else
-        return std::type_index(typeid(this)) < std::type_index(typeid(&distribution));
+        return std::type_index(typeid(*this)) < std::type_index(typeid(distribution));
 }
 
 } // namespace distributions
-- 
2.43.0


From 344c762e4c1e92748434d92d13f639cd836cfbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:54 +0000
Subject: [PATCH 57/69] fix: pre-release labels of versions are read in any
 case

---
 python/_util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/_util.py b/python/_util.py
index 7c27864..07b03ba 100644
--- a/python/_util.py
+++ b/python/_util.py
@@ -335,11 +335,12 @@ def normalize_version(version):
     if d["pre"] is not None:
         if d["pre_l"] is not None:
             # Add pre-release label
-            if d["pre_l"] in ["a", "alpha"]:
+            pre_l = d["pre_l"].lower()
+            if pre_l in ["a", "alpha"]:
                 n_version += "a"
-            elif d["pre_l"] in ["b", "beta"]:
+            elif pre_l in ["b", "beta"]:
                 n_version += "b"
-            elif d["pre_l"] in ["c", "rc", "pre", "preview"]:
+            elif pre_l in ["c", "rc", "pre", "preview"]:
                 n_version += "rc"
             # Add pre-release number
             if d["pre_n"] is not None:
-- 
2.43.0


From 6d8ddaca026a17dc67b14d89b71009946b2e5317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:54 +0000
Subject: [PATCH 58/69] fix: development versions of a release come before its
 pre-releases

---
 python/_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/_util.py b/python/_util.py
index 07b03ba..9b70c40 100644
--- a/python/_util.py
+++ b/python/_util.py
@@ -421,7 +421,8 @@ def tokenize_version(version):
     else:
         # Pre-release segment starts with 1 if not present to indicate that it is not present
         # Because a release version comes after a pre-release version
-        tokens["pre"] = (1,)
+        # A dev-release of the release itself comes before its pre-releases
+        tokens["pre"] = (-1,) if d["dev"] is not None and d["post"] is None else (1,)
 
     # Add post-release segment
     if d["post"] is not None:
-- 
2.43.0


From 7461aca701d25660f8d47662af8184fe0cb14f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:54 +0000
Subject: [PATCH 59/69] fix: the path of a model version that does not exist
 yet is its own

---
 python/_util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/_util.py b/python/_util.py
index 9b70c40..e81080a 100644
--- a/python/_util.py
+++ b/python/_util.py
@@ -646,7 +646,7 @@ def _get_model_path(model_name, prefix=None, suffix=None, is_file=True, must_exi
             raise ValueError(f"No model folders found for {model_search_name}\nSearched in {model_dir}")
         else:
             if version is None:
-                version = "v1"
+                version = "1"
 
             model_dir = os.path.join(model_dir, f"{found_model_name}-v{version}")
             return model_dir
@@ -671,6 +671,9 @@ def _get_model_path(model_name, prefix=None, suffix=None, is_file=True, must_exi
     if len(matching_models) == 0:
         if must_exist and version is not None:
             raise ValueError(f"No model folders found for {model_search_name} with version {version}\nSearched in {model_dir}")
+        if not must_exist and (version is not None or len(models_and_versions) == 0):
+            # A model that does not exist yet gets a folder of its own
+            return os.path.join(model_dir, f"{found_model_name}-v{version if version is not None else '1'}")
 
     found_model_subfolder, subfolder_version = max(models_and_versions, key=lambda x: tokenize_version(x[1]))
 
-- 
2.43.0


From 0785de73ce7002a23060531b6c068a05f3fd5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:47 +0000
Subject: [PATCH 60/69] fix: phi-cut solids: rays parallel to a phi face start
 on the side they run on

InitialPhiState used the azimuth of the direction alone, so a ray parallel to
a phi face was taken to start inside the wedge on whichever side of the face
it ran, and crossings were invented or lost.
---
 projects/geometry/private/PhiUtils.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/projects/geometry/private/PhiUtils.h b/projects/geometry/private/PhiUtils.h
index 2ae863d..4027a95 100644
--- a/projects/geometry/private/PhiUtils.h
+++ b/projects/geometry/private/PhiUtils.h
@@ -44,6 +44,17 @@ inline bool InitialPhiState(double px, double py, double dx, double dy,
                             double start_phi, double delta_phi) {
     double rxy2_dir = dx*dx + dy*dy;
     if(rxy2_dir > 1e-20) {
+        // A ray parallel to a phi face never crosses it, and phi(-inf) is the
+        // azimuth of the face itself: the side of the face the ray runs on
+        // decides.
+        for(int face = 0; face < 2; ++face) {
+            double alpha = start_phi + face * delta_phi;
+            double ca = std::cos(alpha), sa = std::sin(alpha);
+            if(std::fabs(ca*dy - sa*dx) < 1e-9 && ca*dx + sa*dy < 0) {
+                double side = ca*py - sa*px; // > 0: counter-clockwise of the face
+                return (face == 0) ? side >= 0 : side <= 0;
+            }
+        }
         return PhiInRange(-dx, -dy, start_phi, delta_phi);
     }
     double rxy2_orig = px*px + py*py;
-- 
2.43.0


From c5f767c9177be85db8d3de3158ed47a3b8b676e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:47 +0000
Subject: [PATCH 61/69] fix: theta-cut spheres: rays parallel to a theta cone
 start on the side they run on

---
 projects/geometry/private/Sphere.cxx | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/projects/geometry/private/Sphere.cxx b/projects/geometry/private/Sphere.cxx
index 0ef6133..a20f66e 100644
--- a/projects/geometry/private/Sphere.cxx
+++ b/projects/geometry/private/Sphere.cxx
@@ -271,6 +271,30 @@ std::vector<Geometry::Intersection> Sphere::ComputeIntersections(
 
     if(has_theta_cut_) {
         in_theta = ThetaInRange(-dx, -dy, -dz, start_theta_, delta_theta_);
+        // A ray parallel to a generator of a theta cone (or to the equatorial
+        // plane) has that cone's polar angle at t=-inf: which side it is on
+        // follows from the leading term of the cone equation.
+        for(int face = 0; face < 2; ++face) {
+            double theta0 = start_theta_ + face * delta_theta_;
+            if(theta0 < 1e-12 || std::fabs(theta0 - M_PI) < 1e-12) continue;
+            bool beyond; // polar angle at t=-inf larger than theta0
+            if(std::fabs(theta0 - M_PI / 2.0) < 1e-12) {
+                if(std::fabs(dz) >= GEOMETRY_PRECISION) continue;
+                beyond = pz < 0;
+            } else {
+                double tan_t = std::tan(theta0);
+                double tan2 = tan_t * tan_t;
+                double A = dx*dx + dy*dy - dz*dz * tan2;
+                if(std::fabs(A) > GEOMETRY_PRECISION) continue;
+                if((theta0 < M_PI / 2.0) != (dz < 0)) continue; // other nappe
+                double B_half = px*dx + py*dy - pz*dz * tan2;
+                double C = px*px + py*py - pz*pz * tan2;
+                double g = (std::fabs(B_half) > GEOMETRY_PRECISION) ? -B_half : C;
+                beyond = (theta0 < M_PI / 2.0) ? (g > 0) : (g < 0);
+            }
+            in_theta = (face == 0) ? beyond : !beyond;
+            break;
+        }
     }
 
     bool was_inside = in_shell && in_phi && in_theta;
-- 
2.43.0


From f2b9c025012d343b322e590285ae16514b26a066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:05 +0000
Subject: [PATCH 62/69] fix: polycones and polyhedra: no crossing at a step
 where neither side has material

Where the rings on the two sides of a step in radius do not overlap, a ray
between them crossed the "outer" and the "inner" step at the same distance and
two spurious crossings were reported, in either order.
---
 projects/geometry/private/Polycone.cxx  | 28 ++++-----------
 projects/geometry/private/Polyhedra.cxx | 46 ++++++++-----------------
 2 files changed, 20 insertions(+), 54 deletions(-)

diff --git a/projects/geometry/private/Polycone.cxx b/projects/geometry/private/Polycone.cxx
index 375a33e..15adca5 100644
--- a/projects/geometry/private/Polycone.cxx
+++ b/projects/geometry/private/Polycone.cxx
@@ -409,28 +409,12 @@ std::vector<Geometry::Intersection> Polycone::ComputeIntersections(siren::math::
 
             double r2_hit = intersection_x * intersection_x + intersection_y * intersection_y;
 
-            // Outer annulus: region where rmax changed
-            if(rmax_below != rmax_above) {
-                double rlo = std::min(rmax_below, rmax_above);
-                double rhi = std::max(rmax_below, rmax_above);
-                if(r2_hit >= rlo * rlo && r2_hit <= rhi * rhi) {
-                    // Material exists on the side with larger rmax
-                    // entering = moving into material
-                    bool entering = (rmax_above > rmax_below) ? (dz > 0) : (dz < 0);
-                    emit(t, entering);
-                }
-            }
-
-            // Inner annulus: region where rmin changed
-            if(rmin_below != rmin_above) {
-                double rlo = std::min(rmin_below, rmin_above);
-                double rhi = std::max(rmin_below, rmin_above);
-                if(r2_hit >= rlo * rlo && r2_hit <= rhi * rhi) {
-                    // Hole grows on the side with larger rmin,
-                    // so material exists on the side with smaller rmin
-                    bool entering = (rmin_above > rmin_below) ? (dz < 0) : (dz > 0);
-                    emit(t, entering);
-                }
+            // The step is part of the surface where there is material on one
+            // side of it only.
+            bool in_below = r2_hit >= rmin_below * rmin_below && r2_hit <= rmax_below * rmax_below;
+            bool in_above = r2_hit >= rmin_above * rmin_above && r2_hit <= rmax_above * rmax_above;
+            if(in_below != in_above) {
+                emit(t, in_above == (dz > 0));
             }
 
             i = j + 1;
diff --git a/projects/geometry/private/Polyhedra.cxx b/projects/geometry/private/Polyhedra.cxx
index be3be93..9afeb41 100644
--- a/projects/geometry/private/Polyhedra.cxx
+++ b/projects/geometry/private/Polyhedra.cxx
@@ -624,38 +624,20 @@ std::vector<Geometry::Intersection> Polyhedra::ComputeIntersections(siren::math:
             intersection_y = py + t * dy;
             intersection_z = pz + t * dz;
 
-            // Outer annulus: region where rmax changed
-            if(rmax_below != rmax_above) {
-                double rlo = std::min(rmax_below, rmax_above);
-                double rhi = std::max(rmax_below, rmax_above);
-                if(rhi >= GEOMETRY_PRECISION) {
-                    bool in_cap = has_phi_cut_
-                        ? PointInAnnularSectorPolygon(intersection_x, intersection_y,
-                                                       num_sides_, cp, sp, rlo, rhi)
-                        : PointInAnnularPolygon(intersection_x, intersection_y,
-                                                 num_sides_, cp, sp, rlo, rhi);
-                    if(in_cap) {
-                        bool entering = (rmax_above > rmax_below) ? (dz > 0) : (dz < 0);
-                        add_hit(t, 0, entering, intersection_x, intersection_y, intersection_z);
-                    }
-                }
-            }
-
-            // Inner annulus: region where rmin changed
-            if(rmin_below != rmin_above) {
-                double rlo = std::min(rmin_below, rmin_above);
-                double rhi = std::max(rmin_below, rmin_above);
-                if(rhi >= GEOMETRY_PRECISION) {
-                    bool in_cap = has_phi_cut_
-                        ? PointInAnnularSectorPolygon(intersection_x, intersection_y,
-                                                       num_sides_, cp, sp, rlo, rhi)
-                        : PointInAnnularPolygon(intersection_x, intersection_y,
-                                                 num_sides_, cp, sp, rlo, rhi);
-                    if(in_cap) {
-                        bool entering = (rmin_above > rmin_below) ? (dz < 0) : (dz > 0);
-                        add_hit(t, 0, entering, intersection_x, intersection_y, intersection_z);
-                    }
-                }
+            // The step is part of the surface where there is material on one
+            // side of it only.
+            auto in_section = [&](double rmin, double rmax) {
+                if(rmax < GEOMETRY_PRECISION) return false;
+                return has_phi_cut_
+                    ? PointInAnnularSectorPolygon(intersection_x, intersection_y,
+                                                   num_sides_, cp, sp, rmin, rmax)
+                    : PointInAnnularPolygon(intersection_x, intersection_y,
+                                             num_sides_, cp, sp, rmin, rmax);
+            };
+            bool in_below = in_section(rmin_below, rmax_below);
+            bool in_above = in_section(rmin_above, rmax_above);
+            if(in_below != in_above) {
+                add_hit(t, 0, in_above == (dz > 0), intersection_x, intersection_y, intersection_z);
             }
 
             i = j + 1;
-- 
2.43.0


From d17f44518514a636e0da664ddf0db00b4acc002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:07 +0000
Subject: [PATCH 63/69] fix: torus: keep the crossings of lines that pass
 nearly symmetrically through the tube

---
 projects/geometry/private/Torus.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/projects/geometry/private/Torus.cxx b/projects/geometry/private/Torus.cxx
index 063200c..fa146a1 100644
--- a/projects/geometry/private/Torus.cxx
+++ b/projects/geometry/private/Torus.cxx
@@ -130,13 +130,14 @@ int SolveQuartic(double a, double b, double c, double d, double roots[4]) {
     double s = std::sqrt(s2);
 
     double u, v;
-    if(s > 1e-14) {
+    if(s2 > 1e-6 * coeff_scale) {
         u = y - q / (2.0 * s);
         v = y + q / (2.0 * s);
     } else {
-        u = y;
-        v = y;
-        s = 0;
+        // 2*y and p cancel, so s is lost in rounding: use u + v = 2*y, u*v = r
+        double w = std::copysign(std::sqrt(std::fmax(y * y - r, 0.0)), q);
+        u = y - w;
+        v = y + w;
     }
 
     // Solve the two quadratics
-- 
2.43.0


From ec2604e50d9b8a6b1a18ec2896e088178d576607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:10 +0000
Subject: [PATCH 64/69] fix: distances for a depth *to* a detector point looked
 forward from the point instead of back to it

---
 projects/detector/private/DetectorModel.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 4fe4683..e237c8c 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -2067,11 +2067,11 @@ double DetectorModel::DistanceForColumnDepthFromPoint(DetectorPosition const & p
 }
 
 double DetectorModel::DistanceForColumnDepthToPoint(Geometry::IntersectionList const & intersections, DetectorPosition const & p0, DetectorDirection const & direction, double column_depth) const {
-    return DistanceForColumnDepthFromPoint(intersections, ToGeo(p0), ToGeo(direction), column_depth);
+    return DistanceForColumnDepthToPoint(intersections, ToGeo(p0), ToGeo(direction), column_depth);
 }
 
 double DetectorModel::DistanceForColumnDepthToPoint(DetectorPosition const & p0, DetectorDirection const & direction, double column_depth) const {
-    return DistanceForColumnDepthFromPoint(ToGeo(p0), ToGeo(direction), column_depth);
+    return DistanceForColumnDepthToPoint(ToGeo(p0), ToGeo(direction), column_depth);
 }
 
 double DetectorModel::GetMassDensity(Geometry::IntersectionList const & intersections, DetectorPosition const & p0,  std::set<siren::dataclasses::ParticleType> targets) const {
@@ -2151,14 +2151,14 @@ double DetectorModel::DistanceForInteractionDepthToPoint(Geometry::IntersectionL
         std::vector<siren::dataclasses::ParticleType> const & targets,
         std::vector<double> const & total_cross_sections,
         double const & total_decay_length) const {
-    return DistanceForInteractionDepthFromPoint(intersections, ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
+    return DistanceForInteractionDepthToPoint(intersections, ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
 }
 
 double DetectorModel::DistanceForInteractionDepthToPoint(DetectorPosition const & p0, DetectorDirection const & direction, double interaction_depth,
         std::vector<siren::dataclasses::ParticleType> const & targets,
         std::vector<double> const & total_cross_sections,
         double const & total_decay_length) const {
-    return DistanceForInteractionDepthFromPoint(ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
+    return DistanceForInteractionDepthToPoint(ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
 }
 
 //////////////////////////////////////////////////////////
-- 
2.43.0


From 20250d7cab5ed77f3f225d5e3692d28c21a33541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:10 +0000
Subject: [PATCH 65/69] fix: a saved detector model loses the rotation of the
 detector frame

---
 projects/detector/private/DetectorModel.cxx             | 4 ++--
 projects/detector/public/SIREN/detector/DetectorModel.h | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index e237c8c..1a2ba37 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -185,9 +185,9 @@ DetectorModel::DetectorModel(std::string const & path, std::string const & detec
 
 bool DetectorModel::operator==(DetectorModel const & o) const {
     return
-        std::tie(materials_, sectors_, sector_map_, sector_name_map_, detector_origin_)
+        std::tie(materials_, sectors_, sector_map_, sector_name_map_, detector_origin_, detector_rotation_)
         ==
-        std::tie(o.materials_, o.sectors_, o.sector_map_, o.sector_name_map_, o.detector_origin_);
+        std::tie(o.materials_, o.sectors_, o.sector_map_, o.sector_name_map_, o.detector_origin_, o.detector_rotation_);
 }
 
 std::string DetectorModel::GetPath() const {
diff --git a/projects/detector/public/SIREN/detector/DetectorModel.h b/projects/detector/public/SIREN/detector/DetectorModel.h
index ce5dec8..8eda00a 100644
--- a/projects/detector/public/SIREN/detector/DetectorModel.h
+++ b/projects/detector/public/SIREN/detector/DetectorModel.h
@@ -120,18 +120,21 @@ public:
 
     template<class Archive>
     void serialize(Archive & archive, std::uint32_t const version) {
-        if(version == 0) {
+        if(version <= 1) {
             archive(cereal::make_nvp("Path", path_));
             archive(cereal::make_nvp("MaterialModel", materials_));
             archive(cereal::make_nvp("Sectors", sectors_));
             archive(cereal::make_nvp("SectorMap", sector_map_));
             archive(cereal::make_nvp("SectorNameMap", sector_name_map_));
             archive(cereal::make_nvp("DetectorOrigin", detector_origin_));
+            if(version >= 1) {
+                archive(cereal::make_nvp("DetectorRotation", detector_rotation_));
+            }
             if(Archive::is_loading::value) {
                 bvh_dirty_.store(true, std::memory_order_release); // BVH will be rebuilt on next query after load
             }
         } else {
-            throw std::runtime_error("DetectorModel only supports version <= 0!");
+            throw std::runtime_error("DetectorModel only supports version <= 1!");
         }
     }
 
@@ -341,7 +344,7 @@ std::ostream& operator<<(std::ostream& oss, siren::detector::DetectorSector & bc
 
 #include "SIREN/detector/DetectorModel.tcc"
 
-CEREAL_CLASS_VERSION(siren::detector::DetectorModel, 0);
+CEREAL_CLASS_VERSION(siren::detector::DetectorModel, 1);
 
 CEREAL_FORCE_DYNAMIC_INIT(siren_DetectorModel);
 
-- 
2.43.0


From d3796fd33ddaca8c37e828284c586b09d0af49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:10 +0000
Subject: [PATCH 66/69] fix: SetSectors leaves the model half replaced when it
 refuses a list of sectors

---
 projects/detector/private/DetectorModel.cxx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 1a2ba37..06009c8 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -211,20 +211,22 @@ std::vector<DetectorSector> const & DetectorModel::GetSectors() const {
 }
 
 void DetectorModel::SetSectors(std::vector<DetectorSector> const & sectors) {
-    sectors_ = sectors;
-    sector_map_.clear();
-    sector_name_map_.clear();
+    std::map<int, unsigned int> sector_map;
+    std::map<std::string, unsigned int> sector_name_map;
     for(unsigned int i=0; i<sectors.size(); ++i) {
-        if(sector_map_.count(sectors[i].level) > 0) {
+        if(sector_map.count(sectors[i].level) > 0) {
             throw(std::runtime_error("Already have a sector of that heirarchy!"));
         }
         // Enforce unique sector names for name-based lookup
-        if(sector_name_map_.count(sectors[i].name) > 0) {
+        if(sector_name_map.count(sectors[i].name) > 0) {
             throw(std::runtime_error("Already have a sector named: " + sectors[i].name));
         }
-        sector_name_map_[sectors[i].name] = i;
-        sector_map_[sectors[i].level] = i;
+        sector_name_map[sectors[i].name] = i;
+        sector_map[sectors[i].level] = i;
     }
+    sectors_ = sectors;
+    sector_map_ = sector_map;
+    sector_name_map_ = sector_name_map;
     bvh_dirty_.store(true, std::memory_order_release);
 }
 
-- 
2.43.0


From ec39d2b2faac6c0895a4072752af2a795ac005fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:10 +0000
Subject: [PATCH 67/69] fix: distance for an interaction depth ignored decays
 in the sectors passed and where no target is present

---
 projects/detector/private/DetectorModel.cxx | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 06009c8..ff28030 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -1927,7 +1927,7 @@ double DetectorModel::DistanceForInteractionDepthFromPoint(Geometry::Intersectio
     // If we have only decays, avoid the sector loop
     // decay length in m
     if(targets.empty()) {
-      return interaction_depth * total_decay_length;
+      return (flip ? -1 : 1) * interaction_depth * total_decay_length;
     }
 
     double dot = intersections.direction * direction;
@@ -1965,19 +1965,26 @@ double DetectorModel::DistanceForInteractionDepthFromPoint(Geometry::Intersectio
                 interaction_depths[i] *= total_cross_sections[i];
             }
             double target_composition = accumulate(interaction_depths.begin(), interaction_depths.end(), 0.0); // cm^2 g^-1
-            target /= target_composition;
             double distance;
+            if (not (target_composition > 0)) {
+              // None of the targets are present, only decays contribute
+              double remaining = interaction_depth - total_interaction_depth;
+              distance = remaining > 0 ? remaining * total_decay_length : 0.0;
+              if (distance > segment_length or not std::isfinite(distance)) {
+                distance = -1;
+              }
+            }
             // total_decay_length now in cm
-            if (total_decay_length < std::numeric_limits<double>::infinity()) {
-              distance = sector.density->InverseIntegral(p0+start_point*direction, direction, 1./(total_decay_length_cm*target_composition), target, segment_length);
+            else if (total_decay_length < std::numeric_limits<double>::infinity()) {
+              distance = sector.density->InverseIntegral(p0+start_point*direction, direction, 1./(total_decay_length_cm*target_composition), target / target_composition, segment_length);
             }
             else {
-              distance = sector.density->InverseIntegral(p0+start_point*direction, direction, target, segment_length);
+              distance = sector.density->InverseIntegral(p0+start_point*direction, direction, target / target_composition, segment_length);
             }
             done = distance >= 0;
             double integral = sector.density->Integral(p0+start_point*direction, direction, segment_length); // g cm^-3 * m
             integral *= (target_composition*siren::utilities::Constants::m/siren::utilities::Constants::cm); // --> m cm^-1 --> dimensionless
-            total_interaction_depth += integral;
+            total_interaction_depth += integral + segment_length / total_decay_length;
             if(done) {
                 total_distance = start_point + distance;
             } else {
-- 
2.43.0


From f5c90fab75c349a9ca80148ba9f67339a3b785ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:57 +0000
Subject: [PATCH 68/69] fix: a path keeps the intersections with the previous
 detector model when it is given another

---
 projects/detector/private/Path.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/detector/private/Path.cxx b/projects/detector/private/Path.cxx
index a6dab82..40c3464 100644
--- a/projects/detector/private/Path.cxx
+++ b/projects/detector/private/Path.cxx
@@ -141,6 +141,7 @@ void Path::SetDetectorModel(std::shared_ptr<const DetectorModel> detector_model)
     }
     detector_model_ = detector_model;
     set_detector_model_ = true;
+    set_intersections_ = false;
     UpdatePoints();
 }
 
-- 
2.43.0


From fa0f21fa325eb211259929f99567beb960368117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:57 +0000
Subject: [PATCH 69/69] fix: clipping a path that lies outside the outer bounds
 turned it around

---
 projects/detector/private/Path.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/projects/detector/private/Path.cxx b/projects/detector/private/Path.cxx
index 40c3464..ee2d983 100644
--- a/projects/detector/private/Path.cxx
+++ b/projects/detector/private/Path.cxx
@@ -293,6 +293,14 @@ void Path::ClipToOuterBounds() {
         }
         bool clip_0 = (first_inf_) || ((p0 - first_point_) * direction_ > 0);
         bool clip_1 = (last_inf_) || ((p1 - last_point_) * direction_ < 0);
+        // A path entirely outside of the bounds is reduced to the bound it is closest to
+        if((not last_inf_) and (p0 - last_point_) * direction_ > 0) {
+            p1 = p0;
+            clip_1 = true;
+        } else if((not first_inf_) and (p1 - first_point_) * direction_ < 0) {
+            p0 = p1;
+            clip_0 = true;
+        }
         bool clip = clip_0 or clip_1;
         if(clip_0) {
             first_point_ = GeometryPosition(p0);
-- 
2.43.0

