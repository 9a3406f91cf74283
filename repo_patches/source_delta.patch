From 24f965aabf86b07fda8efcf3cddc1c7891768978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 01/26] fix: requests made while a trajectory is generated or
 taken over are not forgotten

generate_new_traj_ was cleared after the generation was started and again at
the swap (and by modifyWaypoint(..., false)), dropping the mark of a request
which arrived after the pending lists had been taken. Clear it where the lists
are taken, under the same lock.
---
 src/dynamic_trajectory.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 518ed2c..5cffb58 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -98,7 +98,10 @@ namespace dynamic_traj_generator
       iter->first = name;
       iter->second = position;
     }
-    generate_new_traj_ = generate_new_traj;
+    if (generate_new_traj)
+    {
+      generate_new_traj_ = true;
+    }
   }
   
   void DynamicTrajectory::modifyWaypoints(
@@ -246,7 +249,7 @@ namespace dynamic_traj_generator
         //   (next_trajectory_waypoint_.size() == 1 && !checkStitchTrajectory()))
         {
           DYNAMIC_LOG("No waypoints to generate a new trajectory");
-          generate_new_traj_ = false;
+          computing_new_trajectory_ = false;
           continue;
         }
         parameters_mutex_.lock();
@@ -274,7 +277,6 @@ namespace dynamic_traj_generator
           appendDronePositionWaypoint(next_trajectory_waypoint_);
         }
         generateTrajectory(next_trajectory_waypoint_, false);
-        generate_new_traj_ = false;
       }
 
       else if (waypoints_to_be_modified_.size() && !computing_new_trajectory_)
@@ -608,6 +610,10 @@ namespace dynamic_traj_generator
     waypoints_to_be_set_.clear();
     waypoints_to_be_added_.clear();
     waypoints_to_be_modified_.clear();
+    // every pending request has been taken: a request made from now on needs another generation.
+    // computing_new_trajectory_ is raised first so that both flags are never down meanwhile
+    computing_new_trajectory_ = true;
+    generate_new_traj_ = false;
     return next_trajectory_waypoints;
   }
 
@@ -676,7 +682,6 @@ namespace dynamic_traj_generator
         swapTrajectory();
         swapDynamicWaypoints();
         computing_new_trajectory_ = false;
-        generate_new_traj_ = false;
       }
     }
     return true;
-- 
2.43.0


From 70aad4292a87882ac876e6e35eedd4d5d0cf0c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 02/26] fix: the destructor waits for a running computation
 before members are destroyed

---
 include/dynamic_trajectory_generator/dynamic_trajectory.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index be10cfa..a91000a 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -127,6 +127,10 @@ class DynamicTrajectory {
   ~DynamicTrajectory() {
     stop_process_ = true;
     waitForGeneratingNewTraj_thread_.join();
+    // the computation uses the members, some of which are destroyed before future_traj_
+    if (future_traj_.valid()) {
+      future_traj_.wait();
+    }
   }
 
   dynamic_traj_generator::DynamicWaypoint::Vector getNextTrajectoryWaypoints(){
-- 
2.43.0


From 07eccc73e5d18136124e1aaebc9b1627068778b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 03/26] fix: a notification raised while the flag is being
 polled is not lost

---
 src/dynamic_trajectory.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 5cffb58..0f79fbb 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -213,9 +213,7 @@ namespace dynamic_traj_generator
 
   bool DynamicTrajectory::getWasTrajectoryRegenerated()
   {
-    bool value = trajectory_regenerated_;
-    trajectory_regenerated_ = false;
-    return value;
+    return trajectory_regenerated_.exchange(false);
   }
   bool DynamicTrajectory::getGenerateNewTraj() const
   {
-- 
2.43.0


From 24a40be3c35973dc3653f7954b634bc007386d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 04/26] fix: a takeover does not rewind the last evaluated time

---
 src/dynamic_trajectory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 0f79fbb..a2f9859 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -401,6 +401,11 @@ namespace dynamic_traj_generator
     }
 
     parameters_mutex_.lock();
+    // the times evaluated while the trajectory was being computed stay evaluated
+    new_parameters_.last_global_time_evaluated = parameters_.last_global_time_evaluated;
+    new_parameters_.last_local_time_evaluated =
+        parameters_.last_global_time_evaluated -
+        new_parameters_.global_time_last_trajectory_generated;
     parameters_ = new_parameters_;
     parameters_mutex_.unlock();
 
-- 
2.43.0


From 112e45ffed0a00bb21333b85c54bdee525c4d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 05/26] fix: second derivative of the gaussian modifier, and no
 0/0 with a null sigma

---
 include/dynamic_trajectory_generator/utils/traj_modifiers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
index 80d99da..91907d9 100644
--- a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
+++ b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
@@ -48,7 +48,7 @@ public:
   {
     // double max_reaction_time = MAX_REACTION_TIME;
     double max_reaction_time = 3.5 * sigma_;
-    if (std::abs(increment_) < 0.02 || std::abs(t - mu_) > max_reaction_time)
+    if (std::abs(increment_) < 0.02 || sigma_ <= 0 || std::abs(t - mu_) > max_reaction_time)
     {
       return 0;
     }
@@ -62,7 +62,7 @@ public:
       value = -((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     case 2:
-      value = ((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
+      value = (((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) - 1 / sigma_squared_) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     }
     value *= increment_;
-- 
2.43.0


From 0afce7b9d5c0bef04bc6330ed2ac26aa1fabfe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 06/26] fix: coincident consecutive waypoints no longer abort
 the process

The estimated time of their segment was 0, which the optimizer refuses with a
fatal CHECK. Use the minimum of estimateSegmentTimesVelocityRamp here too.
---
 subpackages/mav_trajectory_generation/src/vertex.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/vertex.cpp b/subpackages/mav_trajectory_generation/src/vertex.cpp
index a46cdaf..ab8fde6 100644
--- a/subpackages/mav_trajectory_generation/src/vertex.cpp
+++ b/subpackages/mav_trajectory_generation/src/vertex.cpp
@@ -258,6 +258,9 @@ std::vector<double> estimateSegmentTimesNfabian(const Vertex::Vector& vertices,
   CHECK_GE(vertices.size(), 2);
   std::vector<double> segment_times;
   segment_times.reserve(vertices.size() - 1);
+
+  constexpr double kMinSegmentTime = 0.1;
+
   for (size_t i = 0; i < vertices.size() - 1; ++i) {
     Eigen::VectorXd start, end;
     vertices[i].getConstraint(derivative_order::POSITION, &start);
@@ -283,6 +286,8 @@ std::vector<double> estimateSegmentTimesNfabian(const Vertex::Vector& vertices,
     } else {
       t = distance / v_max;
     }
+    // coincident vertices must not give a segment without duration
+    t = std::max(kMinSegmentTime, t);
     segment_times.push_back(t);
   }
   return segment_times;
-- 
2.43.0


From 1d3a3ec0ee88d6340f4d41a2cca064c424fb9442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 07/26] fix: unsynchronised reads of the active trajectory, the
 pending modifications and the parameters

---
 .../dynamic_trajectory.hpp                           |  3 ++-
 .../thread_safe_trajectory.hpp                       |  2 ++
 src/dynamic_trajectory.cpp                           | 12 +++++++++---
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index a91000a..8553266 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -92,7 +92,7 @@ class DynamicTrajectory {
   const int dimension_ = 3;
   std::atomic_bool from_scratch_ = true;
   const double a_max_ = MAV_MAX_ACCEL;
-  Eigen::Vector3d vehicle_position_;
+  Eigen::Vector3d vehicle_position_ = Eigen::Vector3d::Zero();
 
   mutable std::mutex traj_mutex_;
   mutable std::mutex future_mutex_;
@@ -210,6 +210,7 @@ class DynamicTrajectory {
   bool checkStitchTrajectory();
   bool checkInSecurityZone();
   bool checkTrajectoryModifiers();
+  bool checkPendingModifications();
 
   bool checkTrajectoryGenerated();
   bool checkIfTrajectoryIsAlreadyGenerated() { return traj_ != nullptr; };
diff --git a/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp b/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp
index 9549dd0..a81f0b5 100644
--- a/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp
@@ -100,10 +100,12 @@ public:
   }
   bool operator==(const std::nullptr_t &other) noexcept
   {
+    std::lock_guard<std::mutex> lock(evaluate_mutex_);
     return trajectory_ptr_ == nullptr;
   }
   bool operator!=(const std::nullptr_t &other) noexcept
   {
+    std::lock_guard<std::mutex> lock(evaluate_mutex_);
     return trajectory_ptr_ != nullptr;
   }
 
diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index a2f9859..0da5118 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -266,7 +266,7 @@ namespace dynamic_traj_generator
           from_scratch_ = false;
           DYNAMIC_LOG("stitching new trajectory");
           next_trajectory_waypoint_ = stitchActualTrajectoryWithNewWaypoints(
-              parameters_.last_local_time_evaluated, next_trajectory_waypoint_);
+              new_parameters_.last_local_time_evaluated, next_trajectory_waypoint_);
         }
         else
         {
@@ -277,7 +277,7 @@ namespace dynamic_traj_generator
         generateTrajectory(next_trajectory_waypoint_, false);
       }
 
-      else if (waypoints_to_be_modified_.size() && !computing_new_trajectory_)
+      else if (checkPendingModifications() && !computing_new_trajectory_)
       {
         // DYNAMIC_LOG("Modifying waypoints");
         const std::lock_guard<std::mutex> lock(todo_mutex);
@@ -483,7 +483,7 @@ namespace dynamic_traj_generator
     DynamicWaypoint::Deque new_waypoints;
     // Append the previous points to generate a smooth stitching
 
-    double local_eval_t = new_parameters_.last_local_time_evaluated + parameters_.t_offset;
+    double local_eval_t = new_parameters_.last_local_time_evaluated + new_parameters_.t_offset;
 
     for (int i_waypoints_appended = 0; i_waypoints_appended < N_WAYPOINTS_TO_APPEND;
          i_waypoints_appended++)
@@ -701,6 +701,12 @@ namespace dynamic_traj_generator
     return false;
   };
 
+  bool DynamicTrajectory::checkPendingModifications()
+  {
+    const std::lock_guard<std::mutex> lock(todo_mutex);
+    return !waypoints_to_be_modified_.empty();
+  };
+
   bool DynamicTrajectory::checkInSecurityZone()
   {
     if (traj_ == nullptr)
-- 
2.43.0


From 54037eb784904a71f0941657cab70e605a4a251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 08/26] fix: takeovers, modifications, evaluations and queries
 are atomic with respect to each other

Concurrent callers could both take the same computed trajectory over (the
second one calling get() on a consumed future), and an evaluation or a query
overlapping a takeover or a modification mixed the old and the new state.
Use the so far unused traj_mutex_ for it.
---
 .../dynamic_trajectory.hpp                    |  2 ++
 src/dynamic_trajectory.cpp                    | 23 +++++++++++++------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index 8553266..0719858 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -137,6 +137,7 @@ class DynamicTrajectory {
     dynamic_traj_generator::DynamicWaypoint::Vector next_trajectory_waypoint;
     // find values that are in t > parameters.last_local_time_evaluated
     // return a vector of waypoints 
+    const std::lock_guard<std::mutex> lock(traj_mutex_);
     parameters_mutex_.lock();
     double t = parameters_.last_global_time_evaluated;
     parameters_mutex_.unlock();
@@ -213,6 +214,7 @@ class DynamicTrajectory {
   bool checkPendingModifications();
 
   bool checkTrajectoryGenerated();
+  void takeOverTrajectoryIfReady();
   bool checkIfTrajectoryIsAlreadyGenerated() { return traj_ != nullptr; };
   void waitUntilTrajectoryIsGenerated() { checkTrajectoryGenerated(); };
 
diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 0da5118..f415116 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -122,6 +122,9 @@ namespace dynamic_traj_generator
     // DYNAMIC_LOG("Evaluating trajectory");
     checkTrajectoryGenerated();
 
+    // one evaluation sees one state: no takeover and no modification in between
+    const std::lock_guard<std::mutex> lock(traj_mutex_);
+
     double global_time = t;
     // double global_time = t - time_constant_;
     double local_time = convertFromGlobalTime(t);
@@ -166,6 +169,7 @@ namespace dynamic_traj_generator
     {
       waitUntilTrajectoryIsGenerated();
     }
+    const std::lock_guard<std::mutex> lock(traj_mutex_);
     return convertIntoGlobalTime(traj_.getMaxTime());
   }
 
@@ -175,12 +179,14 @@ namespace dynamic_traj_generator
     {
       waitUntilTrajectoryIsGenerated();
     }
+    const std::lock_guard<std::mutex> lock(traj_mutex_);
     return convertIntoGlobalTime(traj_.getMinTime());
   }
 
   DynamicWaypoint::Deque DynamicTrajectory::getDynamicWaypoints()
   {
     checkTrajectoryGenerated();
+    const std::lock_guard<std::mutex> lock_traj(traj_mutex_);
     std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
     return dynamic_waypoints_;
   };
@@ -281,6 +287,7 @@ namespace dynamic_traj_generator
       {
         // DYNAMIC_LOG("Modifying waypoints");
         const std::lock_guard<std::mutex> lock(todo_mutex);
+        const std::lock_guard<std::mutex> lock_traj(traj_mutex_);
         for (auto &modification : waypoints_to_be_modified_)
         {
           bool modified = applyWaypointModification(modification.first, modification.second);
@@ -659,16 +666,19 @@ namespace dynamic_traj_generator
 
   bool DynamicTrajectory::checkTrajectoryGenerated()
   {
+    takeOverTrajectoryIfReady();
     while (traj_ == nullptr)
     {
       std::this_thread::sleep_for(std::chrono::milliseconds(10));
-      const std::lock_guard<std::mutex> lock(future_mutex_);
-      if (future_traj_.valid())
-      {
-        future_traj_.wait();
-        break;
-      }
+      takeOverTrajectoryIfReady();
     }
+    return true;
+  }
+
+  void DynamicTrajectory::takeOverTrajectoryIfReady()
+  {
+    // only one caller takes a trajectory over, and the others see it whole
+    const std::lock_guard<std::mutex> lock(traj_mutex_);
 
     // DYNAMIC_LOG("Checking trajectory generated");
     future_mutex_.lock();
@@ -687,7 +697,6 @@ namespace dynamic_traj_generator
         computing_new_trajectory_ = false;
       }
     }
-    return true;
   }
 
   bool DynamicTrajectory::checkTrajectoryModifiers()
-- 
2.43.0


From fd8b97989ac943c90186e36416e1e8185ff78a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 09/26] fix: a failed computation or allocation leaves no mutex
 locked and no request half applied

A computation which throws left future_mutex_ locked and
computing_new_trajectory_ raised for ever; a task which cannot be started
terminated the process; and a failing allocation inside a public call could
drop pending requests, or lose a computed trajectory half way of its takeover.
---
 .../dynamic_trajectory.hpp                    |  6 +-
 src/dynamic_trajectory.cpp                    | 97 ++++++++++++-------
 2 files changed, 68 insertions(+), 35 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index 0719858..fab2d9d 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -87,7 +87,7 @@ class DynamicTrajectory {
   // mav_trajectory_generation::derivative_order::VELOCITY;
 
   ThreadSafeTrajectory traj_;
-  std::future<ThreadSafeTrajectory> future_traj_;
+  std::shared_future<ThreadSafeTrajectory> future_traj_;
 
   const int dimension_ = 3;
   std::atomic_bool from_scratch_ = true;
@@ -219,7 +219,7 @@ class DynamicTrajectory {
   void waitUntilTrajectoryIsGenerated() { checkTrajectoryGenerated(); };
 
   void swapTrajectory();
-  void swapDynamicWaypoints();
+  void swapDynamicWaypoints(DynamicWaypoint::Deque &waypoints);
   void timeFittingWithVehiclePosition(ThreadSafeTrajectory& traj,const Eigen::Vector3d vehicle_position);
   void appendDronePositionWaypoint(DynamicWaypoint::Deque &waypoints);
 
@@ -232,6 +232,8 @@ class DynamicTrajectory {
     return time_constant_;  // LINEAL APROXIMATION
   }
 
+  void addModification(std::vector<std::pair<std::string, Eigen::Vector3d>> &modifications,
+                       const std::string &name, const Eigen::Vector3d &position);
   bool applyWaypointModification(const std::string &name, const Eigen::Vector3d &position);
   ThreadSafeTrajectory computeTrajectory(const DynamicWaypoint::Deque &waypoints,
                                          const bool &lineal_optimization = false);
diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index f415116..c9dec4e 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -61,14 +61,10 @@ namespace dynamic_traj_generator
   {
     const std::lock_guard<std::mutex> lock(todo_mutex);
     DYNAMIC_LOG("Setting waypoints");
-    waypoints_to_be_set_.clear();
+    DynamicWaypoint::Vector new_waypoints(waypoints);
+    waypoints_to_be_set_.swap(new_waypoints);
     waypoints_to_be_modified_.clear();
     waypoints_to_be_added_.clear();
-    waypoints_to_be_set_.reserve(waypoints.size());
-    for (auto &waypoint : waypoints)
-    {
-      waypoints_to_be_set_.emplace_back(waypoint);
-    }
     generate_new_traj_ = true;
   };
 
@@ -85,33 +81,42 @@ namespace dynamic_traj_generator
   {
     const std::lock_guard<std::mutex> lock(todo_mutex);
     DYNAMIC_LOG("Modifying waypoint: ");
+    addModification(waypoints_to_be_modified_, name, position);
+    if (generate_new_traj)
+    {
+      generate_new_traj_ = true;
+    }
+  }
+
+  void DynamicTrajectory::addModification(
+    std::vector<std::pair<std::string, Eigen::Vector3d>> & modifications,
+    const std::string & name, const Eigen::Vector3d & position)
+  {
     // check if the waypoint is already in the waypoints to be modified list
     auto iter = std::find_if(
-      waypoints_to_be_modified_.begin(), waypoints_to_be_modified_.end(),
+      modifications.begin(), modifications.end(),
       [&name](const std::pair<std::string, Eigen::Vector3d> & waypoint)
       {
         return waypoint.first == name;
       });
-    if (iter == waypoints_to_be_modified_.end()) {
-      waypoints_to_be_modified_.emplace_back(name, position);
+    if (iter == modifications.end()) {
+      modifications.emplace_back(name, position);
     } else {
-      iter->first = name;
       iter->second = position;
     }
-    if (generate_new_traj)
-    {
-      generate_new_traj_ = true;
-    }
   }
   
   void DynamicTrajectory::modifyWaypoints(
     const std::vector<std::pair<std::string,
     Eigen::Vector3d>> & waypoints_to_modified)
   {
-    // check if the waypoint is already in the waypoints to be modified list
+    const std::lock_guard<std::mutex> lock(todo_mutex);
+    // all of them or, if one cannot be stored, none
+    auto modifications = waypoints_to_be_modified_;
     for (const auto & waypoint : waypoints_to_modified) {
-      modifyWaypoint(waypoint.first, waypoint.second, false);
+      addModification(modifications, waypoint.first, waypoint.second);
     }
+    waypoints_to_be_modified_.swap(modifications);
     generate_new_traj_ = true;
   }
 
@@ -128,6 +133,9 @@ namespace dynamic_traj_generator
     double global_time = t;
     // double global_time = t - time_constant_;
     double local_time = convertFromGlobalTime(t);
+
+    refs = getReferences(traj_, global_time + parameters_.t_offset,
+                         local_time + parameters_.t_offset, only_positions);
     if (!for_plotting)
     {
       parameters_mutex_.lock();
@@ -135,11 +143,6 @@ namespace dynamic_traj_generator
       parameters_.last_local_time_evaluated = local_time;
       parameters_mutex_.unlock();
     }
-
-    global_time += parameters_.t_offset;
-    local_time += parameters_.t_offset;
-
-    refs = getReferences(traj_, global_time, local_time, only_positions);
     // DYNAMIC_LOG("returning evaluate trajectory");
     return true;
   }
@@ -377,17 +380,42 @@ namespace dynamic_traj_generator
                                              bool force)
   {
     computing_new_trajectory_ = true;
-    std::lock_guard<std::mutex> lock(future_mutex_);
-    future_traj_ =
-        std::async(std::launch::async, &DynamicTrajectory::computeTrajectory, this, waypoints, false);
+    while (!stop_process_)
+    {
+      try
+      {
+        std::lock_guard<std::mutex> lock(future_mutex_);
+        future_traj_ = std::async(std::launch::async, &DynamicTrajectory::computeTrajectory, this,
+                                  waypoints, false);
+        return;
+      }
+      catch (const std::exception &)
+      {
+        // no memory or no thread for it at the moment: try again
+        std::this_thread::sleep_for(std::chrono::milliseconds(10));
+      }
+    }
   };
 
   void DynamicTrajectory::swapTrajectory()
   {
+    std::unique_lock<std::mutex> lock(future_mutex_);
+    ThreadSafeTrajectory new_trajectory;
+    try
+    {
+      new_trajectory = future_traj_.get();
+    }
+    catch (...)
+    {
+      // the computation failed: the caller gets to know why and the next one can start
+      future_traj_ = {};
+      computing_new_trajectory_ = false;
+      throw;
+    }
+    lock.unlock();
 
-    future_mutex_.lock();
-    auto new_trajectory = future_traj_.get();
-    future_mutex_.unlock();
+    // whatever may throw comes first, so that a takeover which fails can be repeated
+    auto new_waypoints = next_trajectory_waypoint_;
 
     if (from_scratch_)
     {
@@ -395,7 +423,6 @@ namespace dynamic_traj_generator
       auto arg1 = vehicle_position_;
       vehicle_position_mutex_.unlock();
       timeFittingWithVehiclePosition(new_trajectory,arg1);
-      from_scratch_ = false;
     }
     else
     {
@@ -417,15 +444,21 @@ namespace dynamic_traj_generator
     parameters_mutex_.unlock();
 
     traj_ = std::move(new_trajectory);
+    swapDynamicWaypoints(new_waypoints);
+    from_scratch_ = false;
+
+    lock.lock();
+    future_traj_ = {};
+    lock.unlock();
 
     trajectory_regenerated_ = true;
     DYNAMIC_LOG("Trajectory swapped");
   };
 
-  void DynamicTrajectory::swapDynamicWaypoints()
+  void DynamicTrajectory::swapDynamicWaypoints(DynamicWaypoint::Deque &waypoints)
   {
     dynamic_waypoints_mutex_.lock();
-    dynamic_waypoints_ = next_trajectory_waypoint_;
+    dynamic_waypoints_.swap(waypoints);
     dynamic_waypoints_mutex_.unlock();
     DYNAMIC_LOG("Waypoints swapped");
   }
@@ -451,7 +484,7 @@ namespace dynamic_traj_generator
 
     if (global_time > 0)
     {
-      dynamic_waypoints_mutex_.lock();
+      const std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
       for (auto &waypoint : dynamic_waypoints_)
       {
         if (waypoint.getName() == "")
@@ -460,7 +493,6 @@ namespace dynamic_traj_generator
         }
         refs += waypoint.trajectoryCompensation(global_time, order);
       }
-      dynamic_waypoints_mutex_.unlock();
     }
     return refs;
   }
@@ -693,7 +725,6 @@ namespace dynamic_traj_generator
       if (traj_ready)
       {
         swapTrajectory();
-        swapDynamicWaypoints();
         computing_new_trajectory_ = false;
       }
     }
-- 
2.43.0


From 11ca18efdf212ce60e10aab9385da34bdba828ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 10/26] fix: a modification applied in place also reaches the
 pending set and append requests

---
 src/dynamic_trajectory.cpp | 41 +++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index c9dec4e..620016c 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -53,6 +53,25 @@ namespace dynamic_traj_generator
     }
   };
 
+  template <class Waypoints>
+  static void resetWaypointThroughDeque(Waypoints &waypoints, const std::string &name,
+                                        const Eigen::Vector3d &position)
+  {
+    if (name == "")
+    {
+      return;
+    }
+    for (auto &waypoint : waypoints)
+    {
+      if (waypoint.getName() == name)
+      {
+        DYNAMIC_LOG("reseting waypoint ");
+        DYNAMIC_LOG(name);
+        waypoint.resetWaypoint(position);
+      }
+    }
+  };
+
   /******************************************************************************/
   /***************************** PUBLIC INTERFACE *******************************/
   /******************************************************************************/
@@ -294,6 +313,10 @@ namespace dynamic_traj_generator
         for (auto &modification : waypoints_to_be_modified_)
         {
           bool modified = applyWaypointModification(modification.first, modification.second);
+          // the waypoint may (also) be in a request which waits for its generation
+          resetWaypointThroughDeque(waypoints_to_be_set_, modification.first, modification.second);
+          resetWaypointThroughDeque(waypoints_to_be_added_, modification.first,
+                                    modification.second);
         }
         waypoints_to_be_modified_.clear();
       }
@@ -583,24 +606,6 @@ namespace dynamic_traj_generator
     }
   }
 
-  void resetWaypointThroughDeque(DynamicWaypoint::Deque &waypoints, const std::string &name,
-                                 const Eigen::Vector3d &position)
-  {
-    if (name == "")
-    {
-      return;
-    }
-    for (auto &waypoint : waypoints)
-    {
-      if (waypoint.getName() == name)
-      {
-        DYNAMIC_LOG("reseting waypoint ");
-        DYNAMIC_LOG(name);
-        waypoint.resetWaypoint(position);
-      }
-    }
-  };
-
   void DynamicTrajectory::filterPassedWaypoints(DynamicWaypoint::Deque &waypoints)
   {
     parameters_mutex_.lock();
-- 
2.43.0


From aaf7cc4e8ddb6805c391cea4b0672b62d6270119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 11/26] fix: in-place modifications are faded in from the point
 the reference is at

The reference runs t_offset ahead of the evaluated time.
---
 src/dynamic_trajectory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 620016c..8791eab 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -530,7 +530,8 @@ namespace dynamic_traj_generator
       if (waypoint.getName() == name && waypoint.getName() != "")
       {
         const std::lock_guard<std::mutex> lock3(parameters_mutex_);
-        waypoint.setCurrentPosition(position, parameters_.last_global_time_evaluated);
+        waypoint.setCurrentPosition(
+            position, parameters_.last_global_time_evaluated + parameters_.t_offset);
         modified = true;
         trajectory_regenerated_ = true;
       }
-- 
2.43.0


From 9f444152eda72c063ebe7cb7e72b20b2941da82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 12/26] fix: the time fitting of a new trajectory does not
 apply the modifiers of the old one

---
 src/dynamic_trajectory.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 8791eab..89badb4 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -793,15 +793,14 @@ namespace dynamic_traj_generator
     const double max_eval_time = 1.5 * TRAJECTORY_COMPUTATION_TIME;
 
     double min_time = 0.0f;
-    double global_time = min_time + new_parameters_.global_time_last_trajectory_generated;
-    auto pos = evaluateModifiedTrajectory(traj, global_time, min_time, 0);
+    // the new trajectory is evaluated as it is: the modifiers in force belong to the old one
+    Eigen::Vector3d pos = traj.evaluate(min_time, 0);
 
     double min_distance = (pos - vehicle_position).norm();
 
     for (double t = step; t < max_eval_time; t += step)
     {
-    double global_t = t + new_parameters_.global_time_last_trajectory_generated;
-    auto pos = evaluateModifiedTrajectory(traj, global_t, t, 0);
+    Eigen::Vector3d pos = traj.evaluate(std::min(t, traj.getMaxTime()), 0);
       // pos = evaluateModifiedTrajectory(traj, global_t, t, 0);
       double distance = (pos - vehicle_position).norm();
       if (distance <= min_distance)
-- 
2.43.0


From 2a8204dd70d4ecc62f1052dff050b568a9501191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 13/26] fix: the reference holds the modified last waypoint
 after the end, at rest

The modifiers kept fading with the unclamped time, and the acceleration of the
end point was returned for ever.
---
 src/dynamic_trajectory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 89badb4..004f8bb 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -494,13 +494,15 @@ namespace dynamic_traj_generator
     Eigen::Vector3d refs;
     if (local_time < 0.0f)
     {
+      global_time -= local_time;
       local_time = 0.0f;
       DYNAMIC_LOG("[WARN] Time out of bounds");
     }
     if (local_time > traj.getMaxTime())
     {
+      global_time -= local_time - traj.getMaxTime();
       local_time = traj.getMaxTime();
-      // if (order > 0) return Eigen::Vector3d::Zero();
+      if (order > 0) return Eigen::Vector3d::Zero();
     }
 
     refs = traj.evaluate(local_time, order);
-- 
2.43.0


From 06df8efd3430b66f1b21cab728b21d73dadf27e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 14/26] fix: a regeneration keeps every waypoint which is still
 ahead

Stitching dropped the waypoints between the second stitching point and one
more step behind it, and new requests made of waypoints which carried a time.
A waypoint counts as reached by the same clock as the reference, from the
snapshot of the evaluated time the new trajectory is based on; if the first
one kept comes before the second stitching point, that point is left out.
---
 src/dynamic_trajectory.cpp | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 004f8bb..7b6bded 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -279,9 +279,8 @@ namespace dynamic_traj_generator
           continue;
         }
         parameters_mutex_.lock();
-        new_parameters_ = parameters_;
         new_parameters_.global_time_last_trajectory_generated =
-            parameters_.last_global_time_evaluated;
+            new_parameters_.last_global_time_evaluated;
         parameters_mutex_.unlock();
 
         DYNAMIC_LOG("generate new trajectory");
@@ -570,6 +569,12 @@ namespace dynamic_traj_generator
       }
       else
       {
+        // a waypoint which is reached before this point says better where to go
+        if (!waypoints.empty() && waypoints.front().getTime() > 0.0f &&
+            waypoints.front().getTime() <= convertIntoGlobalTime(local_eval_t))
+        {
+          break;
+        }
         // references = getReferences(traj_, convertIntoGlobalTime(local_eval_t), local_eval_t, true);
         references = getReferences(traj_, convertIntoGlobalTime(local_eval_t), local_eval_t);
         for (int i = 0; i < 1; i++)
@@ -588,13 +593,8 @@ namespace dynamic_traj_generator
     }
     // append the rest of the waypoints
 
-    double global_eval_t = convertIntoGlobalTime(local_eval_t);
     for (auto &waypoint : waypoints)
     {
-      if (waypoint.getTime() < global_eval_t && waypoint.getTime() > 0.0f)
-      {
-        continue;
-      }
       new_waypoints.emplace_back(waypoint);
     }
     /* std::this_thread::sleep_for(std::chrono::milliseconds(1000)); */
@@ -611,12 +611,14 @@ namespace dynamic_traj_generator
 
   void DynamicTrajectory::filterPassedWaypoints(DynamicWaypoint::Deque &waypoints)
   {
-    parameters_mutex_.lock();
-    double last_t_eval = parameters_.last_global_time_evaluated;
-    parameters_mutex_.unlock();
+    // the reference runs t_offset ahead of the evaluated time, and the start of a trajectory counts
+    // as reached, as does what an earlier stitching inserted
+    double last_t_eval =
+        std::max(new_parameters_.last_global_time_evaluated + new_parameters_.t_offset,
+                 new_parameters_.global_time_last_trajectory_generated);
     for (auto it = waypoints.begin(); it != waypoints.end();)
     {
-      if (it->getTime() < last_t_eval) // && it->getTime() != 0.0f)
+      if (it->getTime() <= last_t_eval || it->getName() == "stitching_point")
       {
         DYNAMIC_LOG("Removing waypoint ");
         it = waypoints.erase(it);
@@ -632,6 +634,12 @@ namespace dynamic_traj_generator
   {
     DYNAMIC_LOG("Generating waypoints for the next trajectory");
     const std::lock_guard<std::mutex> lock(todo_mutex);
+
+    // the new trajectory starts where the reference is now, and keeps what is ahead of it
+    parameters_mutex_.lock();
+    new_parameters_ = parameters_;
+    parameters_mutex_.unlock();
+
     DynamicWaypoint::Deque next_trajectory_waypoints;
     if (waypoints_to_be_set_.size() == 0)
     {
@@ -647,11 +655,15 @@ namespace dynamic_traj_generator
     else
     {
       for (auto &waypoint : waypoints_to_be_set_)
+      {
         next_trajectory_waypoints.emplace_back(waypoint);
+        next_trajectory_waypoints.back().setTime(0.0f);
+      }
     }
     for (auto &waypoint : waypoints_to_be_added_)
     {
       next_trajectory_waypoints.emplace_back(waypoint);
+      next_trajectory_waypoints.back().setTime(0.0f);
     }
     for (auto &waypoint : waypoints_to_be_modified_)
     {
@@ -761,7 +773,7 @@ namespace dynamic_traj_generator
       return false;
     const std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
     parameters_mutex_.lock();
-    double last_t_eval = parameters_.last_global_time_evaluated;
+    double last_t_eval = parameters_.last_global_time_evaluated + parameters_.t_offset;
     parameters_mutex_.unlock();
     for (auto &waypoint : dynamic_waypoints_)
     {
-- 
2.43.0


From 904084e67f74eaff72d5e5bd095c25a33024f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 15/26] fix: a waypoint which the reference has passed is not
 modified any more

Its published position changed and a regeneration was notified, while the
trajectory cannot be changed behind the reference.
---
 src/dynamic_trajectory.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 7b6bded..61455b3 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -531,8 +531,12 @@ namespace dynamic_traj_generator
       if (waypoint.getName() == name && waypoint.getName() != "")
       {
         const std::lock_guard<std::mutex> lock3(parameters_mutex_);
-        waypoint.setCurrentPosition(
-            position, parameters_.last_global_time_evaluated + parameters_.t_offset);
+        const double t_reference = parameters_.last_global_time_evaluated + parameters_.t_offset;
+        if (waypoint.getTime() <= t_reference)
+        {
+          continue;
+        }
+        waypoint.setCurrentPosition(position, t_reference);
         modified = true;
         trajectory_regenerated_ = true;
       }
-- 
2.43.0


From 3ac6b03c58aaea6420ac63b06cd978d21fc05a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 16/26] fix: a failing allocation in the background thread does
 not terminate the process

The requests stay pending until the computation can be started, and the
background thread tries again.
---
 .../dynamic_trajectory.hpp                    |   1 +
 src/dynamic_trajectory.cpp                    | 105 ++++++++++--------
 src/dynamic_waypoint.cpp                      |   1 +
 3 files changed, 62 insertions(+), 45 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index fab2d9d..e6487b3 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -260,6 +260,7 @@ class DynamicTrajectory {
   DynamicWaypoint::Deque stitchActualTrajectoryWithNewWaypoints(
       double last_t_evaluated, const DynamicWaypoint::Deque &waypoints);
   DynamicWaypoint::Deque generateWaypointsForTheNextTrajectory();
+  void takePendingRequests();
 };
 
 }  // namespace dynamic_traj_generator
diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 61455b3..94b90e9 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -267,59 +267,71 @@ namespace dynamic_traj_generator
   {
     while (!stop_process_)
     {
-      if (generate_new_traj_ && checkIfTrajectoryCanBeGenerated())
+      try
       {
-        next_trajectory_waypoint_ = generateWaypointsForTheNextTrajectory();
-        if (next_trajectory_waypoint_.size() == 0)
-        // ||
-        //   (next_trajectory_waypoint_.size() == 1 && !checkStitchTrajectory()))
+        if (generate_new_traj_ && checkIfTrajectoryCanBeGenerated())
         {
-          DYNAMIC_LOG("No waypoints to generate a new trajectory");
-          computing_new_trajectory_ = false;
-          continue;
+          // the requests stay pending until nothing more can fail
+          std::unique_lock<std::mutex> lock(todo_mutex);
+          next_trajectory_waypoint_ = generateWaypointsForTheNextTrajectory();
+          if (next_trajectory_waypoint_.size() == 0)
+          // ||
+          //   (next_trajectory_waypoint_.size() == 1 && !checkStitchTrajectory()))
+          {
+            DYNAMIC_LOG("No waypoints to generate a new trajectory");
+            takePendingRequests();
+            computing_new_trajectory_ = false;
+            continue;
+          }
+          parameters_mutex_.lock();
+          new_parameters_.global_time_last_trajectory_generated =
+              new_parameters_.last_global_time_evaluated;
+          parameters_mutex_.unlock();
+
+          DYNAMIC_LOG("generate new trajectory");
+          time_measure_mutex_.lock();
+          inital_time_traj_generation_ = std::chrono::steady_clock::now();
+          time_measure_mutex_.unlock();
+
+          if (checkStitchTrajectory())
+          {
+            from_scratch_ = false;
+            DYNAMIC_LOG("stitching new trajectory");
+            next_trajectory_waypoint_ = stitchActualTrajectoryWithNewWaypoints(
+                new_parameters_.last_local_time_evaluated, next_trajectory_waypoint_);
+          }
+          else
+          {
+            DYNAMIC_LOG("Trajectory by scratch");
+            from_scratch_ = true;
+            appendDronePositionWaypoint(next_trajectory_waypoint_);
+          }
+          takePendingRequests();
+          lock.unlock();
+          generateTrajectory(next_trajectory_waypoint_, false);
         }
-        parameters_mutex_.lock();
-        new_parameters_.global_time_last_trajectory_generated =
-            new_parameters_.last_global_time_evaluated;
-        parameters_mutex_.unlock();
 
-        DYNAMIC_LOG("generate new trajectory");
-        time_measure_mutex_.lock();
-        inital_time_traj_generation_ = std::chrono::steady_clock::now();
-        time_measure_mutex_.unlock();
-
-        if (checkStitchTrajectory())
+        else if (checkPendingModifications() && !computing_new_trajectory_)
         {
-          from_scratch_ = false;
-          DYNAMIC_LOG("stitching new trajectory");
-          next_trajectory_waypoint_ = stitchActualTrajectoryWithNewWaypoints(
-              new_parameters_.last_local_time_evaluated, next_trajectory_waypoint_);
+          // DYNAMIC_LOG("Modifying waypoints");
+          const std::lock_guard<std::mutex> lock(todo_mutex);
+          const std::lock_guard<std::mutex> lock_traj(traj_mutex_);
+          for (auto &modification : waypoints_to_be_modified_)
+          {
+            bool modified = applyWaypointModification(modification.first, modification.second);
+            // the waypoint may (also) be in a request which waits for its generation
+            resetWaypointThroughDeque(waypoints_to_be_set_, modification.first, modification.second);
+            resetWaypointThroughDeque(waypoints_to_be_added_, modification.first,
+                                      modification.second);
+          }
+          waypoints_to_be_modified_.clear();
         }
         else
         {
-          DYNAMIC_LOG("Trajectory by scratch");
-          from_scratch_ = true;
-          appendDronePositionWaypoint(next_trajectory_waypoint_);
+          std::this_thread::sleep_for(std::chrono::milliseconds(10));
         }
-        generateTrajectory(next_trajectory_waypoint_, false);
       }
-
-      else if (checkPendingModifications() && !computing_new_trajectory_)
-      {
-        // DYNAMIC_LOG("Modifying waypoints");
-        const std::lock_guard<std::mutex> lock(todo_mutex);
-        const std::lock_guard<std::mutex> lock_traj(traj_mutex_);
-        for (auto &modification : waypoints_to_be_modified_)
-        {
-          bool modified = applyWaypointModification(modification.first, modification.second);
-          // the waypoint may (also) be in a request which waits for its generation
-          resetWaypointThroughDeque(waypoints_to_be_set_, modification.first, modification.second);
-          resetWaypointThroughDeque(waypoints_to_be_added_, modification.first,
-                                    modification.second);
-        }
-        waypoints_to_be_modified_.clear();
-      }
-      else
+      catch (const std::bad_alloc &)
       {
         std::this_thread::sleep_for(std::chrono::milliseconds(10));
       }
@@ -637,7 +649,6 @@ namespace dynamic_traj_generator
   DynamicWaypoint::Deque DynamicTrajectory::generateWaypointsForTheNextTrajectory()
   {
     DYNAMIC_LOG("Generating waypoints for the next trajectory");
-    const std::lock_guard<std::mutex> lock(todo_mutex);
 
     // the new trajectory starts where the reference is now, and keeps what is ahead of it
     parameters_mutex_.lock();
@@ -673,6 +684,11 @@ namespace dynamic_traj_generator
     {
       resetWaypointThroughDeque(next_trajectory_waypoints, waypoint.first, waypoint.second);
     }
+    return next_trajectory_waypoints;
+  }
+
+  void DynamicTrajectory::takePendingRequests()
+  {
     waypoints_to_be_set_.clear();
     waypoints_to_be_added_.clear();
     waypoints_to_be_modified_.clear();
@@ -680,7 +696,6 @@ namespace dynamic_traj_generator
     // computing_new_trajectory_ is raised first so that both flags are never down meanwhile
     computing_new_trajectory_ = true;
     generate_new_traj_ = false;
-    return next_trajectory_waypoints;
   }
 
   void DynamicTrajectory::appendDronePositionWaypoint(DynamicWaypoint::Deque &waypoints)
diff --git a/src/dynamic_waypoint.cpp b/src/dynamic_waypoint.cpp
index 5d62c87..ebae618 100644
--- a/src/dynamic_waypoint.cpp
+++ b/src/dynamic_waypoint.cpp
@@ -33,6 +33,7 @@ namespace dynamic_traj_generator
   void DynamicWaypoint::setCurrentPosition(Eigen::Vector3d position, double actual_time)
   {
 
+    modifiers_.reserve(modifiers_.size() + 1);
     vertex_.addConstraint(0, position);
     std::array<GaussianModifier, 3> modifiers;
     for (int i = 0; i < 3; i++)
-- 
2.43.0


From 5972351447cc17ca044eb30253a3b47acce02245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 17/26] fix: segment times survive saving and loading without
 losing a nanosecond

---
 .../include/mav_trajectory_generation/segment.h                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h
index ccd5645..05d2b0b 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h
@@ -24,6 +24,7 @@
 #include <glog/logging.h>
 #include <Eigen/Core>
 #include <chrono>
+#include <cmath>
 #include <map>
 #include <vector>
 
@@ -56,7 +57,7 @@ class Segment {
   int N() const { return N_; }
   double getTime() const { return time_; }
   uint64_t getTimeNSec() const {
-    return static_cast<uint64_t>(kNumNSecPerSec * time_);
+    return static_cast<uint64_t>(std::llround(kNumNSecPerSec * time_));
   }
 
   void setTime(double time_sec) { time_ = time_sec; }
-- 
2.43.0


From fef7fb9b3225418b7dd084d840d941e3490dfdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 18/26] fix: saving reports every error and replaces a file at
 once, loading reports read errors

---
 .../include/mav_trajectory_generation/io.h    |  6 +-
 .../mav_trajectory_generation/src/io.cpp      | 99 +++++++++++++++----
 2 files changed, 82 insertions(+), 23 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
index b3ca603..270235e 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
@@ -57,9 +57,11 @@ inline bool trajectoryFromFile(
     const std::string& filename,
     mav_trajectory_generation::Trajectory* trajectory) {
   mav_trajectory_generation::Segment::Vector segments;
-  bool success = segmentsFromFile(filename, &segments);
+  if (!segmentsFromFile(filename, &segments)) {
+    return false;
+  }
   trajectory->setSegments(segments);
-  return success;
+  return true;
 }
 
 bool sampledTrajectoryStatesToFile(const std::string& filename,
diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index bfa5159..88438ae 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -21,8 +21,13 @@
 #include "mav_trajectory_generation/io.h"
 #include "mav_trajectory_generation/trajectory_sampling.h"
 
+#include <fcntl.h>
+#include <unistd.h>
 #include <yaml-cpp/yaml.h>
-#include <fstream>
+#include <atomic>
+#include <cerrno>
+#include <cstdio>
+#include <sstream>
 
 const std::string kSegmentsKey = "segments";
 const std::string kNumCoefficientsKey = "N";
@@ -32,6 +37,69 @@ const std::string kCoefficientsKey = "coefficients";
 
 namespace mav_trajectory_generation {
 
+namespace {
+
+bool writeAll(int fd, const std::string& contents) {
+  size_t written = 0;
+  while (written < contents.size()) {
+    const ssize_t n =
+        ::write(fd, contents.data() + written, contents.size() - written);
+    if (n < 0) {
+      if (errno == EINTR) continue;
+      return false;
+    }
+    written += n;
+  }
+  return true;
+}
+
+// Writes contents to a temporary file beside filename and renames it once
+// everything has reached the disk: whatever happens meanwhile, filename holds
+// either its old or its new contents. Returns false if anything failed.
+bool replaceFile(const std::string& filename, const std::string& contents) {
+  static std::atomic<unsigned> counter(0);
+  std::string temporary;
+  int fd = -1;
+  do {
+    temporary = filename + ".tmp" + std::to_string(::getpid()) + "_" +
+                std::to_string(counter++);
+    fd = ::open(temporary.c_str(), O_WRONLY | O_CREAT | O_EXCL | O_CLOEXEC,
+                0666);
+  } while (fd < 0 && (errno == EEXIST || errno == EINTR));
+  if (fd < 0) {
+    return false;
+  }
+  bool success = writeAll(fd, contents) && ::fsync(fd) == 0;
+  success = ::close(fd) == 0 && success;
+  success = success && std::rename(temporary.c_str(), filename.c_str()) == 0;
+  if (!success) {
+    ::unlink(temporary.c_str());
+  }
+  return success;
+}
+
+// Returns false if the file can not be read to its end.
+bool readFile(const std::string& filename, std::string* contents) {
+  int fd = -1;
+  do {
+    fd = ::open(filename.c_str(), O_RDONLY | O_CLOEXEC);
+  } while (fd < 0 && errno == EINTR);
+  if (fd < 0) {
+    return false;
+  }
+  contents->clear();
+  char buffer[4096];
+  ssize_t n = 0;
+  do {
+    n = ::read(fd, buffer, sizeof(buffer));
+    if (n > 0) contents->append(buffer, n);
+  } while (n > 0 || (n < 0 && errno == EINTR));
+  ::close(fd);
+  return n == 0;
+}
+
+}  // namespace
+
 YAML::Node coefficientsToYaml(const Eigen::VectorXd& coefficients) {
   YAML::Node node(YAML::NodeType::Sequence);
   for (size_t i = 0; i < coefficients.size(); ++i)
@@ -156,29 +224,23 @@ bool segmentsToFile(
   out << YAML::EndMap;
 
   // Write to file.
-  std::ofstream fout(filename);
-  if (!fout) {
-    return false;
-  }
-  fout << out.c_str();
-  fout.close();
-
-  return true;
+  return replaceFile(filename, out.c_str());
 }
 
 bool segmentsFromFile(const std::string& filename,
                       mav_trajectory_generation::Segment::Vector* segments) {
   CHECK_NOTNULL(segments);
 
+  segments->clear();
+
   // Check file exists and is readable.
-  std::ifstream in(filename);
-  if (!in.good()) {
+  std::string contents;
+  if (!readFile(filename, &contents)) {
     return false;
   }
-  segments->clear();
 
   // Parse YAML.
-  YAML::Node node = YAML::LoadFile(filename);
+  YAML::Node node = YAML::Load(contents);
 
   if (node[kSegmentsKey]) {
     const YAML::Node& segments_yaml = node[kSegmentsKey];
@@ -268,14 +330,9 @@ bool sampledTrajectoryStatesToFile(const std::string& filename,
     output(j, 2 + 8 * dim) = current_segment_time;
   }
 
-  std::fstream fs;
-  fs.open(filename, std::fstream::out);
-  if (!fs) {
-    return false;
-  }
-  fs << output;
-  fs.close();
-  return true;
+  std::ostringstream stream;
+  stream << output;
+  return replaceFile(filename, stream.str());
 }
 
 }  // namespace mav_trajectory_generation
-- 
2.43.0


From c9fe56dbae63cb3bb23dba968400bf6b7f1c4a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 19/26] fix: saving the samples of a trajectory with less
 samples than segments

---
 subpackages/mav_trajectory_generation/src/io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index 88438ae..f1e0a46 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -324,6 +324,12 @@ bool sampledTrajectoryStatesToFile(const std::string& filename,
   mav_trajectory_generation::Segment::Vector segments;
   trajectory.getSegments(&segments);
   double current_segment_time = 0.0;
+  if (output.rows() < static_cast<Eigen::Index>(segments.size())) {
+    // Very short segments: there may be less samples than segments.
+    const Eigen::Index samples = output.rows();
+    output.conservativeResize(segments.size(), Eigen::NoChange);
+    output.bottomRows(segments.size() - samples).setZero();
+  }
   for (int j = 0; j < segments.size(); ++j) {
     double segment_time = segments[j].getTime();
     current_segment_time += segment_time;
-- 
2.43.0


From ed07c2b750e3787cd355b72d43714e9263e6029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 20/26] fix: timers measure with a clock which does not jump

---
 .../include/mav_trajectory_generation/timing.h       | 12 ++++++------
 subpackages/mav_trajectory_generation/src/timing.cpp |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
index f30305d..e4bf65b 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
@@ -132,7 +132,7 @@ class Timer {
   bool IsTiming() const;
 
  private:
-  std::chrono::time_point<std::chrono::system_clock> time_;
+  std::chrono::time_point<std::chrono::steady_clock> time_;
 
   bool timing_;
   size_t handle_;
@@ -189,14 +189,14 @@ typedef Timer DebugTimer;
 // Small timer for benchmarking.
 class MiniTimer {
  public:
-  MiniTimer() : start_(std::chrono::system_clock::now()) {}
+  MiniTimer() : start_(std::chrono::steady_clock::now()) {}
 
   void start() {
-    start_ = std::chrono::system_clock::now();
+    start_ = std::chrono::steady_clock::now();
   }
 
   double stop() {
-    end_ = std::chrono::system_clock::now();
+    end_ = std::chrono::steady_clock::now();
     return getTime();
   }
 
@@ -209,8 +209,8 @@ class MiniTimer {
   }
 
  private:
-  std::chrono::time_point<std::chrono::system_clock> start_;
-  std::chrono::time_point<std::chrono::system_clock> end_;
+  std::chrono::time_point<std::chrono::steady_clock> start_;
+  std::chrono::time_point<std::chrono::steady_clock> end_;
 };
 
 }  // namespace timing
diff --git a/subpackages/mav_trajectory_generation/src/timing.cpp b/subpackages/mav_trajectory_generation/src/timing.cpp
index 479ad7d..0c90b15 100644
--- a/subpackages/mav_trajectory_generation/src/timing.cpp
+++ b/subpackages/mav_trajectory_generation/src/timing.cpp
@@ -89,12 +89,12 @@ Timer::~Timer() {
 
 void Timer::Start() {
   timing_ = true;
-  time_ = std::chrono::system_clock::now();
+  time_ = std::chrono::steady_clock::now();
 }
 
 void Timer::Stop() {
-  std::chrono::time_point<std::chrono::system_clock> now =
-      std::chrono::system_clock::now();
+  std::chrono::time_point<std::chrono::steady_clock> now =
+      std::chrono::steady_clock::now();
   double dt = std::chrono::duration<double>(now - time_).count();
 
   Timing::Instance().AddTime(handle_, dt);
-- 
2.43.0


From bc4ab61155e79f9c69678f27ff62111f53945ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 21/26] fix: the maximum of an accumulator of null samples

---
 .../mav_trajectory_generation/timing.h        | 219 ------------------
 1 file changed, 219 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
index e4bf65b..e69de29 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
@@ -1,219 +0,0 @@
-/*
- * Copyright (c) 2016, Markus Achtelik, ASL, ETH Zurich, Switzerland
- * Copyright (c) 2016, Michael Burri, ASL, ETH Zurich, Switzerland
- * Copyright (c) 2016, Helen Oleynikova, ASL, ETH Zurich, Switzerland
- * Copyright (c) 2016, Rik Bähnemann, ASL, ETH Zurich, Switzerland
- * Copyright (c) 2016, Marija Popovic, ASL, ETH Zurich, Switzerland
- *
- * Licensed under the Apache License, Version 2.0 (the "License");
- * you may not use this file except in compliance with the License.
- * You may obtain a copy of the License at
- *
- * http://www.apache.org/licenses/LICENSE-2.0
- *
- * Unless required by applicable law or agreed to in writing, software
- * distributed under the License is distributed on an "AS IS" BASIS,
- * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
- * See the License for the specific language governing permissions and
- * limitations under the License.
- */
-
-/* Adapted from Paul Furgale Schweizer Messer sm_timing */
-
-#ifndef MAV_TRAJECTORY_GENERATION_TIMING_H_
-#define MAV_TRAJECTORY_GENERATION_TIMING_H_
-
-#include <algorithm>
-#include <chrono>
-#include <limits>
-#include <map>
-#include <string>
-#include <vector>
-
-namespace mav_trajectory_generation {
-namespace timing {
-
-template <typename T, typename Total, int N>
-class Accumulator {
- public:
-  Accumulator()
-      : window_samples_(0),
-        total_samples_(0),
-        window_sum_(0),
-        sum_(0),
-        min_(std::numeric_limits<T>::max()),
-        max_(std::numeric_limits<T>::min()) {}
-
-  void Add(T sample) {
-    if (window_samples_ < N) {
-      samples_[window_samples_++] = sample;
-      window_sum_ += sample;
-    } else {
-      T& oldest = samples_[window_samples_++ % N];
-      window_sum_ += sample - oldest;
-      oldest = sample;
-    }
-    sum_ += sample;
-    ++total_samples_;
-    if (sample > max_) {
-      max_ = sample;
-    }
-    if (sample < min_) {
-      min_ = sample;
-    }
-  }
-
-  int TotalSamples() const { return total_samples_; }
-
-  double Sum() const { return sum_; }
-
-  double Mean() const { return sum_ / total_samples_; }
-
-  double RollingMean() const {
-    return window_sum_ / std::min(window_samples_, N);
-  }
-
-  double Max() const { return max_; }
-
-  double Min() const { return min_; }
-
-  double LazyVariance() const {
-    if (window_samples_ == 0) {
-      return 0.0;
-    }
-    double var = 0;
-    double mean = RollingMean();
-    for (int i = 0; i < std::min(window_samples_, N); ++i) {
-      var += (samples_[i] - mean) * (samples_[i] - mean);
-    }
-    var /= std::min(window_samples_, N);
-    return var;
-  }
-
- private:
-  int window_samples_;
-  int total_samples_;
-  Total window_sum_;
-  Total sum_;
-  T min_;
-  T max_;
-  T samples_[N];
-};
-
-struct TimerMapValue {
-  TimerMapValue() {}
-
-  // Create an accumulator with specified window size.
-  Accumulator<double, double, 50> acc_;
-};
-
-// A class that has the timer interface but does nothing. Swapping this in in
-// place of the Timer class (say with a typedef) should allow one to disable
-// timing. Because all of the functions are inline, they should just disappear.
-class DummyTimer {
- public:
-  DummyTimer(size_t /*handle*/, bool /*constructStopped*/ = false) {}
-  DummyTimer(std::string const& /*tag*/, bool /*constructStopped*/ = false) {}
-  ~DummyTimer() {}
-
-  void Start() {}
-  void Stop() {}
-  bool IsTiming() { return false; }
-};
-
-class Timer {
- public:
-  Timer(size_t handle, bool constructStopped = false);
-  Timer(std::string const& tag, bool constructStopped = false);
-  ~Timer();
-
-  void Start();
-  void Stop();
-  bool IsTiming() const;
-
- private:
-  std::chrono::time_point<std::chrono::steady_clock> time_;
-
-  bool timing_;
-  size_t handle_;
-};
-
-class Timing {
- public:
-  typedef std::map<std::string, size_t> map_t;
-  friend class Timer;
-  // Definition of static functions to query the timers.
-  static size_t GetHandle(std::string const& tag);
-  static std::string GetTag(size_t handle);
-  static double GetTotalSeconds(size_t handle);
-  static double GetTotalSeconds(std::string const& tag);
-  static double GetMeanSeconds(size_t handle);
-  static double GetMeanSeconds(std::string const& tag);
-  static size_t GetNumSamples(size_t handle);
-  static size_t GetNumSamples(std::string const& tag);
-  static double GetVarianceSeconds(size_t handle);
-  static double GetVarianceSeconds(std::string const& tag);
-  static double GetMinSeconds(size_t handle);
-  static double GetMinSeconds(std::string const& tag);
-  static double GetMaxSeconds(size_t handle);
-  static double GetMaxSeconds(std::string const& tag);
-  static double GetHz(size_t handle);
-  static double GetHz(std::string const& tag);
-  static void Print(std::ostream& out);
-  static std::string Print();
-  static std::string SecondsToTimeString(double seconds);
-  static void Reset();
-  static const map_t& GetTimers() { return Instance().tag_map_; }
-
- private:
-  void AddTime(size_t handle, double seconds);
-
-  static Timing& Instance();
-
-  Timing();
-  ~Timing();
-
-  typedef std::vector<TimerMapValue> list_t;
-
-  list_t timers_;
-  map_t tag_map_;
-  size_t max_tag_length_;
-};
-
-#if DISABLE_TIMING
-typedef DummyTimer DebugTimer;
-#else
-typedef Timer DebugTimer;
-#endif
-
-// Small timer for benchmarking.
-class MiniTimer {
- public:
-  MiniTimer() : start_(std::chrono::steady_clock::now()) {}
-
-  void start() {
-    start_ = std::chrono::steady_clock::now();
-  }
-
-  double stop() {
-    end_ = std::chrono::steady_clock::now();
-    return getTime();
-  }
-
-  double getTime() const {
-    if (end_ < start_) {
-      return 0.0;
-    }
-    std::chrono::duration<double> duration = end_ - start_;
-    return duration.count();
-  }
-
- private:
-  std::chrono::time_point<std::chrono::steady_clock> start_;
-  std::chrono::time_point<std::chrono::steady_clock> end_;
-};
-
-}  // namespace timing
-}  // namespace mav_trajectory_generation
-
-#endif  // MAV_TRAJECTORY_GENERATION_TIMING_H_
-- 
2.43.0


From 5aeb5eeb046254912dc9550f19b19bcac9c9c5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 22/26] fix: timers may run in several threads

---
 .../mav_trajectory_generation/timing.h        | 225 ++++++++++++++++++
 .../mav_trajectory_generation/src/timing.cpp  |  41 +++-
 2 files changed, 256 insertions(+), 10 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
index e69de29..d90be8e 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
@@ -0,0 +1,225 @@
+/*
+ * Copyright (c) 2016, Markus Achtelik, ASL, ETH Zurich, Switzerland
+ * Copyright (c) 2016, Michael Burri, ASL, ETH Zurich, Switzerland
+ * Copyright (c) 2016, Helen Oleynikova, ASL, ETH Zurich, Switzerland
+ * Copyright (c) 2016, Rik Bähnemann, ASL, ETH Zurich, Switzerland
+ * Copyright (c) 2016, Marija Popovic, ASL, ETH Zurich, Switzerland
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ * http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+/* Adapted from Paul Furgale Schweizer Messer sm_timing */
+
+#ifndef MAV_TRAJECTORY_GENERATION_TIMING_H_
+#define MAV_TRAJECTORY_GENERATION_TIMING_H_
+
+#include <algorithm>
+#include <chrono>
+#include <limits>
+#include <map>
+#include <mutex>
+#include <string>
+#include <vector>
+
+namespace mav_trajectory_generation {
+namespace timing {
+
+template <typename T, typename Total, int N>
+class Accumulator {
+ public:
+  Accumulator()
+      : window_samples_(0),
+        total_samples_(0),
+        window_sum_(0),
+        sum_(0),
+        min_(std::numeric_limits<T>::max()),
+        max_(std::numeric_limits<T>::lowest()) {}
+
+  void Add(T sample) {
+    if (window_samples_ < N) {
+      samples_[window_samples_++] = sample;
+      window_sum_ += sample;
+    } else {
+      T& oldest = samples_[window_samples_++ % N];
+      window_sum_ += sample - oldest;
+      oldest = sample;
+    }
+    sum_ += sample;
+    ++total_samples_;
+    if (sample > max_) {
+      max_ = sample;
+    }
+    if (sample < min_) {
+      min_ = sample;
+    }
+  }
+
+  int TotalSamples() const { return total_samples_; }
+
+  double Sum() const { return sum_; }
+
+  double Mean() const { return sum_ / total_samples_; }
+
+  double RollingMean() const {
+    return window_sum_ / std::min(window_samples_, N);
+  }
+
+  double Max() const { return max_; }
+
+  double Min() const { return min_; }
+
+  double LazyVariance() const {
+    if (window_samples_ == 0) {
+      return 0.0;
+    }
+    double var = 0;
+    double mean = RollingMean();
+    for (int i = 0; i < std::min(window_samples_, N); ++i) {
+      var += (samples_[i] - mean) * (samples_[i] - mean);
+    }
+    var /= std::min(window_samples_, N);
+    return var;
+  }
+
+ private:
+  int window_samples_;
+  int total_samples_;
+  Total window_sum_;
+  Total sum_;
+  T min_;
+  T max_;
+  T samples_[N];
+};
+
+struct TimerMapValue {
+  TimerMapValue() {}
+
+  // Create an accumulator with specified window size.
+  Accumulator<double, double, 50> acc_;
+};
+
+// A class that has the timer interface but does nothing. Swapping this in in
+// place of the Timer class (say with a typedef) should allow one to disable
+// timing. Because all of the functions are inline, they should just disappear.
+class DummyTimer {
+ public:
+  DummyTimer(size_t /*handle*/, bool /*constructStopped*/ = false) {}
+  DummyTimer(std::string const& /*tag*/, bool /*constructStopped*/ = false) {}
+  ~DummyTimer() {}
+
+  void Start() {}
+  void Stop() {}
+  bool IsTiming() { return false; }
+};
+
+class Timer {
+ public:
+  Timer(size_t handle, bool constructStopped = false);
+  Timer(std::string const& tag, bool constructStopped = false);
+  ~Timer();
+
+  void Start();
+  void Stop();
+  bool IsTiming() const;
+
+ private:
+  std::chrono::time_point<std::chrono::steady_clock> time_;
+
+  bool timing_;
+  size_t handle_;
+};
+
+class Timing {
+ public:
+  typedef std::map<std::string, size_t> map_t;
+  friend class Timer;
+  // Definition of static functions to query the timers.
+  static size_t GetHandle(std::string const& tag);
+  static std::string GetTag(size_t handle);
+  static double GetTotalSeconds(size_t handle);
+  static double GetTotalSeconds(std::string const& tag);
+  static double GetMeanSeconds(size_t handle);
+  static double GetMeanSeconds(std::string const& tag);
+  static size_t GetNumSamples(size_t handle);
+  static size_t GetNumSamples(std::string const& tag);
+  static double GetVarianceSeconds(size_t handle);
+  static double GetVarianceSeconds(std::string const& tag);
+  static double GetMinSeconds(size_t handle);
+  static double GetMinSeconds(std::string const& tag);
+  static double GetMaxSeconds(size_t handle);
+  static double GetMaxSeconds(std::string const& tag);
+  static double GetHz(size_t handle);
+  static double GetHz(std::string const& tag);
+  static void Print(std::ostream& out);
+  static std::string Print();
+  static std::string SecondsToTimeString(double seconds);
+  static void Reset();
+  static map_t GetTimers();
+
+ private:
+  void AddTime(size_t handle, double seconds);
+
+  static Timing& Instance();
+
+  Timing();
+  ~Timing();
+
+  typedef std::vector<TimerMapValue> list_t;
+
+  // A copy of the samples of a timer.
+  static TimerMapValue GetTimer(size_t handle);
+
+  // Guards all the members below: timers run in any thread.
+  std::mutex mutex_;
+  list_t timers_;
+  map_t tag_map_;
+  size_t max_tag_length_;
+};
+
+#if DISABLE_TIMING
+typedef DummyTimer DebugTimer;
+#else
+typedef Timer DebugTimer;
+#endif
+
+// Small timer for benchmarking.
+class MiniTimer {
+ public:
+  MiniTimer() : start_(std::chrono::steady_clock::now()) {}
+
+  void start() {
+    start_ = std::chrono::steady_clock::now();
+  }
+
+  double stop() {
+    end_ = std::chrono::steady_clock::now();
+    return getTime();
+  }
+
+  double getTime() const {
+    if (end_ < start_) {
+      return 0.0;
+    }
+    std::chrono::duration<double> duration = end_ - start_;
+    return duration.count();
+  }
+
+ private:
+  std::chrono::time_point<std::chrono::steady_clock> start_;
+  std::chrono::time_point<std::chrono::steady_clock> end_;
+};
+
+}  // namespace timing
+}  // namespace mav_trajectory_generation
+
+#endif  // MAV_TRAJECTORY_GENERATION_TIMING_H_
diff --git a/subpackages/mav_trajectory_generation/src/timing.cpp b/subpackages/mav_trajectory_generation/src/timing.cpp
index 0c90b15..9a3ed79 100644
--- a/subpackages/mav_trajectory_generation/src/timing.cpp
+++ b/subpackages/mav_trajectory_generation/src/timing.cpp
@@ -43,6 +43,7 @@ Timing::~Timing() {}
 
 // Static functions to query the timers:
 size_t Timing::GetHandle(std::string const& tag) {
+  std::lock_guard<std::mutex> lock(Instance().mutex_);
   // Search for an existing tag.
   map_t::iterator i = Instance().tag_map_.find(tag);
   if (i == Instance().tag_map_.end()) {
@@ -63,6 +64,7 @@ size_t Timing::GetHandle(std::string const& tag) {
 std::string Timing::GetTag(size_t handle) {
   std::string tag;
 
+  std::lock_guard<std::mutex> lock(Instance().mutex_);
   // Perform a linear search for the tag.
   for (typename map_t::value_type current_tag : Instance().tag_map_) {
     if (current_tag.second == handle) {
@@ -104,48 +106,59 @@ void Timer::Stop() {
 bool Timer::IsTiming() const { return timing_; }
 
 void Timing::AddTime(size_t handle, double seconds) {
+  std::lock_guard<std::mutex> lock(mutex_);
   timers_[handle].acc_.Add(seconds);
 }
 
+TimerMapValue Timing::GetTimer(size_t handle) {
+  std::lock_guard<std::mutex> lock(Instance().mutex_);
+  return Instance().timers_[handle];
+}
+
+Timing::map_t Timing::GetTimers() {
+  std::lock_guard<std::mutex> lock(Instance().mutex_);
+  return Instance().tag_map_;
+}
+
 double Timing::GetTotalSeconds(size_t handle) {
-  return Instance().timers_[handle].acc_.Sum();
+  return GetTimer(handle).acc_.Sum();
 }
 double Timing::GetTotalSeconds(std::string const& tag) {
   return GetTotalSeconds(GetHandle(tag));
 }
 double Timing::GetMeanSeconds(size_t handle) {
-  return Instance().timers_[handle].acc_.Mean();
+  return GetTimer(handle).acc_.Mean();
 }
 double Timing::GetMeanSeconds(std::string const& tag) {
   return GetMeanSeconds(GetHandle(tag));
 }
 size_t Timing::GetNumSamples(size_t handle) {
-  return Instance().timers_[handle].acc_.TotalSamples();
+  return GetTimer(handle).acc_.TotalSamples();
 }
 size_t Timing::GetNumSamples(std::string const& tag) {
   return GetNumSamples(GetHandle(tag));
 }
 double Timing::GetVarianceSeconds(size_t handle) {
-  return Instance().timers_[handle].acc_.LazyVariance();
+  return GetTimer(handle).acc_.LazyVariance();
 }
 double Timing::GetVarianceSeconds(std::string const& tag) {
   return GetVarianceSeconds(GetHandle(tag));
 }
 double Timing::GetMinSeconds(size_t handle) {
-  return Instance().timers_[handle].acc_.Min();
+  return GetTimer(handle).acc_.Min();
 }
 double Timing::GetMinSeconds(std::string const& tag) {
   return GetMinSeconds(GetHandle(tag));
 }
 double Timing::GetMaxSeconds(size_t handle) {
-  return Instance().timers_[handle].acc_.Max();
+  return GetTimer(handle).acc_.Max();
 }
 double Timing::GetMaxSeconds(std::string const& tag) {
   return GetMaxSeconds(GetHandle(tag));
 }
 
 double Timing::GetHz(size_t handle) {
-  return 1.0 / Instance().timers_[handle].acc_.RollingMean();
+  return 1.0 / GetTimer(handle).acc_.RollingMean();
 }
 
 double Timing::GetHz(std::string const& tag) { return GetHz(GetHandle(tag)); }
@@ -157,17 +170,22 @@ std::string Timing::SecondsToTimeString(double seconds) {
 }
 
 void Timing::Print(std::ostream& out) {
-  map_t& tagMap = Instance().tag_map_;
+  const map_t tagMap = GetTimers();
 
   if (tagMap.empty()) {
     return;
   }
 
+  size_t max_tag_length = 0;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    max_tag_length = Instance().max_tag_length_;
+  }
   out << "SM Timing\n";
   out << "-----------\n";
   for (typename map_t::value_type t : tagMap) {
     size_t i = t.second;
-    out.width((std::streamsize)Instance().max_tag_length_);
+    out.width((std::streamsize)max_tag_length);
     out.setf(std::ios::left, std::ios::adjustfield);
     out << t.first << "\t";
     out.width(7);
@@ -197,7 +215,10 @@ std::string Timing::Print() {
   return ss.str();
 }
 
-void Timing::Reset() { Instance().tag_map_.clear(); }
+void Timing::Reset() {
+  std::lock_guard<std::mutex> lock(Instance().mutex_);
+  Instance().tag_map_.clear();
+}
 
 }  // namespace timing
 }  // namespace mav_trajectory_generation
-- 
2.43.0


From 1e81c42659f4330b0884967b6709d4aa35ef2254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:39 +0000
Subject: [PATCH 23/26] fix: a saved trajectory file survives a power loss
 right after the save

---
 .../mav_trajectory_generation/src/io.cpp      | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index f1e0a46..777bfa7 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -53,6 +53,24 @@ bool writeAll(int fd, const std::string& contents) {
   return true;
 }
 
+// Makes sure that a renamed file is found under its new name after a power
+// loss, as far as the file system supports that.
+bool syncDirectoryOf(const std::string& filename) {
+  const size_t slash = filename.find_last_of('/');
+  const std::string directory =
+      slash == std::string::npos ? "." : filename.substr(0, slash + 1);
+  int fd = -1;
+  do {
+    fd = ::open(directory.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
+  } while (fd < 0 && errno == EINTR);
+  if (fd < 0) {
+    return errno == EACCES;
+  }
+  const bool success = ::fsync(fd) == 0 || errno == EINVAL;
+  ::close(fd);
+  return success;
+}
+
 // Writes contents to a temporary file beside filename and renames it once
 // everything has reached the disk: whatever happens meanwhile, filename holds
 // either its old or its new contents. Returns false if anything failed.
@@ -75,7 +93,7 @@ bool replaceFile(const std::string& filename, const std::string& contents) {
   if (!success) {
     ::unlink(temporary.c_str());
   }
-  return success;
+  return success && syncDirectoryOf(filename);
 }
 
 // Returns false if the file can not be read to its end.
-- 
2.43.0


From 23be26d68e94a058cba31cb673c19a893ad289f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:43 +0000
Subject: [PATCH 24/26] fix: finding roots does not leak when memory runs out

---
 .../src/rpoly/rpoly_ak1.cpp                        | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
index e9d1240..71cdee9 100644
--- a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
+++ b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
@@ -43,6 +43,7 @@
 #include <cctype>
 #include <cmath>
 #include <cfloat>
+#include <vector>
 
 #include "mav_trajectory_generation/rpoly/rpoly_ak1.h"
 
@@ -89,15 +90,16 @@ bool findRootsJenkinsTraub(const Eigen::VectorXd& coefficients_increasing,
     return true;
   }
   int degree = n_coefficients - 1;
-  double* polynomial = new double[kRpolyMaxDegree + 1];
-  double* roots_real = new double[kRpolyMaxDegree];
-  double* roots_imag = new double[kRpolyMaxDegree];
+  std::vector<double> polynomial(kRpolyMaxDegree + 1);
+  std::vector<double> roots_real(kRpolyMaxDegree);
+  std::vector<double> roots_imag(kRpolyMaxDegree);
 
   for (size_t i = 0; i < n_coefficients; i++) {
     polynomial[i] = coefficients_decreasing(i);
   }
 
-  rpolyWrapper(polynomial, &degree, roots_real, roots_imag);
+  rpolyWrapper(polynomial.data(), &degree, roots_real.data(),
+               roots_imag.data());
   if (degree > 0) {
     roots->resize(degree);
     for (int i = 0; i < degree; ++i) {
@@ -105,10 +107,6 @@ bool findRootsJenkinsTraub(const Eigen::VectorXd& coefficients_increasing,
     }
   }
 
-  delete[] polynomial;
-  delete[] roots_real;
-  delete[] roots_imag;
-
   if (degree > 0) {
     return true;
   } else {
-- 
2.43.0


From 6eb02ea251e9b77c70316157e9ad3f29c629ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:27 +0000
Subject: [PATCH 25/26] fix: saving a trajectory fails when memory runs out
 instead of losing numbers

---
 .../mav_trajectory_generation/src/io.cpp      | 48 +++++++++++++++----
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index 777bfa7..0432c23 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -26,7 +26,10 @@
 #include <yaml-cpp/yaml.h>
 #include <atomic>
 #include <cerrno>
+#include <cmath>
 #include <cstdio>
+#include <locale>
+#include <new>
 #include <sstream>
 
 const std::string kSegmentsKey = "segments";
@@ -108,14 +111,32 @@ bool readFile(const std::string& filename, std::string* contents) {
   contents->clear();
   char buffer[4096];
   ssize_t n = 0;
-  do {
-    n = ::read(fd, buffer, sizeof(buffer));
-    if (n > 0) contents->append(buffer, n);
-  } while (n > 0 || (n < 0 && errno == EINTR));
+  try {
+    do {
+      n = ::read(fd, buffer, sizeof(buffer));
+      if (n > 0) contents->append(buffer, n);
+    } while (n > 0 || (n < 0 && errno == EINTR));
+  } catch (...) {
+    ::close(fd);
+    throw;
+  }
   ::close(fd);
   return n == 0;
 }
 
+// The text of a number in YAML. Not left to the emitter: it formats numbers
+// with a stream of its own, which drops them silently when memory runs out.
+std::string numberToText(double value) {
+  if (std::isnan(value)) return ".nan";
+  if (std::isinf(value)) return value > 0.0 ? ".inf" : "-.inf";
+  std::ostringstream stream;
+  stream.imbue(std::locale::classic());
+  stream.precision(17);
+  stream << value;
+  if (!stream) throw std::bad_alloc();
+  return stream.str();
+}
+
 }  // namespace
 
 YAML::Node coefficientsToYaml(const Eigen::VectorXd& coefficients) {
@@ -219,10 +240,12 @@ bool segmentsToFile(
   for (const mav_trajectory_generation::Segment& segment : segments) {
     out << YAML::BeginMap;
     // Header.
-    out << YAML::Key << kNumCoefficientsKey << YAML::Value << segment.N();
-    out << YAML::Key << kDimKey << YAML::Value << segment.D();
-    out << YAML::Key << kSegmentTimeKey << YAML::Value << segment.getTimeNSec()
-        << YAML::Comment("[ns]");
+    out << YAML::Key << kNumCoefficientsKey << YAML::Value
+        << std::to_string(segment.N());
+    out << YAML::Key << kDimKey << YAML::Value
+        << std::to_string(segment.D());
+    out << YAML::Key << kSegmentTimeKey << YAML::Value
+        << std::to_string(segment.getTimeNSec()) << YAML::Comment("[ns]");
     // Coefficients.
     out << YAML::Key << kCoefficientsKey;
     out << YAML::BeginSeq;
@@ -231,7 +254,7 @@ bool segmentsToFile(
       out << YAML::BeginSeq;
       Eigen::VectorXd coefficients = segment[i].getCoefficients();
       for (size_t j = 0; j < segment.N(); j++) {
-        out << coefficients(j);
+        out << numberToText(coefficients(j));
       }
       out << YAML::EndSeq;
     }
@@ -241,6 +264,10 @@ bool segmentsToFile(
   out << YAML::EndSeq;
   out << YAML::EndMap;
 
+  if (!out.good()) {
+    return false;
+  }
+
   // Write to file.
   return replaceFile(filename, out.c_str());
 }
@@ -356,6 +383,9 @@ bool sampledTrajectoryStatesToFile(const std::string& filename,
 
   std::ostringstream stream;
   stream << output;
+  if (!stream) {
+    return false;  // The text is not complete: out of memory.
+  }
   return replaceFile(filename, stream.str());
 }
 
-- 
2.43.0


From 5097f7a6d487e4e9f9dfb91ae93fc75d76c61ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:59 +0000
Subject: [PATCH 26/26] fix: a tag whose timer could not be allocated has no
 handle

---
 subpackages/mav_trajectory_generation/src/timing.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/timing.cpp b/subpackages/mav_trajectory_generation/src/timing.cpp
index 9a3ed79..a5caac6 100644
--- a/subpackages/mav_trajectory_generation/src/timing.cpp
+++ b/subpackages/mav_trajectory_generation/src/timing.cpp
@@ -49,8 +49,13 @@ size_t Timing::GetHandle(std::string const& tag) {
   if (i == Instance().tag_map_.end()) {
     // If it is not there, create a tag.
     size_t handle = Instance().timers_.size();
-    Instance().tag_map_[tag] = handle;
     Instance().timers_.push_back(TimerMapValue());
+    try {
+      Instance().tag_map_[tag] = handle;
+    } catch (...) {
+      Instance().timers_.pop_back();
+      throw;
+    }
     // Track the maximum tag length to help printing a table of timing values
     // later.
     Instance().max_tag_length_ =
-- 
2.43.0

