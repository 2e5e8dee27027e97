From 464cae9f53fd67c3ef023f414888860423c7212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 01/16] fix: throw instead of dereferencing null when the URDF
 cannot be parsed

---
 src/tinyfk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 313ca8c..a6e51b2 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -19,6 +19,9 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
   }
   urdf::ModelInterfaceSharedPtr robot_urdf_interface =
       urdf::parseURDF(xml_string);
+  if (robot_urdf_interface == nullptr) {
+    throw std::runtime_error("failed to parse the urdf");
+  }
 
   // numbering link id
   std::vector<urdf::LinkSharedPtr> links;
-- 
2.43.0


From 69f6d3ba214e1f91d60379cea9ea4b79d2a91723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 02/16] fix: clear the transform cache after setting angles in
 the batch COM and inertia calls

---
 src/wrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 663678d..e4891f1 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -140,6 +140,7 @@ public:
         auto xyzrpy_begin = std::prev(qs[i].end(), 6);
         set_base_pose(xyzrpy_begin);
       }
+      this->clear_cache();
 
       const auto com = this->get_com();
       coms(0, i) = com.x;
@@ -183,6 +184,7 @@ public:
                                const std::vector<size_t> &joint_ids) {
     // should we take vector of q as input...?
     this->_set_joint_angles(joint_ids, q);
+    this->clear_cache();
     return this->get_total_inertia_matrix();
   }
 
-- 
2.43.0


From a105e4c30b2acccb2e9f6cb1f426ec5500044749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 03/16] fix: set_joint_angle must clear the transform cache

---
 include/tinyfk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tinyfk.hpp b/include/tinyfk.hpp
index e71910f..63ad270 100644
--- a/include/tinyfk.hpp
+++ b/include/tinyfk.hpp
@@ -145,6 +145,7 @@ public: // functions
 
   void set_joint_angle(size_t joint_id, double angle) {
     joint_angles_[joint_id] = angle;
+    this->clear_cache();
   }
 
   urdf::LinkSharedPtr add_new_link(const std::string &link_name,
-- 
2.43.0


From 21b47baf5064bd3c1bff07571a2d300590eb60ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 04/16] fix: grow the transform stack when a link is added

---
 src/tinyfk.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index a6e51b2..4e19a2f 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -254,6 +254,7 @@ urdf::LinkSharedPtr KinematicModel::add_new_link(const std::string &link_name,
   links_.push_back(new_link);
   links_[parent_id]->child_links.push_back(new_link);
   transform_cache_.extend();
+  transform_stack_ = SizedStack<LinkIdAndTransform>(links_.size());
 
   this->update_rptable(); // set _rptable
 
-- 
2.43.0


From 5d51aaf327f9e340d336baeebf7086a67d75ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 05/16] fix: velocity and effort limits of a continuous joint
 without a limit element

---
 src/tinyfk.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 4e19a2f..8bdf778 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -187,7 +187,11 @@ std::vector<double> KinematicModel::get_joint_velocity_limits(
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
     const auto &joint = joints_[joint_ids[i]];
-    limits[i] = joint->limits->velocity;
+    if (joint->limits == nullptr) { // continuous joint without limit element
+      limits[i] = std::numeric_limits<double>::infinity();
+    } else {
+      limits[i] = joint->limits->velocity;
+    }
   }
   return limits;
 }
@@ -198,7 +202,11 @@ std::vector<double> KinematicModel::get_joint_effort_limits(
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
     const auto &joint = joints_[joint_ids[i]];
-    limits[i] = joint->limits->effort;
+    if (joint->limits == nullptr) { // continuous joint without limit element
+      limits[i] = std::numeric_limits<double>::infinity();
+    } else {
+      limits[i] = joint->limits->effort;
+    }
   }
   return limits;
 }
-- 
2.43.0


From e96218443b286868a56bf0a9939ff25ed28a2881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 06/16] fix: reject links with two parent joints and cycles of
 links

---
 urdf_parser/include/urdf_model/model.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/urdf_parser/include/urdf_model/model.h b/urdf_parser/include/urdf_model/model.h
index 8b7ced8..82b14cf 100644
--- a/urdf_parser/include/urdf_model/model.h
+++ b/urdf_parser/include/urdf_model/model.h
@@ -137,6 +137,11 @@ public:
           throw ParseError("parent link [" + parent_link_name + "] of joint [" + joint->first + "] not found.  This is not valid according to the URDF spec. Every link you refer to from a joint needs to be explicitly defined in the robot description. To fix this problem you can either remove this joint [" + joint->first + "] from your urdf file, or add \"<link name=\"" + parent_link_name + "\" />\" to your urdf file.");
         }
         
+        if (child_link->parent_joint)
+        {
+          throw ParseError("link [" + child_link_name + "] is the child of more than one joint");
+        }
+
         //set parent link for child link
         child_link->setParent(parent_link);
 
@@ -181,6 +186,20 @@ public:
     {
       throw ParseError("No root link found. The robot xml is not a valid tree.");
     }
+
+    // every link must lead up to the root (there may be a cycle apart from the root)
+    for (std::map<std::string, LinkSharedPtr>::const_iterator l=this->links_.begin(); l!=this->links_.end(); l++)
+    {
+      LinkSharedPtr link = l->second;
+      for (size_t depth = 0; link->getParent(); depth++)
+      {
+        if (depth >= this->links_.size())
+        {
+          throw ParseError("link [" + l->first + "] is part of a cycle");
+        }
+        link = link->getParent();
+      }
+    }
   }
   
   
-- 
2.43.0


From 2c5cc4b9bb86f05a1aafea8f85ce98dab10ed1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 07/16] fix: export the origin of joints of every type

---
 urdf_parser/src/joint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/urdf_parser/src/joint.cpp b/urdf_parser/src/joint.cpp
index 82b43da..cad11d1 100644
--- a/urdf_parser/src/joint.cpp
+++ b/urdf_parser/src/joint.cpp
@@ -602,7 +602,9 @@ bool exportJoint(Joint &joint, TiXmlElement* xml)
   else if (joint.type == urdf::Joint::FIXED)
     joint_xml->SetAttribute("type", "fixed");
   else
+  {
     //CONSOLE_BRIDGE_logError("ERROR:  Joint [%s] type [%d] is not a defined type.\n",joint.name.c_str(), joint.type);
+  }
 
   // origin
   exportPose(joint.parent_to_joint_origin_transform, joint_xml);
-- 
2.43.0


From 3c9b014e9f13008b15abb23a3c6e7f0794cf4da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 08/16] fix: respect the rotation of the inertial frame in the
 total inertia matrix

---
 src/tinyfk.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 8bdf778..8d067c7 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -98,10 +98,7 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
         continue;
       }
       const auto com_dummy_link_name = link->name + "_com";
-      Transform new_link_pose;
-      new_link_pose.position.x = link->inertial->origin.position.x;
-      new_link_pose.position.y = link->inertial->origin.position.y;
-      new_link_pose.position.z = link->inertial->origin.position.z;
+      Transform new_link_pose = link->inertial->origin;
       const auto new_link =
           this->add_new_link(com_dummy_link_name, link->id, new_link_pose);
       // set new link's inertial as the same as the parent
-- 
2.43.0


From 8c50aab985bea9c0ed84b414a809b79bfe6e3bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 09/16] fix: do not truncate the numbers of the URDF version
 attribute

---
 urdf_parser/include/urdf_parser/urdf_parser.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/urdf_parser/include/urdf_parser/urdf_parser.h b/urdf_parser/include/urdf_parser/urdf_parser.h
index 247f207..6214eed 100644
--- a/urdf_parser/include/urdf_parser/urdf_parser.h
+++ b/urdf_parser/include/urdf_parser/urdf_parser.h
@@ -37,6 +37,7 @@
 #ifndef URDF_PARSER_URDF_PARSER_H
 #define URDF_PARSER_URDF_PARSER_H
 
+#include <cstdint>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -127,6 +128,10 @@ private:
     {
       throw std::runtime_error("Version number must be positive");
     }
+    if (value > UINT32_MAX)
+    {
+      throw std::runtime_error("Version number is too large");
+    }
 
     return value;
   }
-- 
2.43.0


From 87987f90fd4808e5d41abc5140be18c3d2110eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 10/16] fix: wrap-around and quaternion sign in the numerical
 base columns of the Jacobian

---
 src/kinematics.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/kinematics.cpp b/src/kinematics.cpp
index d837d2d..2444287 100644
--- a/src/kinematics.cpp
+++ b/src/kinematics.cpp
@@ -219,15 +219,21 @@ KinematicModel::get_jacobian(size_t elink_id,
       if (rot_type == RotationType::RPY) {
         auto erpy_tweaked = pose_out.rotation.getRPY();
         const auto erpy_diff = erpy_tweaked - erpy;
-        jacobian(3, idx_col) = erpy_diff.x / eps;
+        // roll and yaw may wrap around at +-pi between the two poses
+        jacobian(3, idx_col) = std::remainder(erpy_diff.x, 2 * M_PI) / eps;
         jacobian(4, idx_col) = erpy_diff.y / eps;
-        jacobian(5, idx_col) = erpy_diff.z / eps;
+        jacobian(5, idx_col) = std::remainder(erpy_diff.z, 2 * M_PI) / eps;
       }
       if (rot_type == RotationType::XYZW) {
-        jacobian(3, idx_col) = (pose_out.rotation.x - erot.x) / eps;
-        jacobian(4, idx_col) = (pose_out.rotation.y - erot.y) / eps;
-        jacobian(5, idx_col) = (pose_out.rotation.z - erot.z) / eps;
-        jacobian(6, idx_col) = (pose_out.rotation.w - erot.w) / eps;
+        // setFromRPY may yield the quaternion of the opposite sign
+        const auto &qout = pose_out.rotation;
+        const double dot = qout.x * erot.x + qout.y * erot.y +
+                           qout.z * erot.z + qout.w * erot.w;
+        const double sign = (dot < 0 ? -1.0 : 1.0);
+        jacobian(3, idx_col) = (sign * qout.x - erot.x) / eps;
+        jacobian(4, idx_col) = (sign * qout.y - erot.y) / eps;
+        jacobian(5, idx_col) = (sign * qout.z - erot.z) / eps;
+        jacobian(6, idx_col) = (sign * qout.w - erot.w) / eps;
       }
     }
   }
-- 
2.43.0


From 43c17033f15cac779998e708ca9e7d0284ae5443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 11/16] fix: keep added links and configuration when a copied
 model is copied again

---
 python/tinyfk/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 40376b7..16eacb2 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -281,10 +281,14 @@ class KinematicModel:
         self.__dict__.update(state)
         self._robot = _tinyfk.RobotModel(self._xml_text)
 
-        for arg in copy.deepcopy(self._add_new_link_history):
+        # replaying the histories records them again, so that a copy can be copied
+        add_new_link_history = self._add_new_link_history
+        set_joint_angles_history = self._set_joint_angles_history
+        self._add_new_link_history = []
+        self._set_joint_angles_history = []
+
+        for arg in add_new_link_history:
             self.add_new_link(*arg)
 
-        for arg in copy.deepcopy(self._set_joint_angles_history):
+        for arg in set_joint_angles_history:
             self.set_q(*arg)
-        self._add_new_link_history = []
-        self._set_joint_angles_history = []
-- 
2.43.0


From 51f3595eba3bf51d9de70282a015519a76198cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 12/16] fix: record copies of the arguments of accepted calls
 only for unpickling

---
 python/tinyfk/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 16eacb2..b17c2f6 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -77,8 +77,7 @@ class KinematicModel:
     def set_q(
         self, joint_ids: List[int], q: np.ndarray, base_type: BaseType = BaseType.FIXED
     ) -> None:
-        args = [joint_ids, q, base_type]
-        self._set_joint_angles_history.append(args)
+        args = copy.deepcopy([joint_ids, q, base_type])
 
         if base_type == BaseType.PLANER:
             assert len(q) == len(joint_ids) + 3, "{} != {}".format(len(q), len(joint_ids) + 3)
@@ -94,6 +93,7 @@ class KinematicModel:
         else:
             assert len(q) == len(joint_ids), "{} != {}".format(len(q), len(joint_ids))
             self._robot.set_joint_angles(joint_ids, q)
+        self._set_joint_angles_history.append(args)
 
     def _modify_input_with_3dof_base(self, n_joint, joint_angles_sequence):
         n_seq, n_dof = joint_angles_sequence.shape
@@ -223,12 +223,12 @@ class KinematicModel:
     def add_new_link(
         self, link_name: str, parent_id: int, position: np.ndarray, rpy: Optional[np.ndarray] = None
     ):
-        args = [link_name, parent_id, position, rpy]
-        self._add_new_link_history.append(args)
+        args = copy.deepcopy([link_name, parent_id, position, rpy])
 
         if rpy is None:
             rpy = np.zeros(3)
         self._robot.add_new_link(link_name, parent_id, position, rpy)
+        self._add_new_link_history.append(args)
 
     def compute_inter_link_sqdists(
         self,
-- 
2.43.0


From 916ebceead7213944fc623eb8fcec29012d04c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 13/16] fix: planar base columns of the center of mass Jacobian

---
 python/tinyfk/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index b17c2f6..20fc404 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -193,6 +193,11 @@ class KinematicModel:
         P, J = self._robot.solve_com_forward_kinematics(
             qs, joint_ids, action_link_ids, action_forces, with_base, with_jacobian
         )
+        if base_type == BaseType.PLANER:
+            extrac_indices = np.hstack(
+                (np.arange(n_joint), np.array([n_joint, n_joint + 1, n_joint + 5]))
+            )
+            J = J[:, extrac_indices]
         return P, J
 
     def compute_total_inertia_matrix(self, q: np.ndarray, joint_ids: List[int]) -> np.ndarray:
-- 
2.43.0


From 6e92994a6aa24fe6284153e99f204053eeecfe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 14/16] fix: accept a single configuration array in
 solve_com_fk as in solve_fk

---
 python/tinyfk/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 20fc404..0c89184 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -170,8 +170,8 @@ class KinematicModel:
 
         if not isinstance(qs, np.ndarray):
             qs = np.array(qs)
-            if qs.ndim == 1:
-                qs = np.expand_dims(qs, axis=0)
+        if qs.ndim == 1:
+            qs = np.expand_dims(qs, axis=0)
         assert isinstance(qs, np.ndarray)
         n_seq, n_dof = qs.shape
 
-- 
2.43.0


From 62ea9df1546e199484b42e1ab45cd50bc9829690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 15/16] fix: relevance table of models without any inertial
 element

---
 src/tinyfk.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 8d067c7..5f672fd 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -87,6 +87,7 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
   num_dof_ = num_dof;
   total_mass_ = total_mass;
   joint_angles_ = joint_angles;
+  this->update_rptable(); // needed also when no link has an inertial element
 
   // add COM of each link as new link
   {
-- 
2.43.0


From 0a6f837a176d8caeba30a9207b198bf076d5f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 16/16] fix: do not read the first waypoint of an empty
 sequence in the batch forward kinematics

---
 src/wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index e4891f1..b797089 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -71,7 +71,8 @@ public:
     auto n_joints = joint_ids.size();
     auto n_dof = (with_base ? n_joints + 6 : n_joints);
 
-    if (with_base && (n_joints != joint_angles_sequence[0].size() - 6)) {
+    if (with_base && n_wp > 0 &&
+        (n_joints != joint_angles_sequence[0].size() - 6)) {
       throw std::invalid_argument(
           "dof mismatch!! Probably you forget base's (x, y, theta)");
       // TODO this check try to prevent the potentionally buggy procedure below
-- 
2.43.0

