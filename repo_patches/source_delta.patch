From 609d3d54b25cfed44d98735a4aa92bde8145bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 01/47] fix: quaternion_from_euler no longer halves the
 caller's angles in place

---
 src/pytorch_kinematics/transforms/rotation_conversions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 9d3b613..7293b28 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -746,9 +746,10 @@ def quaternion_from_euler(rpy, axes='sxyz'):
     if parity:
         aj = -aj
 
-    ai /= 2.0
-    aj /= 2.0
-    ak /= 2.0
+    # not in place: these are views of the caller's tensor
+    ai = ai / 2.0
+    aj = aj / 2.0
+    ak = ak / 2.0
     ci = torch.cos(ai)
     si = torch.sin(ai)
     cj = torch.cos(aj)
-- 
2.43.0


From 19b8a13cdefa71c26e0e19095cfa606106fb7284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 02/47] fix: quaternion_slerp leaves q2 unmodified and handles
 batches mixing close and distant pairs

---
 src/pytorch_kinematics/transforms/math.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/math.py b/src/pytorch_kinematics/transforms/math.py
index 9a315b7..da68490 100644
--- a/src/pytorch_kinematics/transforms/math.py
+++ b/src/pytorch_kinematics/transforms/math.py
@@ -60,21 +60,20 @@ def quaternion_slerp(q1: torch.Tensor, q2: torch.Tensor, t: Union[float, torch.t
 
     # reverse the direction of q2 if q1 and q2 are not in the same hemisphere
     to_invert = cos_theta < 0
-    q2[to_invert] = -q2[to_invert]
-    cos_theta[to_invert] = -cos_theta[to_invert]
+    q2 = torch.where(to_invert[..., None], -q2, q2)
+    cos_theta = torch.abs(cos_theta)
 
-    # If the quaternions are close, perform a linear interpolation
-    if torch.all(cos_theta > 1.0 - 1e-6):
-        return q1 + t * (q2 - q1)
+    # If the quaternions are close, perform a linear interpolation (decided for each pair separately)
+    close = cos_theta > 1.0 - 1e-6
 
     # Ensure the angle is between 0 and pi
-    theta = torch.acos(cos_theta)
+    theta = torch.acos(torch.where(close, torch.zeros_like(cos_theta), cos_theta))
     sin_theta = torch.sin(theta)
 
     # Perform the interpolation
-    w1 = torch.sin((1.0 - t) * theta) / sin_theta
-    w2 = torch.sin(t * theta) / sin_theta
-    return w1[:, None] * q1 + w2[:, None] * q2
+    w1 = torch.where(close, (1.0 - t) * torch.ones_like(theta), torch.sin((1.0 - t) * theta) / sin_theta)
+    w2 = torch.where(close, t * torch.ones_like(theta), torch.sin(t * theta) / sin_theta)
+    return w1[..., None] * q1 + w2[..., None] * q2
 
 
 def acos_linear_extrapolation(
-- 
2.43.0


From a4d7121f397d1239499f1d2a0e816f4faf5dd46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 03/47] fix: get_joints and get_joint_parameter_names honour
 exclude_fixed=False

---
 src/pytorch_kinematics/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index d14d008..4a7ebec 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -407,10 +407,10 @@ class Chain:
     @staticmethod
     def _get_joints(frame, exclude_fixed=True):
         joints = []
-        if exclude_fixed and frame.joint.joint_type != "fixed":
+        if not (exclude_fixed and frame.joint.joint_type == "fixed"):
             joints.append(frame.joint)
         for child in frame.children:
-            joints.extend(Chain._get_joints(child))
+            joints.extend(Chain._get_joints(child, exclude_fixed=exclude_fixed))
         return joints
 
     def get_joints(self, exclude_fixed=True):
-- 
2.43.0


From 61c22da20db6c63454f722a2c5da23479f3a0563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 04/47] fix: IK limit enforcement does not turn unlimited
 revolute joints into NaN

---
 src/pytorch_kinematics/ik.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 66962cd..f6767a4 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -601,9 +601,10 @@ class PseudoInverseIK(InverseKinematics):
         center = (low + high) / 2
         # compute the number of 2*pi shifts needed to bring q closest to the center of the limits
         n = torch.round((center - q) / (2 * math.pi))
-        # only apply to revolute joints
+        # only apply to revolute joints limited on both sides (otherwise there is no center to wrap towards)
+        wrap = self._revolute_mask & torch.isfinite(center)
         q_wrapped = q.clone()
-        q_wrapped[..., self._revolute_mask] = q[..., self._revolute_mask] + n[..., self._revolute_mask] * 2 * math.pi
+        q_wrapped[..., wrap] = q[..., wrap] + n[..., wrap] * 2 * math.pi
         return q_wrapped
 
     def _enforce_limits(self, sol, target_pos, target_wxyz):
-- 
2.43.0


From dd8f2c727ae608889a2721bcf20e9122ee94f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 05/47] fix: SerialChain.forward_kinematics accepts a dict of
 scalars

---
 src/pytorch_kinematics/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 4a7ebec..572e2ee 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -191,7 +191,8 @@ def get_batch_size(th):
         return th.shape[0]
     elif isinstance(th, dict):
         elem_shape = get_dict_elem_shape(th)
-        return elem_shape[0]
+        # scalars are a single, unbatched configuration
+        return elem_shape[0] if len(elem_shape) > 0 else 1
     elif isinstance(th, list):
         # Lists cannot be batched. We don't allow lists of lists.
         return 1
-- 
2.43.0


From 68f291fa89452ce277fc929ca5af19c5a6549d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 06/47] fix: SerialChain.jacobian accepts a dict of joint
 values as documented

---
 src/pytorch_kinematics/chain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 572e2ee..abe919c 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -770,7 +770,9 @@ class SerialChain(Chain):
 
         Returns: (B, 6, ndof) Jacobian, and optionally (B, 4, 4) EEF pose
         """
-        if not torch.is_tensor(th):
+        if isinstance(th, dict):
+            th = self.ensure_tensor(th)
+        elif not torch.is_tensor(th):
             th = torch.tensor(th, dtype=self.dtype, device=self.device)
         if len(th.shape) <= 1:
             th = th.reshape(1, -1)
-- 
2.43.0


From 68e033619b3d1708dd0ca6ec06194a6b3065bcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 07/47] fix: SerialChain inherits the dtype and device of the
 chain it is extracted from

---
 src/pytorch_kinematics/chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index abe919c..e8f0dce 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -658,6 +658,9 @@ class SerialChain(Chain):
         root_frame = chain._root if root_frame_name == "" else chain.find_frame(root_frame_name)
         if root_frame is None:
             raise ValueError("Invalid root frame name %s." % root_frame_name)
+        # the frames carry the dtype and device of the chain they come from
+        kwargs.setdefault("dtype", chain.dtype)
+        kwargs.setdefault("device", chain.device)
         chain = Chain(root_frame, **kwargs)
 
         # make a copy of those frames that includes only the chain up to the end effector
-- 
2.43.0


From 20a1c33b5d942c7f03ef3b956e28da743a176409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 08/47] fix: IK samples initial configurations in the chain's
 dtype

---
 src/pytorch_kinematics/ik.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index f6767a4..32db44f 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -376,10 +376,11 @@ class InverseKinematics:
             # bound by joint_limits
             if self.joint_limits is None:
                 raise ValueError("joint_limits must be specified if config_sampling_method is uniform")
-            return torch.rand(num_configs, self.dof, device=self.device) * (
-                    self.joint_limits[:, 1] - self.joint_limits[:, 0]) + self.joint_limits[:, 0]
+            joint_limits = self.joint_limits.to(device=self.device, dtype=self.dtype)
+            return torch.rand(num_configs, self.dof, device=self.device, dtype=self.dtype) * (
+                    joint_limits[:, 1] - joint_limits[:, 0]) + joint_limits[:, 0]
         elif self.config_sampling_method == "gaussian":
-            return torch.randn(num_configs, self.dof, device=self.device)
+            return torch.randn(num_configs, self.dof, device=self.device, dtype=self.dtype)
         elif callable(self.config_sampling_method):
             return self.config_sampling_method(num_configs)
         else:
-- 
2.43.0


From e67f6ccedf4d33005481b9bd564e035fd74c4502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 09/47] fix: IKSolution fills in converged_pos_any and
 converged_rot_any

---
 src/pytorch_kinematics/ik.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 32db44f..0f3c44b 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -193,6 +193,8 @@ class IKSolution:
         self.converged_pos = self.converged_pos | converged_pos
         self.converged_rot = self.converged_rot | converged_rot
         self.converged = self.converged | converged
+        self.converged_pos_any = self.converged_pos.any(dim=1)
+        self.converged_rot_any = self.converged_rot.any(dim=1)
         self.converged_any = self.converged_any | converged_any
 
         return converged_any
-- 
2.43.0


From 46ecd4a161aac431046e56a7764b36aedceb0331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 10/47] fix: Frame keeps the children it is constructed with

---
 src/pytorch_kinematics/frame.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/frame.py b/src/pytorch_kinematics/frame.py
index 0c35d84..f7618d5 100644
--- a/src/pytorch_kinematics/frame.py
+++ b/src/pytorch_kinematics/frame.py
@@ -100,8 +100,7 @@ class Frame(object):
         self.name = 'None' if name is None else name
         self.link = link if link is not None else Link()
         self.joint = joint if joint is not None else Joint()
-        if children is None:
-            self.children = []
+        self.children = [] if children is None else children
 
     def __str__(self, prefix='', root=True):
         pointers = [tee] * (len(self.children) - 1) + [last]
-- 
2.43.0


From ed246e9c3e4175add05359d343b44110d32125c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 11/47] fix: Translate, Scale and Rotate report the dtype of
 their matrix

---
 src/pytorch_kinematics/transforms/transform3d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 51f381e..4b0bff5 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -489,7 +489,7 @@ class Translate(Transform3d):
                 - A torch scalar
                 - A 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         xyz = _handle_input(x, y, z, dtype, device, "Translate")
         N = xyz.shape[0]
 
@@ -526,7 +526,7 @@ class Scale(Transform3d):
                 - torch scalar
                 - 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         xyz = _handle_input(x, y, z, dtype, device, "scale", allow_singleton=True)
         N = xyz.shape[0]
 
@@ -561,7 +561,7 @@ class Rotate(Transform3d):
             orthogonal_tol: tolerance for the test of the orthogonality of R
 
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         if not torch.is_tensor(R):
             R = torch.tensor(R, dtype=dtype, device=device)
         R = R.to(dtype=dtype).to(device=device)
-- 
2.43.0


From 6bb7d69eca8f1fa6d37fab0bee57c7acdab82a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 12/47] fix: SDF poses use roll pitch yaw instead of yaw pitch
 roll

---
 src/pytorch_kinematics/sdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 32ac177..bdd3430 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -14,7 +14,9 @@ def _convert_transform(pose):
     if pose is None:
         return tf.Transform3d()
     else:
-        return tf.Transform3d(rot=tf.euler_angles_to_matrix(torch.tensor(pose[3:]), "ZYX"), pos=pose[:3])
+        # SDF poses are x y z roll pitch yaw, about fixed axes like in URDF
+        rpy = torch.tensor(pose[3:], dtype=torch.float32, device="cpu")
+        return tf.Transform3d(rot=tf.quaternion_from_euler(rpy, "sxyz"), pos=pose[:3])
 
 
 def _convert_visuals(visuals):
-- 
2.43.0


From f72010843517371ae124055c3123b1f1c5a33589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 13/47] fix: SDF fixed joints may omit their axis

---
 src/pytorch_kinematics/sdf.py                | 2 +-
 src/pytorch_kinematics/urdf_parser_py/sdf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index bdd3430..e328055 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -58,7 +58,7 @@ def _build_chain_recurse(root_frame, lmap, joints):
             except AttributeError:
                 limits = None
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
-                                            joint_type=JOINT_TYPE_MAP[j.type], axis=j.axis.xyz, limits=limits)
+                                            joint_type=JOINT_TYPE_MAP[j.type], axis=None if j.axis is None else j.axis.xyz, limits=limits)
             child_frame.link = frame.Link(link_c.name, offset=tf.Transform3d(),
                                           visuals=_convert_visuals(link_c.visuals))
             child_frame.children = _build_chain_recurse(child_frame, lmap, joints)
diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index 74d8fc7..ee45c3a 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -235,7 +235,7 @@ class Joint(xmlr.Object):
 xmlr.reflect(Joint, tag='joint', params=[
     name_attribute,
     xmlr.Attribute('type', str, False),
-    xmlr.Element('axis', Axis),
+    xmlr.Element('axis', Axis, False),
     xmlr.Element('parent', str),
     xmlr.Element('child', str),
     pose_element
-- 
2.43.0


From f4082e0d9ea1ad2f108498566b3e995e9a0c06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 14/47] fix: URDF continuous joints have no position limits

---
 src/pytorch_kinematics/urdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 85d99fa..9612716 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -49,6 +49,9 @@ def _build_chain_recurse(root_frame, lmap, joints):
                 limits = (j.limit.lower, j.limit.upper)
             except AttributeError:
                 limits = None
+            if j.type == 'continuous':
+                # a continuous joint only has velocity and effort limits
+                limits = None
             # URDF assumes symmetric velocity and effort limits
             try:
                 velocity_limits = (-j.limit.velocity, j.limit.velocity)
-- 
2.43.0


From 33093f12b09c71e130a0d486df7a447a7691ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 15/47] fix: MJCF joints without a range are unlimited instead
 of stuck at 0

---
 src/pytorch_kinematics/mjcf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index 3dc1857..f84f160 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -40,7 +40,8 @@ def _build_chain_recurse(m, parent_frame, parent_body):
                 joint_offset = tf.Transform3d(pos=joint.pos)
                 child_joint = frame.Joint(joint.name, offset=joint_offset, axis=joint.axis,
                                           joint_type=JOINT_TYPE_MAP[joint.type[0]],
-                                          limits=(joint.range[0], joint.range[1]))
+                                          limits=(joint.range[0], joint.range[1])
+                                          if m.jnt_limited[joint.id] else None)
             else:
                 child_joint = frame.Joint(body.name + "_fixed_joint")
             child_link = frame.Link(body.name, offset=tf.Transform3d(rot=body.quat, pos=body.pos))
-- 
2.43.0


From fbefd817e892c7e4050c44feb444095a32b6ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 16/47] fix: URDF and SDF models with a single link and no
 joints can be loaded

---
 src/pytorch_kinematics/sdf.py  | 2 ++
 src/pytorch_kinematics/urdf.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index e328055..37bd949 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -92,6 +92,8 @@ def build_chain_from_sdf(data):
                 has_root[i] = False
             elif joints[j].parent == joints[i].child:
                 has_root[j] = False
+    if n_joints == 0:
+        root_link = robot.links[0]
     for i in range(n_joints):
         if has_root[i]:
             root_link = lmap[joints[i].parent]
diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 9612716..cc34f9f 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -115,6 +115,8 @@ def build_chain_from_urdf(data):
                 has_root[i] = False
             elif joints[j].parent == joints[i].child:
                 has_root[j] = False
+    if n_joints == 0:
+        root_link = robot.links[0]
     for i in range(n_joints):
         if has_root[i]:
             root_link = lmap[joints[i].parent]
-- 
2.43.0


From 3d1731d05324c8c0f6e5606b5a5774911f3431ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 17/47] fix: printing a parsed URDF works on Python 3.10 and
 later

---
 .../urdf_parser_py/xml_reflection/basics.py                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py
index 60a0d44..1de428c 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py
@@ -1,6 +1,6 @@
 import string
 import yaml
-import collections
+import collections.abc
 from lxml import etree
 
 
@@ -68,7 +68,7 @@ def to_yaml(obj):
     elif hasattr(obj, 'tolist'):
         # For numpy objects
         out = to_yaml(obj.tolist())
-    elif isinstance(obj, collections.Iterable):
+    elif isinstance(obj, collections.abc.Iterable):
         out = [to_yaml(item) for item in obj]
     else:
         out = str(obj)
-- 
2.43.0


From b2b71378c8fb7b2b0ca743e6c3e629072f1a71f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 18/47] fix: quaternion_angular_distance treats each pair of a
 batch on its own

---
 src/pytorch_kinematics/transforms/math.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/math.py b/src/pytorch_kinematics/transforms/math.py
index da68490..35f0fa1 100644
--- a/src/pytorch_kinematics/transforms/math.py
+++ b/src/pytorch_kinematics/transforms/math.py
@@ -30,9 +30,9 @@ def quaternion_angular_distance(q1: torch.Tensor, q2: torch.Tensor) -> torch.Ten
     theta = 2.0 * torch.atan2(sin_half_theta, abs_dot)
 
     # theta for the ones that are close gets 0 and we don't care about them
-    close = quaternion_close(q1, q2)
-    theta[close] = 0
-    return theta
+    # (decided for each pair, so that a result does not depend on the rest of the batch)
+    close = 1 - torch.square(cos_theta) < 1e-4
+    return torch.where(close, torch.zeros_like(theta), theta)
 
 
 def quaternion_close(q1: torch.Tensor, q2: torch.Tensor, eps: float = 1e-4):
-- 
2.43.0


From 5307c9db3343c40e46cda6157e1dd532fdd58720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 19/47] fix: Transform3d.inverse inverts transforms that
 include scaling

---
 src/pytorch_kinematics/transforms/transform3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 4b0bff5..d58ed75 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -267,9 +267,10 @@ class Transform3d:
         Invert homogeneous transformation matrix.
         """
         Tinv = T.clone()
+        # not necessarily a rotation, could include scaling
         R = T[:, :3, :3]
         t = T[:, :3, 3]
-        Tinv[:, :3, :3] = R.transpose(1, 2)
+        Tinv[:, :3, :3] = torch.linalg.inv(R)
         Tinv[:, :3, 3:] = -Tinv[:, :3, :3] @ t.unsqueeze(-1)
         return Tinv
 
-- 
2.43.0


From ff5f67f95a4dc29ff282d22f64ac4ea8f8f25c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:54 +0000
Subject: [PATCH 20/47] fix: dicts of numpy arrays are accepted as joint values

---
 src/pytorch_kinematics/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index e8f0dce..b45d53a 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -581,6 +581,8 @@ class Chain:
             joint_names = self.get_joint_parameter_names()
             for joint_name, joint_position in th_dict.items():
                 jnt_idx = joint_names.index(joint_name)
+                if isinstance(joint_position, np.ndarray):
+                    joint_position = torch.tensor(joint_position, device=self.device, dtype=self.dtype)
                 th[..., jnt_idx] = joint_position
             if torch.any(torch.isnan(th)):
                 msg = "Missing values for the following joints:\n"
-- 
2.43.0


From 56884d4c8d96caa001878b90890a75d24293050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:54 +0000
Subject: [PATCH 21/47] fix: configurations with the wrong number of joint
 values are rejected

---
 src/pytorch_kinematics/chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index b45d53a..53c478d 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -522,6 +522,9 @@ class Chain:
 
         Returns: (num_frames, B, 4, 4) tensor of all frame transforms
         """
+        if th.shape[-1] != self.n_joints:
+            # would otherwise be broadcast silently when there is a single value or a single joint
+            raise ValueError(f"Expected {self.n_joints} joint values, got {th.shape[-1]}.")
         if th.requires_grad and analytical_grad:
             # Compute FK on detached th (no autograd graph needed for forward)
             T_world_link = _fk_impl(
-- 
2.43.0


From 84dc99524a03a5ad6aaf25562efa8760c0b91fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 22/47] fix: the root frame of a serial chain has the precision
 of the chain

---
 src/pytorch_kinematics/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 53c478d..8dfd97b 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -687,7 +687,7 @@ class SerialChain(Chain):
         # The root frame's joint and link offset describe the transform from its parent
         # to itself, which is outside this serial chain. Reset them so the root acts as
         # the origin of the new coordinate system.
-        frames[0].joint = Joint()
+        frames[0].joint = Joint(dtype=chain.dtype, device=chain.device)
         frames[0].link.offset = None
 
         self._serial_frames = frames
-- 
2.43.0


From 080d9ae76b5dabb1e13dedec565932542c61d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 23/47] fix: translate, scale and rotate of a float64 transform
 keep its precision

---
 src/pytorch_kinematics/transforms/transform3d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index d58ed75..892c48d 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -410,12 +410,15 @@ class Transform3d:
         return shape_operators_out
 
     def translate(self, *args, **kwargs):
+        kwargs.setdefault("dtype", self.dtype)
         return self.compose(Translate(device=self.device, *args, **kwargs))
 
     def scale(self, *args, **kwargs):
+        kwargs.setdefault("dtype", self.dtype)
         return self.compose(Scale(device=self.device, *args, **kwargs))
 
     def rotate(self, *args, **kwargs):
+        kwargs.setdefault("dtype", self.dtype)
         return self.compose(Rotate(device=self.device, *args, **kwargs))
 
     def rotate_axis_angle(self, *args, **kwargs):
-- 
2.43.0


From ae51038a83ef5359cd08940eb552da8372d0b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 24/47] fix: RotateAxisAngle honours its dtype

---
 src/pytorch_kinematics/transforms/transform3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 892c48d..5b65958 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -631,7 +631,7 @@ class RotateAxisAngle(Rotate):
         # is for transforming column vectors. Therefore we transpose this matrix.
         # R will always be of shape (N, 3, 3)
         R = _axis_angle_rotation(axis, angle)
-        super().__init__(device=device, R=R)
+        super().__init__(device=device, dtype=R.dtype, R=R)
 
 
 def _handle_coord(c, dtype, device):
-- 
2.43.0


From 06c79c083242029d79cd21a08d2b966b3d8dca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:41 +0000
Subject: [PATCH 25/47] fix: batch_to_batch applies each transform to its own
 point or normal

---
 src/pytorch_kinematics/transforms/transform3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 5b65958..5cfe774 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -333,7 +333,7 @@ class Transform3d:
 
         composed_matrix = self.get_matrix().transpose(-1, -2)
         if batch_to_batch:
-            points_out = linalg.batch_batch_product(points_batch, composed_matrix)
+            points_out = linalg.batch_batch_product(points_batch.squeeze(0), self.get_matrix())
         else:
             points_out = _broadcast_bmm(points_batch, composed_matrix)
         denom = points_out[..., 3:]  # denominator
@@ -368,7 +368,7 @@ class Transform3d:
         mat = self.inverse().get_matrix()[:, :3, :3]
 
         if batch_to_batch:
-            normals_out = linalg.batch_batch_product(normals, mat)
+            normals_out = linalg.batch_batch_product(normals, mat.transpose(-1, -2))
         else:
             normals_out = _broadcast_bmm(normals, mat)
 
-- 
2.43.0


From fe07640bf87baed43d7481c133960e2856a96f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 26/47] fix: Transform3d.to(copy=True) returns a copy when
 neither device nor dtype changes

---
 src/pytorch_kinematics/transforms/transform3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 5cfe774..d81be61 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -468,7 +468,7 @@ class Transform3d:
         other = self.clone()
         other.device = device
         other.dtype = dtype if dtype is not None else other.dtype
-        other._matrix = self._matrix.to(device=device, dtype=dtype)
+        other._matrix = other._matrix.to(device=device, dtype=dtype)
         return other
 
     def cpu(self):
-- 
2.43.0


From af65a25fdf37c222a1303575983e5c6db4a44d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:46 +0000
Subject: [PATCH 27/47] fix: axis-angle of a quaternion with real part near -1
 keeps the rotation

---
 src/pytorch_kinematics/transforms/rotation_conversions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 7293b28..25971f0 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -608,8 +608,9 @@ def quaternion_to_axis_angle(quaternions):
     # for x small, sin(x/2) is about x/2 - (x/2)^3/6
     # so sin(x/2)/x is about 1/2 - (x*x)/48
     small_theta = 0.5 - (angles * angles) / 48
-    large_theta = torch.sin(half_angles) / angles
-    sin_half_angles_over_angles = torch.where(angles.abs() < eps, small_theta, large_theta)
+    # the norm is sin(x/2), and unlike the sine of a rounded angle it is accurate near whole turns
+    large_theta = norms / angles
+    sin_half_angles_over_angles = torch.where((angles.abs() < eps) | (norms == 0), small_theta, large_theta)
     return quaternions[..., 1:] / sin_half_angles_over_angles
 
 
-- 
2.43.0


From 2b84f10fa92c36777a384cc84b183f7bdb52bd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:04 +0000
Subject: [PATCH 28/47] fix: SDF joints may be limited on one side only

---
 src/pytorch_kinematics/sdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 37bd949..3e35311 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -57,6 +57,10 @@ def _build_chain_recurse(root_frame, lmap, joints):
                 limits = (j.axis.limit.lower, j.axis.limit.upper)
             except AttributeError:
                 limits = None
+            else:
+                # either side of a limit may be left out
+                limits = (-math.inf if limits[0] is None else limits[0],
+                          math.inf if limits[1] is None else limits[1])
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
                                             joint_type=JOINT_TYPE_MAP[j.type], axis=None if j.axis is None else j.axis.xyz, limits=limits)
             child_frame.link = frame.Link(link_c.name, offset=tf.Transform3d(),
-- 
2.43.0


From 1dc9595020fac5401f12bcbc37287a134a168bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:33 +0000
Subject: [PATCH 29/47] fix: SDF links may omit their inertial

---
 src/pytorch_kinematics/urdf_parser_py/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index ee45c3a..a80ab34 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -255,7 +255,7 @@ class Link(xmlr.Object):
 
 xmlr.reflect(Link, tag='link', params=[
     name_attribute,
-    xmlr.Element('inertial', Inertial),
+    xmlr.Element('inertial', Inertial, False),
     xmlr.Attribute('kinematic', bool, False),
     xmlr.AggregateElement('visual', Visual, var='visuals'),
     xmlr.AggregateElement('collision', Collision, var='collisions'),
-- 
2.43.0


From ceaf75ebd620f1399a518c96c3975779d193dd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 30/47] fix: writing a raw XML element leaves the element
 itself intact

---
 .../urdf_parser_py/xml_reflection/core.py                   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 8659bde..c785d03 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -197,8 +197,10 @@ class RawType(ValueType):
     def write_xml(self, node, value):
         # @todo rying to insert an element at root level seems to screw up
         # pretty printing
-        children = xml_children(value)
-        list(map(node.append, children))
+        # Copy, since an lxml element appended to one parent is removed from the other
+        node.text = value.text
+        for child in xml_children(value):
+            node.append(copy.deepcopy(child))
         # Copy attributes
         for (attrib_key, attrib_value) in value.attrib.items():
             node.set(attrib_key, attrib_value)
-- 
2.43.0


From 5df9811ab55bfe6a91185ae41268b63bbb901a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 31/47] fix: an element without its required attribute is
 rejected instead of read as 'None'

---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index c785d03..16fcdf0 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -218,6 +218,8 @@ class SimpleElementType(ValueType):
 
     def from_xml(self, node, path):
         text = node.get(self.attribute)
+        if text is None:
+            raise Exception("Required attribute not set in XML: {}".format(self.attribute))
         return self.value_type.from_string(text)
 
     def write_xml(self, node, value):
-- 
2.43.0


From 9a48bc6a29ae442426c9555c8b28f014d3f97b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 32/47] fix: an empty text element is read as an empty string
 instead of 'None'

---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 16fcdf0..90ab75e 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -130,7 +130,7 @@ class ValueType(object):
     """ Primitive value type """
 
     def from_xml(self, node, path):
-        return self.from_string(node.text)
+        return self.from_string(node.text or '')
 
     def write_xml(self, node, value):
         """
-- 
2.43.0


From 39f6366ff0f7db007bee7c4246c85a17be7fec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 33/47] fix: booleans are read and written as XML booleans

---
 .../urdf_parser_py/xml_reflection/core.py                  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 90ab75e..59c0c95 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -150,9 +150,16 @@ class BasicType(ValueType):
         self.type = cur_type
 
     def to_string(self, value):
+        if self.type is bool:
+            return 'true' if value else 'false'
         return str(value)
 
     def from_string(self, value):
+        if self.type is bool:
+            text = value.strip().lower()
+            if text not in ('true', 'false', '1', '0'):
+                raise ValueError("Invalid boolean: {}".format(value))
+            return text in ('true', '1')
         return self.type(value)
 
 
-- 
2.43.0


From 67523e44d60a12c058661de89f7c79aac7c028eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 34/47] fix: Link keeps the visual and collision it is given

---
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index 65a7046..aaa2e7d 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -369,6 +369,29 @@ class Link(xmlr.Object):
         self.inertial = inertial
         self.collisions = []
         self.origin = origin
+        if visual is not None:
+            self.visual = visual
+        if collision is not None:
+            self.collision = collision
+
+    def __set_first(self, xml_var, value):
+        """Replace the first of the aggregates, keeping track of it for writing."""
+        values = self.get_aggregate_list(xml_var)
+        if value is None:
+            if values:
+                self.remove_aggregate(values[0])
+            return
+        if not values:
+            self.add_aggregate(xml_var, value)
+            return
+        previous = values[0]
+        values[0] = value
+        if previous in self.aggregate_order:
+            self.aggregate_order[self.aggregate_order.index(previous)] = value
+            del self.aggregate_type[previous]
+        else:
+            self.aggregate_order.append(value)
+        self.aggregate_type[value] = xml_var
 
     def __get_visual(self):
         """Return the first visual or None."""
@@ -377,10 +400,7 @@ class Link(xmlr.Object):
 
     def __set_visual(self, visual):
         """Set the first visual."""
-        if self.visuals:
-            self.visuals[0] = visual
-        else:
-            self.visuals.append(visual)
+        self.__set_first('visual', visual)
 
     def __get_collision(self):
         """Return the first collision or None."""
@@ -389,10 +409,7 @@ class Link(xmlr.Object):
 
     def __set_collision(self, collision):
         """Set the first collision."""
-        if self.collisions:
-            self.collisions[0] = collision
-        else:
-            self.collisions.append(collision)
+        self.__set_first('collision', collision)
 
     # Properties for backwards compatibility
     visual = property(__get_visual, __set_visual)
-- 
2.43.0


From 8900ae3dc6a765c869d00f1a1a49cee1f5a4672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 35/47] fix: Actuator keeps the mechanicalReduction it is given

---
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index aaa2e7d..7752c8e 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -447,7 +447,7 @@ xmlr.reflect(PR2Transmission, tag='pr2_transmission', params=[
 class Actuator(xmlr.Object):
     def __init__(self, name=None, mechanicalReduction=1):
         self.name = name
-        self.mechanicalReduction = None
+        self.mechanicalReduction = mechanicalReduction
 
 
 xmlr.reflect(Actuator, tag='actuator', params=[
-- 
2.43.0


From 353e819ad98b0f33b8da8b1d128d812ae7a330e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 36/47] fix: Color accepts three values

---
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index 7752c8e..e89d44c 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -51,14 +51,14 @@ class Color(xmlr.Object):
         # What about named colors?
         count = len(args)
         if count == 4 or count == 3:
-            self.rgba = args
+            self.rgba = list(args)
         elif count == 1:
             self.rgba = args[0]
         elif count == 0:
             self.rgba = None
         if self.rgba is not None:
             if len(self.rgba) == 3:
-                self.rgba += [1.]
+                self.rgba = list(self.rgba) + [1.]
             if len(self.rgba) != 4:
                 raise Exception('Invalid color argument count')
 
-- 
2.43.0


From 30370a87e2f8503800a9611977b65d4c7df9f9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:19 +0000
Subject: [PATCH 37/47] fix: a constructed SDF Visual has a material

---
 src/pytorch_kinematics/urdf_parser_py/sdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index a80ab34..001b04c 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -141,10 +141,11 @@ xmlr.reflect(Material, tag='material', params=[
 
 
 class Visual(xmlr.Object):
-    def __init__(self, name=None, geometry=None, pose=None):
+    def __init__(self, name=None, geometry=None, pose=None, material=None):
         self.name = name
         self.geometry = geometry
         self.pose = pose
+        self.material = material
 
 
 xmlr.reflect(Visual, tag='visual', params=[
-- 
2.43.0


From f7b83ed13af3d154d77ad30e4f562596e8df4c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:05 +0000
Subject: [PATCH 38/47] fix: the SVD inverse kinematics works for chains with
 fewer than six joints

---
 src/pytorch_kinematics/ik.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 0f3c44b..0b8d99b 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -118,12 +118,10 @@ def _ik_step_kernel_svd(m_flat: torch.Tensor, target_pos: torch.Tensor, target_w
     if lm_damping > 0.0:
         mu = lm_damping * (dx_w * dx_w).sum(dim=1, keepdim=True).squeeze(2)  # (NM, 1)
         regularization = regularization + mu
-    U, D, Vh = torch.linalg.svd(J_w)
-    m_sv = D.shape[1]
+    U, D, Vh = torch.linalg.svd(J_w, full_matrices=False)
     denom = D ** 2 + regularization
     prod = D / denom
     inverted = torch.diag_embed(prod)
-    Vh = Vh[:, :m_sv, :]
     total = Vh.transpose(1, 2) @ inverted @ U.transpose(1, 2)
     dq = total @ dx_w
     return dq, dx
-- 
2.43.0


From 3dbb18d8211889203d001e91bfb600148c92776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:05 +0000
Subject: [PATCH 39/47] fix: IKSolution reports position and rotation
 convergence of the solution it keeps

---
 src/pytorch_kinematics/ik.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 0b8d99b..e71acf1 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -188,8 +188,8 @@ class IKSolution:
         self.solutions = torch.where(not_converged_dof, qq, self.solutions)
         self.err_pos = torch.where(not_converged, err_pos, self.err_pos)
         self.err_rot = torch.where(not_converged, err_rot, self.err_rot)
-        self.converged_pos = self.converged_pos | converged_pos
-        self.converged_rot = self.converged_rot | converged_rot
+        self.converged_pos = torch.where(not_converged, converged_pos, self.converged_pos)
+        self.converged_rot = torch.where(not_converged, converged_rot, self.converged_rot)
         self.converged = self.converged | converged
         self.converged_pos_any = self.converged_pos.any(dim=1)
         self.converged_rot_any = self.converged_rot.any(dim=1)
-- 
2.43.0


From 7d7b28c8edecd1a03798d221212dbfb0986ca9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:05 +0000
Subject: [PATCH 40/47] fix: IK clamps to limits that are only finite above

---
 src/pytorch_kinematics/ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index e71acf1..876d5d0 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -323,7 +323,7 @@ class InverseKinematics:
         self.debug = debug
         self.enforce_joint_limits = enforce_joint_limits
         self.num_limit_refinement_iterations = num_limit_refinement_iterations
-        self.clamp_to_limits = clamp_to_limits and torch.isfinite(serial_chain.low).any()
+        self.clamp_to_limits = clamp_to_limits and (torch.isfinite(serial_chain.low).any() or torch.isfinite(serial_chain.high).any())
         # precompute which joints are revolute (for 2*pi wrapping)
         joints = self.chain.get_joints(exclude_fixed=True)
         self._revolute_mask = torch.tensor([j.joint_type == 'revolute' for j in joints],
-- 
2.43.0


From beaa9b95a676235068c5f96121961377a74aae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:05 +0000
Subject: [PATCH 41/47] fix: IK accepts initial configurations for each problem

---
 src/pytorch_kinematics/ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 876d5d0..2faa432 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -360,7 +360,7 @@ class InverseKinematics:
         if retry_configs is None:
             self.initial_config = self.sample_configs(num_retries)
         else:
-            if retry_configs.shape[1] != self.dof:
+            if retry_configs.shape[-1] != self.dof:
                 raise ValueError("initial_configs must have shape (N, %d)" % self.dof)
         # could give a batch of initial configs
         self.num_retries = self.initial_config.shape[-2]
-- 
2.43.0


From dc294cc053afd0946d0612628ae038bd83da8e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:56 +0000
Subject: [PATCH 42/47] fix: IK steps do not fail or lose precision when the
 Jacobian is singular

---
 src/pytorch_kinematics/ik.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 2faa432..e517c49 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -59,11 +59,14 @@ def _ik_step_kernel(m_flat: torch.Tensor, target_pos: torch.Tensor, target_wxyz:
     # reg = lambda^2 * I + lm_damping * ||dx_w||^2 * I
     if lm_damping > 0.0:
         mu = lm_damping * (dx_w * dx_w).sum(dim=1, keepdim=True)  # (NM, 1, 1)
-        tmpA = J_w @ J_w.transpose(1, 2) + reg_matrix + mu * torch.eye(6, device=J.device, dtype=J.dtype)
+        reg = reg_matrix + mu * torch.eye(6, device=J.device, dtype=J.dtype)
     else:
-        tmpA = J_w @ J_w.transpose(1, 2) + reg_matrix
-    A = torch.linalg.solve(tmpA, dx_w)
-    dq = J_w.transpose(1, 2) @ A
+        reg = reg_matrix.expand(NM, 6, 6)
+    # J^T (J J^T + reg)^{-1} dx from the QR decomposition of [J^T; sqrt(reg)]. Forming J J^T instead would lose a small
+    # damping to rounding, leaving nothing to solve for singular J (such as that of any chain with fewer than 6 joints)
+    Q, R = torch.linalg.qr(torch.cat((J_w.transpose(1, 2), reg.sqrt()), dim=1))
+    A = torch.linalg.solve_triangular(R.transpose(1, 2), dx_w, upper=False)
+    dq = Q[:, :-6] @ A
     return dq, dx
 
 
-- 
2.43.0


From 0ebb281d25f60297766d55c40fe28196a0b1ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:49 +0000
Subject: [PATCH 43/47] fix: axis-angle conversions have gradients at the
 identity

At the identity they divided by zero in the branch that is not taken, which
made the gradients NaN although the derivative exists.
---
 .../transforms/rotation_conversions.py               | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 25971f0..53a4825 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -579,8 +579,10 @@ def axis_angle_to_quaternion(axis_angle):
     # for x small, sin(x/2) is about x/2 - (x/2)^3/6
     # so sin(x/2)/x is about 1/2 - (x*x)/48
     small_theta = 0.5 - (angles * angles) / 48
-    large_theta = torch.sin(half_angles) / angles
-    sin_half_angles_over_angles = torch.where(angles.abs() < eps, small_theta, large_theta)
+    small = angles.abs() < eps
+    # the branch that is not taken must not divide by 0, for the gradients
+    large_theta = torch.sin(half_angles) / torch.where(small, torch.ones_like(angles), angles)
+    sin_half_angles_over_angles = torch.where(small, small_theta, large_theta)
     quaternions = torch.cat(
         [torch.cos(half_angles), axis_angle * sin_half_angles_over_angles], dim=-1
     )
@@ -609,8 +611,10 @@ def quaternion_to_axis_angle(quaternions):
     # so sin(x/2)/x is about 1/2 - (x*x)/48
     small_theta = 0.5 - (angles * angles) / 48
     # the norm is sin(x/2), and unlike the sine of a rounded angle it is accurate near whole turns
-    large_theta = norms / angles
-    sin_half_angles_over_angles = torch.where((angles.abs() < eps) | (norms == 0), small_theta, large_theta)
+    small = (angles.abs() < eps) | (norms == 0)
+    # the branch that is not taken must not divide by 0, for the gradients
+    large_theta = norms / torch.where(small, torch.ones_like(angles), angles)
+    sin_half_angles_over_angles = torch.where(small, small_theta, large_theta)
     return quaternions[..., 1:] / sin_half_angles_over_angles
 
 
-- 
2.43.0


From 1354c87a08869211b8407ee7688918040be40c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:02 +0000
Subject: [PATCH 44/47] fix: gradients of forward kinematics accept an empty
 batch

Everything else accepts one, but the backward pass could not tell the
number of joints from an empty tensor.
---
 src/pytorch_kinematics/chain.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 8dfd97b..148ab2a 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -153,10 +153,11 @@ class _FKAnalyticalBackward(torch.autograd.Function):
 
         # Weighted sums over descendant links via ancestor mask: (J, L) @ (L, B*3)
         L, B, _ = tau_link.shape
-        sum_tau = (dof_ancestor_mask @ tau_link.reshape(L, B * 3)).reshape(-1, B, 3)
-        sum_grad_t = (dof_ancestor_mask @ grad_t_link.reshape(L, B * 3)).reshape(-1, B, 3)
+        J = dof_ancestor_mask.shape[0]  # -1 would be ambiguous for an empty batch
+        sum_tau = (dof_ancestor_mask @ tau_link.reshape(L, B * 3)).reshape(J, B, 3)
+        sum_grad_t = (dof_ancestor_mask @ grad_t_link.reshape(L, B * 3)).reshape(J, B, 3)
         cross_t_grad = torch.cross(t_link, grad_t_link, dim=-1)
-        sum_cross = (dof_ancestor_mask @ cross_t_grad.reshape(L, B * 3)).reshape(-1, B, 3)
+        sum_cross = (dof_ancestor_mask @ cross_t_grad.reshape(L, B * 3)).reshape(J, B, 3)
 
         # Revolute: z_j · (sum_tau + sum_cross - o_j × sum_grad_t)
         rev_grad = (z_dof * (sum_tau + sum_cross - torch.cross(o_dof, sum_grad_t, dim=-1))).sum(dim=-1)
-- 
2.43.0


From 85656efdf9639e868c2ed973ed145e9fac82d250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:46 +0000
Subject: [PATCH 45/47] fix: transform_shape_operator handles the shapes it
 documents

---
 src/pytorch_kinematics/transforms/transform3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index d81be61..c2ff7fc 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -399,8 +399,8 @@ class Transform3d:
         if shape_operators.dim() not in [3, 4]:
             msg = "Expected shape_operators to have dim = 3 or dim = 4: got shape %r"
             raise ValueError(msg % (shape_operators.shape,))
-        mat = self.inverse().get_matrix()[:, :3, :3]
-        shape_operators_out = _broadcast_bmm(mat.permute(0, 2, 1), _broadcast_bmm(shape_operators, mat))
+        mat = self.inverse().get_matrix()[:, None, :3, :3].to(shape_operators)
+        shape_operators_out = mat.transpose(-1, -2) @ shape_operators @ mat
 
         # When transform is (1, 4, 4) and shape_operator is (P, 3, 3) return
         # shape_operators_out of shape (P, 3, 3)
-- 
2.43.0


From cd1b6cf1727d7319a8a0bc600e202223a519bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:09 +0000
Subject: [PATCH 46/47] fix: dicts of (N, 1) columns of joint values are
 accepted as documented

---
 src/pytorch_kinematics/chain.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 148ab2a..e3e2f5c 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -581,12 +581,18 @@ class Chain:
             # convert dict to a flat, complete, tensor of all joints values. Missing joints are filled with zeros.
             th_dict = th
             elem_shape = get_dict_elem_shape(th_dict)
+            # a batch may also be given as (N, 1) columns
+            is_column = len(elem_shape) == 2 and elem_shape[-1] == 1
+            if is_column:
+                elem_shape = elem_shape[:1]
             th = torch.ones([*elem_shape, self.n_joints], device=self.device, dtype=self.dtype) * torch.nan
             joint_names = self.get_joint_parameter_names()
             for joint_name, joint_position in th_dict.items():
                 jnt_idx = joint_names.index(joint_name)
                 if isinstance(joint_position, np.ndarray):
                     joint_position = torch.tensor(joint_position, device=self.device, dtype=self.dtype)
+                if is_column and torch.is_tensor(joint_position):
+                    joint_position = joint_position.squeeze(-1)
                 th[..., jnt_idx] = joint_position
             if torch.any(torch.isnan(th)):
                 msg = "Missing values for the following joints:\n"
-- 
2.43.0


From 6562f7fecc593f239fcaec4760863b988cfed428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:50 +0000
Subject: [PATCH 47/47] fix: the line search keeps its step sizes in the
 precision of the configurations

They were kept in the default precision: rounded to float32 for a float64 chain,
and failing for a float32 chain where the default is float64.
---
 src/pytorch_kinematics/ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index e517c49..f148884 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -227,7 +227,7 @@ class BacktrackingLineSearch(LineSearch):
         N = target_pos.shape[0]
         NM = q.shape[0]
         M = NM // N
-        lr = torch.ones(NM, device=q.device) * self.initial_lr
+        lr = torch.ones(NM, device=q.device, dtype=q.dtype) * self.initial_lr
         err = initial_dx.squeeze().norm(dim=-1)
         if problem_remaining is None:
             problem_remaining = torch.ones(N, dtype=torch.bool, device=q.device)
-- 
2.43.0

