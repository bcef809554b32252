#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
S = "src/pytorch_kinematics/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                               mechanism=[dict(name=a, where=S + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "Forward kinematics is the product of the transforms along the tree",
     "For every kinematic tree and every joint configuration, the pose reported for a frame equals the product, from the root down to that frame, of each frame's fixed offsets followed by its joint's motion (rotation about, or translation along, the unit vector of its axis; identity for fixed joints). "
     "This holds for any depth, branching, joint type mix, axis direction, offset, joint value and batch size, and one configuration of a batch never influences another.",
     ["inputs", "configurations"],
     "all trees (depth, branching, fixed/revolute/prismatic joints, arbitrary axes and offsets), all joint values (negative, zero, beyond one turn), all batch sizes",
     "The tests compare a handful of fixed robots with a few configurations with recorded numbers or with another simulator; they never vary the tree, and most robots there have z axes and no branching.",
     ["chain.py", "frame.py", "transforms/rotation_conversions.py"],
     [("static offset and joint motion composed level by level", "chain.py:_fk_impl"),
      ("flat representation of the tree", "chain.py:Chain.__init__"),
      ("axis normalisation", "frame.py:Joint.__init__")],
     [("frame tree", "frames with fixed offsets and joints", "frame.py")],
     ["Chain.forward_kinematics", "Chain.forward_kinematics_tensor", "Frame.get_transform"])

prop("C02", "Every way of passing a configuration gives the same poses, or an error",
     "A joint configuration gives the same poses whether it is passed as a tensor, array, list or dictionary by joint name in any key order, batched or not, for all frames or for a selected subset, through a tree or through a serial chain (end effector only or all frames), and row i of a batch gives what configuration i gives alone. "
     "A configuration that lacks joints, names an unknown joint or has the wrong number of values is rejected with an error rather than evaluated silently.",
     ["inputs"],
     "all containers, key orders, batch sizes (including one configuration and large batches), memory layouts and frame subsets; all incomplete or mis-sized inputs",
     "The tests use two or three of the forms on one robot each; nothing compares the forms with each other across robots, key orders, batch sizes or frame subsets.",
     ["chain.py"],
     [("conversion of inputs", "chain.py:Chain.ensure_tensor"),
      ("serial inputs", "chain.py:SerialChain.convert_serial_inputs_to_chain_inputs"),
      ("frame subset", "chain.py:Chain.forward_kinematics")],
     observe=["Chain.forward_kinematics", "SerialChain.forward_kinematics"])

prop("C03", "Names, indices, joints and tensor columns refer to the same thing",
     "For every tree, the order of the joint names is the order of the joint objects, of the position, velocity and effort limits and of the columns of configuration tensors and Jacobians, and the index reported for a frame name selects that frame's pose in the tensor of all poses. "
     "Lookups by name return exactly the frame, link or joint with that name, or nothing when there is none; listings of frames, links and joints are complete, free of duplicates, in the same order as names and as objects, and include fixed ones exactly when asked, the links listed below a joint are exactly those it moves, and the printed tree shows every frame once, below its parent.",
     ["configurations"],
     "all trees with any mix of fixed and moving joints at any position, all names, all orders of queries",
     "Tests look up a few names on a few robots; a mistake that only shows when depth-first and breadth-first order differ, or when fixed joints are interleaved, is not reached.",
     ["chain.py", "frame.py"],
     [("joint order", "chain.py:Chain.get_joints"), ("frame indices", "chain.py:Chain.get_frame_indices"),
      ("lookups", "chain.py:Chain.find_frame"), ("links moved by a joint", "chain.py:Chain.get_joints_and_child_links")],
     observe=["Chain.get_joint_parameter_names", "Chain.get_joints", "Chain.get_frame_indices", "Chain.find_*", "Chain.get_*_names", "Chain.get_joints_and_child_links"])

prop("C04", "A serial chain is the path between two frames of its tree",
     "The serial chain extracted from any tree between a root and an end frame has exactly the frames of the path between them and the moving joints strictly below the root, in path order, and gives for every configuration of those joints the pose of the end frame (and of every frame in between) relative to the root frame as the tree gives it. "
     "Extraction leaves the tree as it was, works again on the result and gives the same answer each time, and an unknown root or end is rejected.",
     ["configurations", "histories"],
     "all trees, all root/end pairs on a common path, all configurations, repeated and nested extraction",
     "Two tests extract from one fixed tree each; roots with offsets or joints of their own, fixed joints on the path, joints off the path and repeated extraction are not varied.",
     ["chain.py"],
     [("extraction", "chain.py:SerialChain.__init__")],
     observe=["SerialChain", "SerialChain.forward_kinematics"])

prop("C05", "The Jacobian is the derivative of the end-effector pose",
     "For every serial chain, every configuration and every point attached to the end effector, column j of the Jacobian is the linear velocity of that point and the angular velocity of the end effector, in the base frame, per unit rate of joint j, in the order of the joint names. "
     "The end-effector pose returned on request is the pose of that attached point's frame, and batched results equal the individual ones.",
     ["inputs", "configurations"],
     "all serial chains (joint types, axes, offsets, fixed frames in between and after the last joint), all configurations, all tool offsets, all batch sizes",
     "The tests compare a few recorded Jacobians and one autograd comparison on arms whose axes are mostly z; tool offsets are tried once.",
     ["chain.py", "jacobian.py"],
     [("geometric Jacobian", "chain.py:SerialChain.jacobian_tensor"), ("tool offset", "chain.py:SerialChain.jacobian")],
     observe=["SerialChain.jacobian", "SerialChain.jacobian_tensor", "calc_jacobian"])

prop("C06", "Gradients through forward kinematics are the true derivatives",
     "For every tree, every configuration and every differentiable loss over any entries of any frames' poses, back-propagation gives the exact partial derivative with respect to each joint value, with zero for joints that do not move the frames in question. "
     "The default gradient and plain automatic differentiation agree, for every batch row independently.",
     ["inputs", "configurations"],
     "all trees, joint types, axes, configurations, batch sizes, and all weights on rotation and translation entries of any set of frames",
     "The tests compare both gradients on three robots with a few loss functions; branching trees with mixed joint types and losses on inner frames are not covered.",
     ["chain.py"],
     [("analytical backward", "chain.py:_FKAnalyticalBackward.backward"), ("ancestor mask", "chain.py:Chain.__init__")],
     observe=["Chain.forward_kinematics(...).get_matrix().backward", "forward_kinematics_tensor(analytical_grad=...)"])

prop("C07", "Changing precision does not change what a chain computes",
     "After any sequence of moves between float32 and float64, before or after extracting serial chains, computing poses, Jacobians, limits or gradients, a chain gives the same poses, Jacobians, gradients, limits and names as one built directly in its current precision (up to rounding of its parameters), every result has that precision, and computing in float64 is accurate to float64.",
     ["histories", "configurations"],
     "all sequences of precision changes interleaved with all queries, on trees and serial chains",
     "Tests move a chain once, immediately after construction, and mostly look at one query afterwards; a member left behind in the old precision only shows with the right query after the move.",
     ["chain.py", "frame.py", "transforms/transform3d.py"],
     [("moves", "chain.py:Chain.to"), ("serial moves", "chain.py:SerialChain.to"), ("frame moves", "frame.py:Frame.to")],
     observe=["Chain.to", "SerialChain.to"])

prop("C08", "Joint limits belong to their joint and clamping projects onto them",
     "For every chain the reported position, velocity and effort limits are those of each joint in joint-name order, unbounded where a joint declares none, whatever the position of fixed or unlimited joints. "
     "Clamping a configuration given in any form returns, in joint-name order, each value limited to its own joint's range: values inside are unchanged, values outside become the nearest bound, and clamping again changes nothing.",
     ["inputs", "configurations"],
     "all chains, all limit assignments (none, asymmetric, one-sided, negative), all configurations and input forms, batched or not",
     "Two tests check one robot's limits and one robot without limits.",
     ["chain.py", "frame.py"],
     [("limits", "chain.py:Chain._get_joint_limits"), ("clamp", "chain.py:Chain.clamp"), ("joint clamp", "frame.py:Joint.clamp")],
     observe=["Chain.get_joint_limits", "Chain.get_joint_velocity_limits", "Chain.get_joint_effort_limits", "Chain.clamp", "Chain.low", "Chain.high", "Joint.clamp"])

prop("C09", "Loading a URDF gives the robot the file describes",
     "For every URDF tree the loaded chain has the file's links and joints with the same names, types, parent/child structure, axes, and position, velocity and effort limits, whatever the order of the elements in the file. "
     "Its poses for any configuration follow the URDF convention: each joint's origin (translation, then roll, pitch and yaw about fixed axes) in the parent link followed by the joint's motion; a missing origin is the identity and continuous joints are unlimited. The visual of each link has the shape, dimensions and pose of the link's first visual element.",
     ["inputs", "programs"],
     "all URDF documents describing a tree with fixed, continuous, revolute and prismatic joints, in any element order, with any optional parts present or missing",
     "A few vendored robot files are loaded and compared with recorded values.",
     ["urdf.py", "urdf_parser_py/urdf.py", "urdf_parser_py/xml_reflection/core.py"],
     [("tree construction", "urdf.py:build_chain_from_urdf"), ("origin conversion", "urdf.py:_convert_transform")],
     observe=["build_chain_from_urdf", "build_serial_chain_from_urdf"])

prop("C10", "Loading an SDF gives the robot the file describes",
     "For every SDF model whose links are posed in the model frame, the loaded chain has the model's links and joints with the same names, types, structure, axes and position limits, whatever the order of the elements. "
     "At the zero configuration every link is at the pose the file gives it (translation, then roll, pitch and yaw about fixed axes), and moving a joint moves exactly the links below it about or along the joint's axis through the child link's origin. The visuals of each link have the file's shapes, dimensions and poses.",
     ["inputs", "programs"],
     "all SDF models describing a tree with fixed, revolute and prismatic joints, in any element order, with arbitrary link poses",
     "Two vendored models without any rotation in their poses are loaded.",
     ["sdf.py", "urdf_parser_py/sdf.py"],
     [("tree construction", "sdf.py:build_chain_from_sdf"), ("pose conversion", "sdf.py:_convert_transform")],
     observe=["build_chain_from_sdf", "build_serial_chain_from_sdf"])

prop("C11", "Loading an MJCF gives the robot the file describes",
     "For every MJCF model with at most one hinge or slide joint per body anchored at the body's origin, the loaded chain has a frame for each body and site with the same names and structure, its joints have the model's names, types, axes and ranges (unlimited where the model gives no range), and its poses for any configuration are those of the model. "
     "Starting from a named body instead of the world keeps exactly that body's subtree, whatever else the model contains, and bodies with several joints are rejected. The visuals of each body have the shapes, dimensions and poses of its geoms.",
     ["inputs", "programs"],
     "all MJCF models of that kind: bodies nested to any depth, sites on any body, any orientations, any joint axes, any root body",
     "A few vendored models are compared with the simulator in a few configurations.",
     ["mjcf.py"],
     [("tree construction", "mjcf.py:_build_chain_recurse")],
     observe=["build_chain_from_mjcf", "build_serial_chain_from_mjcf"])

prop("C12", "Batched rigid transforms obey the algebra of transforms",
     "For all transforms, composing applies them as functions from right to left, the inverse undoes the transform on both sides, stacking concatenates batches, indexing selects, cloning copies, and points, normals and shape operators are mapped accordingly; a batch of one broadcasts against any other batch and incompatible batches are rejected. "
     "Building a transform from a position with a matrix, quaternion or Euler angles, or by chaining translations, rotations and scalings, gives the product it denotes, and no operation modifies its operands.",
     ["inputs", "histories"],
     "all sequences of constructions, compositions, inversions, stackings, selections, clones and precision changes on batches of any size, applied to points and normals of any shape",
     "The tests compose a few fixed transforms of one batch size and check one property each.",
     ["transforms/transform3d.py"],
     [("composition", "transforms/transform3d.py:Transform3d.compose"), ("inverse", "transforms/transform3d.py:Transform3d.inverse"),
      ("broadcasting", "transforms/transform3d.py:_broadcast_bmm")],
     observe=["Transform3d", "Translate", "Scale", "Rotate", "RotateAxisAngle"])

prop("C13", "Rotation representations convert into each other without changing the rotation",
     "Converting a rotation along any path between matrices, quaternions (real part first or last), axis-angle vectors, axis and angle, Euler angles of every convention, and the 6D and 9D forms always ends in the same rotation, for every rotation including the identity, half turns and angles beyond a half turn, wherever the target form is not singular. "
     "Quaternion product, inverse and application agree with matrix product, transpose and matrix-vector product, for any batch shape.",
     ["inputs"],
     "all rotations, all conversion paths, all Euler conventions, all batch shapes and both precisions",
     "Tests convert random rotations along two or three paths; the exact half turns, zero angles and most conventions are never sampled.",
     ["transforms/rotation_conversions.py"],
     [("conversions", "transforms/rotation_conversions.py")],
     observe=["the conversion functions"])

prop("C14", "Computations leave their inputs and each other alone",
     "No query, extraction, conversion, solve or composition modifies a tensor, array, list, dictionary, transform or chain passed to it, and results handed out earlier never change because of later calls. "
     "Repeating a computation with equal inputs on the same object gives the same result whatever other calls were made in between on this or other objects, and two chains that share a source never influence each other except through an explicit precision change of frames they share.",
     ["histories"],
     "all interleavings of queries, extractions, moves and solves over several chains, with inputs reused between calls",
     "Each test builds its own objects, calls one function once and does not look at the inputs again.",
     ["chain.py", "ik.py", "transforms/rotation_conversions.py", "transforms/math.py", "transforms/transform3d.py"],
     [("copies at extraction", "chain.py:SerialChain.__init__"), ("cached name and index lookups", "chain.py:Chain.get_frame_indices")],
     observe=["all public functions"])

prop("C15", "What inverse kinematics reports about its solutions is true",
     "Whatever the solver options, targets, initial configurations and outcome, for every problem and retry the reported position and rotation errors are those of the reported joint values' actual end-effector pose against that problem's target, a retry is reported converged exactly when both errors are below their tolerances, and a problem is reported solved exactly when one of its retries is. "
     "Problems, retries and their order are kept: row i belongs to target i, and with early stopping off solving several targets together gives each the outcome it has alone.",
     ["inputs", "configurations"],
     "all serial chains, targets (reachable or not), initial configurations, numbers of problems and retries, and solver options",
     "The tests look at the fraction converged and the worst error of the converged ones on one or two arms with generous thresholds.",
     ["ik.py"],
     [("bookkeeping", "ik.py:IKSolution.update"), ("solver", "ik.py:PseudoInverseIK.solve"), ("error", "ik.py:delta_pose")],
     observe=["PseudoInverseIK.solve", "PseudoInverseIKWithSVD.solve", "IKSolution"])

prop("C16", "Inverse kinematics respects joint limits",
     "With limit enforcement on, every returned joint value, converged or not, is finite and within its joint's limits, for any mix of limited, one-sided and unlimited, revolute and prismatic joints, and a revolute value that whole turns bring within two-sided limits is moved by whole turns, keeping the end-effector pose, rather than cut off. "
     "With enforcement off the solver's own values are returned unmodified, and with clamping at each step every configuration the solver visits after the initial one is within the limits.",
     ["inputs", "configurations"],
     "all serial chains and limit assignments, all targets and starting configurations, both settings of the options",
     "One arm with symmetric limits on all joints is tested.",
     ["ik.py"],
     [("enforcement", "ik.py:PseudoInverseIK._enforce_limits"), ("wrapping", "ik.py:PseudoInverseIK._wrap_revolute_joints")],
     observe=["PseudoInverseIK.solve"])

prop("C17", "Inverse kinematics iterates, stops and keeps solutions by its rules",
     "A solution that has converged is never replaced by a later iterate of the same retry, a retry that has not keeps its latest iterate, and a problem stops being considered exactly by the rules the options state: when one of its retries converged if so requested, and when not all (\"all\"), none (\"any\") or no more than the given ratio of its retries may still improve, a retry being without hope once it has made no improvement for more than the given number of consecutive iterations. "
     "The solver stops when no problem is left or the iteration limit is reached, reports how many iterations it made, starts from exactly the given or sampled initial configurations, and gives a repeated call the same outcome as the first.",
     ["histories", "schedules"],
     "all sequences of per-retry errors (converging, diverging, stalling, oscillating), all numbers of problems and retries, all stopping options, repeated solves with one solver",
     "Tests run a solver to completion on easy targets and never look at how it stopped or what it kept.",
     ["ik.py"],
     [("iteration", "ik.py:PseudoInverseIK.solve"), ("sticky convergence", "ik.py:IKSolution.update")],
     [("remaining", "problems still considered", "ik.py:IKSolution"), ("no improvement counter", "consecutive iterations without improvement per retry", "ik.py:PseudoInverseIK")],
     ["PseudoInverseIK.solve", "IKSolution", "LineSearch.do_line_search (called each iteration)"])

prop("C18", "Each inverse-kinematics step is the damped least-squares step",
     "At every iteration the pose error of a retry is the target position minus the current one and the shortest rotation taking the current orientation to the target's, as a vector in the base frame, and the joint step is the minimiser of the weighted squared residual of the linearised error plus the damping (constant and proportional to the squared weighted error) times the squared step, scaled by the learning rate. "
     "Both solver variants give the same step, for any number of joints, any Jacobian including singular ones, any weights and any batch layout.",
     ["inputs", "configurations"],
     "all chains (fewer, exactly or more than six joints), configurations including singular ones, targets, weights, damping and regularisation values, batch layouts",
     "One test compares compiled and plain results of one function; the step itself is only judged by overall success rates.",
     ["ik.py"],
     [("step", "ik.py:_ik_step_kernel"), ("step, SVD variant", "ik.py:_ik_step_kernel_svd"), ("pose error", "ik.py:delta_pose")],
     observe=["LineSearch.do_line_search arguments (q, dq, dx)", "delta_pose"])

prop("C19", "Backtracking line search picks the first sufficient step per attempt",
     "For each attempt of a problem still being considered, the backtracking line search returns the largest step size, among the initial one reduced by its factor zero, one, ... up to the maximal number of times, at which the pose error decreases by more than the required amount, and the most reduced one when none does; attempts do not influence each other's step size. "
     "It evaluates at most the given number of sizes and leaves its inputs unmodified.",
     ["inputs", "histories"],
     "all error profiles along the search direction, all numbers of problems and attempts, all parameter values, any set of problems still considered",
     "No test checks a step size; line search is only used in one solver run.",
     ["ik.py"],
     [("line search", "ik.py:BacktrackingLineSearch.do_line_search")],
     observe=["BacktrackingLineSearch.do_line_search"])

prop("C20", "Rotation interpolation, distance and exponential maps are exact",
     "Spherical interpolation between any two orientations follows the shortest arc at constant speed, from the first at 0 to the second at 1, the angular distance is the angle of the relative rotation regardless of quaternion signs (zero for nearly equal ones), and each pair in a batch is treated as it would be alone. "
     "The exponential, logarithm, relative-angle, hat and inverse-hat functions of the rotation group are mutually consistent and agree with the rotation they denote, and malformed inputs are rejected.",
     ["inputs"],
     "all pairs of rotations (equal, close, opposite signs, far), all interpolation parameters, all batch mixes, all rotation vectors away from the half turn",
     "One test interpolates one fixed pair; the so3 functions are not tested.",
     ["transforms/math.py", "transforms/so3.py"],
     [("slerp", "transforms/math.py:quaternion_slerp"), ("distance", "transforms/math.py:quaternion_angular_distance"),
      ("exponential map", "transforms/so3.py:so3_exp_map")],
     observe=["quaternion_slerp", "quaternion_angular_distance", "so3_exp_map", "so3_log_map", "so3_relative_angle", "hat", "hat_inv"])

prop("C21", "Sampled perturbations are rigid motions of the requested kind",
     "Every sampled perturbation of a transform is a rigid transform in the transform's precision; with zero spread it is the transform itself, and the rotation and translation parts vary only with their own spread, proportionally to it. "
     "With an axis of rotation given, every perturbation rotates about that axis only and, unless disabled, shifts only perpendicular to it.",
     ["inputs", "configurations"],
     "all transforms, numbers of samples, spreads, axes and seeds",
     "There is no test of the sampling.",
     ["transforms/perturbation.py", "transforms/transform3d.py"],
     [("sampling", "transforms/perturbation.py:sample_perturbations")],
     observe=["sample_perturbations", "Transform3d.sample_perturbations"])

prop("C22", "Robot description objects survive being written and read again",
     "For every robot description of the supported URDF and SDF elements, reading it gives objects with the values in the file, and writing them and reading the result gives equal values, element by element and in order, with the same kinematic behaviour. "
     "The maps from names to links and joints, from links to their parent and children, the root, and the path between two links always agree with the set of links and joints, whether read from a file or added one by one; missing required parts are rejected.",
     ["inputs", "programs", "histories"],
     "all robot descriptions built from the supported elements with any optional parts present or missing; all orders of adding links and joints",
     "The tests only read files, never write or edit a description, and do not use the maps.",
     ["urdf_parser_py/urdf.py", "urdf_parser_py/xml_reflection/core.py", "urdf_parser_py/xml_reflection/basics.py"],
     [("reading and writing", "urdf_parser_py/xml_reflection/core.py:Reflection"), ("maps", "urdf_parser_py/urdf.py:Robot.add_aggregate")],
     observe=["URDF.from_xml_string", "URDF.to_xml_string", "URDF.get_chain", "URDF.get_root"])

prop("C23", "Jacobians, second derivatives and chain parameters differentiate exactly",
     "For every serial chain, configuration and tool point, back-propagation through the Jacobian, with or without tool point and however it is asked for, gives the exact derivative of its entries with respect to every joint value and the tool point. "
     "For every tree, plain automatic differentiation through forward kinematics gives exact second derivatives by every pair of joint values, and exact derivatives with respect to the link and joint offsets the chain was built from; every batch row is differentiated on its own.",
     ["inputs", "configurations"],
     "all trees and serial chains, joint types, axes, offsets, configurations, tool points and batch sizes, all weights on entries of Jacobians and poses",
     "There is no test that differentiates a Jacobian or takes a second derivative with an expected value.",
     ["chain.py"],
     [("Jacobian kernel", "chain.py:SerialChain.jacobian_tensor"), ("tool offset", "chain.py:SerialChain.jacobian"), ("analytical backward", "chain.py:_FKAnalyticalBackward"),
      ("forward kinematics kernel", "chain.py:_fk_impl")],
     observe=["SerialChain.jacobian", "SerialChain.jacobian_tensor", "Chain.forward_kinematics_tensor"])

prop("C24", "Gradients through rotations and transforms are exact",
     "Along every smooth curve of rotations or transforms, the derivative that back-propagation gives for any chain of conversions between representations, products, inverses, compositions, selections, stackings, and applications to points and normals is the true derivative of the result, batch row by batch row, and it is finite, also where the rotation is the identity. "
     "The same holds for interpolation, angular distance, exponential and logarithm maps, perturbations, and by the transformed points.",
     ["inputs", "histories", "configurations"],
     "all sequences of conversions and transform operations away from the singularities of a representation, all curves through all rotations, batch shapes and weights",
     "The tests never differentiate a conversion or a transform with an expected value.",
     ["transforms/rotation_conversions.py", "transforms/transform3d.py", "transforms/math.py", "transforms/so3.py", "transforms/perturbation.py"],
     [("conversions", "transforms/rotation_conversions.py:matrix_to_quaternion"), ("composition", "transforms/transform3d.py:Transform3d.compose"),
      ("interpolation", "transforms/math.py:quaternion_slerp"), ("exponential map", "transforms/so3.py:so3_exp_map")],
     observe=["matrix_to_quaternion", "quaternion_to_axis_angle", "Transform3d", "quaternion_slerp", "so3_exp_map"])

prop("C25", "Compiled functions compute what the uncompiled ones do",
     "For every tree and serial chain, the compiled forward kinematics and Jacobian tensor functions, and compiled conversions between rotation representations, compile without falling back to the interpreter and give the exact poses, Jacobians and rotations, and exact gradients, for every sequence of calls with changing batch sizes, memory layouts and precisions. "
     "A solver asked to compile its kernels takes the same steps and reports the same solutions under the same rules as one that does not.",
     ["inputs", "histories", "configurations"],
     "all trees, serial chains, configurations, sequences of calls of one compiled function with different batch sizes, static and dynamic shapes, and inverse-kinematics problems",
     "The tests compile each function for one robot and one batch and compare it with itself uncompiled.",
     ["chain.py", "ik.py", "transforms/rotation_conversions.py"],
     [("compiled kernels", "chain.py:_fk_impl"), ("analytical backward", "chain.py:_FKAnalyticalBackward"), ("compiled solver", "ik.py:PseudoInverseIK")],
     observe=["torch.compile(Chain.forward_kinematics_tensor)", "torch.compile(SerialChain.jacobian_tensor)", "PseudoInverseIK(use_compile=True)"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
