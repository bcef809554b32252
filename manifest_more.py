MORE = {k: (None, None) for k in "C09 C10 C11 C12 C13 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25".split()}
FIXED_MORE = [
    ("C12", "fix: translate, scale and rotate of a float64", "translate, scale and rotate of a float64 transform dropped to float32"),
    ("C12", "fix: RotateAxisAngle honours its dtype", "RotateAxisAngle ignored its dtype"),
    ("C12", "fix: batch_to_batch applies each transform", "transform_points/normals batch_to_batch applied every transform to every point"),
    ("C12", "fix: Transform3d.to(copy=True) returns a copy", "Transform3d.to(copy=True) returned the same object when nothing changed"),
    ("C13", "fix: axis-angle of a quaternion with real part near -1", "quaternions with real part near -1 converted to a wrong axis-angle"),
    ("C10", "fix: SDF joints may be limited on one side only", "an SDF joint limited on one side could not be clamped or moved"),
    ("C10", "fix: SDF links may omit their inertial", "an SDF link without inertial produced an error"),
    ("C22", "fix: writing a raw XML element leaves", "writing a URDF with gazebo elements emptied them: the second time they were missing"),
    ("C22", "fix: an element without its required attribute is rejected", "<parent/> was read as the link 'None'"),
    ("C22", "fix: an empty text element is read", "an element without text was read as 'None'"),
    ("C22", "fix: booleans are read and written as XML booleans", "false and 0 were read as True, and booleans written as True/False"),
    ("C22", "fix: Link keeps the visual and collision", "the visual and collision given to Link, or set on it, were dropped or not written"),
    ("C22", "fix: Actuator keeps the mechanicalReduction", "Actuator ignored its mechanicalReduction"),
    ("C22", "fix: Color accepts three values", "Color(r, g, b) failed"),
    ("C22", "fix: a constructed SDF Visual has a material", "a constructed SDF Visual could not be written"),
    ("C18", "fix: the SVD inverse kinematics works", "PseudoInverseIKWithSVD failed on chains with fewer than six joints"),
    ("C15", "fix: IKSolution reports position and rotation", "IKSolution.converged_pos and converged_rot were sticky although the solution and its errors were replaced"),
    ("C16", "fix: IK clamps to limits that are only finite above", "IK did not enforce limits when no joint has a finite lower limit"),
    ("C17", "fix: IK accepts initial configurations", "IK rejected initial configurations given for each problem"),
    ("C18", "fix: IK steps do not fail or lose precision", "the default float32 solver raised an error or lost precision at singular Jacobians, such as of chains with few joints"),
    ("C24", "fix: axis-angle conversions have gradients at the identity", "the gradient of axis-angle conversions was NaN at the identity"),
    ("C06", "fix: gradients of forward kinematics accept an empty batch", "back-propagation through forward kinematics of an empty batch failed"),
    ("C02", "fix: dicts of (N, 1) columns", "a dictionary of (N, 1) columns, as in the README, failed"),
    ("C12", "fix: transform_shape_operator handles the shapes it documents", "shape operators of shape (N,P,3,3), and several transforms, were rejected or paired up"),
    ("C19", "fix: the line search keeps its step sizes", "the line search failed when torch's default dtype differed from the configurations', and rounded step sizes of float64 configurations to float32"),
]
KNOWN = []
