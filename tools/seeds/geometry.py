G = "gradslam/geometry/geometryutils.py"
P = "gradslam/geometry/projutils.py"
S = "gradslam/geometry/se3utils.py"
D = "gradslam/datasets/datautils.py"
T = "gradslam/datasets/tumutils.py"
RIG = '''
from gradslam.geometry import geometryutils as G, projutils as P, se3utils as S
def rigid(B, seed=0):
    torch.manual_seed(seed)
    T = torch.eye(4).repeat(B, 1, 1)
    for b in range(B):
        q, r = torch.linalg.qr(torch.randn(3, 3))
        q = q * torch.det(q)
        T[b, :3, :3] = q
        T[b, :3, 3] = torch.randn(3)
    return T
def K4(fx=500., fy=480., cx=320., cy=240.):
    K = torch.eye(4); K[0, 0] = fx; K[1, 1] = fy; K[0, 2] = cx; K[1, 2] = cy
    return K
'''
SEEDS = [
 dict(id="b22_project_shared_skip_unbatched", prop="C13",
      edits=[(P, """        pts: torch.Tensor = torch.matmul(
            intrinsics_inv.unsqueeze(0), pts_homo.unsqueeze(-1)
        )
""", """        pts: torch.Tensor = torch.matmul(
            pts_homo.unsqueeze(-2), intrinsics_inv.unsqueeze(0)
        ).transpose(-1, -2)
""")],
      needs="unprojecting an unbatched (N, 2) list of pixels",
      breaks="the matrix is applied from the wrong side, so pixels unproject to wrong points",
      demo=RIG + '''
K = K4()
px = torch.tensor([[10., 20.], [300., 100.]])
d = torch.tensor([2., 3.])
X = P.unproject_points(px, P.inverse_intrinsics(K)[:3, :3], d)
close(P.project_points(X, K), px, "round trip", 1e-2)
'''),
 dict(id="b23_inverse_intrinsics_scale_from_first", prop="C13",
      edits=[(P, """    Kinv[..., 1, 2] = -1.0 * cy / (fy + eps)""", """    Kinv[..., 1, 2] = -1.0 * cy / (fy + eps) if K.dim() < 4 else -1.0 * cy / (fx + eps)""")],
      needs="intrinsics with two batch dimensions (as RGBDImages holds them) and fx != fy",
      breaks="the inverse's vertical offset uses the horizontal focal length",
      demo=RIG + '''
K = K4().repeat(2, 1, 1, 1)
close(P.inverse_intrinsics(K) @ K, torch.eye(4).repeat(2, 1, 1, 1), "K^-1 K")
'''),
 dict(id="b24_project_negative_clamp", prop="C13",
      edits=[(P, """    u: torch.Tensor = x / torch.where(z != 0, z, torch.ones_like(z))
    v: torch.Tensor = y / torch.where(z != 0, z, torch.ones_like(z))

    return torch.stack((u, v), dim=-1)""", """    u: torch.Tensor = x / torch.where(z.abs() > 1e-2, z, torch.ones_like(z))
    v: torch.Tensor = y / torch.where(z.abs() > 1e-2, z, torch.ones_like(z))

    return torch.stack((u, v), dim=-1)""")],
      needs="a point closer than a centimetre to the camera plane",
      breaks="such points are not divided by their depth",
      demo=RIG + '''
K = K4()
X = torch.tensor([[0.001, 0.002, 0.005]])
close(P.project_points(X, K), torch.tensor([[500 * .2 + 320, 480 * .4 + 240]]), "projection", 1e-2)
'''),
 dict(id="b25_unhomogenize_negative_w", prop="C14",
      edits=[(G, "torch.where(torch.abs(w) > eps, w, torch.ones_like(w))", "torch.where(w > eps, w, torch.ones_like(w))")],
      needs="homogeneous points with a negative last coordinate",
      breaks="the points are not divided by it",
      demo=RIG + '''
p = torch.rand(4, 3)
close(G.unhomogenize_points(G.homogenize_points(p) * -2), p, "negative multiple")
'''),
 dict(id="b26_relative_shortcut_always_first", prop="C15",
      edits=[(G, """        inverse_transformation(trans_01)
        if orthogonal_rotations
""", """        inverse_transformation(trans_01)
        if orthogonal_rotations
        else inverse_transfom_3d(trans_02)
        if trans_01.dim() == 3 and trans_01.shape[0] == 1 and trans_01 is trans_02
""")],
      needs="nothing reachable: kept out", breaks="equivalent", demo="sys.exit(1)\n"),
 dict(id="b27_transform_normals_inverse_transpose", prop="C15",
      edits=[(G, """    transformed_normals = torch.transpose(torch.matmul(R, transposed_normals), 0, 1)""", """    R = torch.inverse(R) if torch.det(R) < 0 or R[0, 0] < 0 else R
    transformed_normals = torch.transpose(torch.matmul(R, transposed_normals), 0, 1)""")],
      needs="a rotation by more than 90 degrees (negative first diagonal entry)",
      breaks="normals are rotated backwards",
      demo=RIG + '''
T = torch.eye(4)
T[:3, :3] = torch.tensor([[-.6, -.8, 0.], [.8, -.6, 0.], [0., 0., 1.]])
n = torch.rand(5, 3)
close(G.transform_normals(n, T), n @ T[:3, :3].T, "R n")
'''),
 dict(id="b28_transform_pts_nd_per_batch", prop="C15",
      edits=[(G, "    pts_homo_tformed = torch.matmul(tform.unsqueeze(1), pts_homo.unsqueeze(-1))", """    pts_homo_tformed = torch.matmul(
        tform.unsqueeze(0) if pts.shape[0] == pts.shape[1] else tform.unsqueeze(1),
        pts_homo.unsqueeze(-1),
    )""")],
      needs="as many points per batch element as batch elements",
      breaks="point j of every element is moved by transform j",
      demo=RIG + '''
T = rigid(2)
p = torch.rand(2, 2, 3)
q = G.transform_pts_nd_KF(p, T)
for b in range(2):
    close(q[b], p[b] @ T[b, :3, :3].T + T[b, :3, 3], "T p")
'''),
 dict(id="b29_quat_unit_shortcut", prop="C16",
      edits=[(G, """    # Normalize the input quaternion
    quaternion_norm = normalize_quaternion(quaternion)
""", """    # Normalize the input quaternion, unless it is normalized already
    quaternion_norm = quaternion
    if abs(float((quaternion ** 2).sum(-1).mean()) - 1.0) > 1e-6:
        quaternion_norm = normalize_quaternion(quaternion)
""")],
      needs="a batch of quaternions whose mean squared norm is one although the single ones are not unit",
      breaks="the quaternions are not normalised and the matrices are not rotations",
      demo=RIG + '''
q = torch.tensor([[1., 0, 0, 0], [0, 0, 1., 0]]) * torch.tensor([[0.5 ** .5], [1.5 ** .5]])
R = G.quaternion_to_rotation_matrix(q)
close(R @ R.transpose(-1, -2), torch.eye(3).repeat(2, 1, 1), "orthonormal")
'''),
 dict(id="b30_pointquat_sign", prop="C16",
      edits=[(D, """    txy = q[..., 0, 1]
""", """    txy = q[..., 0, 1] if q.ndim > 2 else abs(q[..., 0, 1])
""")],
      needs="a single (unbatched) quaternion with x and y of opposite sign",
      breaks="the result is not a rotation",
      demo=RIG + '''
from gradslam.datasets.datautils import pointquaternion_to_homogeneous as f
x = np.array([1., 2., 3., -.5, .5, .5, .5], dtype=np.float32)
close(f(x), f(x[None])[0], "single vs batched")
'''),
 dict(id="b31_transform44_unnormalised", prop="C16",
      edits=[(T, "    q *= np.sqrt(2.0 / nq)\n", "    q *= np.sqrt(2.0 / nq) if nq > 1.0 else np.sqrt(2.0)\n")],
      needs="a quaternion shorter than one in the trajectory file",
      breaks="the parsed pose is not a rotation",
      demo=RIG + '''
from gradslam.datasets.tumutils import transform44
M = transform44(("0", 1., 2., 3., .3, .3, .3, .3))
close(M[:3, :3] @ M[:3, :3].T, np.eye(3), "orthonormal")
'''),
 dict(id="b32_se3_exp_small_threshold", prop="C17",
      edits=[(S, "_eps = 1e-6", "_eps = 5e-2")],
      needs="a rotation of a few hundredths of a radian",
      breaks="the small-angle branch is used where it is not accurate: the result is not a rotation (error about 1e-3)",
      demo=RIG + '''
xi = torch.tensor([0.1, 0.2, 0.3, 0.02, 0.03, -0.02])
M = S.se3_exp(xi)
close(M[:3, :3] @ M[:3, :3].T, torch.eye(3), "orthonormal", 1e-4)
'''),
 dict(id="b33_se3_exp_v_large_angle", prop="C17",
      edits=[(S, """            + B * omega_hat
            + C * omega_hat_sq
        )

    t =""", """            + B * omega_hat
            + (C if theta < 3.0 else B / theta) * omega_hat_sq
        )

    t =""")],
      needs="a rotation by more than 3 radians",
      breaks="the translation part is not V v",
      demo=RIG + '''
xi = torch.tensor([0.1, 0.2, 0.3, 2., 2., -2.])
close(S.se3_exp(xi) @ S.se3_exp(-xi), torch.eye(4), "inverse", 1e-4)
'''),
]
SEEDS = [s for s in SEEDS if s["id"][:3] not in ("b23", "b26")]
