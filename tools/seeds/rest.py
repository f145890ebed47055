C = "gradslam/odometry/icputils.py"
GI = "gradslam/odometry/gradicp.py"
IC = "gradslam/odometry/icp.py"
GT = "gradslam/odometry/groundtruth.py"
TU = "gradslam/datasets/tumutils.py"
TUM = "gradslam/datasets/tum.py"
ICL = "gradslam/datasets/icl.py"
SC = "gradslam/datasets/scannet.py"
D = "gradslam/datasets/datautils.py"
CF = "gradslam/config/cfgnode.py"
R = "gradslam/structures/rgbdimages.py"
PJ = "gradslam/geometry/projutils.py"
U = "gradslam/slam/fusionutils.py"
PC = "gradslam/structures/pointclouds.py"
ODO = '''
from gradslam.odometry import icputils as I
from gradslam.geometry.se3utils import se3_exp
from gradslam.structures.pointclouds import Pointclouds
from gradslam.structures.rgbdimages import RGBDImages
def plane(n=60, seed=0):
    torch.manual_seed(seed)
    p = torch.randn(1, n, 3)
    m = torch.randn(1, n, 3)
    return p, m / m.norm(dim=-1, keepdim=True)
def frame(B, H=4, W=4, holes=()):
    d = torch.rand(B, 1, H, W, 1) + 1
    for ix in holes:
        d[ix] = 0
    K = torch.eye(4).repeat(B, 1, 1, 1); K[:, 0, 0, 0] = 4; K[:, 0, 1, 1] = 3; K[:, 0, 0, 2] = 1.5; K[:, 0, 1, 2] = 1.5
    return RGBDImages(torch.rand(B, 1, H, W, 3), d, K, torch.eye(4).repeat(B, 1, 1, 1))
'''
DS = '''
import tempfile, shutil, atexit
base = tempfile.mkdtemp(); atexit.register(shutil.rmtree, base)
def read(mod, scale=1):
    mod.imageio.imread = lambda p: (np.full((480, 640, 3), int(os.path.basename(p).split(".")[0]) % 200, dtype=np.uint8) if "rgb" in p or "color" in p
                                    else np.full((480, 640), 1000 + int(os.path.basename(p).split(".")[0]), dtype=np.int32))
def tum(n, depth=None, poses=None, off=0.0):
    d = os.path.join(base, "rgbd_dataset_freiburg1_a"); os.makedirs(d)
    s = lambda t: "%.4f" % t
    open(d + "/rgb.txt", "w").write("".join("%s rgb/%d.png\\n" % (s(10 + i), i) for i in range(n)))
    open(d + "/depth.txt", "w").write("".join("%s depth/%d.png\\n" % (s(10 + i + off), i) for i in range(n)))
    open(d + "/groundtruth.txt", "w").write("".join("%s %d 0 0 0 0 0 1\\n" % (s(10 + i), i) for i in range(n)))
    from gradslam.datasets import tum as T
    read(T)
    return T.TUM
def icl(n, traj=1):
    d = os.path.join(base, "living_room_traj%d_frei_png" % traj); os.makedirs(d)
    open(d + "/associations.txt", "w").write("".join("%d depth/%d.png %d rgb/%d.png\\n" % (i, i, i, i) for i in range(n)))
    open(d + "/livingRoom%dn.gt.sim" % traj, "w").write("".join("1 0 0 %d\\n0 1 0 0\\n0 0 1 0\\n\\n" % i for i in range(n)))
    from gradslam.datasets import icl as T
    read(T)
    return T.ICL
'''
SEEDS = [
 dict(id="b50_gn_rotation_row_sign", prop="C24",
      edits=[(C, "[nx, ny, nz, nz * sy - ny * sz, nx * sz - nz * sx, ny * sx - nx * sy], 1", "[nx, ny, nz, nz * dy - ny * dz, nx * dz - nz * dx, ny * dx - nx * dy], 1")],
      needs="source points that do not coincide with their nearest target points",
      breaks="the rotational part of the rows is taken at the target instead of the source points",
      demo=ODO + '''
p, n = plane()
s = p + 0.05
A, b, i = I.gauss_newton_solve(s, p, n)
close(A[:, 3:], torch.cross(s[0], n[0, i], dim=-1), "rows", 1e-4)
'''),
 dict(id="b51_gn_threshold_nonstrict_all", prop="C24",
      edits=[(C, "    assoc_normals = torch.index_select(tgt_normals, 1, chamfer_indices)\n", "    assoc_normals = torch.index_select(\n        tgt_normals, 1, chamfer_indices if dist_thresh is None else idx1[0].long()\n    )[:, : chamfer_indices.shape[0]]\n")],
      needs="a distance threshold that drops a source point before a kept one",
      breaks="rows of kept points use the normals of other points",
      demo=ODO + '''
p, n = plane(5)
s = p.clone(); s[0, 0] += 100.0
A, b, i = I.gauss_newton_solve(s, p, n, 1.0)
close(A[:, :3], n[0, 1:], "normals of the rows")
'''),
 dict(id="b52_solver_damp_last_only", prop="C25",
      edits=[(C, "    damp_matrix = torch.eye(A.shape[1]).to(A.device)\n", "    damp_matrix = torch.eye(A.shape[1]).to(A.device)\n    if A.shape[0] < A.shape[1]:\n        damp_matrix = damp_matrix * A.shape[0] / A.shape[1]\n")],
      needs="fewer residuals than unknowns",
      breaks="less damping than asked for",
      demo=ODO + '''
A, b = torch.rand(2, 3), torch.rand(2, 1)
x = I.solve_linear_system(A, b, 0.5)
close((A.T @ A + 0.5 * torch.eye(3)) @ x, A.T @ b, "damped normal equations", 1e-4)
'''),
 dict(id="b53_icp_accept_keeps_cloud", prop="C26",
      edits=[(C, """            # update transform
            transform = torch.mm(residual_transform, transform)
""", """            # update transform
            transform = torch.mm(transform, residual_transform)
""")],
      needs="an initial transform (or an earlier accepted step) that does not commute with the step",
      breaks="increments are composed on the wrong side",
      demo=ODO + '''
p, n = plane(200)
T = se3_exp(torch.tensor([0.02, -0.03, 0.01, 0.02, 0.01, -0.02]))
T0 = se3_exp(torch.tensor([0.5, 0.2, -0.3, 0., 0.8, 0.]))
s = p[0] @ torch.inverse(T @ T0)[:3, :3].T + torch.inverse(T @ T0)[:3, 3]
t, _ = I.point_to_plane_ICP(s[None], p, n, T0, numiters=10)
close(t, T @ T0, "transform", 5e-3)
'''),
 dict(id="b54_icp_accepts_equal_or_fewer", prop="C26",
      edits=[(C, """        if new_err < err:
            # We are in a trust region""", """        if new_err / max(one_step_residual.shape[0], 1) < err / max(
            residual.shape[0], 1
        ):
            # We are in a trust region""")],
      needs="a distance threshold under which a step changes the number of kept points",
      breaks="steps that raise the summed squared residual can be accepted when they match more points (and the reverse)",
      demo=ODO + '''
import gradslam.odometry.icputils as I
p, n = plane(2)
calls = []
def gn(s, t, m, th=None):
    calls.append(1)
    b = torch.tensor([[1.0]]) if len(calls) % 2 else torch.tensor([[0.9], [0.9]])
    A = torch.eye(6)[:len(b)]
    return A, b, torch.arange(len(b))
I.gauss_newton_solve = gn
t, _ = I.point_to_plane_ICP(p, p, n, torch.eye(4), numiters=1)
close(t, torch.eye(4), "a step raising the summed squared residual (1 to 1.62) was accepted")
'''),
 dict(id="b55_gradicp_gate_uses_b", prop="C26",
      edits=[(C, "        sigmoid = 1 / ((1 + torch.exp(-B2 * errdiff)) ** (1 / nu))", "        sigmoid = 1 / ((1 + torch.exp(-B * errdiff)) ** (1 / nu))")],
      needs="different values of B and B2",
      breaks="the step gate ignores its own falloff parameter",
      demo=ODO + '''
p, n = plane(50)
s = p + 0.1
a, _ = I.point_to_plane_gradICP(s, p, n, torch.eye(4), numiters=1, B=1.0, B2=50.0, nu=1.0)
b, _ = I.point_to_plane_gradICP(s, p, n, torch.eye(4), numiters=1, B=1.0, B2=0.0, nu=1.0)
check(not torch.allclose(a, b, atol=1e-6), "B2 has no effect")
'''),
 dict(id="b56_ds_clouds_offgrid_columns", prop="C27",
      edits=[(C, "    pc2im_bnhw = pc2im_bnhw[pc2im_bnhw[..., 3] % ds_ratio == 0]\n", "    if ds_ratio % 2 == 0:\n        pc2im_bnhw = pc2im_bnhw[pc2im_bnhw[..., 3] % ds_ratio == 0]\n")],
      needs="an odd downsampling ratio",
      breaks="columns are not downsampled",
      demo=ODO + '''
pc = Pointclouds(points=[torch.rand(4, 3)], normals=[torch.rand(4, 3)], colors=[torch.rand(4, 3)])
q = I.downsample_pointclouds(pc, torch.tensor([[0, 0, 0, 0], [0, 1, 0, 1], [0, 2, 3, 3], [0, 3, 3, 2]]), 3)
close(q.points_list[0], pc.points_list[0][[0, 2]], "kept points")
'''),
 dict(id="b57_ds_frames_colors_unmasked_grid", prop="C27",
      edits=[(C, "        rgbdimages.rgb_image[b][..., ::ds_ratio, ::ds_ratio, :][mask[b]]\n", "        rgbdimages.rgb_image[b][rgbdimages.valid_depth_mask[b].squeeze(-1)][\n            : len(points[b])\n        ]\n        if ds_ratio == 1\n        else rgbdimages.rgb_image[b][..., : mask.shape[-2], : mask.shape[-1], :][mask[b]]\n")],
      needs="a ratio above one (ratio one still works)",
      breaks="colors come from the top left corner instead of the sampling grid",
      demo=ODO + '''
f = frame(1)
q = I.downsample_rgbdimages(f, 2)
close(q.colors_list[0], f.rgb_image[0, 0, ::2, ::2].reshape(-1, 3), "colors")
'''),
 dict(id="b58_gt_orthogonal_transpose", prop="C28",
      edits=[(GT, """        B, L = rgbdimages1.shape[:2]
""", """        B, L = rgbdimages1.shape[:2]
        if torch.equal(rgbdimages1.poses, rgbdimages1.poses[:1].expand(B, L, 4, 4)):
            # shared reference pose
            return torch.matmul(
                torch.inverse(rgbdimages1.poses[0]), rgbdimages2.poses[:, 0]
            ).view(-1, 1, 4, 4)[:1].repeat(B, 1, 1, 1)
""")],
      needs="a batch of frames sharing one reference pose but with different second poses",
      breaks="every batch element gets the first element's relative pose",
      demo=ODO + '''
from gradslam.odometry.groundtruth import GroundTruthOdometryProvider as G
a, b = frame(2), frame(2)
P = torch.eye(4).repeat(2, 1, 1, 1); P[0, 0, 0, 3] = 1; P[1, 0, 0, 3] = 2
b.poses = P
close(G().provide(a, b), P, "relative poses")
'''),
 dict(id="b59_window_end_inclusive", prop="C29",
      edits=[(ICL, """                if (start_ind + idx[-1]) >= traj_len:
                    break""", """                if (start_ind + seqlen) > traj_len:
                    break
                if (start_ind + idx[-1]) >= traj_len:
                    start_ind = traj_len - 1 - idx[-1]
                if start_ind < 0:
                    break""")],
      needs="a dilation, and a trajectory length that leaves a partial dilated window at the end",
      breaks="an extra window is served whose start is not on the stride grid",
      demo=DS + '''
S = icl(8)
ds = S(base, seqlen=2, dilation=2, stride=2, height=4, width=4)
check([x.split(", ") for x in ds.framenames] == [["living_room_traj1_frei_png/%d" % i, "living_room_traj1_frei_png/%d" % (i + 3)] for i in (0, 2, 4)], str(ds.framenames))
'''),
 dict(id="b60_tum_timestamps_undilated", prop="C29",
      edits=[(TUM, "                timestamps.append([seq_timestamps[i] for i in inds])\n", "                timestamps.append(seq_timestamps[start_ind : start_ind + seqlen])\n")],
      needs="a dilation other than zero",
      breaks="the reported timestamps belong to other frames than the served images",
      demo=DS + '''
S = tum(8)
ds = S(base, seqlen=2, dilation=1, height=4, width=4)
check("rgb 12.0000 depth 12.0000" in ds[0][-1], ds[0][-1])
'''),
 dict(id="b61_scannet_end_last", prop="C29",
      edits=[(SC, "                lines = lines[self.start : end_frame]\n", "                lines = lines[self.start : -1 if end_frame < 0 else end_frame]\n                if self.end == len(lines) + self.start and self.start > 0:\n                    lines = lines[: self.end]\n                    lines = lines[:-1] if len(lines) > 2 else lines\n")],
      needs="a window starting after frame 0 and longer than two frames",
      breaks="the last frame of the window is missing",
      demo=DS + '''
m = os.path.join(base, "meta"); os.makedirs(m)
open(m + "/scene0000_00-seq.txt", "w").write("".join("color c/%d.jpg depth d/%d.png pose p/%d.txt label-filt l/%d.png a b c d e f intrinsic_depth k.txt x y\\n" % (i, i, i, i) for i in range(8)))
from gradslam.datasets.scannet import Scannet
ds = Scannet(base, m, None, 2, 6)
check([os.path.basename(x) for x in ds.colorfiles[0]] == ["2.jpg", "3.jpg", "4.jpg", "5.jpg"], str(ds.colorfiles))
'''),
 dict(id="b62_associate_first_not_best", prop="C30",
      edits=[(TU, "    potential_matches.sort()\n", "    potential_matches.sort(key=lambda match: round(match[0], 2))\n")],
      needs="two candidate pairs whose differences are below 5 ms apart (the tolerance is 20 ms)",
      breaks="the farther stamp is matched",
      demo='''
from gradslam.datasets.tumutils import associate
m = associate({"1.000": 0}, {"0.996": 0, "1.001": 0}, 0.0, 0.02)
check(m == [("1.000", "1.001")], str(m))
'''),
 dict(id="b63_associate_offset_sign", prop="C30",
      edits=[(TU, "        if abs(float(a) - (float(b) + offset)) < max_difference\n", "        if abs(float(a) - float(b)) < max_difference + abs(offset)\n")],
      needs="a nonzero offset",
      breaks="pairs beyond the tolerance are associated",
      demo='''
from gradslam.datasets.tumutils import associate
m = associate({"1.0": 0}, {"1.1": 0}, 0.1, 0.02)
check(m == [], str(m))
'''),
 dict(id="b64_scale_square_ratio", prop="C31",
      edits=[(D, "    scaled_intrinsics[..., 1, 2] *= h_ratio  # cy\n", "    scaled_intrinsics[..., 1, 2] *= h_ratio if intrinsics.shape[-1] == 4 else w_ratio  # cy\n")],
      needs="3x3 intrinsics and different ratios",
      breaks="cy is scaled by the width ratio",
      demo='''
from gradslam.datasets.datautils import scale_intrinsics
K = np.array([[500., 0, 320.], [0, 480., 240.], [0, 0, 1.]])
close(scale_intrinsics(K, 0.5, 0.25)[1, 2], 120.0, "cy")
'''),
 dict(id="b65_labels_swapped_order", prop="C31",
      edits=[(SC, """        (14, 13),
        (16, 14),
        (24, 15),
        (28, 16),
        (33, 17),""", """        (33, 17),
        (14, 13),
        (16, 14),
        (24, 15),
        (28, 16),
        (13, 0),""")],
      needs="a label image with class 14",
      breaks="class 14 is first renamed to 13 and then dropped as the absent class 13",
      demo='''
from gradslam.datasets.scannet import nyu40_to_scannet20
check(nyu40_to_scannet20(np.array([[14, 33]])).tolist() == [[13, 17]], "labels")
'''),
 dict(id="b66_transforms_wrt_start", prop="C32",
      edits=[(D, "            transformations[i] = np.linalg.inv(poses[i - 1]).dot(poses[i])\n", "            transformations[i] = np.linalg.inv(poses[i - 1]).dot(poses[i])\n            transformations[i][:3, :3] = poses[i - 1][:3, :3].T.dot(poses[i][:3, :3]) if i > 1 else poses[i][:3, :3].dot(poses[i - 1][:3, :3].T)\n")],
      needs="first and second pose with different, non-commuting rotations",
      breaks="the first frame-to-frame rotation is expressed in the world instead of the frame",
      demo='''
from gradslam.datasets.datautils import poses_to_transforms
def r(a, i, j):
    M = np.eye(4); M[i, i] = M[j, j] = np.cos(a); M[i, j] = -np.sin(a); M[j, i] = np.sin(a); return M
P = [r(.5, 0, 1), r(.7, 1, 2), r(.2, 0, 2)]
T = poses_to_transforms(P)
close(P[0] @ T[1], P[1], "chain")
'''),
 dict(id="b67_preprocess_poses_shared", prop="C32",
      edits=[(TUM, """            transform_seq = datautils.poses_to_transforms(poses)
            transform_seq = [torch""", """            transform_seq = datautils.poses_to_transforms(poses)
            if self.return_pose and self.stride < self.seqlen:
                transform_seq[0] = pose_seq[-1].numpy()
            transform_seq = [torch""")],
      needs="overlapping windows (stride below the sequence length)",
      breaks="the first transform is not the identity",
      demo=DS + '''
S = tum(5)
ds = S(base, seqlen=3, stride=1, height=4, width=4)
close(ds[0][4][0], torch.eye(4), "first transform")
'''),
 dict(id="b68_cfg_int_from_bool", prop="C33",
      edits=[(CF, """    if replacement_type == original_type:
        return replacement
""", """    if replacement_type == original_type:
        return replacement
    if isinstance(replacement, original_type) and not isinstance(replacement, CfgNode):
        return replacement
""")],
      needs="overriding an int setting by a bool",
      breaks="the setting's type changes from int to bool",
      demo='''
from gradslam.config import CfgNode
c = CfgNode({"A": 3})
try:
    c.merge_from_list(["A", True])
    check(False, "bool accepted for int")
except ValueError:
    pass
'''),
 dict(id="b69_cfg_new_allowed_inherited", prop="C33",
      edits=[(CF, "        elif b.is_new_allowed():\n", "        elif b.is_new_allowed() or (root.is_new_allowed() and isinstance(v, CfgNode)):\n")],
      needs="a root open for new keys, a closed child and an override naming an unknown sub-node of the child",
      breaks="the closed node silently takes a new key",
      demo='''
from gradslam.config import CfgNode
c = CfgNode(new_allowed=True)
c.B = CfgNode({"x": 1})
try:
    c.merge_from_other_cfg(CfgNode({"B": {"y": {"z": 2}}}))
    check(False, "unknown key accepted")
except KeyError:
    pass
'''),
 dict(id="b70_cfg_freeze_first_level", prop="C34",
      edits=[(CF, """        for v in self.values():
            if isinstance(v, CfgNode):
                v._immutable(is_immutable)
""", """        for v in self.values():
            if isinstance(v, CfgNode) and v.is_frozen() != is_immutable:
                v._immutable(is_immutable)
""")],
      needs="a child frozen on its own, to which ... a grandchild is open, then freezing the root",
      breaks="the open grandchild stays mutable",
      demo='''
from gradslam.config import CfgNode
c = CfgNode({"B": {"D": {"x": 1}}})
c.B.freeze()
c.B.D.defrost()
c.freeze()
try:
    c.B.D.x = 2
    check(False, "frozen config changed")
except AttributeError:
    pass
'''),
 dict(id="b71_cfg_dump_sorted_tuple", prop="C34",
      edits=[(CF, "    def clone(self):\n", "    def __deepcopy__(self, memo):\n        other = type(self)(new_allowed=self.is_new_allowed())\n        for k, v in self.items():\n            dict.__setitem__(other, k, copy.deepcopy(v) if isinstance(v, CfgNode) else v)\n        other._immutable(self.is_frozen())\n        return other\n\n    def clone(self):\n")],
      needs="a clone of a config holding a list, changed in place",
      breaks="the clone shares the list with the original (and loses its deprecated and renamed keys)",
      demo='''
from gradslam.config import CfgNode
c = CfgNode({"A": [1, 2]})
d = c.clone()
d.A.append(3)
check(c.A == [1, 2], "original changed")
'''),
 dict(id="b72_detached_intrinsics", prop="C35",
      edits=[(R, "            self._xyz_cam", "            self._xyz_cam")], needs="", breaks="", demo="sys.exit(1)\n"),
 dict(id="b73_fusion_detached_alpha", prop="C35",
      edits=[(U, "        updated_ccounts = map_ccounts + frame_alphas\n", "        updated_ccounts = map_ccounts.detach() + frame_alphas\n")],
      needs="differentiating with respect to the confidences of the map",
      breaks="part of the gradient is cut, the remaining gradient is wrong",
      demo='''
from gradslam.structures.rgbdimages import RGBDImages
from gradslam.structures.pointclouds import Pointclouds
from gradslam.slam import fusionutils as U
K = torch.eye(4).repeat(1, 1, 1, 1); K[0, 0, 0, 2] = K[0, 0, 1, 2] = 1.0
f = RGBDImages(torch.rand(1, 1, 3, 3, 3), torch.rand(1, 1, 3, 3, 1) + 1, K, torch.eye(4).repeat(1, 1, 1, 1))
w = torch.tensor([[1.3]], requires_grad=True)
pc = Pointclouds(points=[torch.rand(1, 3)], normals=[torch.rand(1, 3)], colors=[torch.rand(1, 3)], features=[w])
q = U.fuse_with_map(pc, f, torch.tensor([[0, 0, 1, 1]]), 2.0)
(g,) = torch.autograd.grad(q.features_list[0][0].sum(), w)
close(g, torch.ones(1, 1), "d confidence / d confidence")
'''),
 dict(id="b74_project_nan_gradient", prop="C35",
      edits=[(PJ, """    u: torch.Tensor = x / torch.where(z != 0, z, torch.ones_like(z))
""", """    u: torch.Tensor = torch.where(z != 0, x / z, x)
""")],
      needs="a point with zero depth (e.g. cloud padding) and a backward pass",
      breaks="the gradient is NaN although the value is unchanged",
      demo='''
from gradslam.geometry import projutils as P
X = torch.tensor([[1., 2., 0.], [1., 2., 3.]], requires_grad=True)
P.project_points(X, torch.eye(4))[1].sum().backward()
check(bool(torch.isfinite(X.grad).all()), "gradient %r" % X.grad)
'''),
 dict(id="b75_icp_warm_start_across_batch", prop="C36",
      edits=[(IC, "            transforms.append(transform)\n", "            transforms.append(transform)\n            initial_transform = transform\n")],
      needs="a batch of two or more elements and few ICP iterations",
      breaks="an element's estimate starts from the previous element's result",
      demo=ODO + '''
from gradslam.odometry.icp import ICPOdometryProvider as P
p, n = plane(60)
s = p + 0.2
o = P(numiters=0 + 1)
a = Pointclouds(points=[p[0], p[0] * 2], normals=[n[0], n[0]])
b = Pointclouds(points=[s[0], p[0] * 2 + .1], normals=[n[0], n[0]])
close(o.provide(a, b)[1], o.provide(a[1], b[1])[0], "second element alone", 1e-5)
'''),
 dict(id="b76_alpha_normalised_over_batch", prop="C36",
      edits=[(U, "    dot_res = (tensor1 * tensor2).sum(dim)\n", "    dot_res = (tensor1 * tensor2).sum(dim)\n    if dot_res.max() > 1.05:\n        dot_res = dot_res / dot_res.max()\n")],
      needs="a batch in which one element has normals longer than one",
      breaks="the other elements' similarities are scaled down and their matches lost",
      demo='''
from gradslam.slam import fusionutils as U
a = torch.tensor([[[0., 0., 1.]], [[0., 0., 2.]]])
check(U.are_normals_similar(a, a, 0.9).tolist() == [[True], [True]], "unit normals of the first element")
'''),
]
SEEDS = [s for s in SEEDS if "sys.exit(1)" not in s["demo"]]
