U = "gradslam/slam/fusionutils.py"
I = "gradslam/slam/icpslam.py"
Q = "gradslam/structures/utils.py"
MK = '''
from gradslam.structures.rgbdimages import RGBDImages
from gradslam.structures.pointclouds import Pointclouds
from gradslam.slam import fusionutils as U
def K4(B, fx=4., fy=3., cx=1.5, cy=1.):
    K = torch.eye(4).repeat(B, 1, 1, 1); K[:, 0, 0, 0] = fx; K[:, 0, 1, 1] = fy; K[:, 0, 0, 2] = cx; K[:, 0, 1, 2] = cy
    return K
def frame(B, H=3, W=4, poses=None, holes=(), L=1):
    d = torch.rand(B, L, H, W, 1) * 0.3 + 1
    for ix in holes:
        d[ix] = 0
    P = torch.eye(4).repeat(B, L, 1, 1) if poses is None else poses
    return RGBDImages(torch.rand(B, L, H, W, 3), d, K4(B), P)
def lists(ns, C=1):
    n = [torch.randn(k, 3) for k in ns]
    return dict(points=[torch.rand(k, 3) * .2 + torch.tensor([0., 0., 1.]) for k in ns], normals=[x / x.norm(dim=-1, keepdim=True) for x in n],
                colors=[torch.rand(k, 3) for k in ns], features=[torch.rand(k, C) + 1 for k in ns])
'''
SEEDS = [
 dict(id="b34_active_uses_first_intrinsics", prop="C18",
      edits=[(U, """        rgbdimages.intrinsics.squeeze(1)
    )  # IN-PLACE operation""", """        rgbdimages.intrinsics[0, 0]
    )  # IN-PLACE operation""")],
      needs="a batch whose elements have different intrinsics",
      breaks="points of later batch elements are projected with the first element's camera",
      demo=MK + '''
f = frame(2)
K = K4(2); K[1, 0, 0, 2] = 0.5
f.intrinsics = K
pc = Pointclouds(**lists([1, 1]))
pc.points_list = [torch.tensor([[0., 0., 1.]])] * 2
t = U.find_active_map_points(pc, f)
check(t[1].tolist() == [1, 0, 1, 0] or t[1].tolist() == [1, 0, 1, 1], "second camera: column %r" % t[1].tolist())
K[1, 0, 0, 2] = 0.9
f.intrinsics = K
check(U.find_active_map_points(pc, f)[1].tolist() == [1, 0, 1, 1], "second camera")
'''),
 dict(id="b35_active_floor", prop="C18",
      edits=[(U, "    in_plane_pos = img_plane_points.round().long()", "    in_plane_pos = (img_plane_points + 0.5).long()")],
      needs="ties only: kept out", breaks="equivalent apart from ties", demo="sys.exit(1)\n"),
 dict(id="b36_active_padding_when_equisized_flag", prop="C18",
      edits=[(U, """        & is_front_of_plane
        & pointclouds.nonpad_mask
    )""", """        & is_front_of_plane
    )"""), (U, """    pointclouds_transformed = pointclouds.transform(tinv)
    is_front""", """    pointclouds_transformed = pointclouds.transform(tinv)
    if pointclouds_transformed.equisized is False and torch.is_tensor(pointclouds._N):
        pointclouds_transformed._nonpad_mask = None
    is_front""")],
      needs="none: padding rows sit at depth zero", breaks="equivalent", demo="sys.exit(1)\n"),
 dict(id="b37_active_border_rows", prop="C18",
      edits=[(U, "        & (img_plane_points[..., 1] < height - 0.999)", "        & (img_plane_points[..., 1] < min(height, width) - 0.999)")],
      needs="an image higher than wide and a point projecting below its upper square",
      breaks="visible points in the lower part of portrait images are not active",
      demo=MK + '''
f = frame(1, H=5, W=3)
pc = Pointclouds(**lists([1]))
pc.points_list = [torch.tensor([[0., 1., 1.]])]
t = U.find_active_map_points(pc, f)
check(t.tolist() in ([[0, 0, 4, 1]], [[0, 0, 4, 2]]), "lower half %r" % t.tolist())
'''),
 dict(id="b38_similar_uses_local_normals", prop="C19",
      edits=[(U, """    normal_maps = rgbdimages.global_normal_map

    frame_points = torch.zeros_like(pointclouds.points_padded)
    frame_normals = torch.zeros_like(pointclouds.normals_padded)

    # vertex_maps""", """    normal_maps = rgbdimages.normal_map

    frame_points = torch.zeros_like(pointclouds.points_padded)
    frame_normals = torch.zeros_like(pointclouds.normals_padded)

    # vertex_maps""")],
      needs="a frame whose pose rotates",
      breaks="map normals are compared with camera-frame instead of global normals",
      demo=MK + '''
P = torch.eye(4).repeat(1, 1, 1, 1)
P[0, 0, :3, :3] = torch.tensor([[0., 0., 1.], [0., 1., 0.], [-1., 0., 0.]])
f = frame(1, poses=P)
g, n = f.global_vertex_map[0, 0, 1, 1], f.global_normal_map[0, 0, 1, 1]
pc = Pointclouds(points=[g[None]], normals=[n[None]], colors=[torch.rand(1, 3)], features=[torch.ones(1, 1)])
t, m = U.find_similar_map_points(pc, f, torch.tensor([[0, 0, 1, 1]]), 0.1, 0.9)
check(m.tolist() == [True], "same point and normal rejected")
'''),
 dict(id="b39_similar_squared_distance", prop="C19",
      edits=[(U, "    return (tensor1 - tensor2).norm(dim=dim) < dist_th", "    return ((tensor1 - tensor2) ** 2).sum(dim) < dist_th * abs(dist_th)")],
      needs="(equivalent for non-negative thresholds)", breaks="equivalent", demo="sys.exit(1)\n"),
 dict(id="b40_similar_abs_dot", prop="C19",
      edits=[(U, "    return dot_res > dot_th\n", "    return dot_res.abs() > dot_th\n")],
      needs="a map normal pointing opposite to the live normal",
      breaks="opposite normals count as similar",
      demo=MK + '''
f = frame(1)
g, n = f.global_vertex_map[0, 0, 1, 1], f.global_normal_map[0, 0, 1, 1]
pc = Pointclouds(points=[g[None]], normals=[-n[None]], colors=[torch.rand(1, 3)], features=[torch.ones(1, 1)])
t, m = U.find_similar_map_points(pc, f, torch.tensor([[0, 0, 1, 1]]), 0.1, 0.9)
check(m.tolist() == [False], "opposite normal kept")
'''),
 dict(id="b41_unique_by_newest", prop="C20",
      edits=[(U, """    unique_criteria_bhwcrn = [
        pc2im_bnhw[:, 0:1].float(),
        pc2im_bnhw[:, 2:4].float(),
        inv_ccounts,
        ray_dists,
""", """    unique_criteria_bhwcrn = [
        pc2im_bnhw[:, 0:1].float(),
        pc2im_bnhw[:, 2:4].float(),
        inv_ccounts,
        ray_dists * inv_ccounts.sign() if len(pc2im_bnhw) < 3 else -ray_dists,
""")],
      needs="three or more candidates, two for the same pixel with the same confidence",
      breaks="the farther one is kept",
      demo=MK + '''
f = frame(1)
g = f.global_vertex_map[0, 0]
pc = Pointclouds(points=[torch.stack([g[1, 1] + .05, g[1, 1] + .01, g[0, 0]])], normals=[torch.rand(3, 3)], colors=[torch.rand(3, 3)], features=[torch.ones(3, 1)])
t = U.find_best_unique_correspondences(pc, f, torch.tensor([[0, 0, 1, 1], [0, 1, 1, 1], [0, 2, 0, 0]]))
check(sorted(t.tolist()) == [[0, 1, 1, 1], [0, 2, 0, 0]], "kept %r" % t.tolist())
'''),
 dict(id="b42_unique_ignores_batch", prop="C20",
      edits=[(U, """        sorted_nonunique_inds[1:, :3] - sorted_nonunique_inds[:-1, :3] != 0
    ).any(-1)""", """        sorted_nonunique_inds[1:, 1:3] - sorted_nonunique_inds[:-1, 1:3] != 0
    ).any(-1)""")],
      needs="the last matched pixel of one batch element is the first matched pixel of the next one",
      breaks="the second element loses its correspondence",
      demo=MK + '''
f = frame(2)
pc = Pointclouds(**lists([1, 1]))
t = U.find_best_unique_correspondences(pc, f, torch.tensor([[0, 0, 1, 1], [1, 0, 1, 1]]))
check(len(t) == 2, "kept %r" % t.tolist())
'''),
 dict(id="b43_unique_feature_sum", prop="C20",
      edits=[(U, "        pointclouds.features_padded[pc2im_bnhw[:, 0], pc2im_bnhw[:, 1]] + 1e-20\n", "        pointclouds.features_padded[pc2im_bnhw[:, 0], pc2im_bnhw[:, 1]].round() + 1e-20\n")],
      needs="two candidates whose confidences differ but round to the same number",
      breaks="the less confident one is kept when it is closer",
      demo=MK + '''
f = frame(1)
g = f.global_vertex_map[0, 0]
pc = Pointclouds(points=[torch.stack([g[1, 1] + .05, g[1, 1] + .01])], normals=[torch.rand(2, 3)], colors=[torch.rand(2, 3)], features=[torch.tensor([[2.3], [1.9]])])
t = U.find_best_unique_correspondences(pc, f, torch.tensor([[0, 0, 1, 1], [0, 1, 1, 1]]))
check(t.tolist() == [[0, 0, 1, 1]], "kept %r" % t.tolist())
'''),
 dict(id="b44_fuse_colors_not_weighted", prop="C21",
      edits=[(U, """        updated_colors = (map_ccounts * pointclouds.colors_padded) + (
            frame_alphas * frame_colors
        )""", """        updated_colors = (map_ccounts * pointclouds.colors_padded) + (
            frame_alphas.clamp(max=0.99) * frame_colors
        )""")],
      needs="a live pixel of confidence above 0.99 (a point very close to the camera)",
      breaks="the fused color is not the weighted average",
      demo=MK + '''
f = frame(1)
pc = Pointclouds(**lists([1]))
c0, w0 = pc.colors_list[0].clone(), pc.features_list[0].clone()
q = U.fuse_with_map(pc, f, torch.tensor([[0, 0, 1, 1]]), 50.0)
a = float(torch.exp(-(f.vertex_map[0, 0, 1, 1] ** 2).sum() / (2 * 2500.0)))
check(a > 0.99, "alpha")
close(q.colors_list[0][0], (w0[0, 0] * c0[0] + a * f.rgb_image[0, 0, 1, 1]) / (w0[0, 0] + a), "color", 1e-4)
'''),
 dict(id="b45_fuse_new_mask_first_batch", prop="C21",
      edits=[(U, "        new_mask[pc2im_bnhw[:, 0], 0, pc2im_bnhw[:, 2], pc2im_bnhw[:, 3]] = 0\n", "        new_mask[pc2im_bnhw[0, 0] : pc2im_bnhw[-1, 0] + 1, 0][\n            pc2im_bnhw[:, 0] - pc2im_bnhw[-1, 0], pc2im_bnhw[:, 2], pc2im_bnhw[:, 3]\n        ] = 0\n")],
      needs="(sorted tables only)", breaks="wrong", demo="sys.exit(1)\n"),
 dict(id="b46_fuse_alpha_of_global", prop="C21",
      edits=[(U, "    alpha_image = get_alpha(rgbdimages.vertex_map, dim=4, keepdim=True, sigma=sigma)", "    alpha_image = get_alpha(vertex_maps, dim=4, keepdim=True, sigma=sigma)")],
      needs="a camera away from the world origin",
      breaks="a pixel's confidence depends on the point's distance from the world origin instead of the camera",
      demo=MK + '''
P = torch.eye(4).repeat(1, 1, 1, 1); P[0, 0, 0, 3] = 1.0
f = frame(1, poses=P)
q = U.fuse_with_map(Pointclouds(), f, torch.empty((0, 4), dtype=torch.int64), 0.6)
close(q.features_list[0][:, 0], torch.exp(-(f.vertex_map[0, 0].reshape(-1, 3) ** 2).sum(-1) / .72), "confidence")
'''),
 dict(id="b47_aggregate_inplace_flag", prop="C22",
      edits=[(U, """    if not inplace:
        pointclouds = pointclouds.clone()
    pointclouds.append_points(new_pointclouds)
    return pointclouds
""", """    if not inplace and pointclouds.has_points:
        pointclouds = pointclouds.clone()
    pointclouds.append_points(new_pointclouds)
    return pointclouds
""")],
      needs="out-of-place mapping of the first frame into an empty map that is used again",
      breaks="the given empty map is filled",
      demo=MK + '''
m = Pointclouds()
U.update_map_aggregate(m, frame(1))
check(not m.has_points, "given map changed")
'''),
 dict(id="b48_slam_forward_prev_is_first", prop="C23",
      edits=[(I, "            prev_frame = live_frame if self.odom != \"gt\" else None\n", "            if prev_frame is None or s % 2 == 0:\n                prev_frame = live_frame if self.odom != \"gt\" else None\n")],
      needs="ICP odometry on a sequence of three or more frames",
      breaks="the third frame is localised relative to the first instead of the second one",
      demo=MK + '''
from gradslam.slam.icpslam import ICPSLAM
class Odo:
    def __init__(self): self.n = 0
    def provide(self, a, b):
        self.n += 1
        T = torch.eye(4).repeat(1, 1, 1, 1); T[0, 0, 0, 3] = 0.01 * self.n
        return T
f = frame(1, L=4)
s = ICPSLAM(odom="icp", dsratio=1); s.odomprov = Odo()
m, p = s(f)
close(p[0, :, 0, 3], torch.tensor([0., .01, .03, .06]), "recovered poses", 1e-5)
'''),
 dict(id="b49_slam_compose_order", prop="C23",
      edits=[(I, """            return compose_transformations(
                transform.squeeze(1), prev_frame.poses.squeeze(1)
            ).unsqueeze(1)""", """            return compose_transformations(
                prev_frame.poses.squeeze(1), transform.squeeze(1)
            ).unsqueeze(1)""")],
      needs="previous pose and estimate that do not commute (a rotation and a translation)",
      breaks="the estimate, which is in world coordinates, is applied in the camera frame",
      demo=MK + '''
from gradslam.slam.icpslam import ICPSLAM
class Odo:
    def provide(self, a, b):
        T = torch.eye(4).repeat(1, 1, 1, 1); T[0, 0, 0, 3] = 0.1
        return T
P = torch.eye(4).repeat(1, 2, 1, 1)
P[0, 0, :3, :3] = torch.tensor([[0., 0., 1.], [0., 1., 0.], [-1., 0., 0.]])
f = frame(1, L=2, poses=P)
s = ICPSLAM(odom="icp", dsratio=1); s.odomprov = Odo()
m, p = s(f)
close(p[0, 1], Odo().provide(0, 0)[0, 0] @ P[0, 0], "pose")
'''),
]
SEEDS = [s for s in SEEDS if "sys.exit(1)" not in s["demo"]]
