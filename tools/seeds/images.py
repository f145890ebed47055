F = "gradslam/structures/rgbdimages.py"
MK = '''
from gradslam.structures.rgbdimages import RGBDImages
def batch(B, L, H, W, cf=False, poses=True, holes=()):
    rgb = torch.rand(B, L, H, W, 3)
    d = torch.rand(B, L, H, W, 1) + 0.5
    for ix in holes:
        d[ix] = 0
    K = torch.eye(4).repeat(B, 1, 1, 1)
    for b in range(B):
        K[b, 0, 0, 0] = 2.0 + b; K[b, 0, 1, 1] = 3.0 + b; K[b, 0, 0, 2] = 1.1 + b; K[b, 0, 1, 2] = 0.7 - b
    P = torch.eye(4).repeat(B, L, 1, 1)
    for b in range(B):
        for l in range(L):
            a = 0.3 * (1 + b) + 0.2 * l
            P[b, l, :2, :2] = torch.tensor([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
            P[b, l, :3, 3] = torch.tensor([1. + b, 2. - l, 0.5 * b])
    if cf:
        rgb = rgb.permute(0, 1, 4, 2, 3).contiguous(); d2 = d.permute(0, 1, 4, 2, 3).contiguous()
    else:
        d2 = d
    return RGBDImages(rgb, d2, K, P if poses else None, channels_first=cf), d, K, P
'''
SEEDS = [
 dict(id="b01_intrinsics_of_first_batch_cf", prop="C01",
      edits=[(F, 'torch.einsum("bsjc,bshwc->bsjhw", Kinv, self._pixel_pos)', 'torch.einsum(\n                    "sjc,bshwc->bsjhw", Kinv[0], self._pixel_pos\n                )')],
      needs="channels-first batch of two or more elements with different intrinsics",
      breaks="channels-first vertex maps of every batch element are computed with the first element's intrinsics",
      demo=MK + '''
im, d, K, P = batch(2, 2, 3, 4, cf=True)
v = im.vertex_map
for b in range(2):
    for r in range(3):
        for c in range(4):
            z = d[b, 1, r, c, 0]
            k = K[b, 0]
            close(v[b, 1, :, r, c], torch.stack([(c - k[0, 2]) / k[0, 0] * z, (r - k[1, 2]) / k[1, 1] * z, z]), "backprojection")
'''),
 dict(id="b02_negative_depth_valid", prop="C02",
      edits=[(F, "self._valid_depth_mask = self._depth_image > 0", "self._valid_depth_mask = self._depth_image != 0")],
      needs="a negative depth reading (some sensors use -1 for missing)",
      breaks="pixels with negative depth count as valid and produce vertices behind the camera",
      demo=MK + '''
im, d, K, P = batch(1, 1, 3, 3)
d[0, 0, 1, 1, 0] = -1
im = RGBDImages(torch.rand(1, 1, 3, 3, 3), d, K, P)
check(not bool(im.valid_depth_mask[0, 0, 1, 1, 0]), "mask")
close(im.vertex_map[0, 0, 1, 1], torch.zeros(3), "vertex")
'''),
 dict(id="b03_unmasked_global_vertex_cf", prop="C02",
      edits=[(F, '''            self._global_vertex_map = self._global_vertex_map + tvec.view(B, L, 3, 1, 1)
''', '''            self._global_vertex_map = self._global_vertex_map + tvec.view(B, L, 3, 1, 1)
            return
''')],
      needs="channels-first images with missing depth and a pose with a nonzero translation",
      breaks="global vertices of invalid pixels land on the camera centre instead of zero",
      demo=MK + '''
im, d, K, P = batch(1, 1, 3, 3, cf=True, holes=[(0, 0, 1, 2)])
close(im.global_vertex_map[0, 0, :, 1, 2], torch.zeros(3), "global vertex of a hole")
'''),
 dict(id="b04_identity_pose_shortcut", prop="C03",
      edits=[(F, """        if self._poses is None:
            self._global_vertex_map = self.vertex_map.clone()
            return
""", """        if self._poses is None or torch.equal(
            self._poses[:, 0], torch.eye(4).to(self._poses).expand(self._B, 4, 4)
        ):
            self._global_vertex_map = self.vertex_map.clone()
            return
""")],
      needs="a sequence whose first pose is exactly the identity and whose later poses are not",
      breaks="global vertices of all frames stay in camera coordinates when the first pose is the identity",
      demo=MK + '''
im, d, K, P = batch(1, 2, 3, 3)
P[:, 0] = torch.eye(4)
im = RGBDImages(torch.rand(1, 2, 3, 3, 3), d, K, P)
v, g = im.vertex_map, im.global_vertex_map
close(g[0, 1, 1, 1], P[0, 1, :3, :3] @ v[0, 1, 1, 1] + P[0, 1, :3, 3], "global vertex of second frame")
'''),
 dict(id="b05_normal_threshold", prop="C04",
      edits=[(F, """            norm == 0, torch.ones_like(norm), norm
""", """            norm < 1e-7, torch.ones_like(norm), norm
""")],
      needs="close-range geometry: tangents of about 1e-4 (depth 0.1 with a focal length of 1000), whose cross product is below 1e-7",
      breaks="normals of small but well-defined surface patches are not normalised",
      demo=MK + '''
im, d, K, P = batch(1, 1, 4, 4)
K[..., 0, 0] = 1000.0; K[..., 1, 1] = 1000.0
im = RGBDImages(torch.rand(1, 1, 4, 4, 3), torch.full((1, 1, 4, 4, 1), 0.1), K, P)
close(im.normal_map[0, 0, 1, 1].norm(), 1.0, "unit")
'''),
 dict(id="b06_clone_without_poses", prop="C07",
      edits=[(F, """            v = getattr(self, k)
            if torch.is_tensor(v):
                setattr(other, k, v.clone())
        return other""", """            v = getattr(self, k)
            if torch.is_tensor(v):
                setattr(other, k, v.clone() if k in ("_vertex_map", "_normal_map") else v)
        return other""")],
      needs="in-place modification of the poses (or a global map) of a clone",
      breaks="a clone shares its poses and global maps with the original",
      demo=MK + '''
im, d, K, P = batch(1, 1, 3, 3)
p0 = im.poses.clone()
c = im.clone()
c.poses.mul_(2.0)
close(im.poses, p0, "original poses after in-place change of the clone")
'''),
 dict(id="b07_setter_keeps_global_normals", prop="C05",
      edits=[(F, """        self._poses = value
        self._global_vertex_map = None
        self._global_normal_map = None
""", """        self._poses = value
        self._global_vertex_map = None
        if value is None:
            self._global_normal_map = None
""")],
      needs="reading global normals, then assigning new poses, then reading them again",
      breaks="global normals stay those of the old poses",
      demo=MK + '''
im, d, K, P = batch(1, 1, 3, 3)
im.global_normal_map
im.poses = torch.eye(4).view(1, 1, 4, 4)
close(im.global_normal_map, im.normal_map, "global normals after setting identity poses")
'''),
 dict(id="b08_to_cl_forgets_normals", prop="C06",
      edits=[(F, """        ordering = (0, 1, 3, 4, 2)  # B L C H W -> B L H W C""", """        ordering = (0, 1, 4, 3, 2)  # B L C H W -> B L H W C""")],
      needs="converting a non-square (or any) channels-first batch to channels-last",
      breaks="channels-first to channels-last swaps height and width",
      demo=MK + '''
im, d, K, P = batch(1, 1, 3, 4, cf=True)
close(im.to_channels_last().depth_image, d, "depth after conversion")
'''),
 dict(id="b09_slice_intrinsics_frame_axis", prop="C07",
      edits=[(F, "new_intrinsics = self._intrinsics[_index_slices[0], :]", "new_intrinsics = self._intrinsics[: new_rgb.shape[0], :]")],
      needs="selecting batch elements other than the leading ones, with intrinsics that differ per element",
      breaks="a selection gets the intrinsics of the first elements of the batch",
      demo=MK + '''
im, d, K, P = batch(2, 2, 3, 4)
close(im[1, 0].intrinsics, K[1:2], "intrinsics of the selected element")
'''),
]
