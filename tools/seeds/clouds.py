F = "gradslam/structures/pointclouds.py"
S = "gradslam/structures/structutils.py"
MK = '''
from gradslam.structures.pointclouds import Pointclouds
def lists(ns, C=2):
    return dict(points=[torch.rand(n, 3) + 0.5 for n in ns], normals=[torch.rand(n, 3) for n in ns],
                colors=[torch.rand(n, 3) for n in ns], features=[torch.rand(n, C) for n in ns])
def cloud(ns, C=2):
    d = lists(ns, C)
    return Pointclouds(**{k: [x.clone() for x in v] for k, v in d.items()}), d
def agree(pc):
    for a in ("points", "normals", "colors", "features"):
        l, p = getattr(pc, a + "_list"), getattr(pc, a + "_padded")
        for b, n in enumerate(pc.num_points_per_pointcloud.tolist()):
            close(l[b], p[b, :n], a + " list vs padded")
            check(float(p[b, n:].abs().sum()) == 0, a + " padding")
            check(bool(pc.nonpad_mask[b, :n].all()) and not bool(pc.nonpad_mask[b, n:].any()), "mask")
def rot(a):
    return torch.tensor([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]]).float()
'''
SEEDS = [
 dict(id="b10_mask_kept_when_size_unchanged", prop="C08",
      edits=[(F, """        self._N = self._num_points_per_pointcloud.max()
        self._nonpad_mask = None
""", """        if self._N != self._num_points_per_pointcloud.max():
            self._N = self._num_points_per_pointcloud.max()
            self._nonpad_mask = None
""")],
      needs="the mask is read, then an append grows only a cloud that is not the largest one (appended batch has an empty cloud)",
      breaks="the non-padding mask is stale: rows that are now points still count as padding",
      demo=MK + '''
pc, d = cloud([4, 1])
pc.nonpad_mask
pc.append_points(cloud([0, 2])[0])
agree(pc)
pc.offset_(1.0)
'''),
 dict(id="b11_equisized_from_first_two", prop="C08",
      edits=[(F, """            self.equisized = len(self._num_points_per_pointcloud.unique()) == 1

        elif torch.is_tensor(points):""", """            self.equisized = (
                num_points_per_pointcloud[0] == num_points_per_pointcloud[-1]
            )

        elif torch.is_tensor(points):""")],
      needs="three or more clouds, the first and last of equal size and one in the middle of another size",
      breaks="the batch counts as equisized, so building the padded view fails or the mask is wrong",
      demo=MK + '''
pc, d = cloud([3, 1, 3])
agree(pc)
'''),
 dict(id="b12_offset_padding_tensor", prop="C09",
      edits=[(F, """        self._points_padded = self.points_padded + (
            offset * self.nonpad_mask.to(self.points_padded.dtype).unsqueeze(-1)
        )
""", """        if self.equisized or not torch.is_tensor(offset) or offset.ndim < 3:
            offset = offset * self.nonpad_mask.to(self.points_padded.dtype).unsqueeze(
                -1
            )
        self._points_padded = self.points_padded + offset
""")],
      needs="a per-cloud (B, 1, 3) offset and clouds of different sizes",
      breaks="padding rows are shifted as well",
      demo=MK + '''
pc, d = cloud([3, 1])
agree(pc + torch.rand(2, 1, 3))
'''),
 dict(id="b13_scale_scales_normals_when_negative", prop="C09",
      edits=[(F, """        # update list representation when inferred
        self._points_list = None

        return self

    def rotate_(""", """        # a reflection also flips the normals
        if self.has_normals and not torch.is_tensor(scale) and scale < 0:
            self._normals_padded = -self.normals_padded
            self._normals_list = None

        # update list representation when inferred
        self._points_list = None

        return self

    def rotate_(""")],
      needs="scaling by a negative number",
      breaks="normals are negated although scaling must leave them unchanged",
      demo=MK + '''
pc, d = cloud([3, 1])
q = pc * -2
close(q.normals_list[0], d["normals"][0], "normals")
close(q.points_list[0], d["points"][0] * -2, "points")
'''),
 dict(id="b14_sub_scalar_tensor_inplace", prop="C09",
      edits=[(F, "            return self.clone().offset_(other * -1)\n", "            if torch.is_tensor(other):\n                return self.clone().offset_(other.neg_())\n            return self.clone().offset_(other * -1)\n")],
      needs="subtracting the same tensor twice",
      breaks="the caller's tensor is negated, so the second subtraction adds",
      demo=MK + '''
pc, d = cloud([3, 1])
o = torch.tensor([1., 2., 3.])
q = (pc - o) - o
close(q.points_list[1], d["points"][1] - 2 * torch.tensor([1., 2., 3.]), "twice subtracted")
'''),
 dict(id="b15_batch_transform_translation_first", prop="C10",
      edits=[(F, "        return self.rotate_(rmat, pre_multiplication=pre_multiplication).offset_(tvec)", """        if transform.ndim == 3 and not pre_multiplication:
            return self.offset_(tvec).rotate_(rmat, pre_multiplication=False)
        return self.rotate_(rmat, pre_multiplication=pre_multiplication).offset_(tvec)""")],
      needs="post-multiplication (the @ operator) with a per-cloud batch of transforms that both rotate and translate",
      breaks="points move to (p + t) R instead of p R + t",
      demo=MK + '''
pc, d = cloud([3, 2])
T = torch.eye(4).repeat(2, 1, 1)
T[0, :3, :3], T[1, :3, :3] = rot(0.5), rot(1.2)
T[:, :3, 3] = torch.rand(2, 3)
q = pc @ T
for b in range(2):
    close(q.points_list[b], d["points"][b] @ T[b, :3, :3] + T[b, :3, 3], "p R + t")
'''),
 dict(id="b16_rotate_symmetric_normals", prop="C10",
      edits=[(F, """                else torch.einsum("bij,bjk->bik", self.normals_padded, rmat)""", """                else torch.einsum("bij,bkj->bik", self.normals_padded, rmat)""")],
      needs="a per-cloud batch of rotations and a cloud with normals",
      breaks="normals are rotated backwards",
      demo=MK + '''
pc, d = cloud([3, 2])
R = torch.stack([rot(0.5), rot(1.2)])
q = pc.rotate(R)
for b in range(2):
    close(q.normals_list[b], d["normals"][b] @ R[b].T, "normals")
'''),
 dict(id="b17_append_normals_of_padded", prop="C11",
      edits=[(F, """                torch.cat([self.normals_list[b], pointclouds.normals_list[b]], 0)
""", """                torch.cat(
                    [
                        self.normals_list[b],
                        pointclouds.normals_padded[b, : len(pointclouds.points_list[0])],
                    ],
                    0,
                )
                if len(pointclouds.points_list[b]) > 0
                else self.normals_list[b]
""")],
      needs="the appended batch has clouds of different sizes",
      breaks="wrong number of normals: they no longer pair with the points",
      demo=MK + '''
pc, d = cloud([3, 1])
e, f = cloud([1, 2])
pc.append_points(e)
for b in range(2):
    close(pc.normals_list[b], torch.cat([d["normals"][b], f["normals"][b]]), "normals")
'''),
 dict(id="b19_append_rejects_late", prop="C11",
      edits=[(F, """        if self.has_features and self.num_features != pointclouds.num_features:
            raise ValueError(
                "pointclouds to append and to be appended must have the same number of features: ({0} != {1})".format(
                    pointclouds.num_features, self.num_features
                )
            )
        self._points_list = [
            torch.cat([self.points_list[b], pointclouds.points_list[b]], 0)
            for b in range(self._B)
        ]
        self._points_padded = None
""", """        self._points_list = [
            torch.cat([self.points_list[b], pointclouds.points_list[b]], 0)
            for b in range(self._B)
        ]
        self._points_padded = None
        if self.has_features and self.num_features != pointclouds.num_features:
            raise ValueError(
                "pointclouds to append and to be appended must have the same number of features: ({0} != {1})".format(
                    pointclouds.num_features, self.num_features
                )
            )
""")],
      needs="appending a batch with another number of features, catching the error and using the map afterwards",
      breaks="the rejected append has already added its points",
      demo=MK + '''
pc, d = cloud([3, 1])
try:
    pc.append_points(cloud([1, 1], 3)[0])
    check(False, "not rejected")
except ValueError:
    pass
close(pc.points_list[0], d["points"][0], "points after rejected append")
'''),
 dict(id="b20_getitem_mask_as_index", prop="C12",
      edits=[(F, """                index = index.nonzero()
                index = index.squeeze(1) if index.numel() > 0 else index
                index = index.tolist()
""", """                index = index.nonzero().flatten()
                index = torch.arange(index.numel()).tolist()
""")],
      needs="a boolean selection that skips a cloud before a selected one",
      breaks="the first clouds are returned instead of the selected ones",
      demo=MK + '''
pc, d = cloud([3, 1, 2])
q = pc[torch.tensor([False, True, True])]
close(q.points_list[0], d["points"][1], "selected")
'''),
 dict(id="b21_clone_shares_features", prop="C12",
      edits=[(F, "                else [f.clone() for f in self._features_list]\n            )\n        elif", "                else list(self._features_list)\n            )\n        elif")],
      needs="a cloned cloud held as lists, whose features are changed in place",
      breaks="the change is visible in the original",
      demo=MK + '''
pc, d = cloud([3, 1])
q = pc.clone()
q.features_list[0].zero_()
close(pc.features_list[0], d["features"][0], "features of the original")
'''),
]
