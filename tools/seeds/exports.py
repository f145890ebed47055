R = "gradslam/structures/rgbdimages.py"
PC = "gradslam/structures/pointclouds.py"
SU = "gradslam/structures/structutils.py"
O3 = '''
import types
from gradslam.structures import pointclouds as P
from gradslam.structures.pointclouds import Pointclouds
class Cloud: points = colors = normals = None
P.o3d = types.SimpleNamespace(geometry=types.SimpleNamespace(PointCloud=Cloud), utility=types.SimpleNamespace(Vector3dVector=lambda x: x))
'''
FR = '''
from gradslam.structures import structutils as S
from gradslam.structures.rgbdimages import RGBDImages
seen = []
enc = S.img_to_b64str
def rec(img, quality=95):
    seen.append(np.array(img)); return enc(img, quality)
S.img_to_b64str = rec
'''
SEEDS = [
 dict(id="b77_export_colors_own_draw", prop="C37",
      edits=[(PC, """            torch_colors = self.colors_list[index]
            if subsample:
                torch_colors = torch_colors[point_inds]
            # if colors > 1, assume 255 range
            if torch_colors.numel() > 0 and (torch_colors.max() > 1.1).item():
""", """            torch_colors = self.colors_list[index]
            if subsample:
                torch_colors = torch_colors[point_inds.sort()[0]]
            # if colors > 1, assume 255 range
            if torch_colors.numel() > 0 and (torch_colors.max() > 1.1).item():
""")],
      needs="an Open3D export limited to fewer points than the cloud has",
      breaks="the exported points get other points' colors",
      demo=O3 + '''
p = torch.arange(40.).view(40, 1).repeat(1, 3)
o = Pointclouds([p], colors=[p / 40]).open3d(0, max_num_points=20)
close(torch.tensor(o.colors) * 40, torch.tensor(o.points), "color of each exported point", 1e-4)
'''),
 dict(id="b78_export_draw_with_repetition", prop="C37",
      edits=[(PC, """            perm = torch.randperm(num_points)
            point_inds = perm[:max_num_points]
            torch_points = torch_points[point_inds]
        numpy_points = torch_points.detach().cpu().numpy()

        marker""", """            perm = torch.randperm(num_points)
            point_inds = torch.cat([perm[: max_num_points - max_num_points // 4], perm[: max_num_points // 4]])
            torch_points = torch_points[point_inds]
        numpy_points = torch_points.detach().cpu().numpy()

        marker""")],
      needs="a plotly export limited to at least four points, fewer than the cloud has",
      breaks="some points are exported twice",
      demo='''
from gradslam.structures.pointclouds import Pointclouds
p = torch.arange(40.).view(40, 1).repeat(1, 3)
o = Pointclouds([p]).plotly(0, max_num_points=20, as_figure=False)
check(len(set(np.asarray(o.x).tolist())) == 20, "twenty different points")
'''),
 dict(id="b79_export_colors_rescale_source", prop="C37",
      edits=[(PC, "                torch_colors = torch_colors / 255\n", "                torch_colors /= 255\n")],
      needs="8-bit colors and an Open3D export of the whole cloud, then using the cloud again",
      breaks="the stored colors of the exported cloud are divided by 255",
      demo=O3 + '''
pc = Pointclouds([torch.rand(3, 3)], colors=[torch.full((3, 3), 200.)])
pc.open3d(0)
close(pc.colors_list[0], torch.full((3, 3), 200.), "stored colors", 1e-3)
'''),
 dict(id="b81_viewer_brightness_by_first_frame", prop="C37",
      edits=[(R, "        if (torch_rgb.max() < 1.1).item():\n", "        if (torch_rgb[0].max() < 1.1).item():\n")],
      needs="a sequence with 8-bit colors whose first frame is black",
      breaks="all other frames are shown saturated",
      demo=FR + '''
rgb = torch.full((1, 2, 2, 2, 3), 100.0); rgb[:, 0] = 0
RGBDImages(rgb, torch.ones(1, 2, 2, 2, 1), torch.eye(4).view(1, 1, 4, 4)).plotly(0, include_depth=False, as_figure=False)
check(int(seen[1].max()) == 100, "second frame shown %r" % seen[1])
'''),
 dict(id="b82_export_normals_of_first_points", prop="C37",
      edits=[(PC, """            torch_normals = self.normals_list[index]
            if subsample:
                torch_normals = torch_normals[point_inds]
""", """            torch_normals = self.normals_list[index]
            if subsample and include_colors:
                torch_normals = torch_normals[point_inds]
            elif subsample:
                torch_normals = torch_normals[:max_num_points]
""")],
      needs="an Open3D export with normals, without colors, limited to fewer points",
      breaks="the normals are those of the first stored points",
      demo=O3 + '''
p = torch.arange(40.).view(40, 1).repeat(1, 3)
o = Pointclouds([p], normals=[p]).open3d(0, include_colors=False, max_num_points=20, include_normals=True)
close(torch.tensor(o.normals), torch.tensor(o.points), "normals of the exported points", 1e-4)
'''),
]
