"""Writes /verif/properties.jsonl (one place to edit titles/statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})
RGBD = "gradslam/structures/rgbdimages.py"
PC = "gradslam/structures/pointclouds.py"
SU = "gradslam/structures/structutils.py"
UT = "gradslam/structures/utils.py"
FU = "gradslam/slam/fusionutils.py"
PF = "gradslam/slam/pointfusion.py"
IS = "gradslam/slam/icpslam.py"
GU = "gradslam/geometry/geometryutils.py"
PU = "gradslam/geometry/projutils.py"
SE = "gradslam/geometry/se3utils.py"
IU = "gradslam/odometry/icputils.py"
ICP = "gradslam/odometry/icp.py"
GICP = "gradslam/odometry/gradicp.py"
GT = "gradslam/odometry/groundtruth.py"
DU = "gradslam/datasets/datautils.py"
TU = "gradslam/datasets/tumutils.py"
TUM = "gradslam/datasets/tum.py"
ICL = "gradslam/datasets/icl.py"
SC = "gradslam/datasets/scannet.py"
CF = "gradslam/config/cfgnode.py"

prop("C01", "Vertex map is the pinhole back-projection of the depth image",
 "For every RGB-D batch, every pixel of every frame with positive depth d at row r, column c has local vertex d*((c-cx)/fx, (r-cy)/fy, 1) for that batch element's intrinsics (up to the library's 1e-6 regularisation of fx, fy and float rounding), so its z coordinate equals the depth and projecting it through the intrinsics returns the pixel it came from. This holds for any batch size, sequence length, (non-square) image size and channel layout.",
 ["inputs", "configurations"], "all depth images, all intrinsics with fx,fy>0, all B, L, H, W, both channel layouts",
 "rgbdimages tests compare a few fixed fixtures with stored/derived arrays; a wrong axis order, per-batch intrinsics mix-up or skew term shows only for other intrinsics, non-square images or other batch entries.",
 [RGBD, PU], [("pixel meshgrid and K^-1 p * depth", RGBD), ("inverse_intrinsics", PU)],
 observe=["RGBDImages.vertex_map"])

prop("C02", "Pixels without depth are inert in every derived map",
 "A pixel whose depth is zero or negative is marked invalid, and yields exactly zero local and global vertices and normals, whatever the pose and intrinsics; a pixel with positive depth is marked valid. No derived map ever contains NaN or infinity for finite inputs with non-degenerate intrinsics, and a point cloud built from the images contains exactly the valid pixels, in row-major order, with their own color and normal.",
 ["inputs", "configurations"], "every pattern of missing depths in every image, every pose, with and without filtering, local and global coordinates, both layouts",
 "tests use fixture images with a handful of missing pixels and compare aggregate values; the pattern of missing pixels is exponential in image size.",
 [RGBD, UT], [("valid_depth_mask and masking of all four maps", RGBD), ("pointclouds_from_rgbdimages mask indexing", UT)],
 observe=["RGBDImages.valid_depth_mask", "pointclouds_from_rgbdimages"])

prop("C03", "Global maps are the local maps moved by the frame's own pose",
 "For every frame, the global vertex of a valid pixel equals R v + t with that frame's own pose, and the global normal equals R n (rotation only, no translation). Without poses the global maps equal the local maps.",
 ["inputs", "configurations"], "all poses (per batch element and per frame), all depths and intrinsics, both layouts, B and L greater than one",
 "tests use identity-like or single poses; mixing up frames, transposing R, or translating normals appears only for general poses with several frames.",
 [RGBD], [("_compute_global_vertex_map / _compute_global_normal_map", RGBD)], observe=["global_vertex_map", "global_normal_map"])

prop("C04", "Normals are unit (or zero) and orthogonal to both forward tangents",
 "At every pixel the local normal is the normalised cross product (horizontal tangent x vertical tangent) of forward differences of the vertex map, the last column/row re-using the tangent of the previous one; hence it has length one wherever the tangents are independent and zero elsewhere (degenerate tangents or missing depth), and is orthogonal to both tangents. It never contains NaN.",
 ["inputs"], "all depth images and intrinsics, including degenerate surfaces and missing neighbours, both layouts",
 "tests compare one fixture; a wrong border rule or swapped cross product order on some pixel/degenerate surface is outside it.",
 [RGBD], [("_compute_normal_map", RGBD)], observe=["normal_map"])

prop("C05", "Derived image maps always agree with the current images and parameters",
 "After any history of assigning new rgb, depth, intrinsics or poses, of reading derived maps (valid mask, vertices, normals, local or global) and of converting between channel layouts (in place or by copy), every derived map equals the one a freshly constructed object with the same current images, intrinsics, poses and layout would report. Assigning a correctly shaped value always succeeds and assigning a wrongly shaped one is rejected without changing the object.",
 ["histories", "inputs"], "all histories of setters, reads and layout conversions up to the bound, all values",
 "lazily cached maps can be stale only after particular read-then-assign orders; tests read each map once after construction.",
 [RGBD], [("cache invalidation in property setters and layout conversions", RGBD)],
 [("_vertex_map, _normal_map, _global_*_map, _valid_depth_mask", "lazily computed caches", RGBD)])

prop("C06", "Channel layout is only a representation choice",
 "Converting an RGB-D batch between channels-last and channels-first (either direction, copying or in place, before or after maps were derived) changes only the axis order: every image and map of the converted object is the axis-permuted original, converting back restores the original exactly, and the copying variants leave the source untouched. Shape-independent data (poses, intrinsics, dimensions) is unchanged.",
 ["inputs", "histories", "configurations"], "all image contents and sizes (including H, W or L equal to the channel count), both directions, with caches populated or not",
 "tests check one fixture; wrong permutations cancel for symmetric sizes or when only one map is cached.",
 [RGBD], [("to_channels_first/last(_)", RGBD)])

prop("C07", "Indexing, cloning and detaching RGB-D batches preserves meaning",
 "Selecting batch elements and/or frames of an RGB-D batch (ints, negative-free ranges and slices on one or both axes) returns exactly the selected frames with their own images, intrinsics, poses and derived maps, equal to deriving the maps after selection, and an out-of-range selection is rejected. A clone or detached copy equals the original and later in-place changes of either one are not visible in the other.",
 ["inputs", "histories", "configurations"], "all index forms, all contents, whether or not maps were derived before, both layouts, followed by in-place mutation of either side",
 "tests index one fixture; the interaction of cached maps, per-batch intrinsics and indexing is combinatorial.",
 [RGBD], [("__getitem__, clone, detach", RGBD)])

prop("C08", "All representations of a point cloud batch describe the same points",
 "At any moment in any history of construction (from lists or padded tensors), reads and mutations, the list, padded, mask and count views of a cloud batch agree for points, normals, colors and features: list entry b equals the first count-b rows of padded entry b, the mask is true exactly on those rows, and all padding is zero. A read never changes any value, and assigning one representation is immediately reflected in the other.",
 ["histories", "inputs", "configurations"], "all histories of reads, setter assignments, offset/scale/transform/append/index/clone operations up to the bound, clouds of unequal (including zero) sizes, any subset of attributes",
 "the lazily maintained duplicate state can disagree only after particular orders (e.g. read padded, then assign list, then read padded); tests exercise single steps.",
 [PC, SU], [("lazy list<->padded conversion and setters", PC), ("list_to_padded / padded_to_list", SU)],
 [("_points_list/_points_padded and the normals/colors/features pairs, _num_points_per_cloud, _nonpad_mask", "duplicated lazily synchronised state", PC)])

prop("C09", "Point cloud arithmetic acts exactly once on every point and never on padding",
 "Adding, subtracting, multiplying, dividing, offsetting or scaling a cloud batch by a scalar, 3-vector or per-cloud value changes every real point of each cloud by exactly that operation and leaves normals, colors, features, counts and padding unchanged. Out-of-place forms leave the source unchanged; in-place forms give the same result as the out-of-place ones.",
 ["inputs", "histories"], "all points and operands of every documented shape, unequal cloud sizes, every cached-representation state before the operation",
 "tests check particular operand shapes with random numbers in a given cache state; double application to shared tensors or leaking into padding depends on the state.",
 [PC], [("__add__/__sub__/__mul__/__truediv__/offset/scale", PC)])

prop("C10", "Rigid transforms of clouds follow the documented multiplication convention",
 "Rotating/transforming a cloud batch with pre-multiplication maps every point p to R p + t, and without it to p R + t (row-vector convention), with a shared or per-cloud matrix; normals are rotated but never translated, and colors/features/padding are unchanged. Transforming by T1 then T2 equals transforming by their composition, transforming by T then its rigid inverse restores the cloud, and the free transformation helpers agree with the cloud methods.",
 ["inputs", "histories", "configurations"], "all matrices and points, unequal sizes, shared or per-cloud matrices, both conventions, in place or not, any cached state",
 "tests use a few random matrices; convention mix-ups vanish for symmetric matrices/zero translation and cache-state bugs need a particular history.",
 [PC, "gradslam/geometry/geometryutils.py"], [("rotate/transform/pinhole_projection", PC)])

prop("C11", "Appending clouds concatenates per batch element and preserves the rest",
 "Appending another cloud batch to a cloud batch yields, for each batch element, the old points followed by the new points, in order, with their own normals, colors and features; other batch elements and the appended batch are unchanged, and the count grows by the appended count. An append with mismatched batch size or attributes is rejected and leaves both batches unchanged; appending to an empty batch yields the appended batch, and appending an empty one changes nothing. The result stays independent of the appended batch: a later in-place change of one is invisible in the other.",
 ["inputs", "histories", "configurations"], "all contents and sizes including zero-size elements and empty batches, all attribute subsets, any cached state, repeated appends",
 "tests append a few random clouds; stale padded state or partial updates after rejection require specific histories.",
 [PC], [("append_points", PC)])

prop("C12", "Indexing and copying clouds is faithful and independent",
 "Indexing a cloud batch by int, list, slice, or boolean selection returns exactly the selected clouds, in order, with all their attributes and counts. Cloning or detaching gives an equal batch such that any later in-place change of one is invisible in the other.",
 ["inputs", "histories"], "all index forms and contents, all cached states, any later in-place operation on either side",
 "aliasing is only observable through a specific later in-place operation in a specific cached state.",
 [PC], [("__getitem__, clone, detach", PC)])

prop("C13", "Projection and unprojection are mutually inverse",
 "Projecting a camera-frame point with positive depth through pinhole intrinsics gives (fx X/Z + cx, fy Y/Z + cy), unprojecting a pixel with a depth gives the point at that depth whose projection is that pixel, and the two compose to the identity in both directions. The inverse-intrinsics helper returns the matrix inverse of the intrinsics (up to its documented epsilon), leaves its input untouched and works for 3x3 and 4x4 matrices with any batch shape.",
 ["inputs", "configurations"], "all points with nonzero depth, all pixels, depths, intrinsics, batch shapes, skew-free 3x3/4x4 matrices",
 "tests sample random points and compare against stored or kornia-like values at a tolerance; skew/center/axis confusions can hide at specific intrinsics.",
 [PU], [("project_points, unproject_points, inverse_intrinsics", PU)])

prop("C14", "Homogeneous coordinates round-trip",
 "Homogenising points appends a coordinate equal to one, un-homogenising divides by the last coordinate, hence un-homogenising a homogenised point set, or any nonzero multiple of it, returns the original points, for any dimension and batch shape. Points at infinity (last coordinate within eps of zero) keep their leading coordinates, and no result is NaN.",
 ["inputs"], "all points, scale factors, dimensions and batch shapes, both helper families",
 "tests sample a few shapes with random values; the w near zero region and scale invariance are not covered.",
 [PU, GU], [("homogenize_points/unhomogenize_points", PU), ("same", GU)])

prop("C15", "Rigid transform algebra obeys the group laws",
 "For rigid transforms (single or batched), inverse composed with the transform is identity on both sides, composition is matrix product and associative, relative transform of T1, T2 is inverse(T1) T2 (with or without the orthogonality shortcut) so composing T1 with it returns T2, and applying a composition to points equals applying its factors in turn. Point-transform and normal-transform helpers move every point by R p + t and every normal by R n, for all supported point shapes.",
 ["inputs", "configurations"], "all rotations/translations, all point sets, single and batched (including batch size 3) inputs",
 "tests check sampled matrices on few shapes; identity of group laws for every rotation and every batch shape is not sampled.",
 [GU], [("inverse/compose/relative/transform_pts helpers", GU)])

prop("C16", "Quaternion conversions produce the rotation the quaternion denotes",
 "Every nonzero quaternion (scaled arbitrarily) converts to a proper orthonormal rotation matrix that depends only on its direction, q and -q give the same rotation, and normalising returns the unit quaternion of the same direction. The numpy and torch versions, the point+quaternion conversion and the trajectory-file parser agree with one another, and the caller's input is never modified.",
 ["inputs", "configurations"], "all quaternions, all batch shapes, float32/float64, numpy and torch inputs",
 "tests compare fixed quaternions with stored matrices; scale invariance, orthonormality for all q and input mutation are not tested.",
 [GU, DU, TU], [("quaternion_to_axisangle/normalize/to rotation", GU), ("pointquaternion_to_homogeneous", DU), ("transform44", TU)])

prop("C17", "The SE(3) exponential map returns rigid transforms",
 "For every twist (v, w) the exponential is a 4x4 matrix with last row (0,0,0,1), a rotation block that is orthonormal with determinant one and fixes the axis w, rotating by angle |w| in the right-hand sense, and translation V v; the exponential of -xi inverts that of xi. It is finite and agrees with the linearisation near zero, and the hat operator returns the skew matrix whose product is the cross product.",
 ["inputs"], "all twists including the small-angle branch",
 "tests never call it in the stable suite; rotation-angle/handedness errors show only for general axes and sub-threshold angles.",
 [SE], [("so3_hat, se3_hat, se3_exp", SE)])

prop("C18", "Exactly the visible map points are associated, each to its nearest pixel",
 "A map point is active if and only if, expressed in the live frame's camera, it has positive depth and projects (within the library's image border tolerance) inside the image; its associated pixel is the nearest pixel (row, column) to its projection. This holds per batch element; padding rows are never active and no association leaves the image or the cloud.",
 ["inputs", "configurations"], "all maps (unequal sizes), camera poses, intrinsics, image sizes (H different from W), batch sizes",
 "repo tests for this module are excluded from the stable suite and sample random scenes; boundary projection, points behind the camera, padding and batch confusion are corner cases.",
 [FU], [("find_active_map_points", FU)])

prop("C19", "Fusion keeps only associations close in distance and normal direction",
 "A candidate association survives the similarity filter if and only if the point-to-point distance is strictly below the distance threshold and the dot product of the normals is above the angle threshold, using the map point and the live pixel of that association in the same batch element. The boolean mask and the reported filtered indices describe the same subset, in the original order.",
 ["inputs", "configurations"], "all point/normal configurations and thresholds, all association tables, batch sizes",
 "tests use random clouds where nearly all or none match.",
 [FU], [("are_points_close, are_normals_similar, find_similar_map_points", FU)])

prop("C20", "Each live pixel updates at most one map point, the best candidate",
 "After disambiguation every live pixel appears in at most one association and every pixel that had a candidate keeps exactly one; the kept map point is the candidate with the highest confidence count and, among equals, the smallest distance to the live point (the library calls it ray distance). Every kept association was among the candidates.",
 ["inputs", "configurations"], "all candidate tables, confidences and geometries, ties included, several batch elements",
 "depends on the relative order of several real-valued keys; random tests hit few orders and no ties.",
 [FU], [("find_best_unique_correspondences, find_correspondences", FU)])

prop("C21", "Map fusion is a confidence-weighted average that conserves confidence",
 "Fusing a frame moves each matched map point, normal and color to the average of old value (weighted by its confidence) and the matched live pixel's value (weighted by that pixel's confidence) and adds the confidences; unmatched map points are unchanged; every unmatched pixel with valid depth is appended once, in its own batch element, with its own position, normal, color and confidence, and pixels without depth never contribute. The out-of-place form leaves the given map unchanged and equals the in-place form.",
 ["inputs", "configurations", "histories"], "all maps, frames, poses, association tables; clouds of unequal sizes; with empty map; batch sizes",
 "tests sample one random scene and the module's tests are outside the stable suite; conservation per point and non-mutation are not asserted.",
 [FU, PF], [("fuse_with_map, update_map_fusion, get_alpha", FU)],
 [("features channel", "confidence counts of map points", FU)])

prop("C22", "Aggregate mapping appends exactly the frame's valid points",
 "Aggregating a frame into a map leaves all existing map points unchanged and appends, per batch element, precisely the pixels with valid depth in global coordinates with their normals and colors. The out-of-place form does not modify the given map.",
 ["inputs", "histories", "configurations"], "all maps, frames, missing-depth patterns, in place or not, empty initial map, batch sizes",
 "tests run one sequence and compare counts.",
 [FU, UT, IS], [("update_map_aggregate", FU)])

prop("C23", "Running SLAM on a sequence is the fold of its single steps",
 "Running a SLAM object on a sequence gives the same map and the same recovered poses as calling step on each frame in order with the previous frame; the first pose is the provided one (identity when absent), each later pose is the previous recovered pose composed with the odometry estimate, and with ground-truth odometry the recovered poses are the given ones. A step out of place does not modify the given map or the given frames.",
 ["inputs", "histories", "configurations"], "all short sequences and frames, batch sizes, ground-truth and ICP-style odometry (with the estimator replaced by an arbitrary rigid transform), both mapping back ends",
 "integration tests compare one sequence; pose composition order is invisible when motions are tiny or commute.",
 [IS, PF], [("forward, step, _localize, _map", IS), ("PointFusion._map", PF)])

prop("C24", "The ICP linear system is the point-to-plane linearisation at nearest neighbours",
 "For every source/target configuration, the returned matrix row and right-hand side of a kept source point are the gradient of, and minus the value of, the point-to-plane residual n.(s - d) with respect to a small rigid motion (rotation and translation ordering as documented), where d, n are the nearest target point and its normal; a source point is kept exactly when that nearest neighbour is within the distance threshold, and its index is reported.",
 ["inputs"], "all point sets of bounded size, normals, thresholds; nearest-neighbour search replaced by its contract",
 "tests compare one or two fixture clouds; a sign or ordering error in one column still converges on some scenes.",
 [IU], [("gauss_newton_solve", IU)])

prop("C25", "The damped normal-equation solver returns the damped least-squares solution",
 "For every design matrix, right-hand side and damping with an invertible damped normal matrix, the solver's result x satisfies (A^T A + damp I) x = A^T b, so with zero damping it is a least-squares solution. Shapes/types that do not fit are rejected.",
 ["inputs"], "all A, b (bounded sizes), dampings",
 "tests compare with a fixture; damping added in the wrong place is invisible for damp near zero.",
 [IU], [("solve_linear_system", IU)])

prop("C26", "ICP returns an accepted rigid transform that never increases the residual",
 "Levenberg-Marquardt ICP returns the composition of the accepted increments with the initial transform, accepting a step only when it lowers the summed squared residual (so the final residual never exceeds the initial one) halving the damping on acceptance and doubling it on rejection; with no iterations or no initial transform it starts from the given transform or identity. The gradient-friendly variant keeps its damping within the configured bounds and scales each step by its documented gate, which lies between zero and one.",
 ["inputs", "histories"], "all sequences of residuals/increments the linear solver could return, up to the iteration bound; all initial transforms",
 "tests run a handful of converging scenes; reject-then-accept histories occur only for unlucky increments.",
 [IU, ICP, GICP], [("point_to_plane_ICP, point_to_plane_gradICP", IU), ("provide", ICP), ("provide", GICP)])

prop("C27", "Downsampling keeps a faithful subset",
 "Downsampling point clouds for odometry keeps exactly the points at the active association indices whose pixels lie on the sampling grid, per batch element, with their normals and colors; downsampling frames keeps exactly every ds-th row and column whose depth is valid, with their own vertex, normal and color. With ratio one it keeps everything.",
 ["inputs", "configurations"], "all association tables, missing-depth patterns, sampling ratios, image and batch sizes",
 "tests sample one ratio on one fixture; off-by-one grids and batch mix-ups depend on the pixel pattern.",
 [IU], [("downsample_pointclouds, downsample_rgbdimages", IU)])

prop("C28", "Ground-truth odometry returns the relative pose of the two frames",
 "For every pair of posed single-frame batches the provided transform equals inverse(pose1) pose2 per batch element, so composing the first pose with it gives the second pose; swapping the frames gives the inverse, and the inputs are not modified. Frames without poses, with sequence length other than one or different batch sizes are rejected.",
 ["inputs", "configurations"], "all invertible affine poses, batch sizes",
 "tests sample random poses for one shape and check one direction.",
 [GT, GU], [("provide", GT), ("relative_transformation", GU)])

prop("C29", "Dataset windows are exactly the requested strided, dilated frame windows",
 "For every dataset length and every (sequence length, dilation, stride, start, end), the sequences served are exactly the windows of frames start+k*stride+(dilation+1)*j lying completely in [start, end), in order, each once; every served item pairs the color, depth, pose and timestamps/names of the same frame. For ScanNet every scene is one sequence holding its frames start to end. Invalid parameters and windows outside a scene are rejected.",
 ["inputs", "configurations"], "all trajectory lengths and parameter combinations within bounds, for the three dataset loaders, with file parsing fed from symbolic-size listings",
 "tests only load one fixture folder with default parameters and are mostly skipped without data; off-by-one errors depend on combination of all five parameters.",
 [TUM, ICL, SC], [("frame list construction and window loop", TUM), ("same", ICL), ("same", SC)])

prop("C30", "Timestamp association is one-to-one, within tolerance and ordered",
 "Associating two timestamp lists returns pairs of existing timestamps whose (offset-corrected) difference is below the allowed maximum, uses no timestamp twice, prefers closer pairs, leaves no two unused timestamps that could still be paired, and is ordered by the stamps of its first list. The interpolation-free trajectory lookup returns the pose recorded at the reported time.",
 ["inputs"], "all timestamp lists of bounded length, offsets and tolerances",
 "tests load one stored sequence; greedy conflicts and ties need particular timestamp patterns.",
 [TU, TUM], [("associate, read_trajectory, read_file_list", TU)])

prop("C31", "Image and intrinsics preprocessing is consistent",
 "Scaling intrinsics multiplies exactly fx, cx by the width ratio and fy, cy by the height ratio, so a point's projection scales with the image, leaves all other entries and the caller's matrix unchanged, and agrees between numpy and torch; moving channels first only permutes axes and image normalisation maps [0,255] affinely onto [0,1]. Label conversion maps every raw class id to its documented class and everything else to the ignore class.",
 ["inputs", "configurations"], "all intrinsics, ratios, batch shapes, image sizes and labels",
 "tests sample few matrices/ratios; width/height confusion needs unequal ratios and non-square images.",
 [DU, "gradslam/datasets/scannet.py"], [("scale_intrinsics, channels_first, normalize_image, create_label_image", DU)])

prop("C32", "Frame-to-frame transforms telescope to the pose trajectory",
 "Converting a pose sequence into frame-to-frame transforms gives identity for the first and inverse(previous) * current for each next frame, so chaining them reproduces every pose relative to the first; input poses are not modified. The loaders' relative transforms and normalised poses obey the same law, the first pose of each sequence being the reference.",
 ["inputs", "configurations"], "all pose sequences (bounded length) with invertible poses, list and array inputs",
 "tests check a stored sequence or shape only; order-of-inversion errors are invisible for small motions.",
 [DU, TUM, ICL, SC], [("poses_to_transforms", DU), ("_preprocess_poses", TUM)])

prop("C33", "Config merging never changes a setting's type or invents keys silently",
 "Merging a config (from another node, a list of overrides or a file) over a config replaces exactly the named leaves, keeps every other value, and rejects unknown keys and values whose type is incompatible with the existing one, converting only between tuple and list; text values are read as the Python literal they spell, if any. A node in an override merges into the existing node. Deprecated keys are skipped, renamed keys refused, and only nodes open for new keys take new ones. The override source is not modified.",
 ["inputs", "programs"], "all config trees of bounded depth/keys and all override values over the supported types",
 "tests check a few keys and types; the type-pair matrix and nested/unknown key placement are combinatorial.",
 [CF], [("merge_from_other_cfg, merge_from_list, _merge_a_into_b, type coercion", CF)])

prop("C34", "Frozen configs are immutable and copies are independent",
 "After freezing, any attribute assignment on, or merge that changes, the config or any nested node is rejected and leaves all values unchanged; un-freezing restores mutability. Cloning yields an equal, independent config, and dumping then loading a config returns an equal one, merging the dump of a config over another with the same keys and types makes them equal (strings that spell Python literals aside). Values of unsupported types are never stored.",
 ["inputs", "histories"], "all config trees within the bound and all sequences of freeze/defrost/set/clone/dump",
 "tests freeze one tree; nested nodes added later and aliasing after clone depend on history.",
 [CF], [("freeze, defrost, clone, dump, load_cfg", CF)])

prop("C35", "Gradients flow and equal the true derivatives",
 "Differentiating the derived maps, projections, rigid transforms, the exponential map and the fusion update with respect to depth, intrinsics, poses, points or twists yields the true derivative wherever the function is smooth, with no NaN or infinite gradient for valid inputs, including images with missing depths. No operation silently cuts the gradient from an input that influences the output.",
 ["inputs"], "all inputs with valid depths/poses; all missing-depth patterns",
 "gradcheck in tests covers few functions at few random inputs; NaN gradients occur at particular inputs (missing depth, w = 0, zero normals).",
 [RGBD, PU, GU, SE, FU, IU], [("differentiable tensor pipelines", RGBD)])

prop("C36", "Batch elements never influence one another",
 "For every batched operation (derived maps, cloud operations, association, fusion, mapping, downsampling, odometry) the result for one batch element equals the result of running it on that element alone; changing another element's data (including making it larger, smaller or without valid points) never changes it.",
 ["inputs", "configurations"], "all batches of bounded size with elements of different content and size",
 "tests use batches whose elements are similar in size or identical; cross-talk shows only for differing elements.",
 [RGBD, PC, FU, IU, PF, IS], [("batched tensor operations and padding masks", PC)])

prop("C37", "Exports for viewing show exactly what is stored",
 "Exporting one cloud of a batch to Open3D or plotly yields exactly its stored points with each point's own color and normal, colors brought to the target's range by one rule for the whole cloud ([0,1] for Open3D, [0,255] for plotly, clamped; values above 1.1 mean 8-bit colors). Asked for at most n points, it yields min(n, size) different stored points, each with its own attributes. The frame viewer shows each frame's color and depth image at its place in the sequence, for both channel layouts, depth scaled by one power of ten that fits 8 bits. Empty clouds and frames without depth are exported too; sources are not modified.",
 ["inputs", "configurations"], "all batches of bounded size, color ranges, limits, permutations and channel layouts",
 "nothing tests the exports beyond their type; wrong rows or swapped attributes look plausible on screen.",
 [PC, RGBD, "gradslam/structures/structutils.py"], [("open3d, plotly", PC), ("plotly", RGBD), ("numpy_to_plotly_image, img_to_b64str", "gradslam/structures/structutils.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
