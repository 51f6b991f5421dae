#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit statements)."""
import json
import os
P = []


def p(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


T = "pytorch3d/transforms/"
p("C01", "3D transforms form the algebra of 4x4 row-vector matrices",
  "A transform maps every point to the row-vector homogeneous product with its 4x4 matrix, divided by the last coordinate (clamped away from zero by at least eps when one is given). Composition applies transforms left to right, is associative, broadcasts batches and leaves the operands unchanged; translate, scale, rotate and axis-angle transforms act as documented, the inverse undoes the transform, and transformed normals keep their dot product with transformed tangents. Stacking, indexing, cloning and conversion preserve the selected matrices and the dtype.",
  "all batch sizes, point counts, matrices, translations, scales, rotations and angles",
  "tests compare a few fixed matrices; the algebraic identities must hold for every matrix, batch size and broadcast pattern",
  [T + "transform3d.py"],
  [("homogeneous application", "Transform3d.transform_points"), ("composition and inversion", "Transform3d.get_matrix / inverse / compose"),
   ("primitive transforms", "Translate, Scale, Rotate, RotateAxisAngle")])
p("C02", "Rotation representations convert into each other without changing the rotation",
  "Quaternions, axis-angle vectors, Euler angles in every convention and the 6D representation convert to matrices that are orthogonal with determinant one and equal the documented rotation. Converting a rotation matrix back and forth yields the same rotation, quaternion multiplication, inversion and application agree with the matrix product, inverse and matrix-vector product, and standardisation yields the equivalent quaternion with non-negative real part.",
  "all quaternions (non-zero), axis-angle vectors, Euler angles, conventions, rotation matrices and batch shapes",
  "round trips have singular strata (half turns, gimbal lock, the four branches of matrix-to-quaternion) that sampling rarely reaches",
  [T + "rotation_conversions.py"],
  [("matrix<->quaternion", "quaternion_to_matrix, matrix_to_quaternion"), ("Euler", "euler_angles_to_matrix, matrix_to_euler_angles"),
   ("axis-angle", "axis_angle_to_matrix/quaternion, matrix/quaternion_to_axis_angle"), ("6D", "rotation_6d_to_matrix"),
   ("quaternion algebra", "quaternion_multiply/invert/apply, standardize_quaternion")])
p("C03", "SO(3) and SE(3) exponential and logarithm maps are mutually inverse",
  "The hat and vee operators are inverse linear bijections between vectors and skew matrices (vee rejecting non-skew or wrongly shaped input). The SO(3) exponential is the rotation by the vector's norm about its direction, the SE(3) exponential pairs it with the translation multiplied by the documented left Jacobian (squared angle clamped below by eps), and the logarithms given the same eps recover the vector for rotation angles below pi. Relative-angle and rotation-angle functions agree with the trace formula, with the documented linear extrapolation of the arc cosine outside its bounds.",
  "all log-rotation and twist vectors, batch sizes and rotation matrices",
  "exactness away from and inside the clamped small-angle neighbourhood cannot be settled by sampled angles with loose tolerances",
  [T + "so3.py", T + "se3.py", T + "math.py"],
  [("so3", "hat, hat_inv, so3_exp_map, so3_log_map, so3_relative_angle, so3_rotation_angle"),
   ("se3", "se3_exp_map, se3_log_map, _se3_V_matrix"), ("safe arccos", "acos_linear_extrapolation")])
p("C04", "Camera projection and unprojection are inverse and screen/NDC agree",
  "For every camera type, projecting a world point applies the world-to-view transform and then the documented intrinsics, in NDC and in screen space; unprojecting a projected point with its depth returns the original point in world or view coordinates, including when camera parameters are overridden by keyword. NDC-to-screen conversion follows the documented image-size convention (x left, y up, shorter side [-1, 1]), is inverted by screen-to-NDC, and a camera defined in screen space projects like the equivalent NDC camera.",
  "all poses, intrinsics, image sizes, points with positive depth and batch sizes",
  "the identity couples conventions across several classes and all parameter values; unit tests fix particular parameters",
  ["pytorch3d/renderer/cameras.py"],
  [("projection", "CamerasBase.transform_points*, *.get_projection_transform"), ("unprojection", "*.unproject_points"),
   ("NDC/screen", "get_ndc_to_screen_transform, get_screen_to_ndc_transform, *.get_ndc_camera_transform")])
p("C05", "Camera placement and third-party camera conversion are consistent",
  "Look-at rotations are orthonormal right-handed frames whose forward axis points from the camera position to the target, and look-at transforms send the camera position to the origin and the target to the positive depth axis. Spherical camera placement yields the position at the given distance, elevation and azimuth, world-to-view and camera-centre functions are consistent, and conversion to and from OpenCV-convention cameras is invertible and projects points to the same pixels.",
  "all positions, targets, up vectors (non-degenerate), intrinsics, image sizes and batch sizes",
  "equivalence of conventions must hold for every pose and calibration",
  ["pytorch3d/renderer/cameras.py", "pytorch3d/renderer/camera_conversions.py", "pytorch3d/renderer/camera_utils.py"],
  [("look-at", "look_at_rotation, look_at_view_transform, camera_position_from_spherical_angles"),
   ("world to view", "get_world_to_view_transform, CamerasBase.get_camera_center"),
   ("OpenCV", "_cameras_from_opencv_projection, _opencv_from_cameras_projection"), ("batching", "join_cameras_as_batch")])
p("C06", "Mesh batches keep list, packed and padded views coherent",
  "For any batch of meshes, including empty ones and equal or unequal sizes, the list, packed and padded views of vertices, faces and the index maps describe the same meshes, with packed faces shifted by each mesh's vertex offset. Unique edges, the face-to-edge map and per-mesh counts are consistent with the faces, and extending, indexing, joining, offsetting, scaling, splitting and cloning keep every view coherent without modifying the source.",
  "all batch sizes, numbers of vertices and faces per mesh, vertex values and face indices",
  "coherence ranges over every history of lazily computed caches and in-place updates and every batch layout",
  ["pytorch3d/structures/meshes.py"],
  [("views", "Meshes.__init__, _compute_packed, _compute_padded, verts_list, faces_list"), ("edges", "Meshes._compute_edges_packed"),
   ("updates", "Meshes.extend, __getitem__, offset_verts_, scale_verts_, update_padded, join_meshes_as_batch, join_meshes_as_scene")],
  over=("inputs", "histories"))
p("C07", "Point-cloud batches keep list, packed and padded views coherent",
  "For any batch of point clouds the list, packed and padded views of points, normals and features and the index maps describe the same clouds, however the batch was built and whichever view is read first. Extending, indexing, offsetting, scaling, updating from padded, joining as batch or scene, bounding boxes and cloning keep all views coherent without modifying the source.",
  "all batch sizes, cloud sizes (including empty), features and normals present or absent, orders of access",
  "coherence ranges over every history of lazily computed caches and in-place updates",
  ["pytorch3d/structures/pointclouds.py", "pytorch3d/structures/utils.py"],
  [("views", "Pointclouds.__init__, _compute_packed, _compute_padded"), ("updates", "Pointclouds.extend, __getitem__, offset_, scale_, update_padded"),
   ("joins", "join_pointclouds_as_batch, join_pointclouds_as_scene"), ("helpers", "list_to_packed, list_to_padded, padded_to_list")],
  over=("inputs", "histories"))
p("C08", "Packed and padded tensor layouts convert losslessly",
  "Converting a packed tensor to padded form places every element of batch entry b, in order, in row b and fills the rest with zeros, and converting back recovers the packed tensor; the native kernels and their gradients do exactly this for every layout. List, packed and padded helpers are mutually inverse, with the documented padding value and index maps.",
  "all batch sizes, first-index vectors, feature widths and tensor values",
  "index arithmetic in the kernels must be right for every layout, not for the sampled ones",
  ["pytorch3d/ops/packed_to_padded.py", "pytorch3d/structures/utils.py", "pytorch3d/csrc/packed_to_padded_tensor/packed_to_padded_tensor_cpu.cpp"],
  [("kernels", "PackedToPaddedCpu, PaddedToPackedCpu"), ("wrappers", "packed_to_padded, padded_to_packed"), ("helpers", "list_to_padded, padded_to_list, list_to_packed")])
p("C09", "Nearest-neighbour queries return the true neighbours",
  "K-nearest-neighbour search returns, for every valid query point, the indices and distances of the K closest valid points in ascending order under the chosen norm, with the documented padding. Ball query returns the first K points in index order strictly inside the radius, gathering by index returns the indexed rows with zeros for padding, farthest-point sampling picks successive maximisers of the distance to the selected set, and the distance gradient is the derivative of the returned distances.",
  "all point sets, lengths, dimensions, K, radii and norms",
  "correctness of heap- and scan-based selection is a loop-invariant argument over all inputs",
  ["pytorch3d/csrc/knn/knn_cpu.cpp", "pytorch3d/csrc/ball_query/ball_query_cpu.cpp", "pytorch3d/csrc/sample_farthest_points/sample_farthest_points.cpp",
   "pytorch3d/ops/knn.py", "pytorch3d/ops/ball_query.py", "pytorch3d/ops/sample_farthest_points.py"],
  [("knn", "KNearestNeighborIdxCpu, KNearestNeighborBackwardCpu, knn_points, knn_gather"), ("ball query", "BallQueryCpu, ball_query"),
   ("fps", "FarthestPointSamplingCpu, sample_farthest_points_naive")])
p("C10", "Mesh rasterization reports the nearest covering faces per pixel",
  "For every pixel the rasterizer returns, in ascending depth, the closest faces of that image whose projection covers the pixel centre (or lies within the blur radius), with barycentric coordinates, interpolated depth and signed squared distance to the face as documented, and -1 in unused slots. Pixel centres follow the NDC convention for square and non-square images, perspective correction and barycentric clipping are the documented formulas, and the geometry helper functions and their gradients are exact.",
  "all meshes, image sizes, blur radii, faces-per-pixel and option combinations",
  "hidden-surface correctness quantifies over all geometry and all pixels",
  ["pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp", "pytorch3d/csrc/utils/geometry_utils.h", "pytorch3d/renderer/mesh/rasterize_meshes.py"],
  [("kernel", "RasterizeMeshesNaiveCpu"), ("geometry", "BarycentricCoordsForward, PointTriangleDistanceForward, PixToNonSquareNdc"),
   ("clipping", "pytorch3d/renderer/mesh/clip.py")])
p("C11", "Point rasterization and compositing follow the documented formulas",
  "For every pixel the point rasterizer returns, in ascending depth, the nearest points of that cloud with non-negative depth whose projected distance is below their radius, with squared distances, and -1 in unused slots. Alpha compositing, normalised weighted sum and weighted sum of the selected features equal their documented formulas, ignore empty slots, and their gradients are the derivatives of those formulas.",
  "all clouds, radii, image sizes, points-per-pixel, weights, features",
  "visibility and compositing must be right for all depth orders and overlaps",
  ["pytorch3d/csrc/rasterize_points/rasterize_points_cpu.cpp", "pytorch3d/csrc/compositing/alpha_composite_cpu.cpp",
   "pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp", "pytorch3d/csrc/compositing/weighted_sum_cpu.cpp", "pytorch3d/renderer/compositing.py"],
  [("kernel", "RasterizePointsNaiveCpu"), ("compositing", "alphaComposite*, weightedSum*, weightedSumNorm*"), ("python", "rasterize_points.py, compositing.py")])
p("C12", "Blending turns fragments into colours by the documented weights",
  "Hard blending shows the colour of the nearest face and the background elsewhere; sigmoid blending keeps that colour with the product-form alpha; softmax blending is the documented convex combination of fragment and background colours with the documented weights. Every blended colour is a convex combination of its sources, alpha stays in [0, 1], and empty fragments contribute nothing.",
  "all fragments, colours, sigma, gamma, depth ranges, background colours and sizes",
  "convexity and exactness quantify over all weights, depths and mask patterns",
  ["pytorch3d/renderer/blending.py"],
  [("blending", "hard_rgb_blend, sigmoid_alpha_blend, softmax_rgb_blend"), ("background", "_get_background_color")])
p("C13", "Volumetric rays and emission-absorption marching follow the rendering equation",
  "Ray points are origins plus depth times direction, for grid, Monte-Carlo and probabilistic sampling, with rays passing through the pixel they are labelled with and depths spanning the requested interval in order. Emission-absorption marching computes front-to-back weights density times accumulated transmittance (with the documented eps and surface thickness), opacity one minus the total transmittance, and features as the weighted sum; harmonic embedding lists sines, cosines and input as documented.",
  "all cameras, ray counts, depths, densities and features",
  "weights are products over all earlier samples, for any number of samples",
  ["pytorch3d/renderer/implicit/raymarching.py", "pytorch3d/renderer/implicit/raysampling.py", "pytorch3d/renderer/implicit/utils.py",
   "pytorch3d/renderer/implicit/harmonic_embedding.py"],
  [("marching", "EmissionAbsorptionRaymarcher, AbsorptionOnlyRaymarcher, _shifted_cumprod"), ("rays", "_xy_to_ray_bundle, MultinomialRaysampler"),
   ("points", "ray_bundle_variables_to_ray_points"), ("embedding", "HarmonicEmbedding")])
p("C14", "Inverse-transform sampling inverts the piecewise-linear CDF",
  "Sampling from a histogram maps each uniform variate to the point where the piecewise-linear cumulative distribution of the normalised weights reaches it, so samples lie within the bins and are monotone in the variate. The native kernel and the reference formula agree on bin choice and interpolation.",
  "all bin edges, weights, batch sizes and uniform variates",
  "boundary bins and ties are measure-zero for sampled tests",
  ["pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp", "pytorch3d/renderer/implicit/sample_pdf.py"],
  [("kernel", "SamplePdfCpu"), ("python", "sample_pdf, sample_pdf_python")])
p("C15", "Mesh and point losses equal their mathematical definitions",
  "Chamfer distance (with norms, weights, lengths, normals, single direction and all reductions), mesh edge loss, Laplacian smoothing in its three weightings and normal consistency equal their definitions on every batch, averaging over meshes and elements as documented. They do not depend on padding contents, vanish on the configurations they penalise nothing in, and are invariant to rigid motion where the definition is.",
  "all point sets, meshes, weights, reductions and batch layouts",
  "definitions involve nested sums and minima of arbitrary length; tests compare a reference on random samples",
  ["pytorch3d/loss/chamfer.py", "pytorch3d/loss/mesh_edge_loss.py", "pytorch3d/loss/mesh_laplacian_smoothing.py", "pytorch3d/loss/mesh_normal_consistency.py"],
  [("chamfer", "chamfer_distance"), ("edge", "mesh_edge_loss"), ("laplacian", "mesh_laplacian_smoothing, ops/laplacian_matrices.py"),
   ("normal consistency", "mesh_normal_consistency")])
p("C16", "Mesh geometry operators compute the documented quantities",
  "Face areas and normals are half the norm and the direction of the edge cross product; vertex normals are the normalised sums of adjacent face contributions. Interpolated face attributes are barycentric combinations with zeros where no face was hit, sampled surface points lie on the selected faces with barycentric weights that are non-negative and sum to one, subdivision replaces every face by four similar ones sharing edge midpoints, and Laplacians, Taubin smoothing and graph convolution aggregate exactly over mesh edges.",
  "all meshes, fragments, features and random draws",
  "formulas must hold at every face of every mesh, including degenerate ones",
  ["pytorch3d/structures/meshes.py", "pytorch3d/ops/interp_face_attrs.py", "pytorch3d/ops/sample_points_from_meshes.py", "pytorch3d/ops/subdivide_meshes.py",
   "pytorch3d/ops/graph_conv.py", "pytorch3d/ops/laplacian_matrices.py", "pytorch3d/ops/mesh_filtering.py",
   "pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp", "pytorch3d/csrc/gather_scatter/gather_scatter_cpu.cpp",
   "pytorch3d/csrc/interp_face_attrs/interp_face_attrs_cpu.cpp"],
  [("areas/normals", "FaceAreasNormalsForwardCpu/BackwardCpu"), ("interpolation", "interpolate_face_attributes"),
   ("sampling", "sample_points_from_meshes, _rand_barycentric_coords"), ("subdivision", "SubdivideMeshes"), ("graph", "GraphConv, laplacian, cot_laplacian")])
p("C17", "Volumes map voxels to world coordinates consistently and splat points exactly",
  "Local, world and grid coordinates of a volume convert into each other by mutually inverse affine maps fixed by voxel size and volume centre, with grid corners at plus or minus one as documented. Adding points to a volume distributes every point's features and density to its neighbouring voxels by trilinear (or nearest) weights that sum to its mass inside the grid, ignoring masked and outside points, and the native kernel agrees with the reference and its gradient is the derivative.",
  "all grid sizes, voxel sizes, centres, points, features and masks",
  "border voxels and exact grid positions are measure-zero for sampled tests",
  ["pytorch3d/structures/volumes.py", "pytorch3d/ops/points_to_volumes.py", "pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp"],
  [("locator", "VolumeLocator"), ("splat", "add_pointclouds_to_volumes, _points_to_volumes, PointsToVolumesForwardCpu/BackwardCpu")])
p("C18", "Point-mesh distances are exact squared distances with exact gradients",
  "Point-to-face and point-to-edge distances return the squared Euclidean distance from each point to the closest triangle or segment of its own mesh, and that element's index, and symmetrically from faces and edges to points. The aggregated losses weight every mesh by its own element counts, and gradients are the derivatives of the returned distances wherever the distance is differentiable.",
  "all points, triangles (including degenerate ones), segments and batch layouts",
  "closest-feature case analysis has seven regions per triangle plus degenerate strata",
  ["pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp", "pytorch3d/csrc/utils/geometry_utils.h", "pytorch3d/loss/point_mesh_distance.py"],
  [("kernels", "HullDistanceForwardCpu, PointFaceArrayDistance*"), ("geometry", "PointTriangle3DistanceForward/Backward, PointLine3Distance*"),
   ("losses", "point_mesh_edge_distance, point_mesh_face_distance")])
p("C19", "Textures return the interpolated attribute of the hit surface point",
  "Per-vertex, UV and atlas textures return, for every fragment, the value their parametrisation assigns to the barycentric point of the hit face (background fragments excluded), in list, packed and padded form alike. Extending, indexing, joining and detaching textures preserve each mesh's texture.",
  "all meshes, texture maps, UV coordinates, atlases, fragments and batch layouts",
  "index arithmetic over batches and faces must be right for every layout",
  ["pytorch3d/renderer/mesh/textures.py"],
  [("sampling", "TexturesVertex/UV/Atlas.sample_textures"), ("batching", "extend, __getitem__, join_batch, join_scene"), ("padding", "faces_verts_textures_packed, *_list, *_padded")])
p("C20", "Alignment recovers the optimal similarity transform",
  "Corresponding-points alignment returns an orthonormal rotation (a proper one unless reflections are allowed), the scale, and the translation that matches weighted centroids, and recovers the exact transform when one relates the point sets. Applying a similarity transform is scale times point times rotation plus translation, and camera alignment applies the recovered transform to cameras as documented.",
  "all point sets, weights, batch sizes and flags",
  "optimality quantifies over all point sets and all competing transforms",
  ["pytorch3d/ops/points_alignment.py", "pytorch3d/ops/cameras_alignment.py", "pytorch3d/ops/utils.py"],
  [("procrustes", "corresponding_points_alignment"), ("similarity", "_apply_similarity_transform, SimilarityTransform"), ("camera alignment", "corresponding_cameras_alignment"), ("moments", "wmean, get_point_covariances")])
p("C21", "Saving and loading meshes and point clouds round-trips",
  "A mesh or point cloud written to OBJ, PLY or OFF and read back has the same vertices, faces, normals and colours up to the precision written, for every combination of optional fields, and malformed or out-of-range indices are rejected or reported. The readers accept every documented form of the formats, including polygons, negative indices and binary encodings.",
  "all meshes, field combinations and file encodings",
  "format grammars have unboundedly many valid files",
  ["pytorch3d/io/obj_io.py", "pytorch3d/io/ply_io.py", "pytorch3d/io/off_io.py"],
  [("OBJ", "load_obj, save_obj"), ("PLY", "load_ply, save_ply"), ("OFF", "_load_off_stream, _save_off_stream")])
p("C22", "Voxel and level-set surfaces are watertight around the occupied region",
  "Cubifying a voxel grid yields exactly the boundary quads between occupied and empty cells, as triangles with consistent outward orientation and deduplicated vertices. Marching cubes places vertices on grid edges whose end values straddle the level, at the linear crossing, and its triangles form a closed oriented surface inside the grid.",
  "all voxel grids, thresholds and level values",
  "2^8 cell configurations and all of their adjacencies are never enumerated by the tests",
  ["pytorch3d/ops/cubify.py", "pytorch3d/ops/marching_cubes.py", "pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp"],
  [("cubify", "cubify"), ("marching cubes", "marching_cubes_naive, MarchingCubesCpu"), ("tables", "marching_cubes_data.py / tables.h")])
p("C23", "Oriented-box overlap returns the exact intersection volume and IoU",
  "For two convex boxes the overlap function returns the volume of their intersection and that volume divided by the volume of the union, symmetrically and invariantly under a common rigid motion; non-planar or degenerate boxes are rejected.",
  "all pairs of boxes",
  "polyhedron clipping has many configurations and coplanar degeneracies",
  ["pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp", "pytorch3d/csrc/iou_box3d/iou_utils.h", "pytorch3d/ops/iou_box3d.py"],
  [("kernel", "IoUBox3DCpu"), ("validity", "_check_coplanar, _check_nonzero")])
p("C24", "Lighting and shading follow the Phong, Gouraud and flat models",
  "Diffuse light is the light colour times the non-negative cosine between unit normal and direction to the light, and specular light the documented power of the cosine between view and reflected direction, zero on the side facing away. Phong, flat and Gouraud shading combine ambient, diffuse and specular terms of materials and lights with texels as documented, for point, directional and ambient lights, whether light, material and camera parameters are shared or given per mesh.",
  "all normals, positions, colours, shininess, lights, materials and batch sizes",
  "the formulas must hold on every surface point and batch layout",
  ["pytorch3d/renderer/lighting.py", "pytorch3d/renderer/mesh/shading.py", "pytorch3d/renderer/materials.py"],
  [("terms", "diffuse, specular"), ("lights", "DirectionalLights, PointLights, AmbientLights"), ("shading", "_apply_lighting, phong_shading, gouraud_shading, flat_shading")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        assert d["statement"].count(". ") <= 2, d["id"]
        f.write(json.dumps(d) + "\n")
