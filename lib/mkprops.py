import json
P=[]
def add(id,title,st,over,text,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or []))
    assert len(title)<=80,(id,len(title))
    P.append(d)
I=["inputs"]; IC=["inputs","configurations"]
add("C01","Projection gradients are the true derivatives",
 "When a 3D point in camera coordinates is projected through a lens model, every reported derivative of the pixel with respect to the point and to each lens parameter equals the exact mathematical derivative of the projection that was computed, at every point in the model's domain. The pixel itself is the same whether or not gradients are requested, and projecting a batch of points gives exactly the per-point results. A CAHVORE point that cannot be projected is reported with zero pixel and derivatives.",
 IC,"every camera-frame point in the domain, every value of the lens parameters, every non-splined closed-form or OpenCV/CAHVOR model, every choice of requested outputs, batches of 1..3 points",
 "tests compare against finite differences at a handful of points and parameter vectors; an error confined to a parameter region, to one branch or to one combination of requested outputs is not sampled",
 ["mrcal.c","poseutils.c"],[("per-model projection and its hand-written gradients","mrcal.c"),("chain rule through scratch-pool gradients","mrcal.c")],["mrcal_project()"])
add("C02","Unprojection inverts projection in the closed-form models",
 "For the pinhole, stereographic, longitude-latitude and transverse-latitude projections, unprojecting a pixel and projecting the resulting vector gives back that pixel, for all focal lengths and centers and for every batch size. The reported derivatives of these projections and unprojections, where requested, are the true derivatives.",
 I,"every pixel / direction in the domain, every focal length and center, batches of 1..3, gradients requested or not",
 "tests use one camera and a small list of pixels; the round trip has to hold for all",
 ["mrcal.c"],[("closed-form project/unproject pairs","mrcal.c")],["mrcal_project_*()","mrcal_unproject_*()","mrcal_unproject()"])
add("C03","Splined lens models interpolate safely and smoothly",
 "Projecting any point through a splined stereographic model evaluates a uniform B-spline of the configured order: it only reads control points that exist, the value and its slope are continuous as the point moves across knots, and a constant control-point surface is reproduced exactly. Outside of the knot grid the edge patch is extrapolated, and the sparse report of which parameters affect the pixel names exactly those with the reported nonzero derivatives.",
 IC,"every point (mapped to every cell of the knot grid and beyond its edge), every control-point value, both spline orders, small grid sizes",
 "tests look at a few points in one or two grid configurations; an off-by-one at a particular cell border or for non-square grids needs the whole domain",
 ["mrcal.c"],[("knot lookup, clamping and B-spline patch evaluation","mrcal.c")],["mrcal_project()","mrcal_optimizer_callback()"])
add("C04","Transform algebra: apply, compose, invert agree",
 "Applying, composing and inverting rigid transforms in the rotation-matrix representation agree with matrix algebra, every reported derivative is the true one, and each inverted form is the exact inverse of the forward one. The results do not depend on which gradients are requested, on the memory strides of the arguments, or on the documented in-place use of an output as an input.",
 IC,"all rotation matrices, translations and points; every subset of requested gradients; contiguous and strided data; in-place operation; every combination of inverted/forward arguments",
 "tests use a few random transforms and mostly the all-gradients call",
 ["poseutils.c","poseutils.h"],[("strided R, Rt primitives with optional gradients and inverted flags","poseutils.c")],["mrcal_rotate_point_R()","mrcal_transform_point_Rt()","mrcal_compose_Rt()","mrcal_invert_Rt()"])
add("C05","Rodrigues rotations: value and gradients exact",
 "Rotating by a Rodrigues vector is the rotation about its axis by its length: the matrix produced is orthonormal with determinant one, rotating a point by the vector equals multiplying by that matrix, the inverted call undoes the forward call, and the reported derivatives are the exact ones. In the small-angle regime, including the zero rotation, the value and derivatives equal the limits of the general formula to the accuracy of a double.",
 I,"every Rodrigues vector with magnitude below pi (including zero and the neighbourhood of zero), every point, forward and inverted, gradients requested or not, in place",
 "tests sample a few rotation vectors; branches near zero and the inverted forms each need separate coverage",
 ["poseutils-uses-autodiff.cc","poseutils.c"],[("autodiff rotation and its small-angle branch","poseutils-uses-autodiff.cc")],["mrcal_rotate_point_r()","mrcal_transform_point_rt()","mrcal_R_from_r()"])
add("C06","Composition of Rodrigues rotations and poses",
 "Composing two poses given as Rodrigues vector and translation is the same as applying one and then the other, with any combination of inverted inputs, and every reported derivative is the true derivative of the composition. The composed rotation vector is the shortest one (length at most pi). Inverting a pose and composing it with the original gives the identity, the special tiny-rotation composition derivatives are the limits of the general ones, and in-place or strided use changes nothing.",
 I,"every pair of Rodrigues vectors below the wrap-around, every translation, every combination of inverted flags and requested gradients",
 "existing tests cover a few vectors; the inverted forms and each angular branch have their own gradient code",
 ["poseutils-uses-autodiff.cc","poseutils.c"],[("half-angle composition with autodiff","poseutils-uses-autodiff.cc"),("rt composition with inverted inputs","poseutils.c")],["mrcal_compose_r()","mrcal_compose_rt()","mrcal_invert_rt()"])
add("C07","Optimization-state layout is an exact partition",
 "For every problem size and every selection of what is being optimized, the intrinsics, extrinsics, frames, points and board-warp blocks of the optimization state are disjoint, consecutive and cover exactly the reported number of state variables. A block that is not being optimized, or an item index out of range, is reported as absent rather than as an offset.",
 ["configurations","inputs"],"all counts of cameras, frames, points, fixed points and board observations within the bound, all optimization selections, all lens models, all item indices",
 "tests exercise a couple of calibration problems; the space of selections times counts is combinatorial",
 ["mrcal.c"],[("state index and size functions","mrcal.c")],["mrcal_state_index_*()","mrcal_num_states*()"])
add("C08","Measurement layout and Jacobian size are exact",
 "For every problem, the board, point, triangulated-point and regularization measurement blocks are disjoint, consecutive and cover exactly the reported number of measurements, and blocks that are not present are reported as absent. The reported number of Jacobian nonzeros is exactly the number the optimizer produces, and the count and index of triangulated pairs agree with the enumeration of pairs of observations of the same point.",
 ["configurations","inputs"],"all observation counts within the bound, all optimization selections, all lens models, all camera-index assignments and point sets of bounded size",
 "tests use a handful of problems; the counts feed buffer allocation, so a rare wrong combination is memory corruption",
 ["mrcal.c"],[("measurement index, count and nonzero prediction","mrcal.c")],["mrcal_measurement_index_*()","mrcal_num_measurements*()"])
add("C09","Packing and unpacking the state are mutual inverses",
 "Unpacking a packed state gives back the original for every state vector, and every element of the state is scaled exactly once by a nonzero factor that depends only on the kind of variable. Nothing outside of the state vector is touched, for every problem size and selection of optimized variables.",
 IC,"all state values, all counts within the bound, all optimization selections, all lens models",
 "tests pack and unpack the state of one or two problems",
 ["mrcal.c","scales.h"],[("pack/unpack loops and scale table","mrcal.c")],["mrcal_pack_solver_state_vector()","mrcal_unpack_solver_state_vector()"])
add("C10","Optimizer callback: residuals and Jacobian are consistent",
 "For a calibration problem, the residual vector is the weighted difference of the projection of the hypothesized geometry and the observation, and each entry of the sparse Jacobian is the derivative of its residual with respect to the packed state variable. The sparse structure is valid: rows in order, column indices in range, no column given twice in a row, with exactly the predicted number of entries; measurements marked as outliers contribute zero.",
 ["inputs","configurations"],"all values of intrinsics, poses, points, warp and observations; every selection of optimized variables; camera at or away from the reference; small problem sizes",
 "tests compare against finite differences on a few simulated problems with fixed selections",
 ["mrcal.c"],[("cost function assembling x and Jt","mrcal.c")],["mrcal_optimizer_callback()"])
add("C11","Lens-model names round-trip and are validated",
 "Converting a lens model to its name and back gives the same model and configuration, for every configuration that can be represented, and the name always fits the buffer or the call fails. Any other string is rejected as invalid, with missing, malformed, trailing or out-of-range configuration reported as such, and the number of parameters of every accepted model is positive and exactly what the model uses.",
 I,"all strings up to a bounded length of arbitrary bytes following each model-name prefix, all configuration values",
 "tests try about twenty strings",
 ["mrcal.c"],[("lens-model name parser and formatter","mrcal.c")],["mrcal_lensmodel_from_name()","mrcal_lensmodel_name()","mrcal_lensmodel_num_params()"])
add("C12","The camera-model parser is safe and strict",
 "Parsing a camera-model text of any content never reads beyond the given buffer, and an accepted model has a valid lens model, exactly the right number of intrinsics, a full set of extrinsics and a positive image size, each read from the text. Text with missing, duplicated, malformed or miscounted required fields is rejected, and reading into a caller-provided buffer never writes more parameters than the caller allowed for.",
 I,"all texts obtained by replacing bytes of a template with arbitrary bytes, truncating at any point, and with fields missing, repeated or of the wrong length; all caller buffer sizes",
 "tests check a fixed list of files; a parser of untrusted text has to be safe on all of them",
 ["cameramodel-parser.re"],[("re2c-generated parser of the python-dict syntax","cameramodel-parser.re")],["mrcal_read_cameramodel_string()","mrcal_read_cameramodel_string_into()"])
add("C13","Image views address exactly their pixels",
 "For every image width, height, row stride and crop, pixel access reads and writes the bytes of that pixel only, and a cropped view addresses the same memory as the corresponding region of the original. Contrast-stretching a 16-bit image maps the darkest pixel to 0 and the brightest to 255 monotonically, wherever those pixels are in the image. Saving an image writes, and loading one returns, each pixel in its place with its channels in the right order, for any row stride.",
 IC,"all sizes and strides within the bound, all pixel types, all crops inside the image, all pixel values",
 "tests look at one or two real images with default strides",
 ["image.h","image.c"],[("row-stride address arithmetic, crop","image.h"),("equalization","image.c")],["mrcal_image_*_at()","mrcal_image_*_crop()","mrcal_image_uint8_load()"])
add("C14","Rectified stereo geometry is consistent",
 "A rectified stereo system has both rectified cameras sharing one orientation, with the second displaced from the first by the baseline along the rectified x axis, and rotations that are orthonormal. The rectification maps give, for every rectified pixel, the original-camera pixel observing that rectified direction, and points on one physical ray land on the same row in both rectified views.",
 IC,"all camera poses with nonzero baseline, all fields of view and angular resolutions in the domain, both rectification models, all pixels of small rectified images",
 "tests use one or two stereo pairs",
 ["stereo.c"],[("rectified axes and models","stereo.c"),("map generation","stereo.c")],["mrcal_rectified_system()","mrcal_rectification_maps()"])
add("C15","Range from disparity is geometrically exact",
 "The range reported for a disparity in a rectified stereo pair equals the distance from the left camera to the unique point whose rectified projections differ by that disparity, for both rectification models. Zero, negative, non-finite or out-of-limits disparities report a range of 0 and never a bogus value; dense and sparse processing agree.",
 I,"all pixels, disparities, baselines, focal lengths and centers; all disparity bounds and scales; image strides",
 "tests compare a few points against a model",
 ["stereo.c"],[("closed-form triangulation of disparity; validity gates","stereo.c")],["mrcal_stereo_range_sparse()","mrcal_stereo_range_dense()"])
add("C16","Triangulation returns the intersection, with true gradients",
 "When two observation rays meet at a point in front of both cameras, every triangulation method returns that point, and rays which meet behind a camera return the zero vector rather than a bogus point. For rays that do not quite meet, each method gives what its published formula gives, and the error used by the optimizer is zero for rays which meet in front of both. Reported derivatives are the true derivatives of the returned point with respect to the rays and the relative pose.",
 I,"all ray directions and magnitudes, all baselines, all relative rotations, all methods, gradients requested or not",
 "tests use a few simulated geometries",
 ["triangulation.cc","_autodiff.hh"],[("autodiff triangulation kernels","triangulation.cc")],["mrcal_triangulate_*()"])
add("C17","Sensor-link traversal finds the best-connected tree",
 "Traversing sensors from the first one reports every sensor that shares observations, directly or through others, exactly once, each with the predecessor on the best path from the first sensor, and reports nothing for unreachable sensors. Sensors come in the order of their distance. It reports failure exactly when the callback asks to stop, and then reports nothing more.",
 ["inputs","histories"],"all symmetric shared-observation counts for up to 4 sensors",
 "tests use two or three fixed graphs",
 ["traverse-sensor-links.c","heap.cc"],[("Dijkstra over shared-observation counts with a binary heap","traverse-sensor-links.c")],["mrcal_traverse_sensor_links()"])
add("C18","The priority queue always yields the minimum",
 "After any sequence of insertions, removals, and cost changes followed by a re-sort, removing from the queue returns an element of minimum cost, the set of elements is preserved and emptiness is reported exactly.",
 ["histories","inputs"],"all cost assignments with ties, all operation sequences of bounded length",
 "one fixed sequence is tested",
 ["heap.cc"],[("binary heap over external cost array","heap.cc")],["mrcal_heap_*()"])
add("C19","Matching cameras to extrinsics is exact",
 "For stationary cameras the mapping of each camera to its extrinsics index is recovered exactly from the observation index lists, including the camera at the reference, and inconsistent index lists, in which a camera or extrinsics index moves, or which leave a camera unobserved, are rejected with an error rather than reported as a mapping.",
 I,"all index lists of board and point observations of bounded length",
 "tests cover a handful of lists",
 ["mrcal.c"],[("single pass over the observation indices","mrcal.c")],["mrcal_corresponding_icam_extrinsics()"])
add("C20","Outlier rejection marks exactly the measurements beyond the bound",
 "An outlier-rejection pass over optimized residuals asks for another optimization exactly if a board-corner or triangulated-point residual is beyond 5 sigma of the current inliers, or triangulated rays diverge. If so it marks exactly the board corners with a residual beyond 4 sigma, and leaves no pair of triangulated observations beyond 4 sigma unmarked. It never un-marks an outlier, leaves everything else untouched, and reports accurately how many corners are marked.",
 I,"all residual values, small problem sizes, several sets of prior outlier marks",
 "tests only look at the outcome of one noisy solve",
 ["mrcal.c"],[("sigma-based outlier pass","mrcal.c")],["mrcal_optimize()"])
add("C21","Regularization terms have their documented value and gradient",
 "Each regularization residual depends only on the intrinsics or extrinsics it regularizes, pulls toward zero distortion, a centered center pixel or a unit camera separation, and its Jacobian entries are its exact derivatives with respect to packed state. They are present exactly when requested and applicable and are never affected by observations.",
 IC,"all intrinsics and extrinsics values, imager sizes, optimization selections and lens models in the bound",
 "tests use a few fixed problems",
 ["mrcal.c"],[("regularization tail of the cost function","mrcal.c")],["mrcal_optimizer_callback()"])
add("C22","Color-map and image utilities respect their stated range",
 "Applying a color map to numeric data clamps values outside the range and maps every other value through the documented color formula of its position in the range: the minimum to the first color and the maximum to the last. It respects row strides, touches nothing but the output pixels and uses the true minimum and maximum of the data when asked to find them.",
 I,"all values of each numeric type, small sizes, all strides, automatic or given bounds",
 "tests do not cover this at all beyond one smoke use",
 ["image.c","mrcal.c"],[("generic color-map template over numeric types","image.c")],["mrcal_apply_color_map_*()"])
add("C23","Converting rotation matrices to Rodrigues vectors is exact",
 "Converting any rotation matrix to a Rodrigues vector and back gives the same matrix, including at zero rotation and at half-turns, and the reported derivatives satisfy the chain rule with the reverse conversion. Strided access changes nothing.",
 I,"all rotation matrices, every angular regime",
 "tests sample random rotations and a few singular ones",
 ["poseutils-uses-autodiff.cc"],[("axis-angle extraction in several angular regimes","poseutils-uses-autodiff.cc")],["mrcal_r_from_R()"])
add("C24","CAHVOR(E) model file conversion preserves the camera",
 "Writing a pinhole, CAHVOR or CAHVORE camera to the vector form used by that format and reading it back preserves the projection, orientation and position of the camera.",
 I,"all focal lengths, centers, distortion parameters and poses",
 "tests read a few files",
 ["mrcal/cahvor.py"],[("conversion of vectors to intrinsics and pose","mrcal/cahvor.py")],["mrcal.cahvor"])
add("C25","Uncertainty propagation uses the correct linearization",
 "The cross-reprojection sensitivity used in uncertainty computations equals the solution of the normal equations for the best-fitting relative pose, built from the true Jacobian blocks.",
 IC,"all Jacobian values for small problems, all optimization selections supported",
 "tests compare against Monte-Carlo on one scene",
 ["uncertainty.c"],[("accumulation of normal equations and solve","uncertainty.c")],["mrcal_drt_ref_refperturbed__dbpacked()"])
open("/verif/properties.jsonl","w").write("\n".join(json.dumps(d) for d in P)+"\n")
import jsonschema
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,S)
print(len(P))
