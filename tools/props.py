NOTES = 'See DESIGN.md. run.py regenerates every encoding from /repo on each run.'
NA = []
PROPS = []


def P(id, title, statement, quant, why, files, mech, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why,
                      files=['menpofit/' + f for f in files], mech=mech, **k))


P('C01', 'Homogeneous transform Jacobians are the exact derivatives',
  'For every 2-D/3-D affine and every 2-D similarity transform (plain or alignment based), the Jacobian '
  'with respect to the parameters equals the derivative of applying the transform, entry by entry in the '
  'documented (points, parameters, dimensions) layout, and the spatial Jacobian is the linear part of the map. '
  'Evaluating them leaves the points and the transform unchanged, the non-alignment copy has the same warp and '
  'Jacobian, the target of an alignment follows every change of its parameters and every in place composition, and points or transforms of an unsupported dimension raise ValueError.',
  'every parameter vector, every set of sample points',
  'the unit tests compare hand-written Jacobians at two or three fixed point sets and never against the warp '
  'itself; a sign or ordering mistake at other values, or in the alignment variants, is not seen',
  ['transform/homogeneous.py', 'differentiable.py'],
  [('affine_d_dp / similarity_d_dp / affine_d_dx', 'menpofit/transform/homogeneous.py')])

P('C02', 'Landmark-driven warp and RBF Jacobians are the exact derivatives',
  'For piecewise affine and thin plate spline warps the Jacobian with respect to the landmarks equals the '
  'derivative of the warped points with respect to the target landmarks (so it sums to one over landmarks and '
  'reproduces the warp), and the spatial Jacobian equals the derivative of the warp with respect to the sample '
  'point. The radial basis derivative equals the derivative of each basis function with respect to each sample '
  'point and vanishes at its own centre. Piecewise affine Jacobians outside the mesh raise the containment error '
  'and do not depend on earlier queries.',
  'every target configuration, every sample point inside the domain (small meshes / landmark sets)',
  'two fixed configurations are tested for splines, nothing for the piecewise affine warp, and none of them '
  'compares with the warp; derivatives are claims over a continuum of points',
  ['transform/piecewiseaffine.py', 'transform/thinsplatesplines.py', 'transform/rbf.py'],
  [('d_dl, d_dx of the warps', 'menpofit/transform/piecewiseaffine.py, thinsplatesplines.py'),
   ('d_dl of the kernels', 'menpofit/transform/rbf.py')])

P('C03', 'PDM Jacobians are the exact derivatives of the model instances',
  'For the plain, global, similarity and orthonormal point distribution models the Jacobian with respect to the '
  'parameters, evaluated at the mean landmarks, equals the derivative of the target points with respect to the '
  'parameters: the shape block is exact for every pose and weights, the pose block is exact at zero weights and, '
  'for global models, the shape block carries the linear part of the global transform. The parameter '
  'vector is ordered pose first, then weights. Asking for a Jacobian never changes the model state.',
  'every pose and weight vector, for exact rational shape models of 1-3 components',
  'no test covers the point distribution models at all; a Jacobian must match at every pose',
  ['modelinstance.py'], [('PDM.d_dp, GlobalPDM.d_dp, OrthoPDM', 'menpofit/modelinstance.py')])

P('C04', 'Shape-model state (weights, pose, target) stays coherent',
  'After any sequence of constructing, set_target, from_vector, weight assignment, increment or copy, the target '
  'of a shape-model instance is the model instance of its weights moved by its global transform, as_vector '
  'followed by from_vector is the identity, setting a target that the model can represent reproduces it, and '
  'setting any other target gives its least squares projection on the model. A linear transform set from its sparse '
  'points alone recovers the shape they determine. n_parameters, n_active_components '
  'and the weights agree in size, weights shorter than the model are zero-padded. Copies never share '
  'state with the original. Incrementing forwards the data and forgetting factor to the model and leaves '
  'the instance rebuilt around the new mean with the documented target.',
  'every weight vector, pose, target shape (4 landmarks) and operation order listed',
  'histories of state updates over continuous values; no test touches this module',
  ['modelinstance.py'],
  [('ModelInstance / PDM / GlobalPDM / OrthoPDM state updates', 'menpofit/modelinstance.py')])

P('C05', 'Model-driven warps: exact Jacobians and least-squares composition',
  'A model driven transform warps every point like the warp onto the target of its shape model, starts as '
  'the identity with source the model mean (or the given source), and keeps as_vector, target and warp in step after '
  'from_vector and set_target without touching the instance it was copied from. Its Jacobian equals the derivative of '
  'the warped points with respect to the parameters (pose block at zero weights) at any points, also when other points '
  'were queried before. Composing with an increment adds Jp delta, where Jp delta moves the mean landmarks in the '
  'least squares sense like the warped increment, so composing at the identity just adds. The pseudoinverse negates '
  'the parameters, and a model of the wrong class raises ValueError.',
  'every parameter vector, increment and sample point inside the mesh; small rational models',
  'the relations link three hand-written einsum formulas at every parameter value; nothing tests them',
  ['transform/modeldriven.py'],
  [('ModelDrivenTransform / GlobalMDTransform / OrthoMDTransform', 'menpofit/transform/modeldriven.py')])

P('C06', 'Lucas-Kanade residuals: exact Jacobian images, Hessian, update and cost',
  'For every residual class the steepest descent images are the derivative of the sampled (for forward calls: '
  'warped) features with respect to the warp parameters, i.e. image gradients contracted per channel with the warp Jacobian '
  'and pushed through the residual normalisation; the Hessian and update are the Gauss-Newton products of those images '
  'with each other and with the error between image and template; and the cost is the value of the documented '
  'error (SSD, Fourier/kernel weighted SSD, enhanced correlation, gradient images, gradient correlation). At perfect '
  'alignment the error and update vanish. The kernel, when given, acts on every channel. No call modifies image, template or Jacobian.',
  'all pixel values of small 1-2 channel images, all warp Jacobian values',
  'no test covers the residuals; the formulas must agree with their error functions at every pixel value',
  ['lk/residual.py'], [('SSD, FourierSSD, ECC, GradientImages, GradientCorrelation', 'menpofit/lk/residual.py')])

P('C07', 'Lucas-Kanade algorithms take exact Gauss-Newton steps and keep exact books',
  'Every iteration of forward additive, forward compositional and inverse compositional Lucas-Kanade samples the '
  'image at the current parameters and moves them by the Gauss-Newton solution for the residual, combined with the '
  'parameters additively, by composition, or by inverse composition. A run starts at the given shape, takes at most '
  'max_iters steps, goes on only while the last step was larger than eps, and reports one '
  'parameter vector, shape - the source moved by the parameters - (and, if asked, cost) per step. A run depends only on its arguments: not on '
  'earlier runs of the same object; template, image and initial shape stay unchanged. warped_images gives the image sampled '
  'at each shape.',
  'all template and sampled pixel values, all initial shapes; affine, similarity and one-parameter warp groups; 0-2 iterations',
  'stop rules, step algebra and run independence are claims over iteration histories; nothing tests them',
  ['lk/algorithm.py', 'lk/result.py'],
  [('ForwardAdditive / ForwardCompositional / InverseCompositional .run', 'menpofit/lk/algorithm.py')])

P('C14', 'Error metrics equal their formulas for every pair of shapes',
  'Euclidean and root mean square errors equal the mean point to point distance and the root of the mean squared '
  'coordinate difference, for point clouds and arrays in 2-D and 3-D, are symmetric, and vanish at the ground truth. Their '
  'bounding box normalised forms divide by the area, perimeter, average edge length (the default) or diagonal of the box of '
  'the ground truth, or of norm_shape when given; other types raise ValueError. Distance normalised forms divide by '
  'the given function of shape and ground truth, or the distance between two ground truth points. The 68/66/51/49 point '
  'face metrics compare the documented landmark subsets, divide by the pupil, outer eye corner or box measure '
  'of the ground truth, and refuse other sizes with ValueError. No metric modifies its inputs.',
  'all coordinates (2-4 points; faces: each landmark anywhere in a box around a layout), all supported size pairs',
  'no test covers the metrics; a formula must hold for all coordinates',
  ['error/base.py', 'error/human/face.py'],
  [('euclidean/rms/bb/distance normalised errors', 'menpofit/error/base.py'),
   ('face specific errors', 'menpofit/error/human/face.py')])

P('C15', 'Error distributions: CED, AUC, failure rate and summary statistics',
  'The cumulative error distribution gives, for each bin, the share of errors at most that bin, so never decreases. '
  'The failure rate is the share of errors above max_error, and the area under the curve is the Simpson integral of '
  'the CED over the bins from min_error to max_error in steps of step_error, divided by max_error: 1 when all errors '
  'are zero and 0 when all exceed the range. The statistical measures are the mean, standard deviation, median, median absolute '
  'deviation, maximum, area and failure rate, once per list when given several lists. Lists and arrays '
  'are treated alike.',
  'all values of 1-4 errors away from the float bins, several bin layouts',
  'order statistics and counts depend on every ordering of the errors; nothing tests them',
  ['error/stats.py'], [('compute_cumulative_error, area_under_curve_and_failure_rate, '
                        'compute_statistical_measures', 'menpofit/error/stats.py')])

P('C16', 'Argument checkers return one value per scale or raise ValueError',
  'Every argument checker turns a single value, a one element list or a list with one value per scale into a list of '
  'exactly n_scales values in the given order, and raises ValueError for wrong lengths, wrong types and '
  'values out of the documented bounds: diagonals of at least 20, numeric scales, callables, patch shapes, component counts '
  'that are positive ints or floats in [0, 1] or None, samplings that are ints, arrays or None, algorithm classes, graphs '
  'of the allowed types. A total number of iterations is shared out evenly over the '
  'scales and adds up to the total. Setting the components of models sets each model its own value or '
  'raises without changing any. The triangulation checks warn exactly for untriangulated shapes '
  'of piecewise affine warps.',
  'any numeric value in the stated ranges, 1-5 scales, lists of any length up to 6',
  'a case analysis over all lengths, kinds and values; no test covers the checkers',
  ['checks.py'], [('check_* and set_models_components', 'menpofit/checks.py')])

P('C12', 'Multi-scale fitting hands frames, shapes and options correctly between scales',
  "Every scale's algorithm gets the image normalised to the size of the reference shape by the initial shape, then the features "
  'and the scale of its level (computed once per change of features), together with its own share of the iterations, the costs '
  'flag and the options. The first scale starts at the initial shape and every other scale exactly where the previous one ended, '
  'when both are moved to the frame of the input image; ground truth reaches a scale in its frame. Shapes of the result are in '
  'the frame of the input image and the result has the class of the fitter. Image, landmarks and '
  'initial shape of the caller are left alone. Fitting from a bounding box is fitting from the reference shape aligned to the box. '
  'LucasKanadeFitter builds one template, transform and residual per scale from the diagonal-normalised template; its warped images use the '
  'highest scale.',
  'any shapes, scales 1/4 to 1 and affine frames; 1-3 scales, shared or distinct features, any feature coordinate change',
  'needs composition of frames for all shapes and scale settings; no test compares frames between scales',
  ['fitter.py', 'lk/fitter.py'], [('MultiScaleNonParametricFitter, MultiScaleParametricFitter, align_shape_with_bounding_box', 'menpofit/fitter.py'),
                 ('LucasKanadeFitter', 'menpofit/lk/fitter.py')])

P('C13', 'Fitting results report every iteration in the frame of the input image',
  'The shapes of a multi-scale result are the shapes of every scale moved by the scale transform and then the affine '
  'transform of that scale, in order, with the initial shape listed once and first. Final and initial shape, iteration counts '
  '(total and per scale; reconstructions of the initial shape are not iterations), reconstructed shapes, shape, homogeneous and '
  'appearance parameters and costs follow from the per-scale results. Errors, displacements and their statistics have one value '
  'per shape or step and are what gets plotted; missing ground truth, initial shape or costs and unknown statistics raise '
  'ValueError. view shows the requested shapes with their own colours and view_iterations the requested iterations under the '
  'documented names. to_result keeps what is asked for. The stored image is a copy, and the per-scale results are not changed.',
  'any shapes, parameters, costs, scale and affine transforms; 1-3 scales, 0-2 iterations each, every optional part',
  'index bookkeeping over all combinations of scales, iteration counts and optional parts; nothing tests it',
  ['result.py', 'lk/result.py', 'aam/result.py', 'aps/result.py', 'unified_aam_clm/result.py'],
  [('Result classes', 'menpofit/result.py'), ('LucasKanadeResult', 'menpofit/lk/result.py'),
   ('AAMResult', 'menpofit/aam/result.py'), ('APSResult', 'menpofit/aps/result.py'),
   ('UnifiedAAMCLMResult', 'menpofit/unified_aam_clm/result.py')])

P('C25', 'Perturbation noise has its documented size, centre and type',
  'The noisy alignment similarity is the optimal alignment (with or without rotation) followed by a similarity around the centre '
  'of the target: scale 1 plus noise of half the scale percentage, rotation of 180 degrees times the rotation percentage and shift of the range '
  'of the target times the translation percentage, uniform in plus or minus these amounts or normal with a third of them as deviation, four independent draws. '
  'One percentage (number or one element list) is used for all three, lists are left alone, the type is compared by value and '
  'unknown types raise ValueError. Without noise it is the plain alignment. noisy_shape_from_shape and '
  'noisy_shape_from_bounding_box apply this transform to the shape. The noisy target alignment adds normal '
  'noise of noise_std (one value or one per point) times the range to every coordinate of the target. '
  'generate_perturbations_from_gt attaches n_perturbations boxes per image or per provided box, each the box of the perturbed box '
  'kept within the image, re-adds the provided boxes after theirs, and raises ValueError if none matches.',
  'any draws, percentages in [0, 1], targets of any size and place (4 points); 0-2 perturbations, 0-2 boxes, 1-2 images',
  'the noise is random: tests would need to look at every draw', ['fitter.py'],
  [('noisy_alignment_similarity_transform, noisy_target_alignment_transform, noisy_shape_from_*, generate_perturbations_from_gt', 'menpofit/fitter.py')])

P('C17', 'Regressors solve their least squares problems; increments equal retraining',
  'IRLRegression (with or without bias and regularisation) returns the solution of the regularised normal equations; incremented models '
  'equal the model trained once with all samples, for any split; models that are not incrementable raise ValueError and stay as they are; training again '
  'forgets. IIRLRegression is the (regularised) pseudoinverse of the regression with exchanged roles, recovers targets '
  'that generate the features linearly, and increments like it. PCRRegression predicts the projection of the targets on '
  'the leading singular components whose cumulative share stays below the variance (all without it), OptimalLinearRegression the least squares '
  'prediction (on the leading components whose cumulative share of the variance stays below the one given, if any), OPPRegression uses the orthogonal matrix that best maps (whitened, if asked) features to targets. Prediction of one sample '
  'is the row of the prediction of several. Inputs are not changed.',
  'any features and targets of 1-4 samples, 1-3 features, 1-2 outputs, any regularisation',
  'algebraic identities over all data; no test covers the regressors', ['math/regression.py'],
  [('IRLRegression, IIRLRegression, PCRRegression, OptimalLinearRegression, OPPRegression', 'menpofit/math/regression.py')])

P('C08', 'AAM Lucas-Kanade algorithms take exact Gauss-Newton steps',
  'Every iteration of the project-out, simultaneous, alternating, modified alternating and Wiberg AAM algorithms '
  '(forward and inverse compositional) solves its normal equations exactly at the current state: the Jacobian is the '
  'gradient of the warped image (forward) or minus the gradient of the mean or current appearance instance '
  '(inverse) contracted with the warp Jacobian; project-out and Wiberg steps use the error to the mean with the '
  'appearance subspace projected out, simultaneous ones solve shape and appearance jointly, alternating ones '
  'alternate, the modified one re-projects the appearance. The first appearance is the projection of the warped '
  'image. Forward steps are added to the parameters and inverse ones subtracted. Costs are the (projected out) '
  'squared error of every state. Sub-sampling restricts everything to the sampled pixels. Project-out steps do not '
  'depend on the appearance variation in the image.',
  'every mean, sampled image and starting shape (3x3 - 4x5 pixels, 1-2 channels, 1-2 appearance components, '
  '1-2 warp parameters, 1-2 steps)',
  'no test fits an AAM; a wrong projection, sign or transposition only slows or biases convergence, so comparing '
  'final shapes cannot reveal it: the step itself must be compared with the normal equations',
  ['aam/algorithm/lk.py'], [('ten algorithm classes', 'menpofit/aam/algorithm/lk.py')])

P('C09', 'AAM MAP inference solves the regularised normal equations',
  'With map_inference the steps of the ten AAM Lucas-Kanade algorithms solve the normal equations with the prior '
  'added to the Hessian and its gradient to the right hand side: weight one for the four pose parameters and ratio '
  'of noise variances over eigenvalue for shape and (simultaneous, alternating) appearance parameters, so that '
  'forward as well as inverse steps are pulled towards zero parameters. The Hessian of a second step or run is not '
  'changed by the first.',
  'every mean, sampled image, start, eigenvalues and noise variances (4x4 pixels, 4-5 warp parameters, 1-2 steps)',
  'nothing tests map_inference; the effect of a wrong prior is a slightly different fit',
  ['aam/algorithm/lk.py'], [('solve_shape_map, _solve_all_map', 'menpofit/aam/algorithm/lk.py')])

P('C10', 'AAM Lucas-Kanade runs keep exact books, stop correctly and do not remember',
  'A run of any of the ten AAM Lucas-Kanade algorithms starts at the given shape, takes at most max_iters steps and '
  'goes on exactly while the last step moved the target by more than eps. It reports the initial shape and one '
  'parameter vector, shape, appearance vector (none for project-out) and, if asked, cost per state, always matching '
  'each other, with image, ground truth and initial shape. It depends only on its arguments, not on earlier runs on '
  'the object (with or without MAP inference) nor on the state the transform was left in; image, model and start '
  'stay unchanged. warped_images gives the image sampled at each of the given shapes.',
  'every start and family of sampled images (3x3-4x4 pixels, max_iters up to 3, four runs)',
  'histories of runs and stop rules over continuous values; no test runs an AAM',
  ['aam/algorithm/lk.py', 'aam/result.py'], [('run of each algorithm', 'menpofit/aam/algorithm/lk.py')])

P('C11', 'Lucas-Kanade model interfaces: Jacobian, gradient, sampling and results',
  'The holistic and patch based AAM and ATM interfaces lay out warp Jacobians as (dims, pixels or parts, '
  'parameters), take the gradient of images (zero on the boundary of the mask; per patch and channel for patches), '
  'contract gradient and Jacobian per channel and pixel into steepest descent images in the order of the vectorised '
  'image, and restrict everything consistently to the sampled pixels given as step, index, mask or None. Patches are '
  'extracted at the target with the patch shape and normalised. Inputs are not modified. The result object carries '
  'what it is given; linear interfaces report the sparse shapes of the shape parameters. Algorithms on patches take '
  'the steps of the stacked patches.',
  'every image, gradient and Jacobian (13 of 4x4 pixels, 3 patches of 4x3 pixels, 2 channels)',
  'no test touches the interfaces; index order mistakes show only for several channels, parts or parameters',
  ['aam/algorithm/lk.py', 'atm/algorithm.py'],
  [('LucasKanade*Interface', 'menpofit/aam/algorithm/lk.py'),
   ('ATMLucasKanade*Interface', 'menpofit/atm/algorithm.py')])

P('C21', 'ATM Lucas-Kanade: exact steps, priors, costs, books and no memory',
  'Every iteration of the forward and inverse compositional ATM algorithms moves the shape parameters by the '
  'Gauss-Newton solution for the sampled template (added or subtracted), with map_inference by the solution with the '
  'prior (one for pose, inverse noise variance over eigenvalue for shape parameters) that pulls towards zero. Costs '
  'are the squared errors of every state. A run starts at the given shape, takes at most max_iters steps, goes on '
  'exactly while the target moved by more than eps, reports matching parameters, shapes and costs, and depends only '
  'on its arguments. Template, image and start stay unchanged.',
  'every template, sampled image, start and prior (3x3-4x5 pixels, 1-6 parameters, up to 3 steps; patches)',
  'no test fits an ATM; errors only change the speed or bias of convergence',
  ['atm/algorithm.py', 'aam/algorithm/lk.py'], [('Compositional.run, _solve', 'menpofit/atm/algorithm.py')])

P('C22', 'APS Gauss-Newton: exact weighted steps, costs, books and no memory',
  'Every iteration of the forward and inverse APS algorithms solves the Gauss-Newton equations weighted with the '
  'appearance precision plus weight times the deformation precision pulled through the shape Jacobian (points '
  'interleaved x, y), the deformation gradient taken at the current parameters (pose zeroed with Procrustes). Costs '
  'are the Mahalanobis distance of the error of the normalised patches, the weighted one of the shape to the deformation mean, and '
  'their sum, for every state, also with sampled patches. A run starts at the given shape, takes at most max_iters '
  'steps, goes on exactly while the target moved by more than eps, reports matching parameters, shapes and costs '
  'and depends only on its arguments.',
  'every template, mean, patches, start, weight and (tridiagonal) appearance precision (3 patches of 2x3 pixels)',
  'no test fits an APS; nothing checks weighting, point order or sampling',
  ['aps/algorithm/gn.py', 'aps/result.py'], [('Forward, Inverse, GaussNewtonBaseInterface', 'menpofit/aps/algorithm/gn.py')])

P('C19', 'Supervised descent: cascades regress what is missing at the current shapes',
  'Training a supervised descent algorithm (non-parametric, parametric shape, parametric appearance, fully '
  'parametric and the AAM ones) fits in each iteration a new regressor, of the class and settings of the algorithm, '
  'from the features at the current shapes (patch features in landmark order, projected on the appearance model of '
  'the ground truth patches where the name says so) to ground truth minus current (points or shape parameters), '
  'one row per image and shape in order, then adds the predictions to the shapes it was given. Increment does the '
  'same with the existing regressors and needs a trained cascade; training again starts afresh. A fit applies the '
  'regressors in order from the initial shape and reports matching shapes, parameters and iteration count. The '
  'multi-scale trainer hands every scale images normalised by the ground truth, its feature and scale, ground truth '
  'and shapes in that frame: at first the reference shape aligned with every perturbed (and given) box, later where '
  'the previous scale ended; the training images keep only their own landmarks.',
  'every patch, shape, box, frame, prediction and model mean (3 landmarks, up to 3 images x 3 shapes x 3 iterations, '
  '3 scales with changing features)',
  'histories: cascades over iterations and scales whose intermediate data no test observes',
  ['sdm/algorithm/base.py', 'sdm/algorithm/nonparametric.py', 'sdm/algorithm/parametricshape.py',
   'sdm/algorithm/parametricappearance.py', 'sdm/algorithm/fullyparametric.py', 'sdm/fitter.py',
   'aam/algorithm/sd.py'],
  [('BaseSupervisedDescentAlgorithm._train', 'menpofit/sdm/algorithm/base.py'),
   ('SupervisedDescentFitter._train_batch', 'menpofit/sdm/fitter.py')])

P('C18', 'Correlation filters and Fourier helpers compute what they are defined to',
  'fft_convolve2d and its channel sum equal the linear spatial convolution, centred on the input for mode same and '
  'cropped or complete for the other modes, for zero and symmetric boundaries, spatial or precomputed frequency '
  'filters, arrays and images, leaving them unchanged. Padding and cropping put the array in the middle of the '
  'canvas and are inverse to each other. MOSSE and multi-channel correlation filters solve the regularised least '
  'squares problem between the extended samples and desired responses, have the size of the response (or full size '
  'on request), have impulses centred for odd and even sizes, and incremental training on further samples equals '
  'training on all of them at once, with a forgetting factor scaling the old ones.',
  'every image, filter, sample and response value (sizes up to about 5 x 5 for convolution, 3 x 3 for training; up to '
  '3 channels and samples)',
  'no test touches this arithmetic; errors of one pixel in centring or of weighting in increments only degrade fits',
  ['math/fft_utils.py', 'math/correlationfilter.py'],
  [('pad, crop, fft_convolve2d(_sum)', 'menpofit/math/fft_utils.py'),
   ('mosse, imosse, mccf, imccf', 'menpofit/math/correlationfilter.py')])

P('C20', 'Constrained local models: expert responses drive least squares shape steps',
  'An ensemble of correlation filter experts trains one filter per landmark on the normalised (and cosine masked) '
  'context patches of that landmark in all images, in order, updates each expert with its own statistics on '
  'increment, and its response is the sum over channels of the normalised search patch convolved with the filter, '
  'without wrap-around. probability_map is the affine, non-negative map that sums to one per response (uniform if '
  'constant) and leaves its input unchanged. In active shape models and landmark mean shift every iteration moves '
  'each landmark to the response-weighted mean of its search grid (around the best response for the former) and '
  'takes the least squares, or MAP, step of all shape parameters towards it from the current ones; shapes, '
  'parameters, responses and the stop rule match, and runs do not depend on earlier ones. The search grid is centred '
  'on its middle pixel and batch splits an iterable without loss. The fitter pairs experts and shape model of each '
  'scale, starting at the mean.',
  'every patch, filter, response, noise variance and initial shape (4 landmarks; search regions up to 7 x 2 or 3 x 3; '
  'up to 2 iterations and 3 scales)',
  'no test checks a CLM step; sign and half-pixel errors of the search grid still converge roughly',
  ['clm/expert/ensemble.py', 'clm/expert/base.py', 'clm/algorithm/gd.py', 'clm/fitter.py', 'base.py'],
  [('CorrelationFilterExpertEnsemble', 'menpofit/clm/expert/ensemble.py'),
   ('ActiveShapeModel.run, RegularisedLandmarkMeanShift.run', 'menpofit/clm/algorithm/gd.py'),
   ('build_grid, batch', 'menpofit/base.py')])

P('C24', 'Training building blocks: reference frames, normalised images, warps, patches',
  'The reference shape is the mean of the shapes, uniformly scaled to the requested bounding box diagonal and never '
  'mirrored; images are rescaled so that their landmarks match its scale (one scaling per image, returned in order), '
  'features and scales apply to every image in order, landmarks following, inputs unchanged. A reference frame is '
  'centred on the shape with the given margin, holds the shape as its source landmarks, and its mask is the inside '
  'of the triangulation (or the union of patches). Warping samples every image, in order, at the transform from the '
  'frame to its own shape. Patch images are the patches around each landmark, in order, in place (centre, offset, '
  'channel). Dense shapes are each shape warped at every frame pixel behind its own landmarks; alignment moves the '
  'shapes to their common mean and leaves the inputs alone.',
  'every shape and pixel value (up to 3 images or shapes of up to 4 points, images up to 7 x 8, margins up to 4)',
  'these feed every model; order or half-pixel mistakes give plausible but worse models that no test compares',
  ['builder.py'],
  [('compute_reference_shape, build_reference_frame, warp_images, extract_patches, densify_shapes, align_shapes',
    'menpofit/builder.py')])

P('C26', 'Training: every scale sees the right images, shapes and frames, batch by batch',
  'AAMs (holistic, masked, linear, linear masked, patch), ATMs, CLMs, active pictorial structures and unified '
  'models: training images (templates) are normalised once to the reference shape (given, or the first batch mean '
  'at the given diagonal), and at every scale carry its features and rescaling, with their landmarks. The shape '
  'model of a scale is built from the shapes there (dense ones in its own frame for linear models), the appearance '
  'model from its images warped to the frame of the scaled reference shape, or from its normalised patches, experts '
  'from its images and shapes with the settings of the scale. The first batch builds, all later batches and '
  'increments update the same models, each image once and in order, with the given forgetting factors, trimmed to '
  'the components of the scale; ATM templates are replaced. Pictorial structures use the graphs of each scale (by '
  'default the minimum spanning tree of the landmark displacements) and aligned or raw shapes as asked. Unified '
  'models asked to smooth train on images whose channels are smoothed one by one (zero outside). Inputs are '
  'left alone.',
  'every frame change (rescaling and feature) of the images and every forgetting factor; 1-3 scales, up to two '
  'increments, batches of 1 to 3',
  'histories of batches and increments over scales; mixing frames, scales or batches gives plausible models that no '
  'test inspects',
  ['aam/base.py', 'atm/base.py', 'clm/base.py', 'aps/base.py', 'unified_aam_clm/base.py'],
  [('AAM._train, _train_batch, increment', 'menpofit/aam/base.py'), ('ATM._train_batch', 'menpofit/atm/base.py'),
   ('CLM._train_batch', 'menpofit/clm/base.py'), ('GenerativeAPS._train_batch', 'menpofit/aps/base.py'),
   ('UnifiedAAMCLM._train', 'menpofit/unified_aam_clm/base.py')])

P('C27', 'Trained models: instances, reconstructions, interfaces and fitters',
  'An instance of a trained model combines the shape and appearance instances of the asked scale (weights in standard '
  'deviations, mean by default, one random weight per active component), warped from the frame of the shape to the '
  'template landmarks with the warp (and patch shape) of the model; active pictorial structures can return it on '
  'their deformation graph. Appearance reconstructions take the parameters of each scale with the model of that '
  'scale, one per shape. Fitter interfaces pair template, appearance model, shape model, patch settings and sampled '
  'pixels of each scale. Fitters set the asked shape and appearance components, start at the mean, make one '
  'algorithm per scale in order (with its weight, experts and patch shape), warp images at the final scale, and '
  'return results holding the parameters or costs of all scales. Holistic sampling from a step or scale returns '
  'positions and a mask that describe the same template pixels.',
  'every weight and appearance parameter; up to 3 scales with up to 2 iterations each; templates up to 90 pixels',
  'scale mix-ups in these tables only degrade fits or give wrong pictures; nothing compares them',
  ['aam/base.py', 'atm/base.py', 'aam/fitter.py', 'atm/fitter.py', 'aps/fitter.py', 'unified_aam_clm/fitter.py',
   'aps/base.py', 'clm/base.py', 'unified_aam_clm/base.py', 'aam/result.py', 'aps/result.py'],
  [('instance, build_fitter_interfaces, appearance_reconstructions', 'menpofit/aam/base.py'),
   ('LucasKanadeAAMFitter', 'menpofit/aam/fitter.py'), ('GaussNewtonAPSFitter', 'menpofit/aps/fitter.py')])

P('C23', 'Unified AAM-CLM algorithms take the joint Gauss-Newton step',
  'Project-out and alternating regularised landmark mean shift: the appearance error is the model mean (project-out, '
  'with the appearance subspace removed from the Jacobian) or the current appearance instance (alternating, the '
  'projection of the warped image) minus the warped image at the sampled pixels; the shape error is the mean shift of '
  'every landmark under its response times a Gaussian kernel. Each step solves the normal equations of the two errors, '
  'weighted by a and 1 - a and by the inverse noise variances, with the shape prior when asked, and adds it to the '
  'parameters. Invalid responses count as one half. Parameters, shapes, appearance parameters and costs are recorded '
  'once per iterate, runs stop when the shape moves less than the tolerance, and one run does not influence another.',
  'every template, warped image and initial shape of small families, every weight, eigenvalue and noise variance (one '
  'at a time); up to 3 iterations',
  'a wrong weight or sign still converges on test images; nothing compares a step with its normal equations',
  ['unified_aam_clm/algorithm.py'],
  [('ProjectOutRegularisedLandmarkMeanShift, AlternatingRegularisedLandmarkMeanShift',
    'menpofit/unified_aam_clm/algorithm.py')])

P('C28', 'Packaged fitters work in the frame of the given image',
  'A packaged fitter makes the wrapped fitter with its stored arguments, fits with the stored fit arguments overridden '
  'by the given ones, on the pre-processed image, from the start mapped into its frame, and returns final, initial and '
  'intermediate shapes (when there are any), ground truth and image in the frame of the given image; nothing that was '
  'given or stored is changed. The default pre-processing converts three channel images to luminosity, keeps others, '
  'and crops to the padded point cloud clipped to the image, at most one pixel larger. Downloads keep every byte, '
  'happen only when the file is missing, and a file that does not load is removed and the failure raised, so that a download interrupted at any point can be repeated.',
  'every shape, image and crop, scale or affine frame change; all results with and without initial shape; chunk '
  'lengths up to 4 and files up to 3 chunks',
  'nothing tests the module; a frame mix-up only shifts the returned shapes',
  ['io.py', 'aam/pretrained.py'],
  [('load_balanced_frontal_face_fitter', 'menpofit/aam/pretrained.py'),
   ('PickleWrappedFitter, image_greyscale_crop_preprocess, load_fitter, download_file', 'menpofit/io.py')])

P('C29', 'dlib regression trees get the right rectangles, points and options',
  'Points and boxes convert to dlib parts and rectangles with (row, column) as (y, x), cut to whole pixels, and back, in '
  'order; images reach dlib as bytes with the first channel unless there are three. Training keeps every generated box '
  'of every image at every scale, starting each scale from the box of the predictions of the previous one mapped to the '
  'frame of the scale; each scale gets its own options and number of cascades, and the given options are not changed. A '
  'fit predicts once per scale from the box of the current shape on the image of that scale; the wrapper predicts with '
  'the given model or file and refuses missing files. Inputs are left alone.',
  'every shape, box and prediction; 1 to 3 scales, 1 or 2 images, 1 to 3 boxes each; every option',
  'nothing tests the module; swapped axes, lost boxes or options of another scale still train and predict',
  ['dlib/conversion.py', 'dlib/algorithm.py', 'dlib/fitter.py'],
  [('pointcloud_to_dlib_rect, image_to_dlib_pixels, copy_dlib_options', 'menpofit/dlib/conversion.py'),
   ('DlibAlgorithm.train / run', 'menpofit/dlib/algorithm.py'), ('DlibERT, DlibWrapper', 'menpofit/dlib/fitter.py')])

P('C30', 'Tables and plots show the right method, group and statistic',
  'The statistics table has one row per method and one column per requested statistic under its given name, each cell '
  'the statistic of that method, sorted best first (largest first for the area under the curve) by the requested '
  'statistic, and refuses unknown statistics. The cumulative error plot draws, per method, the share of errors below '
  'each value of the range. Viewing several landmark groups draws each group once, in order, with its own options '
  '(a single option is shared, lists of another length are refused), on the image when requested and in its own subplot '
  'when enabled. A pictorial structure\'s deformation model is drawn as its graph with, for every edge, the spread of '
  'the child around its parent. Progress wrappers yield every item once. Nothing given is changed.',
  'every statistic and error value; up to 3 methods and groups, every combination of forms and switches',
  'plots and tables are not tested; a swapped column or option still renders',
  ['visualize/base.py', 'visualize/textutils.py', 'aps/base.py'],
  [('plot_cumulative_error_distribution, view_image_multiple_landmarks', 'menpofit/visualize/base.py'),
   ('GenerativeAPS.view_deformation_model', 'menpofit/aps/base.py'),
   ('statistics_table, print_progress', 'menpofit/visualize/textutils.py')])
