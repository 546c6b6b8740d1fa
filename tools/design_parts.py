"""Per-property text of DESIGN.md: (method and oracle, bounds beyond the common ones)."""
METHOD = {
 'C26': 'the real training code on images that are symbolic coordinate changes; statistical models, experts and warps are class level recorders; every event is compared with an independently composed frame, frames with the builder functions decided in C24.',
 'C27': 'real model and fitter classes on recording statistical models with symbolic weights and parameters; options enumerated by the solver.',
 'C23': 'as C08-C10; expert responses are given or symbolic, the mean shift and both normal equations are re-derived and the step compared as a rational identity.',
 'C29': 'dlib replaced by a stand-in with symbolic coordinates, arbitrary predictions and recorded training; frames composed independently; conversions also run through dlib itself on integers.',
 'C30': 'renderers and statistics replaced by recorders and symbolic values; sorted order decided per ordering of the values.',
 'C28': 'wrapped fitter and pre-processing replaced by recorders with arbitrary answers; frames composed independently; the crop recomputed from floor/ceil constraints.',
 'C24': 'the real builder functions on symbolic shapes and pixels; images replaced by symbolic coordinate frames where only frames matter; masks and samples recomputed by barycentric coordinates and bilinear weights.',
 'C18': 'FFTs of symbolic arrays are exact DFT matrices with radicals; results compared with spatial convolution and with the normal equations of the least squares problem.',
 'C20': 'arbitrary patches and filters behind recorders; linear stand-in shape model; each step re-derived from an independent weighted mean and normal equations.',
 'C08': 'real algorithms on symbolic images with a stand-in warp; every step re-derived from the specification and compared as rational identity.',
 'C09': 'as C08 with symbolic eigenvalues and noise variances; prior gradient with the sign of the update.',
 'C10': 'real runs with path splitting on the stop rule; repeated and interleaved runs compared exactly.',
 'C11': 'real interfaces on symbolic images, gradients and Jacobians against index formulas.',
 'C21': 'as C08-C10 for the template models.',
 'C22': 'as C08-C10 with symbolic precision and weight.',
 'C19': 'real training and fitting code on recorded regressors with arbitrary predictions; the cascade is replayed from the specification and every feature matrix, target and shape compared exactly.',
 'C17': 'symbolic features and targets; normal equations, exact inverses (Woodbury identity decided as a rational identity); decompositions given as known factors.',
 'C01': 'dual numbers through `apply` against `d_dp`/`d_dx`; every parameter vector and point symbolic.',
 'C02': 'dual numbers through the real warps (triangle containment decided by path) against `d_dl`, `d_dx`; kernels with opaque log and its axioms.',
 'C03': 'dual numbers through `from_vector` and `target` on exact rational PCA models.',
 'C04': 'operation sequences on exact rational models; least squares characterised by orthogonality of the residual.',
 'C05': 'dual numbers through the warp after `from_vector`; composition compared with normal equations solved by an independent exact solve.',
 'C06': 'symbolic pixels; steepest descent images against dual derivative of the sampled features; FFT lifted to exact DFT matrices.',
 'C07': 'symbolic template/sampled pixels and shapes; every step re-derived from the residual by an independent Gauss-Newton solve.',
 'C12': 'images replaced by symbolic coordinate frames, algorithms by recorders; frames composed independently; plus real menpo images.',
 'C13': 'symbolic shapes/transforms, renderers replaced by recorders.',
 'C14': 'symbolic shapes; square roots as solver variables with their defining equation.',
 'C15': 'symbolic errors, order decided by path.',
 'C16': 'symbolic values, lengths and kinds (type tests see symbolic numbers as int/float).',
 'C25': 'random draws are solver variables; the noise is recovered from the resulting matrix and compared with documented bounds and centre.',
}
LEFT = [
 'GlobalPDM.increment keeps the alignment source at the old mean.',
 'The area under the curve divides by max_error also when min_error is not zero.',
 'OPPRegression(whiten=True) fails for training data whose covariance is singular; only whiten=False is claimed.',
 'OptimalLinearRegression without bias on a single feature squeezes its solution; sizes from two features are claimed.',
 'SupervisedDescentAlgorithm.increment calls the regressors with arguments the shipped ones do not take; the fitters refuse it.',
 'Two fitters with different n_shape on one model share (and change) the number of active components of that model.',
 'A GMRF appearance model with a dense precision matrix is not accepted by the APS interfaces (they convert sparse blocks).',
 'When a holistic feature raises, the fitters leave the groups they added (`__initial_shape`, `__gt_shape`) on the image of the user.',
 'PickleWrappedFitter passes gt_shape on without moving it to the frame of the pre-processed image.',
]
