T_ONE = 'The tests run one fixed data set per class against stored reference output; '
prop('C01', 'Matrices hold, select, assemble and construct exactly the given elements',
     'Reading, writing, selecting (single elements, rows, columns, index lists, ranges, heads), deleting, transposing, concatenating and '
     'searching elements of a matrix touch exactly the elements named and deliver them in the order named, for every shape and content. '
     'Every factory (zeros, ones, filled, identity, diagonal, from values, from rows/columns, ranges) builds exactly the matrix it names, and '
     'out-of-range or ill-shaped requests are rejected instead of answered wrongly.',
     ['inputs'], 'every element value, shape and index within the bounds',
     'Tests use a few fixed small matrices; they cannot cover every index combination, repeated indices, single-row/column shapes and element values.',
     [MX, HP, FA], [('Matrix accessors, sub-matrix and concatenation operations', MX), ('factory functions', FA), ('row/column deletion', HP)])
prop('C02', 'Matrix arithmetic and reductions equal their element-wise definitions',
     'Every arithmetic operation, matrix and dot product, reduction (sum, mean, median, standard deviation, maximum, norms), element-wise '
     'function (abs, sqrt, exp, log, tanh, clip, sign, powers) and row/column-wise vector operation of a matrix equals its element-wise mathematical '
     'definition, globally and along either axis. Operands of incompatible shape are always rejected with an error and compatible ones never are.',
     ['inputs'], 'every real element and scalar, every shape and shape pair within the bounds',
     'Equality with the definition must hold for all element values and all shape pairs (including 1xn and nx1 broadcasting cases); tests sample a handful.',
     [MX, HP], [('arithmetic, reductions, shape guards', MX), ('row/column norms, means, standard deviations', HP)])
prop('C03', 'Results of matrix operations never share storage with their operands',
     'An operation that returns a new matrix leaves its operands unchanged, and writing into the result later never changes the operands '
     '(nor the other way round), including transposes, single rows/columns, normalisations, decomposition factors and copies. '
     'In-place operations change the matrix they are called on and nothing else.',
     ['inputs', 'histories'], 'every value-returning operation, shape, content and subsequent write position',
     'Aliasing only shows when a result is written after the fact; existing tests compare results once and never write to them.',
     [MX, HP], [('copy on return', MX), ('helper functions', HP)])
prop('C05', 'Decompositions always describe the current contents of a matrix',
     'Whatever was computed before, eigenvalues, eigenvectors, singular values and vectors, and every quantity derived from them always '
     'describe the current elements: after any in-place modification they equal those of a freshly built matrix with the same contents. '
     'The order in which the quantities are requested does not matter.',
     ['inputs', 'histories'], 'every history query / in-place modification / query (two rounds) with every element value',
     'Needs interleavings of cached queries and modifications; tests query fresh matrices once.',
     [MX], [('lazy caches of eigen and singular value decompositions and their invalidation', MX)],
     note='LAPACK results are opaque values tied to the matrix contents; equality is equality of the decomposed contents.')
prop('C06', 'Eigen, SVD, inverse, pseudo-inverse and solve meet their defining equations',
     'Eigenvectors and eigenvalues are correctly paired (A v = lambda v) in every ordering the interface offers and dominant/sorted forms are '
     'really sorted; U, S and V parts of the SVD rebuild the matrix; inverses, pseudo-inverses and linear solves satisfy their equations. '
     'Singular or ill-shaped systems are rejected.',
     ['inputs'], 'every matrix (real spectrum for eigen) within the bounds',
     'Pairing and ordering depend on the spectrum (order of eigenvalues, ties, sign); tests use one or two matrices.',
     [MX, HP], [('eigenvalue sorting, SVD parts, inverse and solve', MX)],
     note='LAPACK eig/svd/inverse are taken at their documented contract; eigenvalues assumed real.')
prop('C07', 'Equality, tolerant equality and NaN detection are exact',
     'Two matrices are equal exactly when they have the same shape and the same elements (NaN equals nothing unless documented otherwise); tolerance '
     'equality holds exactly when no pair of elements differs by more than the tolerance; NaN detection reports exactly the matrices holding a NaN. '
     'No comparison raises an error or depends on where the difference sits.',
     ['inputs'], 'every pair of shapes, every content including NaN and infinities at every position, every tolerance',
     'A comparison that ignores one position, a sign or NaN passes any test whose differences lie elsewhere.',
     [MX, HP], [('__eq__, is_same_shape_as, contains_NaN', MX), ('equal', HP)])
prop('C08', 'Binary serialisation is lossless, fixed-layout and complete',
     'Serialised matrices, integers, big integers, reals and texts have the fixed documented layout from which the value can be read back '
     'exactly, for every value and shape; a value that does not fit is rejected and never truncated. Saving the state of a configured object writes its '
     'complete state exactly once to the named file, creating directories as needed and replacing any previous content.',
     ['inputs', 'histories'], 'every element value, NaN/infinity, 32-bit and big integer, text of up to 3 code points and file location within the bounds',
     'Tests only compare the bytes of a few fixed models; signs, word boundaries, multi-byte texts, special values and file locations are not reached.',
     [SE, MX, TR + '_Standardize.py', TR + '_Log.py', TR + '_SavitzkyGolay.py', AL + 'pls/_SIMPLS.py'],
     [('serialise_* functions and save_state', SE), ('Matrix._serialise_state', MX)])
prop('C09', 'Text files give back the matrix that was written',
     'Writing a matrix to a text file and reading it back returns the same matrix (exactly when all decimals are requested, otherwise each element '
     'rounded to the requested number of decimals), for every content, shape, separator, header setting and for file names as well as open '
     'files. Foreign files of the same format are read correctly and empty input is reported as an error.',
     ['inputs', 'configurations'], 'every element value and shape within the bounds, every header/separator/decimals/notation combination listed',
     'Rounding, sign, magnitude and header handling depend on element values; tests read a few fixed files.',
     [HP, MX], [('read, write, to_lines', HP), ('to_string', MX)])
prop('C10', 'Sort, maximum and simple regression helpers are exact for every list',
     'Sorting indices is a permutation that orders the values (NaNs as the largest finite number), the maximum search returns the position of a '
     'largest element, and the simple linear regression returns the least-squares line, for every list of numbers including ties and negative values. '
     'The small numeric helpers equal their definitions.',
     ['inputs'], 'every list of real values (and NaN positions) within the bounds',
     'Ordering properties depend on every relative order of the elements, ties and NaN; tests use a couple of lists.',
     [UT], [('sort, max_index, linear_regression', UT)])
prop('C11', 'Centering, standardising and row normalising give the promised statistics',
     'Data centered with its own statistics has zero column means; standardised data has zero column means and unit sample deviations; row-normalised '
     'data has zero row means and unit row deviations; constant columns (rows) become zero and never NaN or infinity. '
     'Data transformed with statistics from other configuration data uses exactly those statistics, whatever was processed before, and row normalisation '
     'always uses the rows it is given.',
     ['inputs', 'histories'], 'every data set within the bounds, constant columns anywhere, every history of up to three earlier calls for row normalisation',
     T_ONE + 'constant columns, single rows and earlier calls are not reached.',
     [TR + '_Center.py', TR + '_Standardize.py', TR + '_RowNorm.py', HP, TR + '_AbstractTransformation.py'],
     [('column means and deviations', HP), ('configure / transform', TR + '_AbstractTransformation.py')])
prop('C12', 'Inverse transformations undo the transformation',
     'For every invertible transformation (centering, standardising, pass-through, logarithm of any base and offset, Fourier transform in its invertible '
     'modes, power and robust scaling) the inverse of the transformed data is the original data, for its own or foreign configuration data. '
     'Data outside a logarithm\'s domain and inadmissible bases are rejected, and transformations that have no inverse reject the request instead of '
     'returning something else.',
     ['inputs', 'configurations'], 'every data set and parameter value within the bounds',
     T_ONE + 'round trips are not tested at all for most option combinations.',
     [TR + '_Center.py', TR + '_Standardize.py', TR + '_Log.py', TR + '_FFT.py', TR + '_PowerTransformer.py', TR + '_RobustScaler.py'],
     [('inverse_transform', TR + '_AbstractTransformation.py')],
     note='scikit-learn inverse_transform is assumed to undo transform.')
prop('C13', 'Transformations use current options and their own configuration data',
     'A transformation takes its statistics from the data it was configured with (explicitly, or implicitly by the first data it sees) and keeps them for all '
     'later data; after a reset it behaves like a new instance, and every option change takes effect immediately and exactly as if the option had been set on a new '
     'instance. Rejected options change nothing, instances never influence one another, and the caller may overwrite its configuration data afterwards.',
     ['inputs', 'histories', 'configurations'], 'every transformation class, every option and history of up to four calls, all data within the bounds',
     'Stale configuration needs a sequence of calls with different data and options; tests use each instance once.',
     [TR + '_AbstractTransformation.py', TR + '_SavitzkyGolay.py', TR + '_Log.py', TR + '_FFT.py', TR + '_Standardize.py', TR + '_Center.py',
      TR + '_PowerTransformer.py', TR + '_RobustScaler.py', TR + '_QuantileTransformer.py'],
     [('configure / reset / transform protocol', TR + '_AbstractTransformation.py'), ('option setters calling reset', TR + '_SavitzkyGolay.py')],
     note='scikit-learn transformers are uninterpreted functions of their parameters and fitting data.')
prop('C15', 'Savitzky-Golay filters are exact local least-squares polynomial fits',
     'For every window, polynomial order and derivative order the Savitzky-Golay filters apply the exact least-squares weights to every complete '
     'window and to nothing else: smoothing reproduces every polynomial of the fitted order and derivatives are exact for them. '
     'Inputs narrower than the window are rejected, rows are treated independently, and the row-gradient variant applies the five-point weights 2, 1, 0, -1, -2 (tenths) down the rows with the edge rows repeated.',
     ['inputs', 'configurations'], 'every window/order/derivative combination and all data within the bounds',
     T_ONE + 'asymmetric windows, other orders and derivative orders and single-window inputs are not reached.',
     [TR + '_SavitzkyGolay.py', TR + '_SavitzkyGolay2.py', UT, TR + '_YGradientGLSWSavitzkyGolayFilter.py'],
     [('determine_coefficients', UT), ('sliding window', TR + '_SavitzkyGolay.py')])
prop('C16', 'Scatter correction regresses each range against the average spectrum',
     'Scatter correction replaces, in each configured wave-number range and nowhere else, the spectrum by the one from which the intercept and slope of its '
     'least-squares line against the average of the configuration spectra have been removed. Range limits are inclusive, a spectrum that is '
     'a scaled and shifted average becomes the average, and the wave numbers are returned unchanged.',
     ['inputs', 'configurations'], 'every spectrum, wave-number grid and range setting within the bounds',
     T_ONE + 'ranges with limits on, between and outside wave numbers and several ranges are not reached.',
     [TR + '_MultiplicativeScatterCorrection.py', UT], [('range-based correction', TR + '_MultiplicativeScatterCorrection.py'), ('linear_regression', UT)])
prop('C17', 'Each Fourier output mode holds its documented components',
     'In every output mode the Fourier transform returns exactly the documented components (real, imaginary, amplitude, phase, packed orders) of the '
     'discrete Fourier transform of each row, with the requested normalisation. Rows are independent of each other and widths follow from the mode.',
     ['inputs', 'configurations'], 'all rows of 1-6 and 8 samples, every mode and normalisation',
     T_ONE + 'mode and normalisation combinations and odd/even lengths are not all reached.',
     [TR + '_FFT.py'], [('component packing', TR + '_FFT.py')],
     note='numpy.fft.rfft/irfft are taken at their definition. One known finding: rows shifted in the row-packed mode.')
prop('C18', 'Resampling filters and filter chains select and interpolate exactly',
     'Downsampling keeps exactly the columns start, start+step, ...; equidistance resampling interpolates linearly between neighbouring columns at equally '
     'spaced positions including both ends; a chain of filters applies each filter exactly once, in order, to the output of the previous one. '
     'The input is never modified and invalid sample numbers are rejected.',
     ['inputs', 'configurations'], 'every width, start, step and sample count within the bounds, all data',
     T_ONE + 'boundary positions, single columns, upsampling and chain orders are not reached.',
     [W + 'filter/_Downsample.py', W + 'filter/_Equidistance.py', W + 'core/_MultiFilter.py'],
     [('column selection', W + 'filter/_Downsample.py'), ('interpolation', W + 'filter/_Equidistance.py'), ('chaining', W + 'core/_MultiFilter.py')])
prop('C19', 'Kernels agree with their formulas in vector and matrix form',
     'The linear, polynomial and radial-basis kernels return for each pair of rows the value of their formula with the current parameters, identically in vector '
     'and matrix form, for one data set (symmetric matrix) or two (one row per row of the first, one column per row of the second). '
     'A default gamma follows the data at hand and never sticks to earlier data; an invalid degree is never taken over.',
     ['inputs', 'histories', 'configurations'], 'all data, parameters and degrees within the bounds, one or two data sets in any order',
     T_ONE + 'kernels are only exercised inside one regression test with default parameters.',
     [TR + 'kernel/_AbstractKernel.py', TR + 'kernel/_LinearKernel.py', TR + 'kernel/_PolyKernel.py', TR + 'kernel/_RBFKernel.py'],
     [('pairwise evaluation', TR + 'kernel/_AbstractKernel.py'), ('formulas and default gamma', TR + 'kernel/_PolyKernel.py')],
     note='One known finding: the RBF formula.')
prop('C04', 'Data handed over stays the caller\'s and results stay the library\'s',
     'No transformation, filter, kernel or learning algorithm ever modifies the matrices it is given. Overwriting the training data, the data handed to '
     'a prediction or a returned result afterwards changes neither the model nor any later result.',
     ['inputs', 'histories'], 'every class, every position overwritten afterwards with every value',
     'Tests never write into a matrix after handing it over or getting it back; a missing copy shows only then.',
     [AL, TR, W + 'filter/', MX], [('training and prediction', AL + 'pls/_AbstractPLS.py'), ('transform / configure', TR + '_AbstractTransformation.py'), ('filters', W + 'filter/')],
     note='Training data of the algorithms are fixed and run in doubles; new rows and overwriting values are symbolic.')
prop('C14', 'Each row is treated on its own by a trained model',
     'The prediction and the scores of a row depend on that row and the trained model only, never on the other rows of the batch, their number or their order, and '
     'output row i belongs to input row i. For the linear methods they are affine functions of the row. '
     'The same holds for every row-wise transformation and filter.',
     ['inputs'], 'all real rows in batches of 1-5 rows (40 and 130 rows with one arbitrary row), every preprocessing setting',
     'Tests predict one fixed batch; batch-dependent statistics or deflation need different batches to show.',
     [AL + 'pls/', AL + '_CCAFilter.py', AL + 'glsw/', TR], [('prediction and transformation', AL + 'pls/_AbstractPLS.py'), ('row-wise transformations', TR)],
     note='Training data are fixed and run in doubles, results compared up to 1e-9 relative.')
prop('C20', 'Algorithms refuse to work untrained and validate their options',
     'No algorithm predicts or transforms before a successful training: it reports the lack of a model, and a training on missing or ill-shaped data reports an error and leaves no '
     'usable model. Admissible option values are taken over, inadmissible ones are rejected and change nothing, and every effective option change invalidates the trained model. '
     'Matrices and loadings are available exactly when a model is.',
     ['inputs', 'histories', 'configurations'], 'every algorithm and option, every option value, histories of up to five calls',
     'Tests use a single correct call sequence with valid options.',
     [AL + 'pls/', AL + '_PCA.py', AL + '_CCAFilter.py', AL + 'ica/_FastICA.py', AL + 'glsw/', W + 'core/algorithm/'],
     [('initialisation protocol', AL + 'pls/_AbstractPLS.py'), ('option setters', AL)])
prop('C21', 'Training depends on nothing but the options and the training data',
     'A model trained on some data is the same whatever the instance did before: earlier training on other data, predictions, refused trainings, resets and other '
     'instances leave no trace. Predicting and transforming never change a model, and defaults that adapt to the data adapt again.',
     ['inputs', 'histories'], 'every algorithm, histories of up to six calls, all new rows',
     'Left-over state needs an instance to be trained twice on different data; tests use each instance once.',
     [AL + 'pls/', AL + '_PCA.py', AL + '_CCAFilter.py', AL + 'ica/_FastICA.py', AL + 'glsw/'],
     [('reset', AL + 'pls/_AbstractPLS.py')],
     note='Training data are fixed (for five methods the response is anywhere on a line). One known finding: the centers of DIPLS.')
prop('C22', 'Built-in preprocessing equals preprocessing by hand',
     'A PLS model trained with built-in centering or standardising predicts exactly what the same model predicts when training and new data are centered or standardised by hand with '
     'the statistics of the training data and the predictions are converted back, for one and for several responses. '
     'Scores are those of the preprocessed rows; without preprocessing nothing is shifted or scaled.',
     ['inputs', 'configurations'], 'every PLS algorithm and preprocessing setting, all new rows, listed training sets and lines of responses',
     T_ONE + 'the equivalence is never tested, nor several responses with different scales.',
     [AL + 'pls/_AbstractPLS.py', TR + '_Center.py', TR + '_Standardize.py'], [('preprocessing in training and prediction', AL + 'pls/_AbstractPLS.py')])
prop('C23', 'PLS regressions are the least-squares fit over the PLS subspace',
     'The k-component single-response regressions (plain, statistically inspired, iterative, kernel with linear kernel, orthogonal, sparse without sparsity, robust '
     'without down-weighting) predict exactly the least-squares fit over the k-dimensional Krylov subspace of the (preprocessed) data, on training and new rows. '
     'Scores, loadings, weights and coefficients obey their defining orthogonality, normalisation and regression equations and reproduce the predictions; the order of the training rows is irrelevant.',
     ['inputs', 'configurations'], 'listed training sets, 1 to all components, all real new rows; for two methods every response on a line',
     T_ONE + 'the references were produced by the code itself, with one number of components each.',
     [AL + 'pls/'], [('the individual PLS algorithms', AL + 'pls/')],
     note='Training data fixed and run in doubles, results compared up to 1e-9 relative. One known finding: cleaning of rows with several orthogonal directions.')
prop('C24', 'Domain-invariant PLS follows its published recursion in all three modes',
     'Weights, scores, loadings, coefficients and predictions of domain-invariant PLS equal the published recursion on the centered source, target and labelled samples in supervised, '
     'unsupervised and semi-supervised training, for every regularisation strength. Domains of equal covariance give ordinary PLS whatever the strength; '
     'plain training and domains of a single sample are refused.',
     ['inputs', 'configurations'], 'listed data sets, every strength (one component, two columns) or listed strengths, all new rows',
     T_ONE + 'the references were produced by the code itself.',
     [AL + 'pls/_DIPLS.py'], [('the three training modes', AL + 'pls/_DIPLS.py')],
     note='Fixed training data run in doubles except for the symbolic strength, which is exact.')
prop('C25', 'Principal components are ordered, uncorrelated and as many as asked for',
     'The scores of a principal component analysis are the centered or standardised data times orthonormal loadings, uncorrelated and ordered by decreasing variance. '
     'The number of components is the smallest that reaches the variance threshold, never more than the column limit; constant columns do not take part and the loadings keep one row per input column.',
     ['inputs', 'configurations'], 'listed data sets, every variance threshold and column limit',
     T_ONE + 'thresholds and limits other than the listed ones and constant columns are not reached.',
     [AL + '_PCA.py'], [('configure, do_transform, extract_loadings', AL + '_PCA.py')],
     note='Fixed data run in doubles; thresholds and limits are symbolic.')
prop('C26', 'Interference weighting filters apply the documented weighting matrix',
     'The orthogonalisation filters project onto exactly the requested number (at most the number of columns) of dominant directions of the difference covariance, and the weighting filters apply a '
     'symmetric function of it with the documented weights; new rows are multiplied with that matrix. The covariance is that of the centered differences, or of the '
     'response-ordered gradients, for which neither the order of the samples nor a common offset matters.',
     ['inputs', 'configurations'], 'listed data sets, every number of directions, listed strengths, all new rows; the covariances for all real data',
     T_ONE + 'more directions than columns, other strengths and sample orders are not reached.',
     [AL + 'glsw/'], [('covariance, weights and projection', AL + 'glsw/_GLSW.py'), ('dominant directions', AL + 'glsw/_EPO.py'), ('gradient covariance', AL + 'glsw/_YGradientGLSW.py')],
     note='Two known findings: pairing of weights and directions, sign of the gradient.')
prop('C27', 'Canonical correlation and independent components meet their defining equations',
     'Canonical projections are orthonormal in the regularised covariances, uncorrelated across dimensions, ordered by correlation, solve the canonical equations and are applied to centered rows of either side. '
     'Independent components are uncorrelated, of unit length, stationary for the contrast function, and rebuild the data through the mixing matrix; the contrast functions return value and mean derivative.',
     ['inputs', 'configurations'], 'listed data sets, every dimension and number of components, all new rows; contrast functions for all real inputs',
     T_ONE + 'other dimensions, the response side and reconstruction are not tested.',
     [AL + '_CCAFilter.py', AL + 'ica/_FastICA.py', AL + 'ica/approxfun/'],
     [('canonical projections', AL + '_CCAFilter.py'), ('whitening, decorrelation, reconstruction', AL + 'ica/_FastICA.py'), ('contrast functions', AL + 'ica/approxfun/')],
     note='One known finding: stationarity of the parallel mode.')
prop('C28', 'Sparse and robust regressions select and weight as documented',
     'Sparse regression soft-thresholds its direction vectors, uses exactly the selected columns and is the plain regression on them, for every threshold. '
     'Coefficient slimming keeps the largest coefficients and zeroes the others; robust regression weights samples with the documented function of scaled residuals and distances to the geometric median, '
     'and fits the reweighted rows.',
     ['inputs', 'configurations'], 'every threshold, count, residual vector and constant within the bounds; all new rows',
     T_ONE + 'selection steps, ties and weights depend on the data and options.',
     [AL + 'pls/_SparsePLS.py', AL + 'pls/_SIMPLS.py', AL + 'pls/_PRM.py'],
     [('direction vectors and selection', AL + 'pls/_SparsePLS.py'), ('slimming', AL + 'pls/_SIMPLS.py'), ('weights', AL + 'pls/_PRM.py')],
     note='Three known findings: length of the directions, one coefficient too many, convergence loop.')
prop('C29', 'Random matrices are reproducible functions of shape and seed',
     'Every random matrix is a function of its shape and seed only: whatever was drawn before, the same request returns the same elements in fresh storage, and other seeds give other matrices. '
     'Uniform elements lie in [0, 1) and the shape of a model matrix is taken over without changing it.',
     ['inputs', 'histories'], 'every seed, shape and history within the bounds',
     'A draw that forgets to seed in some case or depends on earlier draws passes tests with a fixed call order.',
     [FA], [('rand, randn and their like-variants', FA)],
     note='One known finding: mean and deviation of the normal distribution are ignored.')
prop('C30', 'Iterative trainings stop at the tolerance or the iteration limit',
     'The iterative parts of training (power iteration of the iterative and the kernel regression, canonical regression, geometric median of the robust regression, deflationary independent components) '
     'return the first iterate whose change is within the tolerance, or else the iterate at the configured limit of iterations, for every tolerance and limit; '
     'iterates follow the documented update from the documented start. The iterative regression counts its updates after the first pass.',
     ['inputs', 'configurations'], 'listed data sets, every tolerance, limits up to 6 (thorough: 9) and unconverged results included',
     'Tests use the default limit and tolerance, where everything has converged; an ignored limit, a stale iterate or another start does not show.',
     [AL + 'pls/_NIPALS.py', AL + 'pls/_KernelPLS.py', AL + 'pls/_PRM.py', AL + 'ica/_FastICA.py'],
     [('power iteration', AL + 'pls/_NIPALS.py'), ('kernel power iteration', AL + 'pls/_KernelPLS.py'), ('geometric median', AL + 'pls/_PRM.py'), ('fixed-point iteration', AL + 'ica/_FastICA.py')],
     note='Training data fixed and run in doubles, results compared up to 1e-9 relative.')

prop('C31', 'A call that fails leaves no trace',
     'A call that is refused or fails part-way (wrong shape, index outside, missing matrix, failing callback, missing file) leaves its operands, cached decompositions, configured transformations and '
     'trained models as they were: whatever is asked of them afterwards gives what it would have given without the failed call. Training that fails leaves an algorithm that is not trained '
     '(no predictions of an older or half-made model) and that can be trained like a new one; data a transformation cannot be configured with do not count as its first data.',
     ['inputs', 'histories', 'faults'], 'one to three failing calls before, between and after successful ones, every class',
     'Tests follow the successful path; state damaged by a failed call shows only in what the next call returns.',
     ['src/wai/ma/core/matrix/_Matrix.py', 'src/wai/ma/transformation/_AbstractTransformation.py', AL + 'pls/_AbstractPLS.py', AL + '_AbstractAlgorithm.py'],
     [('refused matrix calls', 'src/wai/ma/core/matrix/_Matrix.py'), ('first data configure', 'src/wai/ma/transformation/_AbstractTransformation.py'), ('training', AL + 'pls/_AbstractPLS.py')],
     note='Stale means of DIPLS after a failed training with other means are the known finding of C21.')
