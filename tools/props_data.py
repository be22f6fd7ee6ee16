INC = 'incremental_calibration/include/aslam/calibration/'
SRC = 'incremental_calibration/src/'
EX = 'incremental_calibration_examples/'
PROPS = []
NOTES = {}
NA = {}

def P(id, title, statement, over, text, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))

P('C01', 'Optimization problem stays consistent under any sequence of edits',
  'After any sequence of adding design variables to groups, adding error terms, reordering groups, variables and error terms and clearing, the problem holds each design variable in exactly one group and each error term once, the group order lists exactly the groups that hold variables, every error term refers only to held variables, and the reported counts, membership answers, indices and group dimensions agree with those contents. A design variable or error term that is added twice, an error term that refers to an unknown variable, a null argument, an invalid group order and an out-of-range index or unknown group are rejected with an exception that leaves the problem as it was. Clearing leaves an empty problem.',
  ['histories', 'inputs'], 'every sequence of public operations with every argument, at every index',
  'The tests exercise one fixed problem with a handful of variables; the guarantee is about all histories and all indices, including failing calls.',
  [SRC + 'core/OptimizationProblem.cpp', INC + 'core/OptimizationProblem.h'],
  [('addDesignVariable', 'OptimizationProblem.cpp'), ('addErrorTerm', 'OptimizationProblem.cpp'), ('setGroupsOrdering / permuteDesignVariables / permuteErrorTerms', 'OptimizationProblem.cpp'), ('getGroupId', 'OptimizationProblem.cpp')])

P('C02', 'Incremental problem is exactly the union of the batches currently in it',
  'After any sequence of adding and removing batches, the merged problem holds exactly the design variables and error terms that occur in the batches currently inside, each variable once and in one group however many batches share it, and its group order lists exactly the groups in use; a shared variable disappears only when the last batch using it is removed. Adding a batch that holds an error term already inside, or whose grouping contradicts the merged problem, and removing an absent batch are rejected with an exception that leaves the merged problem unchanged. Indexing, counts, group dimensions and the reordering of groups, batches and variables agree with that content.',
  ['histories', 'inputs'], 'every sequence of batch insertions and removals, with arbitrary sharing of variables between batches and arbitrary groupings',
  'The tests add two hand-written batches; reference counting, rejection and removal order have to hold for every history and every sharing pattern.',
  [SRC + 'core/IncrementalOptimizationProblem.cpp', INC + 'core/IncrementalOptimizationProblem.h'],
  [('add', 'IncrementalOptimizationProblem.cpp'), ('remove', 'IncrementalOptimizationProblem.cpp'), ('errorTerm', 'IncrementalOptimizationProblem.cpp')])

P('C03', 'Saved design-variable values are restored exactly',
  'Saving the design variables of a problem and restoring them later gives every design variable held from the save until the restore exactly the value it had when it was last saved, whatever the optimisation did to it in between, and does not touch any other variable.',
  ['histories', 'inputs'], 'every content of the problem, every value, every sequence of saves, edits and restores',
  'No test exercises save and restore; the guarantee must hold for every content and history.',
  [SRC + 'core/OptimizationProblem.cpp', SRC + 'core/IncrementalOptimizationProblem.cpp'],
  [('saveDesignVariables / restoreDesignVariables', 'OptimizationProblem.cpp, IncrementalOptimizationProblem.cpp')])

P('C04', 'A batch is kept iff it is informative or forced, and rejection rolls back fully',
  'The incremental estimator keeps a submitted batch exactly when the caller forces it, or when the information gain exceeds the threshold or the numerical rank of the calibration parameters grew and, if validity checking is enabled, the optimisation lowered the cost before reaching its iteration limit; the value it returns says which happened, and a batch it rejects with an exception is not kept either. A rejected batch leaves the estimator with the batches, the design-variable values and the reported calibration statistics it had before. After an accepted batch all reported statistics are those of the new solution. A new estimator has no statistics and works with the options and calibration group it is given, or with those of the configuration it is built from, where an absent option has its default and an absent group is refused.',
  ['histories', 'inputs'], 'every sequence of submitted and removed batches, every solver outcome and every option setting',
  'The incremental estimator has no test; acceptance and rollback depend on solver outcomes a test can only sample.',
  [SRC + 'core/IncrementalEstimator.cpp', INC + 'core/IncrementalEstimator.h'],
  [('addBatch', 'IncrementalEstimator.cpp'), ('removeBatch / reoptimize', 'IncrementalEstimator.cpp')])

P('C05', 'Permuting a container rearranges it exactly as the permutation says',
  'Permuting a container by a vector of distinct indices puts at each position the element whose old index the permutation names there, loses and duplicates nothing, and keeps the length. A permutation whose length differs from the container, or that holds a negative or too large index, is rejected with an exception.',
  ['inputs'], 'every container length, every content, every permutation, every index type',
  'The test permutes one container once; the in-place rearrangement must be right for every cycle structure and length.',
  [INC + 'algorithms/permute.h'], [('permute', 'algorithms/permute.h')])

P('C06', 'Log-determinant helper sums exactly the selected diagonal entries',
  'For a matrix and an inclusive column range, the log-determinant helper returns the sum, over the columns of the range, of the base-2 logarithm of the absolute value of the diagonal entry, skipping exactly the entries that are numerically zero. A column range is rejected with an out-of-range error exactly when its begin is not smaller than its end or its end is not a column of the matrix.',
  ['inputs'], 'every matrix size and content, every column range',
  'The test checks one small matrix; the helper is called with every batch size and decides which batches are kept.',
  [INC + 'algorithms/matrixOperations.h', INC + 'algorithms/matrixOperations.tpp'], [('computeSumLogDiagR / checkColumnIndices', 'algorithms/matrixOperations.tpp')])

P('C07', 'Grid maps coordinates and cells to each other consistently and in bounds',
  'A grid covers its range with cells of its resolution, visits every cell exactly once when iterated in index order, and converts between linear position, multi-dimensional index and coordinates consistently: the centre of a cell lies in that cell and maps back to it whenever it is inside the range (the last cell of a dimension may stick out), and every coordinate inside the range maps to an index inside the grid. Accessing a cell by an index or coordinate outside the grid is rejected with an exception, and constructing a grid from an empty range or a resolution that is zero or exceeds the range is rejected.',
  ['inputs'], 'every range, resolution, number of dimensions used in the library, coordinate and index',
  'The grid has no test; index arithmetic must be in bounds for every range and coordinate.',
  [INC + 'data-structures/Grid.h', INC + 'data-structures/Grid.tpp'], [('Grid::getIndex / getCoordinates / computeLinearIndex / incrementIndex', 'Grid.tpp')])

P('C08', 'Histograms count every sample once and report statistics of those counts',
  'A histogram adds one to exactly the bin that contains a sample, or ignores a sample outside its range, so the total of the bins always equals the number of samples inside the range. The sum, mean, median, mode, variance and covariance it reports are those of the binned counts at the bin centres (as soon as there are enough samples for them), and normalising a non-empty histogram scales its bins to sum to one and leaves the histogram itself unchanged.',
  ['histories', 'inputs'], 'every range, bin width, sequence of samples',
  'Histograms have no test; the statistics must hold for any number of bins and any counts.',
  [INC + 'statistics/Histogram1v.tpp', INC + 'statistics/HistogramMv.tpp'], [('addSample / getMean / getVariance', 'Histogram1v.tpp, HistogramMv.tpp')])

P('C09', 'Probability distributions report the moments and densities of their parameters',
  'Each probability distribution returns the probability, log-probability, distribution-function value, mean, median, mode, variance and entropy-type quantities that its current parameters define, and the derived quantities it caches always match the last parameters set. Invalid parameters (non-positive variances and scales, empty supports, asymmetric or non-positive-definite covariances) are rejected with an exception that leaves the distribution as it was.',
  ['inputs', 'histories'], 'every parameter value and every sequence of parameter changes',
  'The distributions have no tests; the cached quantities must be consistent after every history of setters.',
  [INC + 'statistics/NormalDistributionMv.tpp', INC + 'statistics/UniformDistribution1v.tpp', INC + 'statistics/UniformDistributionMv.tpp', INC + 'statistics/GammaDistribution.tpp', SRC + 'statistics/NormalDistribution1v.cpp', SRC + 'statistics/ChiSquareDistribution.cpp'],
  [('setVariance / setCovariance / setSupport / setShape', 'statistics/*.tpp, *.cpp')])

P('C10', 'Maximum-likelihood estimators return the sample statistics of the points added',
  'After any sequence of points has been added to a maximum-likelihood normal estimator, its mean is the mean and its variance or covariance the maximum-likelihood one (divided by the number of points) of exactly the points added since the last reset, the count is their number, and the estimate is flagged valid exactly when that variance is positive (the covariance is positive definite). Adding points with responsibilities sets the estimate to the weighted mean and covariance of those points without adding to the count, and does nothing if the number of responsibilities is not that of the points. Reset forgets all points.',
  ['histories', 'inputs'], 'every sequence of points and resets, every way of splitting them over calls',
  'The estimators have no tests; the result must not depend on how many points or in how many calls they came.',
  [SRC + 'statistics/EstimatorMLNormal1v.cpp', INC + 'statistics/EstimatorMLNormalMv.tpp'], [('addPoint / addPoints / reset', 'EstimatorMLNormal1v.cpp, EstimatorMLNormalMv.tpp')])

P('C11', 'Random draws transform the raw generator output by the stated law',
  'Every sampler returns a value inside the support of the distribution it names, computed from the raw random draws by the stated transformation: uniform draws lie between the two bounds, categorical draws are valid indices chosen by cumulative probability, normal draws are standard normal draws scaled by the standard deviation and shifted by the mean, exponential and geometric draws invert the distribution function, Poisson and gamma draws count and sum as their method says, and vector samplers apply the factor of the covariance. A distribution samples with its own current parameters, asking for a number of samples returns exactly that many, setting the same seed again gives the same sequence of draws, and invalid parameters are rejected with an exception.',
  ['inputs', 'histories'], 'every parameter value, every raw random draw and seed',
  'Sampling has no test; a test sees only a few draws, while the support bounds must hold for all of them.',
  [INC + 'statistics/Randomizer.tpp', INC + 'statistics/SampleDistribution1v.h'], [('sampleUniform / sampleNormal / sampleCategorical', 'Randomizer.tpp')])

P('C12', 'Special functions satisfy their defining identities and domains',
  'The log-factorial function returns the sum of the logarithms of the positive integers up to its argument (zero for the argument zero), the log-gamma function returns the logarithm of the gamma function (in the multi-dimensional case with the standard product formula), the digamma function agrees with the derivative of the log-gamma function, and the two regularised incomplete gamma functions are complementary for every parameter and argument. The parameter or dimension last set counts, and copies keep it. The argument zero of the integer log-gamma function and negative arguments or parameters of the incomplete gamma functions are rejected with an exception.',
  ['inputs'], 'every argument and every dimension parameter',
  'The special functions have no tests; recurrence loops must be right for every argument.',
  [INC + 'functions/LogGammaFunction.tpp', INC + 'functions/DigammaFunction.tpp', SRC + 'functions/LogFactorialFunction.cpp', SRC + 'functions/IncompleteGammaPFunction.cpp', SRC + 'functions/IncompleteGammaQFunction.cpp'],
  [('getValue', 'functions/*')])

P('C13', 'Timestamps, exceptions and text input/output keep their contract',
  'A timestamp keeps the seconds it was given; sums, differences, shifts and comparisons with timestamps and seconds are those of the underlying seconds, a timestamp not before the epoch splits into whole seconds and the nanoseconds below one second that remain, the current time is that of the system clock, and the calendar text is the local date and time of the instant. An exception reports exactly the function, message, file and line it was raised with, and the offending argument and bound for out-of-bound and bad-argument exceptions, also after copying and assigning. Streaming an object uses the object\'s own reader or writer for that stream, once, and returns the stream.',
  ['inputs', 'histories'], 'every time value, every message, argument and location, every stream',
  'None of these utilities has a test, and they are used with arbitrary values.',
  [SRC + 'base/Timestamp.cpp', SRC + 'base/Serializable.cpp', SRC + 'exceptions/Exception.cpp', SRC + 'exceptions/NullPointerException.cpp', INC + 'exceptions/OutOfBoundException.h', INC + 'exceptions/BadArgumentException.h'], [('Timestamp', 'Timestamp.cpp'), ('Exception', 'Exception.cpp')])

P('C14', 'Rigid transformations move points rigidly and invert exactly',
  'A rigid transformation (2d or 3d) maps a point to rotation times point plus translation, for the rotation and translation of the pose or matrix it was last given; distances between transformed points are preserved and the rotation part stays orthonormal. Inverting it, in place or as a copy, gives the transformation whose composition with the original is the identity on both sides, inverting twice gives back the original, and copying, asking for the inverse and transforming points never change it. This holds whichever way the transformation was set last (pose, matrix, copy, inversion).',
  ['inputs', 'histories'], 'every rotation, translation and point, and every sequence of setters, copies and inversions',
  'The transformations have no tests; the laws are universally quantified over continuous parameters and over histories.',
  [INC + 'geometry/Transformation2d.tpp', INC + 'geometry/Transformation3d.tpp', INC + 'geometry/Transformation.h'], [('setTransformation / setTransformationMatrix / inverse / transform / operator()', 'Transformation2d.tpp, Transformation3d.tpp')])

P('C15', 'Outer product is the matrix of pairwise products',
  'The outer product of a vector with another vector, or with itself, is the matrix whose entry in row i and column j is the product of the i-th entry of the first and the j-th entry of the second, for every size.',
  ['inputs'], 'every pair of vectors of every size',
  'It has no test and must hold for every vector.',
  [INC + 'utils/OuterProduct.h', INC + 'utils/OuterProduct.tpp'], [('outerProduct', 'utils/OuterProduct.tpp')])

P('C16', 'Simulated paths, landmark guesses, attitude signs and frames are as specified',
  'For every amplitude, frequency, step count and sampling period, a generated sine wave path has exactly the requested number of velocity inputs: the first is zero, none has lateral speed, speeds follow the closed form 2*pi*f times the average of the path slope norms at both ends of the step, and turn rates times the period add up to the heading of the path. Initial landmark guesses put each landmark where the first pose with a positive range to it sees it, and leave landmarks never seen at the origin. The quaternion chosen to continue an attitude sequence is the given rotation with the sign closer to the previous quaternion. WGS84 coordinates convert to earth-centred ones by the ellipsoid closed form, and the local frames at a point have the east/north/up and north/east/down axes of that latitude and longitude.',
  ['inputs'], 'every amplitude, frequency, step count, sampling period, pose, measurement table, quaternion and position',
  'These helpers are used only by simulations and calibrators that cannot run here; no test covers them.',
  [EX + 'incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp', EX + 'incremental_calibration_examples_car/src/algo/bestQuat.cpp', EX + 'incremental_calibration_examples_time_delay/src/algo/bestQuat.cpp', EX + 'incremental_calibration_examples_egomotion_sensors/src/algo/bestQuat.cpp', EX + 'incremental_calibration_examples_car/src/geo/geodetic.cpp'],
  [('genSineWavePath, initLandmarks', '2dlrf/utils.cpp'), ('bestQuat', 'algo/bestQuat.cpp'), ('wgs84ToEcef, enu2ecef, ned2ecef', 'geo/geodetic.cpp')])

P('C17', 'Error-term Jacobians are derivatives of the error; weights match covariances',
  'For every state and measurement where it is defined, the error that an error term of the example calibrators evaluates is its measurement minus the prediction of its model (planar motion, range and bearing, wheel speed, steering angle, velocities, pose), angles wrapped, and its squared error is weighted with its inverse covariance; the Jacobian it reports with respect to each of its design variables, or hands on to each expression, is the derivative of that error. The weight is the inverse of the covariance last set, from construction through every setter, copy and assignment, and an error term depends on exactly the design variables it was given.',
  ['inputs', 'histories'], 'every state, every measurement and every covariance',
  'The tests compare with finite differences at one random state and need a backend that is not available here.',
  [EX + 'incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp', EX + 'incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp', EX + 'incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp', EX + 'incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp', EX + 'incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp', EX + 'incremental_calibration_examples_car/src/error-terms/ErrorTermVelocities.cpp', EX + 'incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp', EX + 'incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp'],
  [('evaluateErrorImplementation / evaluateJacobiansImplementation', 'error-terms/*.cpp, 2dlrf/*.cpp')])

P('C18', 'Truncated solver wrapper hands data to and from the solver unchanged',
  'The truncated linear solver wrapper solves, and analyses, exactly the system that was built for it: the Jacobian with its values, the right-hand side and the columns to be marginalised reach the decomposition unchanged, once per call, and the solution comes back as computed. It reports failure, without solving and with the solution untouched, exactly when the system cannot be formed; it gives back every matrix it was handed exactly once on every path; setting a new structure drops the previous decomposition first, and diagonal conditioning is refused. Options given directly or through properties (each under its own key, with its own default) are the ones in force.',
  ['inputs', 'histories'], 'every system, marginalisation start and option setting',
  'The wrapper has no test that runs here.',
  ['aslam_tsvd_solver/src/aslam-tsvd-solver.cc', 'aslam_tsvd_solver/include/aslam-tsvd-solver/aslam-tsvd-solver.h'], [('AslamTruncatedSvdSolver', 'aslam-tsvd-solver.cc')])

P('C19', 'A vector design variable adds updates and reverts exactly',
  'A vector design variable of any dimension adds each update to its value component by component, and reverting restores the value it had just before its last change (update, assignment of a value or of parameters). Reading and writing its value and its parameters preserve them exactly, copies carry value and former value, its dimension is its number of components, and parameters of the wrong shape are rejected with an exception that changes nothing.',
  ['inputs', 'histories'], 'every dimension, every value and every sequence of updates, reverts and assignments',
  'The test needs a backend that is not available here and checks one random value.',
  [INC + 'data-structures/VectorDesignVariable.h', INC + 'data-structures/VectorDesignVariable.tpp'], [('updateImplementation / revertUpdateImplementation / setParametersImplementation', 'VectorDesignVariable.tpp')])


P('C20', 'Calibrators use the configured values and hand over all their variables',
  'In the car, time-delay and egomotion examples every option, trajectory and simulation parameter takes the value of the configuration entry documented for it, or its documented default where the entry is optional and absent, whatever else the configuration holds; a missing required entry is rejected with an exception. The calibration variables start from their configured values, are active exactly as configured, and are all added once to the batch in the given group; the reported parameter vector lists every one of them at its place. A spline added to a spline problem has all its design variables activated and added once, in order, in the given group, and is found at its position afterwards; a refused spline is not kept and positions out of range are rejected.',
  ['inputs', 'histories'], 'every configuration, with any entries present or missing, every initial value and every spline',
  'There are no tests for the option structures, design variables or spline problems; a wrong key, a forgotten member or an overwritten entry only shows for configurations a sample does not hold.',
  [EX + 'incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp', EX + 'incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp', EX + 'incremental_calibration_examples_car/src/algo/OptimizationProblemSpline.cpp',
   EX + 'incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp', EX + 'incremental_calibration_examples_time_delay/src/design-variables/OdometryDesignVariables.cpp', EX + 'incremental_calibration_examples_time_delay/src/algo/OptimizationProblemSpline.cpp',
   EX + 'incremental_calibration_examples_time_delay/src/simulation/TrajectoryParams.cpp', EX + 'incremental_calibration_examples_time_delay/src/simulation/SimulationParams.cpp', EX + 'incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp',
   EX + 'incremental_calibration_examples_egomotion_sensors/src/algo/OptimizationProblemSpline.cpp', EX + 'incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp', EX + 'incremental_calibration_examples_egomotion_sensors/src/design-variables/DesignVariables.cpp'],
  [('options from the property tree', 'CarCalibratorOptions.cpp, CalibratorOptions.cpp, TrajectoryParams.cpp, SimulationParams.cpp'), ('calibration variables', 'OdometryDesignVariables.cpp, DesignVariables.cpp'), ('addSpline', 'OptimizationProblemSpline.cpp')])
CARA, DELA = EX + 'incremental_calibration_examples_car/src/algo/CarCalibrator.cpp', EX + 'incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp'
P('C21', 'Calibrators window measurements and hand each to exactly one batch',
  'The car and time-delay calibrators keep every measurement they are given, in order and in the list of its sensor, until the window is complete: the time since the start of the window has reached the configured duration and at least two poses are held. Then exactly one batch is handed to the estimator; it holds the splines fitted, with the configured settings, to the vehicle poses measured in the window in group 0 and the calibration variables in group 1, each once, and every measurement held by then, with the error terms of its own sensor (where its use is configured), exactly once. Afterwards nothing of the window is left over, the next window starts with the time of the last measurement, the measurement that completed the window is the first of the next, and information gain and parameters are appended to their histories. Forcing a batch does the same for an incomplete window with two poses. Predicting changes no measurement and estimates nothing. Whether measurements wait is reported truly.',
  ['histories', 'inputs'], 'every sequence of measurements of every sensor, with any times and values, every configuration',
  'The calibrators have no tests; a measurement lost, used twice or kept for the wrong window only shows after particular sequences of calls.',
  [CARA, DELA], [('addMeasurement / addMeasurements / initSplines / add*Measurement / predict / clear*', 'CarCalibrator.cpp, Calibrator.cpp')])
P('C22', 'Each measurement becomes the error terms that predict it at its delayed time',
  'For every measurement handed to the car and time-delay calibrators, the batch gets exactly the error terms of its kind, built from the trajectory at the time of the measurement plus the estimated delay of its sensor: the velocity of the wheel at its mounting position in the vehicle frame, the pose or velocity of the pose sensor at its lever arm and orientation, with the scale, the measured value and the configured variances of that very sensor. A measurement is left out only if its time, give or take the bound on the delay, is outside the trajectory, or the documented speed thresholds are not met; the trajectory is never evaluated outside its range. Predicting a list of measurements reports for each such measurement one prediction with the error and squared error of the same error terms.',
  ['inputs'], 'every list of measurements, trajectory, calibration, delay and configuration',
  'The builders have no tests; a sign, lever arm, variance or delay of the wrong sensor biases the calibration without any failure.',
  [CARA, DELA], [('add*ErrorTerms / predict*', 'CarCalibrator.cpp, Calibrator.cpp')])
