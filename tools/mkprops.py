#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
I='inputs'; H='histories'; S='schedules'; C='configurations'; F='fault_sequences'; P='programs'
T='curves/include/curves/'
props=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    props.append({'id':id,'title':title,'statement':statement,
      'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})

p('C01','Velocity and acceleration are the exact derivatives of position',
 "For every polynomial piece of order 1 to 5, any coefficients, any duration and any time inside the piece, the reported velocity is the first and the reported acceleration the second time derivative of the reported position. Every accessor for the value, first- or second-derivative time vector (at a time or at zero, overwriting or adding to its argument) delivers exactly the row that, multiplied with the coefficients, gives the position, velocity or acceleration at that time, and all accessors of the same quantity agree.",
 [I,C],'all coefficient vectors, durations and times; orders 1..5; every accessor variant',
 'Tests evaluate a few cubic/quintic pieces at sampled times and never touch orders 1, 2, 4 or the adding accessors; an identity in the coefficients and the time cannot be settled by samples of one call.',
 [T+'polynomial_splines_traits.hpp',T+'PolynomialSpline.hpp'],
 [('time vectors per order','polynomial_splines_traits.hpp: spline_rep<double,1..5>::tau/dtau/ddtau and *Zero constants'),('accessors','PolynomialSpline.hpp: get/add*TimeVector*, get*AtTime')])
p('C02','A piece built from boundary options meets those boundary values',
 "A piece built (constructed or recomputed) from boundary options lasts exactly the requested duration and, for every positive duration, takes the requested start and end positions; order 2 also the start velocity; order 3 start and end velocity; order 4 additionally the start acceleration; order 5 all six start and end values. Recomputing an existing piece leaves nothing of the earlier options behind.",
 [I,H],'all boundary values and positive durations (exact arithmetic), orders 1..5, any previous content of the piece',
 'Tests fit a few cubic/quintic pieces with fixed numbers; the claim is an identity in seven real parameters for five orders.',
 [T+'polynomial_splines_traits.hpp',T+'PolynomialSpline.hpp'],
 [('coefficient computation','polynomial_splines_traits.hpp: spline_rep<double,k>::compute'),('construction/recompute','PolynomialSpline.hpp: constructors, computeCoefficients')])
p('C03','A piece holds its boundary values outside its own time range',
 "Evaluating the position, velocity or acceleration of a piece before its start gives the value at its start, and after its duration the value at its end; inside the range no clamping takes place. Setting coefficients and a duration makes exactly these the ones evaluated and reported.",
 [I],'all times (negative, inside, at and past the end), coefficients, nonnegative durations, orders 1..5',
 'Tests sample few times outside the range, for position of one order only.',
 [T+'PolynomialSpline.hpp'],
 [('clamped evaluation','PolynomialSpline.hpp: getPositionAtTime/getVelocityAtTime/getAccelerationAtTime'),('setter','PolynomialSpline.hpp: setCoefficientsAndDuration, (coefficients,duration) constructor')])
p('C04','A container lasts as long as its pieces together',
 "After any history of adding pieces, fitting knots, resetting and rewinding, the duration a spline container reports equals the sum of the durations of the pieces it holds, is zero once reset, and fitting or resetting never leaves contributions of earlier pieces. Adding a piece appends exactly that piece at the end and changes no other.",
 [H,I],'all histories of add/fit/reset/clock operations and all durations',
 'Tests build a container once and read its duration; they never interleave adding, refitting and resetting.',
 [T+'PolynomialSplineContainer.hpp',T+'PolynomialSplineContainer.tpp'],
 [('duration bookkeeping','PolynomialSplineContainer.hpp addSpline; .tpp reset, setData, extractSplineCoefficients')])
p('C05','Active-piece lookup finds the piece whose interval contains the time',
 "For a non-empty container and any time, the lookup returns the index of the piece whose half-open interval [start, start+duration) contains the time, together with that piece's start time; times before the beginning map to the first piece with start zero, times at or past the end to the last piece with its own start. An empty container is reported by a negative index.",
 [I,H],'all times and all lists of piece durations',
 'Tests look up a few times on containers with two or three pieces; knot times, zero-length and single-piece containers, and times past the end are boundary cases.',
 [T+'PolynomialSplineContainer.tpp'],
 [('lookup','PolynomialSplineContainer.tpp: getActiveSplineIndexAtTime')])
p('C06','Evaluating a container evaluates the active piece at its local time',
 "Position, velocity and acceleration of a container at any time equal those of the piece active at that time, evaluated at the time elapsed since that piece began; before the beginning and after the end the start and end values are held. The three end-value queries equal the evaluation at the total duration, and an empty container evaluates to zero everywhere.",
 [I,H],'all times, all lists of pieces (including none and one), all three quantities',
 'Tests compare positions at a few sample times; sibling queries (velocity, acceleration, end values) are barely sampled.',
 [T+'PolynomialSplineContainer.tpp'],
 [('evaluation','PolynomialSplineContainer.tpp: get{Position,Velocity,Acceleration}AtTime, getEnd*')])
p('C07','The internal clock always agrees with evaluation at the reported time',
 "After any history of clock operations (jumping to a time, advancing by non-negative steps of any size, rewinding) on a container whose pieces all last a positive time, the current position, velocity and acceleration equal those evaluated at the reported current time, also after pieces are added, after a reset and after a jump made while the container was empty. Advancing reports failure and changes nothing once the end is reached or when there are no pieces, and otherwise moves the current time by exactly the step.",
 [H,I],'all histories of jump/advance/rewind/add/reset with arbitrary times and steps, including steps spanning several pieces',
 'Tests advance in small equal steps over one trajectory; a step across several pieces or a jump before advancing is one history among unboundedly many.',
 [T+'PolynomialSplineContainer.tpp'],
 [('clock','PolynomialSplineContainer.tpp: advance, setContainerTime, resetTime, getPosition/getVelocity/getAcceleration')])
p('C08','Fitting knots with boundary conditions interpolates them smoothly',
 "Fitting accepted knots with boundary velocities (and accelerations, where the order leaves room for them) yields one piece per knot interval with that interval's duration, which passes through every knot position, is continuous in velocity and acceleration at every inner knot, and has the requested velocity (and acceleration) at both ends. Orders that cannot satisfy the acceleration conditions fall back to the velocity-only fit, and if that has no room either, to the linear fit.",
 [I,C],'all strictly increasing knot times, knot positions and boundary values (exact arithmetic), orders 1..5',
 'Tests fit a handful of knot lists with quintic pieces and check sampled values; the constraints are identities in all knot times and positions.',
 [T+'PolynomialSplineContainer.tpp'],
 [('constraint assembly','PolynomialSplineContainer.tpp: setData (two overloads), addInitialConditions, addFinalConditions, addJunctionsConditions, extractSplineCoefficients'),('constraint rows','PolynomialSpline.hpp time-vector accessors')])
p('C09','The position-only fit is the piecewise linear interpolation of the knots',
 "Fitting accepted knot times and positions without derivative conditions yields one piece per knot interval, with that interval's duration, that starts at its first knot position, ends at its second and moves with constant velocity in between (zero acceleration), for every order.",
 [I,C],'all strictly increasing knot times and positions, orders 1..5',
 'No existing test uses the position-only fit with orders above one and uneven knots.',
 [T+'PolynomialSplineContainer.tpp'],
 [('linear fit','PolynomialSplineContainer.tpp: setData(knotDurations, knotPositions)')])
p('C10','Invalid knot data is refused and leaves an empty container',
 "All three fits refuse (return false for) knot data with fewer than two knots, with knot times that do not strictly increase, or with a different number of times and positions, and accept everything else. After a refusal the container is empty with zero duration and rewound clock: no stale and no partially built pieces remain.",
 [I,H,F],'all knot lists including empty, single, unsorted, repeated and mismatched ones; any previous content of the container; orders 1..5',
 'No test passes invalid knots to a container that already holds data, or mismatched lengths.',
 [T+'PolynomialSplineContainer.tpp'],
 [('validation','PolynomialSplineContainer.tpp: the three setData overloads')])
p('C11','A scalar curve lives on its own time axis and fitting replaces it',
 "After fitting, a scalar curve's time range starts at the first knot time and spans the fitted duration (fitting from a list of piece options starts at zero); evaluating at a time gives the underlying trajectory at the time elapsed since the range's start, for values and derivatives alike, and the start and end of the range evaluate to the first and last knot. Fitting again depends only on the new data, and clearing returns the curve to its freshly constructed state.",
 [I,H],'all knot times (also not starting at zero), values, evaluation times and histories of fit/clear',
 'Tests fit once, mostly starting at time zero, and sample; refitting and clearing are not explored.',
 [T+'PolynomialSplineScalarCurve.hpp'],
 [('time axis','PolynomialSplineScalarCurve.hpp: getMinTime/getMaxTime/evaluate/evaluateDerivative'),('fit/clear','PolynomialSplineScalarCurve.hpp: fitCurve overloads, clear')])
p('C12','A vector curve is its components fitted and evaluated independently',
 "Component i of a vector-space curve's value, first and second derivative equals that of a scalar curve fitted to component i of the same knots, boundary velocities and accelerations, on the same time axis (the range starts at the first knot time and spans the knots); no component influences another. Fitting again depends only on the new data and clearing returns the curve to its freshly constructed state.",
 [I,H,C],'all knot times, vector values, boundary derivatives, evaluation times, histories of fit/clear; every component',
 'Tests sample one three-dimensional curve starting at time zero.',
 [T+'PolynomialSplineVectorSpaceCurve.hpp'],
 [('per-component fit and evaluation','PolynomialSplineVectorSpaceCurve.hpp: fitCurve overloads, evaluate, evaluateDerivative, getMaxTime, clear')])
p('C13','Derivative queries serve orders one and two and refuse every other order',
 "Asking a scalar, vector or Hermite position curve that has at least one segment for derivative order 1 or 2 strictly inside a segment of its time range succeeds and delivers the first or second time derivative of its value; asking for any other order returns failure and leaves the output argument untouched. A Hermite pose curve serves order 1 in the same way and refuses every other order.",
 [I],'all derivative orders, all times, all fitted curves',
 'Tests ask for orders 1 and 2 only.',
 [T+'PolynomialSplineScalarCurve.hpp',T+'PolynomialSplineVectorSpaceCurve.hpp','curves/src/CubicHermiteE3Curve.cpp','curves/src/CubicHermiteSE3Curve.cpp'],
 [('dispatch','evaluateDerivative of PolynomialSplineScalarCurve, PolynomialSplineVectorSpaceCurve, CubicHermiteE3Curve, CubicHermiteSE3Curve')])
p('C14','The coefficient manager keeps its time index and key index in step',
 "After any history of inserting, appending, moving, updating, removing and clearing, every key the manager handed out and that was not removed resolves to exactly the coefficient and time stored under it, every stored time has exactly one key that resolves to it, removed keys and times no longer resolve, and the internal consistency check passes. An operation changes only the entries it names, and moving a coefficient onto another entry's time is refused.",
 [H,I],'all histories of the mutating operations with arbitrary times and values (up to the analysed sizes), including moving a coefficient onto an occupied time',
 'Tests run two short histories (five of the manager tests do not even run here); index drift appears only after particular sequences.',
 [T+'LocalSupport2CoefficientManager.hpp',T+'LocalSupport2CoefficientManager-inl.hpp'],
 [('paired indices','LocalSupport2CoefficientManager: insertCoefficient, addCoefficientAtEnd, modifyCoefficient, removeCoefficient*, updateCoefficientByKey, updateCoefficients, modifyCoefficientsValuesInBatch, clear')])
p('C15','Inserting keeps one coefficient per time and hands out faithful keys',
 "Inserting at a new time adds exactly one entry under a fresh key; inserting at an occupied time overwrites that entry's value and returns its existing key, so the number of entries equals the number of distinct times. A batch insert equals inserting its elements one after the other and appends one key per element, in input order, after whatever the output list already held; appending at the end does the same for a single later time.",
 [H,I],'all existing contents, all inserted times (before, between, after, equal) and values, batches with repeated times',
 'Tests insert a single sorted batch.',
 [T+'LocalSupport2CoefficientManager-inl.hpp'],
 [('insertion','LocalSupport2CoefficientManager-inl.hpp: insertCoefficient, insertCoefficients, addCoefficientAtEnd, hasCoefficientAtTime')])
p('C16','Bracketing lookup returns the two neighbouring knots of any covered time',
 "For a time between the first and the last stored time (both included) of a manager with at least two entries, the lookup succeeds and yields two adjacent entries with first time <= time <= second time, the first being the latest entry not after the time (at the very last time, the last two entries). For any other time, and for fewer than two entries, it reports failure and leaves its outputs untouched.",
 [I,H],'all query times and all sets of stored times',
 'Tests query a few times around one fixed set.',
 [T+'LocalSupport2CoefficientManager-inl.hpp'],
 [('bracketing','LocalSupport2CoefficientManager-inl.hpp: getCoefficientsAt')])
p('C17','Enumerations of the manager are complete, sorted and aligned',
 "The listed times are exactly the stored times in increasing order, and the listed keys are the keys of the same entries in the same order (clearing or appending to the given list as documented); the reported first and last time and the size describe the same set. The window query lists exactly the stored times from the window's begin to the last time; the range query delivers every coefficient that influences the half-open range and none that lies beyond a neighbour of it, and the full query delivers all of them, each with its stored value whatever the given output held before.",
 [I,H],'all contents, all windows and ranges',
 'Tests list one fixed content; windows and ranges are not tested.',
 [T+'LocalSupport2CoefficientManager-inl.hpp'],
 [('enumeration','LocalSupport2CoefficientManager-inl.hpp: getKeys, appendKeys, getTimes, getTimesInWindow, getCoefficientsInRange, getCoefficients, getMinTime, getMaxTime, size, empty')])
p('C18','A missing entry is reported, never dereferenced',
 "No operation of the coefficient manager, of the spline container, of the curves built on them or of the CSV helpers ever dereferences, advances or erases through an invalid position: looking up, updating or removing an absent key or time, and querying an empty or one-entry object, ends in a reported failure or a fatal check instead of undefined behaviour.",
 [I,H,F],'all operations on all contents, including empty ones, absent keys/times and mismatched or empty argument lists',
 'Undefined behaviour on a missing entry often goes unnoticed in a test run; tests only query entries that exist.',
 [T+'LocalSupport2CoefficientManager-inl.hpp',T+'PolynomialSplineContainer.tpp',T+'PolynomialSplineScalarCurve.hpp',T+'PolynomialSplineVectorSpaceCurve.hpp','curves/src/CubicHermiteE3Curve.cpp','curves/src/helpers.cpp'],
 [('lookups and iterator use','every find/begin/end/back/front/operator[] use in the anchored files')])
p('C19','Every public operation can be used for every supported order and type',
 "Every public member of the polynomial pieces and containers (orders 1 to 5), of the scalar and vector curves, of the coefficient manager (for any copyable, comparable coefficient type) and of the helpers compiles when used and refers only to symbols the library defines.",
 [P,C],'all client programs that use any subset of the public interface, orders 1..5',
 'Templates are only checked when instantiated; the tests use a few members for a few orders, so an ill-formed or undefined member goes unnoticed.',
 [T+'polynomial_splines_traits.hpp','curves/src/polynomial_splines_traits.cpp',T+'PolynomialSpline.hpp',T+'PolynomialSplineContainer.hpp',T+'LocalSupport2CoefficientManager.hpp',T+'LocalSupport2CoefficientManager-inl.hpp'],
 [('instantiation','explicit instantiation and odr-use of every public member')])
p('C20','Generated keys are unique under concurrency',
 "Every call for a new coefficient key, from any number of threads and through any number of managers, returns a value different from all keys returned before in the process: the shared counter is only ever read and changed under one common lock (or atomically) and strictly increases.",
 [S,H],'all interleavings of concurrent key requests',
 'A race shows up only under particular schedules; no test requests keys concurrently.',
 ['curves/src/KeyGenerator.cpp',T+'KeyGenerator.hpp'],
 [('locked counter','KeyGenerator.cpp: getNextKey')])
p('C21','CSV files written by the helpers read back as the same data',
 "Writing times with vectors of at least one component and loading them again yields the same times and the same vectors, row for row and component for component (one time column followed by the vector entries; the two-time format has two time columns first), and every finite double survives the conversion to text and back.",
 [I],'all row counts, vector dimensions (at least one) and finite values',
 'No test covers the CSV helpers; a column mix-up or lost digits depends on the values.',
 ['curves/src/helpers.cpp',T+'helpers.hpp'],
 [('column layout','helpers.cpp: writeTimeVectorCSV, loadTimeVectorCSV, loadTimeTimeVectorCSV, writeCSV, loadCSV'),('number formatting','helpers.cpp: toString')])
p('C22','CSV failures are never silent',
 "A CSV file that cannot be opened for reading or writing, that cannot be written completely, or that lacks the required rows or columns, and input lists that are empty or of different length, all end in a fatal report; no helper returns as if it had succeeded with missing data.",
 [F,I],'all I/O failures of open/write/close and all malformed inputs',
 'No test injects I/O faults or malformed files.',
 ['curves/src/helpers.cpp'],
 [('error checks','helpers.cpp: stream state checks and CHECK macros')])
p('C23','A Hermite position curve interpolates knots and its derivatives are exact',
 "On every segment between two knots the value is the cubic in time that takes the knots' positions and velocities at both ends; the first-order derivative and the linear acceleration are exactly its first and second time derivatives. A curve with a single knot evaluates to it at its time, and times outside the range are refused without touching the output.",
 [I,H],'all knot times, positions, velocities and evaluation times',
 'The Hermite tests cannot be built here (they need a missing library) and sample values only.',
 ['curves/src/CubicHermiteE3Curve.cpp',T+'CubicHermiteE3Curve.hpp'],
 [('evaluation','CubicHermiteE3Curve.cpp: evaluate, evaluateDerivative, evaluateLinearAcceleration')])
p('C24','Hermite fitting places the knots and Catmull-Rom velocities asked for',
 "Fitting a Hermite position curve stores one knot per input time with the given position, the requested velocity at the first and last knot (zero by default), and at every inner knot the slope between its two neighbours; the periodic fit uses at both ends the slope across the seam. Fitting replaces the previous curve.",
 [I,H],'all knot lists with increasing times, all previous contents',
 'Not built and not tested here; refitting and the periodic seam are never tested.',
 ['curves/src/CubicHermiteE3Curve.cpp'],
 [('fit','CubicHermiteE3Curve.cpp: fitCurve, fitCurveWithDerivatives, fitPeriodicCurve, calculateSlope')])
p('C25','The translation of a Hermite pose curve follows the same Hermite law',
 "On every segment the translation of a Hermite pose curve is the cubic in time that takes the knots' positions and linear velocities at both ends, and its linear velocity and linear acceleration queries are exactly the first and second time derivatives of that translation; fitted inner knots carry the slope between their neighbours as linear velocity.",
 [I,H],'all knot times, positions, velocities and evaluation times',
 'The pose curve cannot be built here and its tests only sample values.',
 ['curves/src/CubicHermiteSE3Curve.cpp',T+'CubicHermiteSE3Curve.hpp'],
 [('evaluation','CubicHermiteSE3Curve.cpp: evaluate, evaluateDerivative, evaluateLinearAcceleration')])
p('C26','Operations that are not implemented fail loudly',
 "Calling an operation of a curve that the library does not implement (such as extending or transforming a polynomial curve, or fitting a vector curve from piece options) ends in an exception or a fatal check; no such operation returns normally having done nothing. (The pose curve's documented base- and correction-curve placeholders, whose comments announce that they only satisfy the interface, are not meant.)",
 [I,C],'all not-implemented operations of all curve types, all arguments',
 'Tests do not call operations that are expected to fail.',
 [T+'PolynomialSplineScalarCurve.hpp',T+'PolynomialSplineVectorSpaceCurve.hpp','curves/src/CubicHermiteE3Curve.cpp',T+'SamplingPolicy.hpp'],
 [('not-implemented guards','extend/transformCurve/fitCurve(options) overrides; SamplingPolicy default policies')])
p('C27','Queries never modify shared state',
 "Evaluating or querying a piece, container, curve or coefficient manager through its read-only interface never changes that object or any state shared with other objects or threads, so any number of threads may query the same unchanging object concurrently and repeated queries give the same answer.",
 [S,H],'all interleavings of concurrent queries; all sequences of queries',
 'A hidden write in a query is only visible as a race or in a particular order of queries.',
 [T+'PolynomialSpline.hpp',T+'PolynomialSplineContainer.hpp',T+'PolynomialSplineContainer.tpp',T+'PolynomialSplineScalarCurve.hpp',T+'PolynomialSplineVectorSpaceCurve.hpp',T+'LocalSupport2CoefficientManager.hpp',T+'LocalSupport2CoefficientManager-inl.hpp','curves/src/CubicHermiteE3Curve.cpp'],
 [('const interface','all const and static member functions of the anchored classes')])
p('C28','A trajectory message is imported only for the requested joint',
 "Importing a trajectory message returns false and leaves the curve unchanged when the requested joint is not among the message's joints (also when the message lists none); a message in which some point has no value for that joint is refused in the same way, without reading past the point's values; otherwise the curve is fitted to exactly that joint's values at the message's point times.",
 [I],'all messages: any number of joints and points, any joint position in the list',
 'The ROS package is not built or tested here.',
 ['curves_ros/src/RosJointTrajectoryInterface.cpp','curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp','curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp'],
 [('joint lookup and point extraction','fromMessage of the three interfaces')])
p('C29','Copies are independent of the original',
 "A copy of a piece, container, curve or coefficient manager answers every query like the original did at the moment of copying, and from then on no change to (or destruction of) either one affects the other.",
 [H],'all contents and all histories of operations on original and copy after copying',
 'No test copies an object and then modifies or destroys one of the two.',
 [T+'LocalSupport2CoefficientManager.hpp',T+'LocalSupport2CoefficientManager-inl.hpp',T+'PolynomialSplineContainer.hpp',T+'PolynomialSpline.hpp'],
 [('copy operations','copy constructors/assignments, implicit or declared, of the anchored classes')])
p('C30','Fits stay numerically accurate for badly scaled knots',
 "The relative floating-point error of fitted trajectories at the knots stays small for every accepted set of knot times and values, however unevenly spaced or scaled.",
 [I],'all accepted knot sets in floating point',
 'Conditioning depends on the data; tests sample benign values.',
 [T+'PolynomialSplineContainer.tpp'],
 [('linear solve','PolynomialSplineContainer.tpp: colPivHouseholderQr().solve')])
p('C31','Hermite pose curves keep unit-norm orientations that follow the knots',
 "On every segment the orientation of a Hermite pose curve is a unit quaternion and equals q_A * exp(beta_1 w_1) * exp(beta_2 w_2) * exp(beta_3 w_3), the cumulative Hermite quaternion spline the header documents, for the local rotation vectors derived from the two knots; hence it meets the knots' orientations and angular velocities at both segment ends. The angular velocity the derivative query reports is the one that spline equation has at that time, and fitting stores the given orientations with angular velocities from the neighbouring knots.",
 [I],'all knot orientations, angular velocities, knot times and evaluation times',
 'The pose curve cannot be built here (kindr is missing), and its tests compare sampled values only.',
 ['curves/src/CubicHermiteSE3Curve.cpp',T+'CubicHermiteSE3Curve.hpp'],
 [('cumulative rotation basis','CubicHermiteSE3Curve.cpp: evaluate, evaluateDerivative'),('knots','CubicHermiteSE3Curve.cpp: fitCurve, fitCurveWithDerivatives, calculateSlope')])
p('C32','Extending a pose curve under a sampling policy always ends it at the newest measurement',
 "Extending a pose curve with one later measurement at a time ends the curve exactly at that measurement and leaves every knot but the last where it was. With sampling ratio k a slerp curve keeps the first two measurements and then one knot per group of k (the newest of the group), reporting one key per new knot and none for a moved one; several measurements given at once are all kept. A Hermite pose curve extended by a policy keeps a measurement as permanent knot once at least k others came since the last permanent one and the minimum sampling period has passed; any other measurement only replaces the provisional last knot, and the curve passes through all its knots. Measurements that are not later than the end of a Hermite pose curve are refused; a cleared or refitted slerp curve goes on like a new one, and a changed ratio takes effect from the group it is set in.",
 [H],'all sequences of measurements, sampling ratios, sampling periods, and histories of clearing, refitting and changing the ratio',
 'No test extends a pose curve; the loss of knots depends on the position within a group and on earlier operations.',
 [T+'SamplingPolicy.hpp',T+'SlerpSE3Curve.hpp','curves/src/SlerpSE3Curve.cpp',T+'CubicHermiteSE3Curve.hpp'],
 [('sampling policies','SlerpSE3Curve.hpp, CubicHermiteSE3Curve.hpp: SamplingPolicy::extend, defaultExtend, interpolationExtend'),('group counter','SlerpSE3Curve.cpp: extend, clear, fitCurve, setSamplingRatio')])
p('C33','Saving a pose curve writes the poses it has at the given times',
 "Saving a Hermite pose curve (or a slerp curve whose evaluation a subclass supplies) at a list of times writes one row per time, in order, with the time, the position (x, y, z) and the orientation (w, x, y, z) the curve evaluates to at that time; saving its own times and values writes exactly its knots. A time outside a Hermite pose curve ends in a fatal report instead of a row with another time's pose.",
 [I],'all curves and all lists of times',
 'No test saves a pose curve.',
 ['curves/src/CubicHermiteSE3Curve.cpp','curves/src/helpers.cpp'],
 [('export','CubicHermiteSE3Curve.cpp: saveCurveAtTimes, saveCurveTimesAndValues')])
p('C34','The container self-check accepts exactly the sound containers',
 "checkContainer returns true for a container exactly when its internal time lies between zero and its duration (both included), no piece has a negative duration and no coefficient of any piece is NaN; it changes nothing. In particular it accepts a new, an emptied, and a freshly fitted container at every time the fit covers, and refuses a container after its clock was moved past the end or before zero. (An empty container whose clock was moved is left open.)",
 [I],'all contents, durations of any sign, internal times, and positions of a NaN coefficient',
 'No test calls the self-check; whether one bad coefficient among many is seen depends on its position.',
 [T+'PolynomialSplineContainer.tpp'],
 [('self-check','PolynomialSplineContainer.tpp: checkContainer')])
p('C35','The evaluation file of a Hermite curve shows the curve, completely or not at all',
 "writeEvalToFile with n samples (n at least two) writes a first line that names the columns, then one row per sample, from the first time of the curve in steps of its length divided by n-1 up to but excluding its end; every row holds, under the names of the first line, the time, the position (for pose curves also the orientation w, x, y, z), the velocity (for pose curves also the angular velocity) the curve evaluates to at that time, to at least six decimals. A curve of no or one knot gives only the first line. A file that cannot be opened or not be written completely makes it return false; otherwise it returns true.",
 [I,F],'all curves, numbers of samples, and failures of opening, writing and closing',
 'No test writes such a file, nor can a test make writing fail at every point.',
 ['curves/src/CubicHermiteE3Curve.cpp','curves/src/CubicHermiteSE3Curve.cpp'],
 [('sampling','CubicHermiteE3Curve.cpp, CubicHermiteSE3Curve.cpp: writeEvalToFile')])
p('C36','Hermite and slerp curves report exactly the knots they were given',
 "For Hermite position, Hermite pose and slerp curves, after any sequence of fits, periodic fits, clearing, and (slerp) adding knots or transforming the curve: size is the number of distinct knot times held and isEmpty says whether it is zero; the first and last time are those of the first and last knot; the listed curve times are the knot times in ascending order. Fitting replaces all knots by the given ones (fitting a slerp curve to an empty list is left open); setCurve of a slerp curve adds the given knots, in any order, and keeps the others (one knot per time); transformCurve keeps the times; clearing leaves none.",
 [I,H],'all knot times, numbers of knots and sequences of these operations',
 'The curves need kindr, so their tests do not run here, and those sample single fits.',
 ['curves/src/CubicHermiteE3Curve.cpp','curves/src/CubicHermiteSE3Curve.cpp','curves/src/SlerpSE3Curve.cpp',T+'LocalSupport2CoefficientManager-inl.hpp'],
 [('knots','CubicHermiteE3Curve.cpp, CubicHermiteSE3Curve.cpp, SlerpSE3Curve.cpp: fitCurve, setCurve, clear, size, isEmpty, getMinTime, getMaxTime, getCurveTimes')])
p('C37','Comparing two coefficient managers compares their entries',
 "Two managers compare equal if they hold the same entries (the same times with the same keys and coefficients), whatever histories led there, and compare unequal if they hold a different number of entries, different keys, or a time or coefficient that differs by more than the given tolerance, whichever entry it is; a manager equals itself and its copies, comparing is symmetric and changes nothing, and a manager with entries never equals an empty one.",
 [I,H],'all entries, numbers of entries and histories of both managers',
 'The existing tests never compare managers.',
 [T+'LocalSupport2CoefficientManager-inl.hpp',T+'LocalSupport2CoefficientManager.hpp'],
 [('comparison','LocalSupport2CoefficientManager::equals, KeyCoefficient::equals')])
p('C38','Lists of different length are refused, never read past their end',
 "Every operation that takes times and values (or times, values and derivatives) as parallel lists (fits and periodic fits of Hermite, slerp, scalar and vector curves, adding knots to slerp curves, extending curves through a sampling policy, inserting and modifying coefficients in batches, fitting a container, saving a time series) accepts lists of equal length that are otherwise valid, and never reads or writes outside any of the lists, also when assertions are compiled out. Fewer values than times are refused: by a fatal check, an exception, a false result, or an empty curve. If it is refused by an exception, the curve still evaluates as it did before the call.",
 [I],'all lengths of all lists, including empty ones, and all contents',
 'The tests pass lists of equal length only, and are built with assertions.',
 ['curves/src/CubicHermiteE3Curve.cpp','curves/src/CubicHermiteSE3Curve.cpp','curves/src/SlerpSE3Curve.cpp','curves/src/helpers.cpp',T+'PolynomialSplineVectorSpaceCurve.hpp',T+'PolynomialSplineScalarCurve.hpp',T+'PolynomialSplineContainer.tpp',T+'LocalSupport2CoefficientManager-inl.hpp'],
 [('lengths','fitCurve, fitCurveWithDerivatives, fitPeriodicCurve, setCurve, extend, setData, insertCoefficients, modifyCoefficientsValuesInBatch, writeTimeVectorCSV')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in props: f.write(json.dumps(x,ensure_ascii=False)+'\n')
