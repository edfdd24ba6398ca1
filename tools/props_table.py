prop("G01", "Graph ids are stable handles",
     "addNode and addEdge store the element at the id they return and write that id into it; an id is the next unused index or, for edges, one that removeEdge put aside, which stops being available when it is handed out again. removeEdge empties exactly its own slot, keeps every other id valid and makes the id available for reuse, and edgeCount/nodeCount are the number of live elements. No other operation of the graph adds, drops or moves elements.",
     ["histories"], "every sequence of addNode, addEdge, removeEdge and lookups",
     "The tests add and remove a handful of elements in one order; stability of ids is about every interleaving of additions, removals and reuse.",
     [PG], [("Graph::addNode, Graph::addEdge, Graph::removeEdge", PG + " Graph<P,T>"), ("edgeCount, nodeCount", PG)])
prop("G02", "Unknown or removed graph ids are always rejected",
     "getEdge and getNode (const and non-const) return a reference to the stored element exactly for ids that are in range and, for edges, not removed; for any other id they throw std::out_of_range. removeEdge returns true exactly for live edges, and returns false without changing anything for any other id.",
     ["inputs", "histories"], "every id value, including the one just past the last element, after every history of additions and removals",
     "Tests probe a few far-out ids; the boundary and the removed-then-asked-again cases need every id after every history.",
     [PG], [("Graph::getEdge, Graph::getNode, Graph::removeEdge", PG)])
prop("G03", "Node adjacency lists mirror the live edges",
     "After addEdge the new edge is in getEdgesOut of its start node and in getEdgesIn of its end node; after removeEdge it is in neither, so adjacency lists never hold a pointer to a destroyed edge. addEdgeOut and addEdgeIn append an edge that is not listed and report true, and leave the list alone and report false when it already is.",
     ["histories"], "every history of edge additions and removals",
     "Dangling adjacency pointers only show after a removal followed by a traversal, which no test performs.",
     [PG], [("Graph::addEdge, Graph::removeEdge", PG), ("Node::addEdgeIn, Node::addEdgeOut, getEdgesIn, getEdgesOut", PG)])
prop("G04", "Graph iteration visits exactly the live elements",
     "beginEdge/cbeginEdge and the increments of the iterators stop at the end position or at a live element, move forward by one element and skip only empty slots, and read no element before having checked it against the end position. begin/end cover the whole edge (node) list, dereferencing yields the element at the current position, post-increment returns the position before the move, and two iterators are equal exactly when their positions are.",
     ["histories"], "every list content, including removed first and last elements and an empty graph",
     "The tests iterate over lists without holes at the first or last slot; reading past the end is not observable by an assertion.",
     [PG], [("ListIterator, ConstListIterator", PG), ("beginEdge, cbeginEdge, beginNode, cbeginNode, end*", PG)])
ET = H + "utils/eigen_tools.h"
SP = H + "slam_optimizer/slam2d_policy.h"
prop("G05", "Node and edge attributes are independent and kept",
     "Each setter of Node (id, pose, visited, data object) and Edge (id, state, type, used) makes its getter return the value given and changes no other attribute; getters, error evaluation and printing change nothing. A new edge has the given ends, transformation and information matrix, id 0, state CONSTRUCTED, type ODOM and is unused; a new node has the given pose and object, id 0, no edges and is not visited. addNode, addEdge and copying keep every attribute, except that the stored element has the id returned.",
     ["inputs", "histories"], "every attribute value in every state of the element",
     "The tests set one attribute and read it back; a setter that disturbs another attribute, or only in some state, goes unnoticed.",
     [PG], [("Node and Edge setters, getters and constructors; Graph::addNode, addEdge", PG)],
     tech="abstract interpretation (value numbering) of compositions of the public operations, before and after compared by normal form")
prop("A01", "Headings are always normalised to [-pi, pi)",
     "Every function that returns or stores a heading - normalizeAngle, getAngle, getAngleDiffrence, transformPose, transformConcat, getPoseFromTransform, matToVec2d, the Slam2d policy's addPoses, transMatToVec and calcError, and Node::addToPose - returns the mathematically expected angle reduced to [-pi, pi) by whole turns.",
     ["inputs"], "every angle, pose and transform, including several turns away and exactly at the wrap",
     "The tests sample a few angles; wrap-around errors appear only at specific combinations of headings.",
     [ET, SP, PG], [("normalizeAngle, getAngle, getAngleDiffrence, transformPose, getPoseFromTransform", ET), ("calcError, addPoses, transMatToVec", SP), ("Node::addToPose", PG)])
prop("A02", "Pose/transform/matrix conversions are mutually inverse",
     "getTransFromPose, vecToTransMat, vecToMat2d, vecToMat3d build exactly the rigid motion of their pose; getPoseFromTransform, transMatToVec and matToVec2d recover the pose of a rigid motion; convertFromTransform/convertToTransform keep the planar part; transformPose/transformConcat/transBtwFrames compose as their definitions say and getDisplacement is the translation length.",
     ["inputs"], "every pose and rigid transform",
     "A swapped sign or index shows only for poses where the terms do not cancel; tests use special angles.",
     [ET, SP], [("conversions", ET), ("vecToTransMat, transMatToVec, addPoses", SP), ("Node::setPose, addToPose", PG)])
prop("A03", "Pose-graph residual and Jacobians are consistent",
     "The edge residual is t2v(z^-1 (xi^-1 xj)) and calcJacobianBlocks is its exact derivative with respect to both end poses for every pose pair and measurement; an Edge evaluates both with the poses of its own start and end node and its own transform, and keeps the transform and information matrix it was built with.",
     ["inputs"], "all pairs of poses and all measurements",
     "A wrong Jacobian entry only slows or biases the optimizer; no example-based assertion distinguishes it.",
     [SP, PG], [("calcError, calcJacobianBlocks", SP), ("Edge::getError, getJacobianBlocks, getTransMatrix", PG)])
prop("C02", "Covariance propagation follows pose composition",
     "CovarianceWrapper starts from the given covariance (identity by default) and addToCovar(other, trans) replaces it by J1*C*J1^T + J2*other*J2^T with J1, J2 the exact derivatives of composing a pose of unit heading with the transform.",
     ["inputs", "histories"], "all covariances and rigid transforms",
     "The result is only consumed as a gating threshold; no test inspects it.",
     [H + "utils/covariance_wrapper.h"], [("CovarianceWrapper::addToCovar", H + "utils/covariance_wrapper.h")])
MX = S + "slam_optimizer/max_mixture/"
SW = S + "slam_optimizer/switchable_constraints/"
prop("M01", "A mixture edge selects its most likely component",
     "After initializeComponents, construction, reading, computeError, computeBestEdge or linearizeOplus the best component of a mixture edge is a component whose weighted negative log-likelihood is not larger than any other's, and it is -1 exactly when there is no (likely) component. Every component takes part in the comparison and no component that does not exist is ever accessed.",
     ["inputs", "histories"], "all component counts up to three exactly, every count for the loop, and all weights, measurements and information matrices",
     "No test covers the edges; a wrong selection still optimises to something plausible.",
     [MX + "edge_se2_mixture.cpp", MX + "edge_se2_pointxy_mixture.cpp"], [("computeBestEdge, computeError, linearizeOplus", MX)])
prop("M02", "Mixture components, weights and determinants stay parallel",
     "After setting or reading n components a mixture edge holds exactly n components, n weights and n covariance determinants, whatever it held before, and entry i of each belongs to component i: the given edge, the given weight and the determinant of that edge's covariance.",
     ["inputs", "histories"], "every previous state and n in 0..3 components",
     "Stale entries only appear when an edge is re-initialised or read twice.",
     [MX + "edge_se2_mixture.cpp", MX + "edge_se2_pointxy_mixture.cpp"], [("initializeComponents, read", MX)])
prop("M03", "A mixture edge presents exactly the selected component",
     "Whenever a component is selected, the edge's vertices, measurement, inverse measurement and information are those of that component, and error and Jacobians are evaluated after the switch, so optimizer and edge always see one component. getComponent(i) is component i.",
     ["histories"], "every selection among up to three components after every earlier selection",
     "An edge that mirrors half of one component and half of another produces finite but wrong numbers.",
     [MX + "edge_se2_mixture.cpp", MX + "edge_se2_pointxy_mixture.cpp"], [("UpdateBelief, computeError, linearizeOplus, getComponent", MX)])
prop("W01", "The switch variable has one value, always in [0,1] after a step",
     "VertexSwitchLinear starts at 0, oplus adds the increment and saturates the result to [0,1], setEstimate and setToOrigin set it, and x() - the value the switchable edges use - is always the estimate the optimizer saves and restores.",
     ["inputs", "histories"], "all increments and estimates, and every sequence of steps and restores",
     "A diverging copy only shows after the optimizer rejects a step.",
     [SW + "vertex_switchLinear.cpp"], [("oplusImpl, setEstimate, x", SW)])
prop("W02", "Switchable edges scale error and use exact Jacobians",
     "The error of EdgeSE2Switchable is s times the SE2 residual of its measurement (s the switch value) and its Jacobians are the exact derivatives with respect to both poses and s; its inverse measurement is always the inverse of the measurement. EdgeSwitchPrior's error is measurement minus switch value with derivative -1.",
     ["inputs"], "all poses, measurements and switch values",
     "Wrong Jacobian entries only slow or bias the optimizer.",
     [SW + "edge_se2Switchable.cpp", SW + "edge_switchPrior.cpp"], [("computeError, linearizeOplus, setMeasurement, read", SW)])
prop("S01", "Records of the optimizer types can be read back",
     "For the switch vertex, switch prior, switchable edge and both mixture edges, write() emits blank-separated values such that the k-th value written is the value read() takes k-th, with the same number of values for every component count.",
     ["inputs"], "every state read() can produce, mixture edges with up to two components",
     "No test writes a record and reads it back; dropped or swapped fields go unnoticed until a saved graph is loaded.",
     [SW + "edge_se2Switchable.cpp", SW + "edge_switchPrior.cpp", SW + "vertex_switchLinear.cpp", MX + "edge_se2_mixture.cpp", MX + "edge_se2_pointxy_mixture.cpp"], [("read, write", SW + ", " + MX)])
prop("S02", "read and write report stream failures",
     "read() and write() of the switch vertex, switch prior, switchable edge and both mixture edges return true exactly when the stream was still good after the last value.",
     ["fault_sequences", "inputs"], "every stream state after every value",
     "Truncated graph files are not among the tests.",
     [SW + "edge_se2Switchable.cpp", SW + "edge_switchPrior.cpp", SW + "vertex_switchLinear.cpp", MX + "edge_se2_mixture.cpp", MX + "edge_se2_pointxy_mixture.cpp"], [("read, write", SW + ", " + MX)])
prop("S03", "Optimizer types are registered under their own tags",
     "EdgeSwitchPrior, EdgeSE2Switchable and VertexSwitchLinear are each registered in g2o's factory, under the one-word tags EDGE_SWITCH_PRIOR, EDGE_SE2_SWITCHABLE and VERTEX_SWITCH of the graph file format, and no tag names two types.",
     ["configurations"], "every registration in the built sources",
     "No test loads a graph file; exchanged tags make the loader create elements of the wrong type.",
     [SW + "types_g2o_robust.cpp"], [("G2O_REGISTER_TYPE", SW + "types_g2o_robust.cpp")],
     tech="query over the namespace-scope objects of the type-checked program: registration proxies, their type argument and tag literal",
     note="Every registration object of the analysed sources is enumerated; registrations made by hand instead of by a proxy object are reported as undecided.")
RT = H + "registration/ndt_reg_tools.h"
CI = H + "utils/covariance_inverse.h"
ST = H + "utils/string_tools.h"
VH0 = H + "ndt/voxel_grid2d.h"
prop("R01", "Registration scores accumulate exactly",
     "A new or zeroed ScoreAndDerivatives (and JacobianHessianDerivatives) is zero in every component, and += and + add value, gradient and Hessian component by component, so the total score of a scan does not depend on how the cells are grouped.",
     ["inputs", "schedules"], "every partial result and every grouping of the reduction",
     "The class has no test, and a component that is dropped or not reset only biases the optimizer.",
     [RT], [("ScoreAndDerivatives, operator+=, operator+, JacobianHessianDerivatives", RT)])
prop("R02", "The line search follows the More-Thuente rules",
     "updateIntervalMT replaces the interval ends exactly as cases U1-U3 of More-Thuente prescribe, and reports convergence only (and without changing anything) when none applies; trialValueSelectionMT returns the trial value of the case its arguments fall in, and the auxiliary functions are psi and its derivative.",
     ["inputs"], "every interval, trial point, function value and derivative",
     "Which of the cases is taken depends on inequalities between nine reals; the registration still converges, only worse, when one is wrong.",
     [RT], [("updateIntervalMT, trialValueSelectionMT, auxilaryFunction_PsiMT, auxilaryFunction_dPsiMT", RT)])
prop("R03", "Mixture fit parameters follow the model",
     "FittingParams computes gauss_d1, gauss_d2 and its half from outlier ratio and resolution by eq. 6.8 of Magnusson 2009, for every ratio and resolution.",
     ["inputs"], "every outlier ratio and resolution",
     "The class has no test and errors in the constants change only how fast scores fall off.",
     [RT], [("FittingParams", RT)])
prop("R04", "Registration poses and matrices agree",
     "ndt_reg::vecToMat builds the planar rigid motion of a pose as a 4x4 matrix and matToVec recovers position and heading (up to whole turns) from it, for single and double precision alike.",
     ["inputs"], "every pose", "Symmetric special angles hide swapped entries.",
     [RT], [("vecToMat, matToVec", RT)])
prop("C01", "Covariance inversion conditions singular matrices",
     "covarInverse reports false exactly when the covariance has no positive spread; otherwise it raises every eigenvalue below a hundredth of the largest one to that value, keeps the others and all eigenvectors, leaves a well conditioned covariance as it is, and returns the inverse of the adjusted covariance.",
     ["inputs"], "every symmetric covariance, grouped by how many eigenvalues are too small",
     "It takes covariances with particular spectra (one, two or no small eigenvalue, negative ones) in general orientation to see a difference.",
     [CI], [("covarInverse", CI)])
prop("H01", "Headers can be included by several sources",
     "Every function and variable that a header of the package defines may be defined in several translation units (it is inline, a template, a member defined in its class or has internal linkage), so any two sources including it link.",
     ["configurations"], "every set of sources of a node using the headers",
     "Each test is a single translation unit, which cannot show a duplicate definition.",
     [RT, ST, H + "utils/msgs_conversions.h", H + "ndt/ndt_cell.h"], [("function definitions", H)])
prop("H02", "No function runs into undefined control flow",
     "No function of the package can reach its end without returning the value it promises, read a local variable that was never set, return a reference to one of its own locals, or modify an object twice without sequencing.",
     ["inputs"], "every path of every function",
     "Such a path is only taken for inputs no test uses, and then may still appear to work.",
     [H, "ndt_gslam/src"], [("function bodies", "all analysed headers and sources")])
prop("H03", "New objects have determinate members",
     "Every constructor written in the package sets every scalar or pointer member that any function reads.",
     ["inputs", "histories"], "every constructor",
     "An unset member holds whatever was in memory, often zero in a test.",
     [H, MX + "edge_se2_mixture.cpp"], [("constructors", "all analysed classes")])
prop("H05", "Everything the headers declare exists and compiles",
     "Every member of Graph, Node, Edge and their iterators, VoxelGrid2D and ScoreAndDerivatives and every function template of eigen_tools, ndt_reg_tools and covariance_inverse compiles for single and double precision, whether or not the package uses it. Every header that needs neither ROS nor PCL compiles when included alone, and every function declared by an analysed class or header is defined.",
     ["programs", "configurations"], "every use of the public headers, of any member, in any order of inclusion",
     "Members of templates nobody instantiates are never compiled by the tests.",
     [PG, VH0, RT, ET, CI], [("templates and declarations", H)],
     tech="compile-time witnesses: explicit instantiation of every template and each header alone, type-checked by the compiler; query for declared but undefined functions",
     note="The compiler's type check is complete for the listed instantiations (element type NDTCell, policy Slam2d, dimensions 3 and 6, float and double); headers needing ROS or PCL, which are not installed, are left out.")
prop("H04", "split is lossless and terminates",
     "split(data, token) returns the pieces of data between non-overlapping occurrences of token taken from the left, so joining them with token gives data again; text without the token is one piece and an empty token yields the text itself. It terminates for every text and token.",
     ["inputs"], "every text and token, including empty ones and tokens at either end",
     "split has no test; termination cannot be shown by examples.",
     [ST], [("slamuk::split", ST)])
CE = "ndt_gslam/src/ndt/ndt_cell.cpp"
CH = H + "ndt/ndt_cell.h"
prop("N01", "Cell occupancy stays in range and adds up evidence",
     "The occupancy evidence of an NDT cell starts at 0 and never leaves [-1,1]; computeGaussian and merging raise it by the log-odds 0.405465108 per point, limited to that range. getOccupancy reads it back as -1 when negative and as whole percent otherwise, and setOccupancy stores a percentage scaled to [0,1] or -1.",
     ["histories", "inputs"], "every sequence of cell operations and every percentage",
     "Saturation and the sign boundaries only show after particular numbers of updates; no test touches them.",
     [CE, CH], [("NDTCell::computeGaussian, operator+=, updateOccupancy", CE), ("getOccupancy, setOccupancy", CH)])
prop("N02", "Cell covariances stay conditioned and invertible",
     "Whenever a cell replaces its covariance the new one has its two smaller eigenvalues raised to a hundredth of the largest, the stored inverse is the inverse of exactly that covariance, and the cell counts as having a distribution only when no eigenvalue is negative and the largest is positive (and, when merging, the evidence is not negative). A distribution never appears without a new covariance.",
     ["inputs", "histories"], "every symmetric covariance a point set, a merge or a rotation can produce",
     "It takes covariances with particular spectra to leave the well-conditioned path, and stale inverses only bias later scores.",
     [CE], [("rescaleCovar as used by computeGaussian, operator+=, transform", CE)])
prop("N03", "Cell statistics equal those of all points ever added",
     "computeGaussian needs six points and positive evidence; it then yields mean and regularised covariance of the collected points, pooled with an existing distribution by the exact two-sample formulas, and consumes the points. Merging cells pools their distributions the same way, ignores a cell without distribution or with at most two points, copies the other cell when it has none itself, and point counts add up to at most 10^9.",
     ["inputs", "histories"], "every number and position of points and every history of additions and merges",
     "A wrong weight only shifts the pooled values slightly; the tests compare no pooled statistics.",
     [CE], [("NDTCell::computeGaussian, NDTCell::operator+=", CE)])
prop("N04", "Cells move, export and construct faithfully",
     "transform moves the mean rigidly, turns the covariance by the rotation and leaves a cell without distribution alone; serialize copies mean, covariance, raw occupancy and point count; a new cell is empty with zero mean, unit covariances and no distribution. Getters, setters and addPoint touch exactly their own field, addPoint appending at the end.",
     ["inputs"], "every rigid transform and cell",
     "A transposed rotation or exchanged field goes unnoticed for the identity-like values in tests.",
     [CE, CH], [("NDTCell::transform, serialize, NDTCell()", CE), ("accessors, addPoint", CH)])
prop("N05", "Ray updates weigh a cell by its best point on the ray",
     "updateOccupancy(start,end,n) lowers a cell without distribution by 0.2 per point, confirms a cell whose mean is the end point (within 0.01), and otherwise adds n*log((1-l)/l) with l = 0.5+0.1*L*(1-exp(-d^2/(2*0.01^2))), L the likelihood of the most likely point of the line through the ray and d its distance to the end. A ray without direction or likelihood gradient changes nothing, a cell brought to 0 or below loses its distribution, one above keeps it, and nothing else changes.",
     ["inputs"], "every ray, mean, inverse covariance, occupancy and number of points",
     "The likelihood depends on the geometry of ray and covariance; examples fix a handful.",
     [CE], [("NDTCell::updateOccupancy, calcMaxLikelihoodOnLine", CE)])

VN = "Interpreted from the current source over symbolic points, cell sizes and cell contents for an enumerated family of grid extents (up to 5x5), targets, translations, windows and rays, whose loops are followed to their end; the addressing itself (V01) holds for every extent. Reals are assumed for coordinates; constructs the interpreter cannot follow are reported as undecided in the evidence and raise nothing."
VH = "ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h"
prop("V01", "Every point of the grid addresses exactly one cell",
     "For cell size s and a grid with l, r, u, d cells left, right, up and down of its central cell, a point is inside exactly when it is in a cell of columns -l..r and rows -d..u, where column k spans [ks-s/2, ks+s/2) and row m spans (ms-s/2, ms+s/2]. Lookup, test and removal of such a point use slot (u-m)*width + k + l, its centroid is (ks, ms), and points outside reach no slot. width and height count the centre and both sides, and setting the cell size keeps its cached half in step.",
     ["inputs"], "every point, cell size and grid extent",
     "Tests probe a few points of a few grids; the borders of cells and of the grid are where the two sides of the code disagree.",
     [VH], [("isInside, calcCoordinates, calcIndex, getCentroid, cellExists, getCellPtr, removeCell, operator[]", VH)], note=VN)
prop("V02", "The grid's count of valid cells is always right",
     "After construction, copying, adding, removing, tracing a ray, growing, moving or clearing, validCells() is the number of existing cells. removeCell reports whether there was a cell and removes just that one; clear empties every slot and keeps the extent.",
     ["inputs", "histories"], "every operation on every content of a grid",
     "The count is kept by hand in each operation and by some only on rare paths, so a test sees a drift only when it takes that path and counts.",
     [VH], [("addCell, removeCell, rayTrace, translate, clear", VH)], note=VN)
prop("V03", "Growing and moving keep every cell in its place",
     "enlarge(minx,miny,maxx,maxy) and addCell grow the extent just enough to contain the rectangle or point, never shrink it, and leave every cell at its column and row. translate moves every cell by the given columns and rows, dropping exactly those that leave the grid when discarding and growing by the distance moved when not. The storage always has width x height slots.",
     ["inputs", "histories"], "every grid content, target rectangle and translation",
     "The index arithmetic of each direction differs; a mistake shows only for particular shapes and directions.",
     [VH], [("enlarge, enlargeGrid, calcInc*, translate, move*, addCell", VH)], note=VN)
prop("V04", "Grid copies are deep and independent",
     "Copy construction and assignment give the same extent, cell size and count and an own cell, equal in value, for every existing cell of the original, which stays as it is; assignment to itself changes nothing. clone gives a grid of the same cell size with a single central cell.",
     ["inputs"], "every grid content",
     "A shared, missing or surplus cell matters only for contents with gaps or for later changes.",
     [VH], [("copy constructor, operator=, clone", VH)], note=VN)
prop("V05", "A traced ray is the gap-free run of cells before its end",
     "rayTrace returns nothing and changes nothing when the start is outside. Otherwise it returns existing (if needed new) cells of the grid that the segment passes, beginning with the start's cell, each a neighbour of and different from the one before, without the cell of the end, and covering every column (row for a steep ray) between start and end as long as the ray is inside. Existing cells and the extent stay.",
     ["inputs"], "every start, end and grid content",
     "The stepping depends on slope, length and borders; tests trace a few rays.",
     [VH], [("rayTrace", VH)], note=VN)
prop("V06", "Grid operations stay within their storage",
     "No public operation other than operator[] accesses a slot beyond the storage or uses a missing cell. cellExists, getCellPtr and removeCell answer false or null for a missing cell or a point outside and otherwise concern exactly the cell there.",
     ["inputs", "histories"], "every operation, point and grid content",
     "An access past the end often goes unnoticed at run time and depends on shape and content.",
     [VH], [("all public operations of VoxelGrid2D", VH)], note=VN)
prop("V07", "Neighbourhoods and cell lists are complete",
     "getNeighbors returns every existing cell at most radius columns and rows away from the point's cell once, and nothing for a point outside. getValidCells and getValidCellsPtr return every existing cell once, the former as equal copies.",
     ["inputs"], "every point, radius and grid content",
     "Windows clipped at the borders and contents with gaps are rarely sampled.",
     [VH], [("getNeighbors, getValidCells, getValidCellsPtr", VH)], note=VN)
prop("V08", "Adding a cell merges or replaces as asked",
     "addCell puts a cell of the given value at a free place; at an occupied place it merges the given cell into the existing one exactly once when merging and otherwise replaces its value. Both overloads agree.",
     ["inputs"], "every place, content and cell",
     "The two overloads and both modes are separate code paths.",
     [VH], [("addCell (both overloads)", VH)], note=VN)

def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech, na=reason)


na("X01", "Graph optimisation reduces the error of the graph",
   "Optimising a connected pose graph never increases its total squared error and leaves poses that agree with all consistent measurements.",
   ["inputs"], "every connected graph",
   "The tests optimise one small graph with a known answer.",
   [H + "slam_optimizer/graph_slam_interfaces.h"], [("Gauss-Newton / g2o back ends", "ndt_gslam/src/slam_optimizer")],
   "descent and convergence depend on the conditioning of run-time data and on the numerical solver (g2o, sparse Cholesky); no static argument in reach bounds them. The exactness of residuals and Jacobians the optimizer is fed with is A03/W02.")
na("X02", "Registration recovers the displacement between two scans",
   "For overlapping scans and a sufficiently good guess the registration ends at the true displacement within its stated tolerance.",
   ["inputs"], "every pair of overlapping scans",
   "The tests register two recorded scans.",
   [H + "registration"], [("registration of scans against NDT grids", H + "registration")],
   "accuracy and the basin of attraction of a local optimiser are statements about measured data; they cannot be read off the source. Its formulas are R01-R04.")
na("X03", "Graph files reproduce numeric values exactly",
   "Writing a graph and reading it back yields the same estimates, measurements and information matrices bit by bit.",
   ["inputs"], "every finite value",
   "Tests use short decimals.",
   [S + "slam_optimizer"], [("read/write of g2o types", S + "slam_optimizer")],
   "the number of digits is run-time state of the stream which the caller (g2o) owns; the sequence and separation of values, which the package owns, is S01.")
na("X04", "Accepted loop closures are true ones",
   "The loop detector proposes only pairs of nodes that see the same place.",
   ["inputs"], "every environment and trajectory",
   "Only data can show it.",
   [H + "slam_optimizer/loop_detector.h"], [("loop detection", H + "slam_optimizer/loop_detector.h")],
   "a statistical statement about sensor data; the code also needs PCL and ROS headers, which are not installed, so it cannot be parsed.")
na("X05", "The mapping node keeps up with the sensors",
   "Scans are integrated in bounded time and no scan is lost at the configured rate.",
   ["schedules"], "every message timing",
   "Tests do not run the node.",
   [S + "graph_slam2d_node.cpp"], [("node callbacks", S + "graph_slam2d_node.cpp")],
   "timing on a target machine is not a function of the source, and the ROS sources of the node cannot be parsed here.")
