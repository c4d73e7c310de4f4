p("K01", "Every node pose follows from base pose, joint values and the kinematic tree",
  "After any sequence of joint updates and base placements on any kinematic tree, the global pose of every joint, body and sensor equals the base pose composed, along its chain, with the fixed transformations and the joint motions (rotation about the joint axis by value plus offset, or displacement along the joint direction by value plus offset, or none). "
  "Poses expressed in another frame, in the base frame or relative to another node agree with those global poses, and placing the robot so that a chosen node takes a given pose puts that node exactly there.",
  ["histories", "inputs", "configurations"],
  "all operation sequences up to a depth over a family of trees with revolute, prismatic and fixed nodes, boundary joint values and several base poses",
  "Tests load a few robots and set one configuration; a stale pose or a wrong composition appears only after particular sequences of updates on particular tree shapes.",
  [V + "Robot.cpp", V + "Nodes/RobotNode.cpp", V + "Nodes/RobotNodeRevolute.cpp", V + "Nodes/RobotNodePrismatic.cpp", V + "SceneObject.cpp"],
  [("pose propagation along the tree", V + "Nodes/RobotNode.cpp updatePose/updateTransformationMatrices"), ("base placement", V + "Robot.cpp setGlobalPose*")],
  ["getGlobalPose", "getPoseInRootFrame", "toLocalCoordinateSystem"])

p("K02", "Joint values: what is set is what is read back, within the joint's limits",
  "A joint value that lies within the limits is reported back unchanged whichever way it is set (single joint, joint set, whole configuration, stored configuration), values outside are moved to the nearest limit, and a joint without limits keeps an equivalent angle in its range; joints that were not addressed keep their value. "
  "A joint that propagates its value to others sets each of them to its own value times the given factor (within their limits) whenever it is set on its own.",
  ["histories", "inputs"],
  "all sequences of set operations up to a depth through every public setter over boundary values of every joint kind",
  "Tests use a handful of values through one setter; the setters are separate code paths that must agree.",
  [V + "Nodes/RobotNode.cpp", V + "Robot.cpp", V + "RobotNodeSet.cpp", V + "RobotConfig.cpp"],
  [("clamping", V + "Nodes/RobotNode.cpp setJointValueNotInitialized"), ("set operations", V + "RobotNodeSet.cpp setJointValues")],
  ["getJointValue", "getJointValues", "getConfig"])

p("K03", "Attaching, detaching and moving scene objects keeps tree and poses consistent",
  "At all times an object is listed among its parent's children exactly once and names that parent, and whenever the parent is placed everything below it is placed as well: plain objects take their parent's pose, links and sensors the parent's pose composed with their own fixed transformation and joint motion. "
  "Attaching an object that already has a parent, attaching it to itself, to one of its own descendants or beside a child of the same name, and detaching a non-child are refused without changing anything; attaching and detaching leave the object where it was.",
  ["histories"],
  "all operation sequences up to a depth of attach, detach, move parent, move child over a small set of objects and robot nodes",
  "The guarantee is about arbitrary histories of attach/detach/move; tests run a single one.",
  [V + "SceneObject.cpp", V + "Nodes/RobotNode.cpp"],
  [("attach/detach", V + "SceneObject.cpp attachChild/detachChild"), ("pose update", V + "SceneObject.cpp updatePose")],
  ["getParent", "getChildren", "getGlobalPose"])

p("K04", "A cloned robot equals its original and is independent of it",
  "A clone of a robot, of a sub-part of it, or of an object has the same nodes with the same kinematics, limits, physics, sensors, node sets and end effectors, and for equal joint values and base pose all its poses coincide with the original's; with a scaling factor its fixed transformations, bodies, sensor placements and centres of mass scale by it while joint values and limits stay. "
  "Afterwards no operation on one of the two changes any observable value of the other.",
  ["histories", "configurations"],
  "all trees of the family, all sub-parts, and all sequences of operations on original and clone up to a depth",
  "Independence has to hold after any later operation on either copy, and completeness for every attribute.",
  [V + "Robot.cpp", V + "RobotFactory.cpp", V + "Nodes/RobotNode.cpp", V + "RobotNodeSet.cpp", V + "EndEffector/EndEffector.cpp"],
  [("clone", V + "Robot.cpp extractSubPart/clone"), ("node clone", V + "Nodes/RobotNode.cpp clone")],
  ["getGlobalPose", "getRobotNodes", "getEndEffectors"])

p("X05", "Saving a robot as XML and loading it again gives the same robot",
  "A robot written to its XML form and read back has the same nodes in the same tree with the same fixed transformations, joint kinds, axes, limits, offsets, limitless flags, propagation factors, physical data and sensors, and the same node sets (members, root, tool centre point) and end effectors, to the precision of the file. "
  "Equal joint values therefore give equal poses before and after.",
  ["configurations", "inputs"],
  "all combinations of the attributes of a robot description up to a bound",
  "There is no test that round-trips a robot; an attribute that writer or reader drops shows only when that attribute is used.",
  [V + "XML/RobotIO.cpp", V + "XML/BaseIO.cpp", V + "Nodes/RobotNode.cpp", V + "RobotNodeSet.cpp"],
  [("writer", V + "Robot.cpp toXML"), ("reader", V + "XML/RobotIO.cpp")], ["loadRobot", "toXML"])

p("X06", "Robot descriptions mean the same however they are written",
  "Equivalent notations in a robot description - a transformation as matrix, as roll/pitch/yaw, as quaternion or by Denavit-Hartenberg parameters, and a quantity in any of its units (m, mm, degree, radian, kg, g, t, s, min, h) - produce the same robot. "
  "A description that is cut off, a value that is not a number, a unit that does not exist, a missing required attribute, a duplicate or contradictory node, joint or limit, and a reference from the structure, a node set or an end effector to a node that does not exist are refused with an error and never replaced by some other value.",
  ["inputs", "configurations"],
  "all combinations of notation and unit for every quantity of the description language, with boundary values, and all single-element corruptions of a description",
  "Tests parse a handful of descriptions; notation and unit are handled per element.",
  [V + "XML/BaseIO.cpp", V + "XML/RobotIO.cpp", V + "Units.h"], [("units", V + "Units.h"), ("parser", V + "XML/BaseIO.cpp")], ["createRobotFromString"])

p("X07", "Scenes, objects, grasps and trajectories survive saving and loading",
  "A scene, obstacle, manipulation object with its grasp sets, robot configuration or trajectory written to XML and read back is the same: names, poses, configurations, sets, grasps with their poses, qualities and preshapes, and trajectory points in order. "
  "Saving and loading again changes nothing more, files referred to are found beside the description, and a save that could not write everything reports that.",
  ["configurations", "inputs", "fault_sequences"],
  "all combinations of present and absent parts with boundary values up to a bound",
  "Tests cover a single instance of a few of them.",
  [V + "XML/SceneIO.cpp", V + "XML/ObjectIO.cpp", V + "Scene.cpp", V + "ManipulationObject.cpp", V + "Grasping/GraspSet.cpp", V + "Trajectory.cpp"],
  [("scene", V + "XML/SceneIO.cpp"), ("objects", V + "XML/ObjectIO.cpp")], ["loadScene", "loadManipulationObject"])

p("T08", "A joint trajectory is an edited list of points with linear interpolation",
  "Any sequence of edits leaves the trajectory with exactly the points, in the order, that the edits describe. "
  "Its length is the sum of the distances of consecutive points, a position at relative time t is the point at that fraction of the length along the connecting segments, and cloning, reversing and taking a part give what they name without changing the original.",
  ["histories", "inputs"], "all edit sequences up to a depth with boundary points (repeated points, single point) and all boundary times",
  "Tests do not edit or interpolate trajectories systematically.", [V + "Trajectory.cpp"], [("editing and interpolation", V + "Trajectory.cpp")], ["getPoints", "interpolate"])

p("C09", "C-space metric, interpolation and search tree are mutually consistent",
  "Distance in configuration space is symmetric, zero exactly for equal configurations, takes the short way round for joints without limits, and applies the joint weights; interpolating between two configurations stays on that short way and reaches both ends. "
  "A search tree always returns a nearest stored configuration for this metric, and its parents, path lengths and node count always reflect the nodes added and removed so far.",
  ["histories", "inputs", "configurations"], "all sequences of tree operations up to a depth and all pairs of grid configurations, for each border and weight setting",
  "Tests sample nothing of this directly.", [M + "CSpace/CSpace.cpp", M + "CSpace/CSpaceTree.cpp", M + "CSpace/CSpacePath.cpp"],
  [("metric", M + "CSpace/CSpace.cpp calcDist/interpolate"), ("tree", M + "CSpace/CSpaceTree.cpp")], ["getNearestNeighbor", "calcDist"])

p("P10", "A planner's solution is collision free and joins the requested start and goal",
  "Whenever a planner reports success, the path it returns begins at the requested start, ends at the requested goal, and every configuration on it, checked at the sampling resolution that was set, is within the joint limits and free of collision and of violated constraints. "
  "It reports failure otherwise, and after new start or goal values, a reset or an aborted run, results never refer to the previous problem.",
  ["histories", "schedules", "inputs"], "all sequences of planner calls up to a depth, with the random decisions of the planner enumerated, over small planning problems",
  "The planners are randomised; tests plan once or twice with a fixed seed.", [M + "Planner/Rrt.cpp", M + "Planner/BiRrt.cpp", M + "Planner/MotionPlanner.cpp", M + "CSpace/CSpaceSampled.cpp"],
  [("planning", M + "Planner/Rrt.cpp plan"), ("bidirectional planning", M + "Planner/BiRrt.cpp plan"), ("path check", M + "CSpace/CSpaceSampled.cpp isPathValid")], ["getSolution"])

p("P11", "Post-processing a path keeps its ends and its validity",
  "An optimised path starts and ends where the given path does, whatever the random decisions and whenever it is stopped; shortcutting and pruning keep it collision free and never make it longer; the path that was passed in is not modified.",
  ["schedules", "inputs"], "all choices of the random shortcut candidates over small paths and obstacle layouts",
  "The result depends on random candidate choices; tests run none or one.", [M + "PostProcessing/ShortcutProcessor.cpp", M + "PostProcessing/ElasticBandProcessor.cpp", M + "CSpace/CSpacePath.cpp"],
  [("shortcutting", M + "PostProcessing/ShortcutProcessor.cpp")], ["optimize"])

p("P12", "Background planning and optimisation can be started, stopped, queried any time",
  "For every interleaving of a client that starts, stops, queries and destroys a background planning or optimisation run with the run itself: calls return, a stop request ends the run promptly, the running state is eventually reported correctly, and a reported result is the one of a completed run. "
  "No interleaving leads to a data race on the shared state, a deadlock or a crash.",
  ["schedules"], "all interleavings of client and worker thread up to a preemption bound, for all client call sequences up to a depth",
  "Thread timing is decided by the operating system; tests never vary it.", [M + "Planner/PlanningThread.cpp", M + "PostProcessing/PathProcessingThread.cpp", M + "Planner/MotionPlanner.cpp"],
  [("worker control", M + "Planner/PlanningThread.cpp")], ["isRunning", "getProcessedPath"])

p("R13", "Concurrent users of one robot see whole updates",
  "When several threads set joint values, base pose or configuration of one robot and query it, every query of a pose, of a configuration, of a centre of mass and every clone sees the state between two complete updates, in an order that respects real time, never a mixture of two. "
  "With thread safety enabled there is no deadlock and no data race for any interleaving.",
  ["schedules"], "all interleavings of two and three threads up to a preemption bound, for all pairs of operations",
  "Tests are single threaded.", [V + "Robot.cpp", V + "Nodes/ConditionedLock.h", V + "Nodes/RobotNode.cpp"],
  [("robot lock", V + "Robot.cpp getWriteLock/getReadLock")], ["getGlobalPose", "getConfig"])

p("D14", "Collision and distance queries agree with the geometry",
  "Two triangle meshes are reported as colliding exactly when some pair of their triangles intersects (up to the numerical tolerance), and the reported distance is the smallest distance between them, attained by the reported pair of surface points, for every placement and every order and history of queries. "
  "Results do not depend on the order of the arguments, on sets versus single objects, or on earlier queries.",
  ["inputs", "histories"], "all placements on a grid of poses of a family of small meshes, all pairs, and query/move histories up to a depth",
  "Tests check a few box placements; the answer must hold for all placements.", [V + "CollisionDetection/CollisionChecker.cpp", V + "CollisionDetection/PQP/CollisionCheckerPQP.cpp", V + "CollisionDetection/PQP/PQP++/PQP.cpp", V + "CollisionDetection/CollisionModel.cpp"],
  [("PQP wrapper", V + "CollisionDetection/PQP/CollisionCheckerPQP.cpp"), ("bounding volume recursion", V + "CollisionDetection/PQP/PQP++/PQP.cpp")], ["checkCollision", "calculateDistance"])

p("D15", "A collision manager checks exactly the registered pairs",
  "For any history of registering single models, model sets and pairs, the manager reports a collision exactly when some registered pair collides, its distance is the minimum over the registered pairs, attained at the points and models it reports, and it lists exactly the sets that were added. No object is ever checked against itself.",
  ["histories"], "all registration histories up to a depth over objects in colliding and free placements", "Tests use one registration pattern.",
  [V + "CollisionDetection/CDManager.cpp"], [("pair bookkeeping", V + "CollisionDetection/CDManager.cpp")], ["isInCollision", "getDistance"])

p("W16", "The voxel store of a workspace map returns what was stored",
  "For any sequence of writes, increases, clears, merges and copies, every voxel holds the value that the sequence describes, untouched voxels are empty, and number of filled voxels and sums over orientations agree with the contents; the maximum entry is the largest value present or one that was present before. Poses and voxels correspond to each other wherever base and robot are placed, and cuts, filled holes and copies show the stored values.",
  ["histories"], "all operation sequences up to a depth over a small grid including its corners", "Tests write single voxels.",
  [V + "Workspace/WorkspaceDataArray.cpp"], [("storage", V + "Workspace/WorkspaceDataArray.cpp")], ["get", "getMaxEntry"])

p("W17", "Workspace maps survive saving and loading and never load half a file",
  "A reachability or manipulability map that is saved and loaded again gives the same answer for every pose, and the same extents and parameters. "
  "A file that is cut off, or whose compressed data is damaged, is refused with an error and never yields a map with missing or wrong entries; a map that could not be written completely is reported.",
  ["inputs", "crash_points", "fault_sequences"], "all small maps up to a bound, every truncation point of the file and every single damaged byte of its data",
  "The tests do not damage files.", [V + "Workspace/WorkspaceRepresentation.cpp", V + "Workspace/Reachability.cpp", V + "Workspace/Manipulability.cpp"],
  [("file format", V + "Workspace/WorkspaceRepresentation.cpp load/save")], ["load", "getEntry"])

p("W18", "The sparse voxel tree behaves like a map from voxels to values",
  "For any sequence of insertions the tree returns for every position inside its bounds the value last stored in that voxel and nothing elsewhere, iterating visits every stored value exactly once, and saving and loading preserves all of it; positions outside the bounds are refused.",
  ["histories", "inputs"], "all insertion sequences up to a depth on small trees of two to six dimensions", "Tests insert a few points.",
  [V + "Workspace/VoxelTreeND.hpp", V + "Workspace/VoxelTreeNDElement.hpp"], [("tree", V + "Workspace/VoxelTreeND.hpp")], ["getEntry", "setEntry"])

p("Z18", "Compressed data is restored exactly or refused",
  "Data compressed with the run length coder or the block compressor is restored byte for byte, for every content, length and division into pieces when writing and reading, within the documented buffer sizes; the stream then stands right behind the compressed data. "
  "A truncated or altered compressed block stream read to its end never delivers other data without reporting an error, and never crashes.",
  ["inputs", "fault_sequences", "crash_points"], "all short byte strings over small alphabets, all boundary run lengths and lengths around internal buffer sizes, all piece divisions, all truncation points and single byte alterations of representative streams",
  "Tests compress blocks of zeros and of random bytes of one size; the failures are at particular lengths, runs and alignments.",
  [V + "Compression/CompressionRLE.cpp", V + "Compression/CompressionBZip2.cpp"],
  [("run length coder", V + "Compression/CompressionRLE.cpp"), ("block compressor", V + "Compression/CompressionBZip2.cpp")], ["RLE_Uncompress", "read"])

p("M20", "Rotation and pose conversions are consistent",
  "Converting a rotation or pose between matrix, quaternion, roll/pitch/yaw and axis-angle and back gives the same rotation, including at the singular orientations; distances and interpolations between poses are symmetric, reach their ends and take the shorter rotation.",
  ["inputs"], "all orientations of a fine grid of Euler angles and axes including all singular ones, all pairs of a coarser one", "Tests use a few orientations.",
  [V + "MathTools.cpp", V + "math/Helpers.cpp"], [("conversions", V + "MathTools.cpp"), ("helpers", V + "math/Helpers.cpp")], ["eigen4f2rpy"])

p("M21", "Geometric helpers give geometrically correct answers",
  "Distances and projections between points, lines, segments, triangles and planes are the true ones, a computed convex hull contains every input point and only input points as corners, and grids of samples map indices and positions consistently.",
  ["inputs"], "all small point sets and placements on an integer grid", "Tests check single examples.",
  [V + "MathTools.cpp", G + "ConvexHullGenerator.cpp", V + "math/Grid3D.cpp", V + "math/Triangle.cpp", V + "math/Line.cpp"],
  [("2D hull and distances", V + "MathTools.cpp"), ("3D/6D hull", G + "ConvexHullGenerator.cpp")], ["createConvexHull2D"])

p("G22", "Grasp quality reflects force closure",
  "For a set of contacts, the wrench space measure reports force closure exactly when the origin lies inside the hull of the contact wrenches, the quality is the distance of the hull's centre to its nearest facet (relative to that of the whole object, if normalised), and neither depends on the order of the contacts, of the questions or on earlier grasps; contact cones have the specified friction angle and lie around the contact normal.",
  ["inputs"], "all sets of up to a few contacts over a grid of positions and normals", "Tests evaluate one or two grasps.",
  [G + "GraspQuality/GraspQualityMeasureWrenchSpace.cpp", G + "ContactConeGenerator.cpp", G + "ConvexHullGenerator.cpp"],
  [("wrench hull", G + "GraspQuality/GraspQualityMeasureWrenchSpace.cpp")], ["calculateGraspQuality"])

p("G23", "Grasp transformations and grasp sets",
  "The tool pose of a grasp for an object pose and the object pose for a tool pose are inverse to each other, and a grasp set or object holds exactly the grasps and sets added and not removed, in order; including another set adds no duplicates; clones are equal and independent.",
  ["histories", "inputs"], "all add/remove/clone sequences up to a depth and a grid of poses", "Tests cover one example.",
  [V + "Grasping/Grasp.cpp", V + "Grasping/GraspSet.cpp", V + "ManipulationObject.cpp"], [("grasp sets", V + "Grasping/GraspSet.cpp")], ["getTcpPoseGlobal"])

p("S24", "A scene and its object sets are consistent registries",
  "After any sequence of registering, deregistering and looking up robots, obstacles, manipulation objects, trajectories, sets and configurations, a scene holds exactly what was registered and not removed, finds it by name, and refuses duplicates; an object set contains exactly the distinct objects added and not removed.",
  ["histories"], "all operation sequences up to a depth", "Tests run one sequence.",
  [V + "Scene.cpp", V + "SceneObjectSet.cpp"], [("registries", V + "Scene.cpp")], ["hasRobot", "getObstacles"])

p("I25", "An inverse kinematics success is a real solution",
  "Whenever a solver reports success, the joint values it leaves are within the joint limits and the tool centre point is at the target within the requested tolerance, for every target and start configuration; a failed attempt is reported as failure.",
  ["inputs", "configurations"], "all targets of a grid and all start configurations of a grid, for several kinematic chains and all solver modes", "Tests solve single targets.",
  [V + "IK/DifferentialIK.cpp", V + "IK/GenericIKSolver.cpp", V + "IK/ConstrainedIK.cpp", V + "IK/CoMIK.cpp"], [("solver loop", V + "IK/DifferentialIK.cpp")], ["solve"])

p("J26", "Jacobians and centres of mass match the kinematics",
  "Every analytic Jacobian (tool position and orientation in any coordinate system and for any tool centre point, centre of mass, constraints) equals the derivative of the quantity it belongs to with respect to the joint values, and the centre of mass is the mass weighted mean of the bodies.",
  ["inputs", "configurations"], "all configurations of a grid over a family of chains, all selectable parts and frames", "Tests compare one Jacobian on one robot.",
  [V + "IK/DifferentialIK.cpp", V + "IK/CoMIK.cpp", V + "Robot.cpp"], [("jacobian", V + "IK/DifferentialIK.cpp getJacobianMatrix")], ["getJacobianMatrix"])

p("O27", "Time optimal trajectories respect path and limits",
  "A path through waypoints starts and ends at the first and last of them, is continuous, parametrized by its length and stays within the allowed deviation of the waypoints. A valid time optimal trajectory along it starts and ends there at rest, follows it, never exceeds the velocity limits nor (where the path has no corner) the acceleration limits, takes as long as the fastest motion within the limits, and answers for a time do not depend on earlier questions. Paths without reversals have a trajectory.",
  ["inputs"], "all waypoint sequences up to a length on a grid with several limits", "Tests use a handful of waypoint lists.",
  [V + "TimeOptimalTrajectory/TimeOptimalTrajectory.cpp", V + "TimeOptimalTrajectory/Path.cpp"], [("phase plane integration", V + "TimeOptimalTrajectory/TimeOptimalTrajectory.cpp")], ["getPosition"])

p("B28", "Bounding boxes and mesh operations keep the geometry",
  "A bounding box contains exactly the extremes of the points given to it, also after transformation and scaling, and operations on triangle meshes (scaling, merging close corners, removing unused ones, flipping and orienting, adding meshes, colours and normals, fattening, cloning) keep the surface they describe: corners, colours, normals, areas and extents.",
  ["inputs", "histories"], "all small point sets and meshes, all operation sequences up to a depth", "Tests check one or two shapes.",
  [V + "BoundingBox.cpp", V + "Visualization/TriMeshModel.cpp"], [("box", V + "BoundingBox.cpp"), ("mesh", V + "Visualization/TriMeshModel.cpp")], ["addPoint"])

p("E29", "Closing a hand stops at contact and reports the contacts",
  "Closing an end effector moves each finger joint monotonically in its closing direction until contact or limit, never leaves a joint beyond its limits, and reports exactly the fingers that touch; opening and preshapes restore the stored values.",
  ["histories", "inputs"], "all open/close/preshape sequences up to a depth over obstacle placements on a grid", "Tests close a hand once.",
  [V + "EndEffector/EndEffector.cpp", V + "EndEffector/EndEffectorActor.cpp"], [("closing loop", V + "EndEffector/EndEffectorActor.cpp")], ["closeActors"])

p("U30", "Data file lookup and command line options",
  "A data file is found exactly when it exists below one of the registered data paths (or at the given path), the first registered path wins, and relative and absolute path conversion are inverse; options given on the command line are returned as given, and unknown ones are kept apart.",
  ["histories", "inputs"], "all directory layouts and path registrations up to a bound, all option lists up to a length", "Tests use one layout.",
  [V + "RuntimeEnvironment.cpp", V + "XML/BaseIO.cpp"], [("lookup", V + "RuntimeEnvironment.cpp getDataFileAbsolute")], ["getDataFileAbsolute"])

p("Y31", "The physics world holds exactly the added objects and mirrors their poses",
  "After any sequence of adding, adding again, removing, attaching and detaching objects and robots, the physics world simulates exactly the bodies and joints of what was added and not removed, each once, and a second wrapper of a robot is refused. "
  "A pose or position set on an object or robot is the pose of both the simulated body and the model, the model follows the simulation, simulated bodies have the extent of their models, joint values in the simulation and in the model agree and actuated joints reach their targets. "
  "Bodies touch exactly if their collision is enabled, and the floor, the gravity and the friction are the ones requested.",
  ["histories"], "all operation sequences up to a depth over boxes and a small robot", "Tests build one world.",
  ["SimDynamics/DynamicsWorld.cpp", "SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp", "SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp"],
  [("world registry", "SimDynamics/DynamicsEngine/DynamicsEngine.cpp")], ["getPose"])

p("F32", "Mesh files are read completely or refused",
  "A text or binary STL file yields exactly the triangles it contains, in any order of facets and any name; a truncated or malformed file is refused or yields only triangles that are in it, and never crashes the reader. "
  "A mesh written as STL is read back the same, and an incomplete write is reported.",
  ["inputs", "fault_sequences"], "all small meshes in both encodings, every truncation point and single byte alteration", "There is no test of the reader.",
  [V + "Import/MeshImport/STLReader.cpp", V + "XML/ObjectIO.cpp"], [("reader", V + "Import/MeshImport/STLReader.cpp")], ["read"])
