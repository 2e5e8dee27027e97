#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long strings stay readable)."""
import json, os
K='src/kinematics.cpp'; T='src/tinyfk.cpp'; W='src/wrapper.cpp'; H='include/tinyfk.hpp'; D='include/data_structure.hpp'
PH='urdf_parser/include/urdf_model/pose.h'; JH='urdf_parser/include/urdf_model/joint.h'; MH='urdf_parser/include/urdf_model/model.h'
PC='urdf_parser/src/pose.cpp'; JC='urdf_parser/src/joint.cpp'; LC='urdf_parser/src/link.cpp'; MC='urdf_parser/src/model.cpp'
LH='urdf_parser/include/urdf_model/link.h'
PY='python/tinyfk/__init__.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

VALID="a valid model means: built from a URDF the library accepts, joint axes of unit length, ids obtained from the model"
p('C01','Forward kinematics is the product of joint transforms along the chain',
 "For every valid model, joint angles and base pose, the pose returned for a link equals the base pose composed, from the root link down to that link, with each joint's fixed origin transform followed by that joint's motion: a rotation by the joint angle about its axis for revolute and continuous joints, a translation by the joint value along its axis for prismatic joints, nothing for fixed joints. The composition of two poses is (R1*R2, R1*p2 + p1). This holds for every link, including the root and links added later.",
 ['inputs','configurations'],"all kinematic trees, all joint values and base poses, all links; "+VALID,
 "The tests compare one configuration of one robot (PR2, 8 links) with stored numbers; trees, joint types, axes and angles are unbounded.",
 [K,PC,JH,PH],[('KinematicModel::get_link_pose / get_link_pose_inner walk to the root and compose back',K),('urdf::pose_transform',PC),('urdf::Joint::transform',JH),('urdf::Rotation::operator*',PH)],
 [('base_pose_','pose of the root link',H),('joint_angles_','value of each movable joint, by joint id',H)],['KinematicModel::get_link_pose'])
p('C02','Query results do not depend on the history of calls (cache coherence)',
 "After any sequence of public operations on a model (setting joint angles one by one or together, setting the base pose, resetting the angles, clearing the cache, adding links, and any queries), every query answers exactly what a fresh model with the same links, joint angles and base pose would answer. Queries never change joint angles, base pose, names or ids. (Only batch calls that explicitly ask to reuse the cache are exempt.)",
 ['histories','inputs'],"all finite sequences of public operations on any valid model; "+VALID,
 "Tests run one or two fixed call sequences; a stale cached pose shows only after a particular order of query, update and query.",
 [H,K,T,D,W],[('transform_cache_ filled by get_link_pose_inner, cleared by the setters',K),('SizedCache::set_cache/get_cache/extend/clear',D),('set_joint_angles, set_joint_angle, set_base_pose, set_init_angles, add_new_link',T),('solve_com_forward_kinematics, compute_total_inertia_matrix',W)],
 [('transform_cache_','poses memoised per link id',H)],['KinematicModel::get_link_pose','KinematicModel::get_com','KinematicModel::get_jacobian'])
p('C03','Position Jacobian: joint columns are the derivative of the link position',
 "For every valid model, configuration, link and list of joint ids (repetitions allowed), column i of the first three rows of the Jacobian equals the partial derivative of the link's position with respect to the value of joint ids[i]. In particular it is axis x (link position - joint position) for a revolute or continuous joint, the axis for a prismatic joint (axis expressed in the world frame), and zero for a joint that is not between the root and the link. The matrix has one column per requested joint in the requested order (plus six if base columns are requested).",
 ['inputs','configurations'],"all trees, configurations, links, joint lists, rotation types, with and without base columns; "+VALID,
 "One link of one robot at one configuration is compared with finite differences at tolerance 1e-5.",
 [K,H],[('KinematicModel::get_jacobian',K),('cross_product',PC),('RelevancePredicateTable::isRelevant',H)],[],['KinematicModel::get_jacobian'])
p('C04','Orientation Jacobian: joint columns are the derivative of RPY or quaternion',
 "For every valid model and configuration, with rotation type RPY the next three rows of a joint's Jacobian column equal the derivative of the link's roll, pitch and yaw (pitch away from +-90 degrees), and with rotation type XYZW the next four rows equal the derivative of the link's unit quaternion (x,y,z,w). They are zero for prismatic joints and for joints not between the root and the link, and with rotation type IGNORE the Jacobian has exactly three rows.",
 ['inputs','configurations'],"all trees, configurations, links, joint lists, rotation types; "+VALID,
 "One configuration is compared with finite differences; sign conventions can agree at one point and differ elsewhere.",
 [K,PH],[('rpy_derivative, q_derivative, KinematicModel::get_jacobian',K),('urdf::Rotation::inverse',PH)],[],['KinematicModel::get_jacobian'])
p('C05','Base columns of the Jacobian differentiate with respect to the base pose',
 "When base columns are requested, the last six columns of the Jacobian are the derivative of the link's pose (position, and RPY or quaternion rows when requested) with respect to the base x, y, z, roll, pitch, yaw, in that order, where the base orientation is its canonical roll/pitch/yaw (pitch away from +-90 degrees), up to the truncation error of a forward difference with a step of 1e-7. This includes base orientations at which an angle wraps around at +-180 degrees or the quaternion's sign differs from the canonical one. Joint columns and pose results are the same with and without base columns.",
 ['inputs','configurations'],"all trees, configurations, base poses, links, rotation types; "+VALID,
 "Tests use one base pose with small angles, so wrap-around and sign cases are never reached.",
 [K],[('numerical base block of KinematicModel::get_jacobian',K),('urdf::Pose::inverse, Rotation::setFromRPY/getRPY',PH)],[],['KinematicModel::get_jacobian'])
p('C06','A joint affects a link exactly when it lies between the root and the link',
 "For every valid model, also after any number of links were added, the model's relevance relation holds for (link, joint) exactly when the joint's child link is the link itself or one of its ancestors. The pose of a link does not depend on the value of a joint that is not relevant for it.",
 ['inputs','histories'],"all trees, all (link, joint) pairs, all histories of added links; "+VALID,
 "Tests look at four (link, joint) pairs of PR2.",
 [T,H,K],[('KinematicModel::update_rptable depth-first marking',T),('KinematicModel::add_new_link',T)],[('rptable_','which joint moves which link',H)],['RelevancePredicateTable::isRelevant','KinematicModel::get_jacobian'])
p('C07','Center of mass and its Jacobian are mass-weighted averages',
 "For every valid model with positive total mass, the center of mass equals sum(m_i * c_i) / sum(m_i) over exactly the links that have an inertial element, where c_i is the world position of the inertial origin of link i, and the center-of-mass Jacobian is the same weighted average of the position Jacobians of those points, for any joint list with or without base columns. The reported total mass is the sum of the masses, and each inertial's center is available as an extra link whose pose is the link's pose composed with the inertial origin.",
 ['inputs','configurations'],"all trees, masses, inertial origins and configurations; "+VALID,
 "No C++ test calls get_com or get_com_jacobian.",
 [K,T],[('KinematicModel::get_com, get_com_jacobian',K),('creation of the <link>_com links in the constructor',T)],[('com_dummy_links_','one link per inertial element',H),('total_mass_','sum of the masses',H)],['KinematicModel::get_com','KinematicModel::get_com_jacobian','total_mass_'])
p('C08','Total inertia is the sum of rotated and shifted link inertias about the COM',
 "For every valid model with positive total mass, the total inertia matrix equals the sum over links with an inertial element of R I R^T + m (|d|^2 Id - d d^T), where I is the inertia tensor given in the inertial frame, R the world rotation of that inertial frame (link rotation composed with the rotation of the inertial origin), and d the inertial center minus the overall center of mass.",
 ['inputs','configurations'],"all trees, inertias, inertial origins (including rotated ones) and configurations; "+VALID,
 "One robot at its zero configuration, all of whose inertial origins are unrotated.",
 [K,T],[('KinematicModel::get_total_inertia_matrix',K),('creation of the <link>_com links in the constructor',T)],[],['KinematicModel::get_total_inertia_matrix'])
p('C09','Adding a link: fixed offset from the parent, nothing else changes',
 "Adding a link under a valid parent with a new name yields the next free link id, and from then on that link's pose is the parent's pose composed with the given offset (position and roll-pitch-yaw, or a pose) in every configuration; names, ids and poses of all other links and the joints, angles and base pose are unchanged. Adding a link whose name exists already raises an exception and leaves the model unchanged. Any number of links can be added, also below links added earlier.",
 ['inputs','histories'],"all models, names, parents, offsets and histories of additions; "+VALID,
 "One link is added once to PR2.",
 [T,D],[('both overloads of KinematicModel::add_new_link',T),('SizedCache::extend',D)],[('links_, link_ids_','link objects and name->id map',H)],['KinematicModel::add_new_link','KinematicModel::get_link_ids'])
p('C10','Names and ids are inverse to each other; unknown names raise',
 "Link ids are 0..n-1 without gaps, and so are joint ids over exactly the movable (revolute, continuous, prismatic) joints; looking up the ids of a list of names returns, in order, the ids whose entries in the name lists are those names, and every name in the name lists is found. Looking up a list containing an unknown name raises an exception.",
 ['inputs','histories'],"all models, all lists of names, all histories of added links",
 "Tests look up a few existing names.",
 [T,H],[('numbering in the constructor',T),('get_joint_ids, get_link_ids, get_joint_names, get_link_names',T)],[('link_ids_, joint_ids_','name->id maps',H)],['KinematicModel::get_link_ids','KinematicModel::get_joint_ids','KinematicModel::get_link_names','KinematicModel::get_joint_names'])
p('C11','Joint angles read back as set; everything else keeps its value',
 "After setting joint angles for a list of distinct joint ids, reading them back returns exactly the given values in order, and the angles of all other joints are unchanged; with repeated ids the last value counts. Resetting makes every angle zero, a freshly built model has all angles zero and the identity base pose, and reading angles changes nothing.",
 ['inputs','histories'],"all models, id lists and values",
 "No C++ test reads angles back.",
 [T,H],[('set_joint_angles, _set_joint_angles, set_joint_angle, get_joint_angles, set_init_angles, set_base_pose',T)],[('joint_angles_','value of each movable joint',H)],['KinematicModel::get_joint_angles'])
p('C12','Joint limits are those of the URDF',
 "For every list of joint ids, the position limits returned are (-inf, +inf) for continuous joints and the URDF's (lower, upper) for the others, and the velocity and effort limits are the URDF's values; a continuous joint without a limit element has unbounded velocity and effort. Results come in the order of the ids and the calls never crash or change the model.",
 ['inputs'],"all models and id lists",
 "Three joints of PR2, all of which carry a limit element.",
 [T,JC],[('get_joint_position_limits, get_joint_velocity_limits, get_joint_effort_limits',T),('parseJointLimits',JC)],[],['KinematicModel::get_joint_position_limits','KinematicModel::get_joint_velocity_limits','KinematicModel::get_joint_effort_limits'])
p('C13','Kinematic queries and updates stay in bounds and terminate',
 "For every valid model, also after any number of links were added, no pose, Jacobian, center-of-mass, inertia, angle, limit or add-link call with valid ids reads or writes outside its internal arrays, dereferences a null or dead object, or fails to terminate. The internal fixed-capacity stack and cache behave as a last-in-first-out stack and as a partial map whose entries are forgotten by clearing or extending.",
 ['inputs','histories'],"all trees of any depth, all histories of added links, all valid ids; "+VALID,
 "Tests do not run with a sanitizer and never build chains deeper than the URDF.",
 [K,T,D,H],[('SizedStack::push/top/pop and its capacity',D),('get_link_pose_inner',K),('SizedCache',D)],[('transform_stack_','scratch stack with fixed capacity',H)],['KinematicModel::get_link_pose'])
p('C14','Only well-formed kinematic trees are accepted; everything else raises',
 "Constructing a model either raises an exception or yields a model whose links form one tree: exactly one root, every other link has exactly one parent link and parent joint and is reachable from the root, every joint refers to existing links, names are unique, and every movable joint is revolute, continuous or prismatic with a known child link. Malformed XML, a missing robot element or name, an unsupported version, duplicate names, missing links, two roots, a link with two parent joints, cycles, an unknown, floating or planar joint type, and malformed joints are all rejected with an exception, never by a crash or a hang.",
 ['inputs'],"all input strings",
 "Only well-formed robots are loaded by the tests.",
 [MC,MH,T,JC],[('urdf::parseURDF',MC),('ModelInterface::initTree, initRoot',MH),('KinematicModel::KinematicModel',T),('URDFVersion','urdf_parser/include/urdf_parser/urdf_parser.h')],[],['KinematicModel::KinematicModel','urdf::parseURDF'])
p('C15','URDF attributes end up in the matching fields, or the element is rejected',
 "For every accepted URDF, each joint's type, axis (1 0 0 without an axis element; not read for fixed and floating joints), origin (default identity), parent, child, limits (lower/upper default 0), dynamics, mimic, safety and calibration values, and each link's inertial origin, mass and six inertia components equal the corresponding attributes. A joint is rejected exactly when its name or a known type is missing, a number or vector attribute that is read is malformed, a revolute or prismatic joint has no limit, or a required attribute of a present sub-element is missing; an inertial element is rejected exactly when mass value or any of the six inertia components is missing or malformed.",
 ['inputs'],"all XML elements",
 "Three joints of one robot are checked for limits only.",
 [JC,LC,PC,PH],[('parseJoint, parseJointLimits, parseJointDynamics, parseJointMimic, parseJointSafety, parseJointCalibration',JC),('parseInertial, parseLink',LC),('parsePose',PC),('Vector3::init, Rotation::init',PH)],[],['urdf::parseURDF'])
p('C16','Exported joints, inertials and poses carry every field the parser reads',
 "Exporting a model writes, for every joint, its name, type, origin, axis, parent, child and, when present, limits, dynamics, safety, calibration (one with a rising or falling edge) and mimic (one naming a joint), and for every link its name and inertial, under the element and attribute names the parser reads them from; so parsing an exported model gives the same links, joints and tree with all numeric values equal up to the export's six significant digits (orientations within 0.3 degrees of pitch +-90 excepted).",
 ['inputs'],"all models accepted by the parser",
 "Nothing tests the export functions.",
 [JC,LC,PC,MC],[('exportJoint and its helpers',JC),('exportInertial, exportLink',LC),('exportPose, values2str',PC),('exportURDF',MC)],[],['urdf::exportURDF'])
p('C17','Rotations and poses form a group and use the Rz*Ry*Rx convention',
 "For unit quaternions and arbitrary vectors: composing rotations or poses is associative, has the identity and the inverse as documented, preserves unit norm, and rotating by a product equals rotating twice; rotating a vector preserves its length. The rotation made from (roll, pitch, yaw) is the unit quaternion of Rz(yaw)*Ry(pitch)*Rx(roll), and reading roll, pitch and yaw of a unit quaternion back (pitch away from +-90 degrees) gives angles that make the same rotation.",
 ['inputs'],"all unit quaternions, vectors, angles and poses",
 "One pair of poses is inverted and composed.",
 [PH,PC],[('Rotation::operator*, inverse, GetInverse, inverse_inplace, setFromRPY, getRPY, normalize',PH),('Pose::inverse, pose_transform',PC),('cross_product',PC)],[],['urdf::Rotation','urdf::Pose'])
p('C18','Batch forward kinematics: each row belongs to its waypoint and link',
 "For every list of waypoints, links and joints, the batch solver returns a pose matrix whose row i*n_links+j is the pose of link j (position, then RPY or XYZW when requested) and a Jacobian matrix whose row block i*n_links+j is the Jacobian of link j, both at waypoint i's joint angles and, when the base is included, at the base pose given by its last six entries as x, y, z, roll, pitch, yaw. Waypoints do not influence each other and, with cache reuse off, earlier calls do not either.",
 ['inputs','histories'],"all numbers of waypoints, links and joints, all rotation types, with and without base and Jacobian",
 "The Python tests that touch it are not built here and use ten random waypoints.",
 [W],[('KinematicsModelPyWrapper::solve_forward_kinematics',W),('KinematicsModelPyWrapper::set_base_pose',W)],[],['KinematicsModelPyWrapper::solve_forward_kinematics'])
p('C19','Inter-link squared distances and their gradients are exact',
 "For every list of waypoints and link pairs, entry i*n_pairs+j of the returned vector is the squared distance between the two links of pair j at waypoint i, and, when gradients are requested, the matching row is 2 (J1 - J2)^T (p1 - p2) for the position Jacobians of the two links at that waypoint, including base columns when requested. With cache reuse off, earlier calls and other waypoints have no influence.",
 ['inputs','histories'],"all numbers of waypoints and pairs, all joint lists",
 "Only a Python test, not built here, at one configuration.",
 [W],[('KinematicsModelPyWrapper::compute_inter_link_squared_dists',W)],[],['KinematicsModelPyWrapper::compute_inter_link_squared_dists'])
p('C20','Batch center of mass with external forces is the weighted average',
 "For every list of waypoints, row i of the batch center-of-mass result is (com + sum_j w_j p_j) / (1 + sum_j w_j), with w_j the j-th vertical force divided by the total mass, p_j the position of the j-th acting link and com the center of mass, all at waypoint i, and its Jacobian block is the same combination of the Jacobians (without forces: the plain center of mass). Earlier calls and other waypoints have no influence; the same holds for the inertia computed for a given joint vector.",
 ['inputs','histories'],"all numbers of waypoints, joints and forces, with and without base and Jacobian",
 "No test calls it with a force or twice with different joint angles.",
 [W],[('KinematicsModelPyWrapper::solve_com_forward_kinematics, compute_total_inertia_matrix',W)],[],['KinematicsModelPyWrapper::solve_com_forward_kinematics','KinematicsModelPyWrapper::compute_total_inertia_matrix'])
p('C21','Python layer: base types select the right configuration entries and columns',
 "For every joint list and configuration, the Python model maps fixed, planar (x, y, yaw) and floating (x, y, z, roll, pitch, yaw) bases to the core's six base entries and back: setting and then getting a configuration returns it (base angles in canonical range), planar results equal floating results at z = roll = pitch = 0, and planar Jacobians are the floating ones restricted to the joint, x, y and yaw columns.",
 ['inputs'],"all joint lists, configurations and base types",
 "The Python tests are not run here and check one configuration.",
 [PY],[('KinematicModel.set_q, get_q, solve_fk, solve_com_fk, compute_inter_link_sqdists, _modify_input_with_3dof_base',PY)],[],['tinyfk.KinematicModel'])
p('C22','Python layer: a copied or unpickled model equals the original',
 "Copying or unpickling a Python model, any number of times in a row, gives a model with the same added links (same ids and poses) and the same configuration as last set on the original, whatever additions, configuration changes and rejected calls preceded it.",
 ['histories'],"all sequences of link additions, configuration changes, rejected calls and copies",
 "The Python tests are not run here and copy once after one addition and one change.",
 [PY],[('KinematicModel.__getstate__, __setstate__, add_new_link, set_q',PY)],[],['tinyfk.KinematicModel'])
p('C23','The XML reader terminates and stays in bounds on every input',
 "Parsing any byte string as XML terminates without reading or writing out of bounds and either reports an error or yields an element tree whose names and attribute values are those of the text.",
 ['inputs'],"all byte strings",
 "Tests read three well-formed files.",
 ['urdf_parser/tinyxml/tinyxmlparser.cpp','urdf_parser/tinyxml/tinyxml.cpp'],[('TiXmlDocument::Parse','urdf_parser/tinyxml/tinyxmlparser.cpp')],[],['TiXmlDocument::Parse'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
