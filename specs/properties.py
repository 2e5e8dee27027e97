"""Which contracts, lemmas and harness cases decide which property."""
K = 'tinyfk::KinematicModel::'
GROUP = ['qmul_assoc', 'qmul_identity', 'unit_qmul', 'unit_qinv', 'qinv_inverse', 'qinv_inverse_general', 'rotv_identity', 'rotv_matrix', 'rotv_compose',
         'rotv_linear', 'rotv_norm', 'rotv_cross', 'unit_fromrpy', 'unit_jm', 'unit_normq', 'comp_assoc', 'comp_identity', 'comp_inverse', 'unit_comp',
         'unit_pinv', 'comp_pos_affine', 'rpy_is_rz_ry_rx', 'rpy_reads_back']

CT = K + 'KinematicModel'
# what the constructor assumes of the reader of documents is proved by the checks of C14 and C15 (and here in the thorough tier)
READER = ('urdf::parseURDF',)
COMS = 'inertial|com link|total mass|center-of-mass|numbered|what was read'
STATE = 'cached poses|room for every link|cache is empty|stack keeps'
ALL = lambda case: True
# the validity invariant (ccv/model.py: full)
INV = ('there is a link|every entry of the link list|the parent of a link is in|parent joints are fixed|every entry of the joint list|the child link of a movable|one angle per joint|the root link is in|'
       'the base rotation|every link is found|every name in the|one table entry per|every entry of a child list|child lists have|every link is in the child|the relevance table has|an entry is set exactly|center-of-mass links')
QUERIES = [K + x for x in ('get_joint_ids', 'get_link_ids', 'get_joint_names', 'get_link_names', 'get_joint_angles', 'get_joint_position_limits', 'get_joint_velocity_limits',
                           'get_joint_effort_limits', 'get_link_pose', 'get_link_pose_inner', 'get_jacobian', 'get_com', 'get_com_jacobian', 'get_total_inertia_matrix')]
UPDATES = [K + x for x in ('set_joint_angles', 'set_joint_angle', 'set_init_angles', 'set_base_pose', 'clear_cache', 'add_new_link', 'update_rptable')]
CONTAINERS = ['tinyfk::SizedStack<tinyfk::LinkIdAndTransform>::*', 'tinyfk::SizedCache<urdf::Pose>::*']
J2 = {'*': (ALL, STATE), 'get_link_pose': (ALL, ''), 'get_link_pose_inner': (ALL, ''), 'SizedStack': (ALL, ''), 'SizedCache': (ALL, '')}
J13 = {'*': (ALL, STATE + '|' + INV)}
J2['KinematicModel'] = (ALL, STATE + '|cache|a model was read')
for _f in ('SizedStack', 'SizedCache', 'push', 'pop', 'top', 'reset', 'empty', 'set_cache', 'get_cache', 'extend', 'clear', 'RelevancePredicateTable'):
    J2[_f] = J13[_f] = (ALL, '')
W = 'KinematicsModelPyWrapper::'
J1 = INV.split('|the relevance')[0] + '|what was read is kept|every angle is zero|base pose is the identity|the root link|movable joints know|cached poses|cache is empty|a model was read'
J18 = {'get_jacobian': (ALL, STATE)}
J3 = {'get_jacobian': (ALL, STATE + '|row [0-2] of a joint column|one row per|one column per')}
J4 = {'get_jacobian': (ALL, STATE + '|row [3-6] of a joint column|one row per')}
J5 = {'get_jacobian': (lambda case: case[1], STATE + '|of base column|one column per')}
J10 = {'KinematicModel': (ALL, 'numbered in the order|found by|exactly the movable|every link is found|every name in the|one table entry per|every entry of the|a model was read')}
J7 = {'get_jacobian': (lambda case: case[0] == 0, ''), 'KinematicModel': (ALL, COMS)}

PROPS = {
    'C01': dict(level='proof', cases=3000, contracts=[K + 'get_link_pose', CT], rely=READER, only={'KinematicModel': (ALL, J1)}, lemmas=[]),
    'C02': dict(level='proof', only=J2, cases=6000, contracts=QUERIES + UPDATES + CONTAINERS[1:] + [CT], rely=READER, theorems=['Histories']),
    'C03': dict(level='proof', only=J3, cases=6000, contracts=[K + 'get_jacobian', K + 'get_link_pose'], theorems=['Displacement'], lemmas=[]),
    'C04': dict(level='proof', only=J4, cases=6000, contracts=[K + 'get_jacobian', K + 'get_link_pose'], theorems=['Displacement'], lemmas=['rpyd_rates', 'rpy_chain_rule', 'rpy_is_rz_ry_rx']),
    'C05': dict(level='proof', only=J5, cases=6000, contracts=[K + 'get_jacobian', K + 'get_link_pose'], lemmas=[]),
    'C06': dict(level='proof', cases=6000, contracts=[K + 'update_rptable', K + 'add_new_link', CT], rely=READER, only={'KinematicModel': (ALL, 'relevance|entry is set|parent of a link|child link|parent joints')}, theorems=['Displacement', 'Histories']),
    'C07': dict(level='proof', only=J7, cases=6000, contracts=[K + 'get_com', K + 'get_com_jacobian', CT], rely=READER),
    'C08': dict(level='proof', cases=6000, contracts=[K + 'get_total_inertia_matrix', CT], rely=READER, only={'KinematicModel': (ALL, COMS)}, lemmas=['rotv_matrix']),
    'C09': dict(level='proof', cases=6000, contracts=[K + 'add_new_link', K + 'get_link_pose', K + 'get_link_ids', CT], rely=READER, only={'KinematicModel': (ALL, 'found by|table|every name|numbers|numbered')}, theorems=['Histories']),
    'C10': dict(level='proof', cases=2000, contracts=[K + x for x in ('get_joint_ids', 'get_link_ids', 'get_joint_names', 'get_link_names')] + [CT], rely=READER, only=J10),
    'C11': dict(level='proof', cases=3000, contracts=[K + x for x in ('set_joint_angles', '_set_joint_angles', 'set_joint_angle', 'set_init_angles', 'get_joint_angles', 'set_base_pose', '_set_base_pose')] + [CT], rely=READER, only={'KinematicModel': (ALL, 'every angle is zero|base pose is the identity|one angle per|a model was read')}),
    'C12': dict(level='proof', cases=3000, contracts=[K + x for x in ('get_joint_position_limits', 'get_joint_velocity_limits', 'get_joint_effort_limits')] + ['urdf::parseJointLimits', CT], rely=READER,
                only={'KinematicModel': (ALL, 'what was read is kept|exactly the movable|every entry of the joint list|a model was read')}),
    'C13': dict(level='proof', only=J13, cases=12000, variants=['asan'], contracts=QUERIES + UPDATES + ['tinyfk::KinematicModel::_set_joint_angles', 'tinyfk::KinematicModel::_set_base_pose'] + CONTAINERS + [CT], rely=READER, theorems=['Histories']),
    'C17': dict(level='proof', cases=20000, contracts=['urdf::Rotation::*', 'urdf::Pose::*', 'urdf::pose_transform', 'urdf::cross_product'], lemmas=GROUP),
    'C18': dict(level='proof', only=J18, cases=6000, contracts=[W + x for x in ('solve_forward_kinematics', 'set_base_pose', 'get_base_pose')]),
    'C19': dict(level='proof', only=J18, cases=6000, contracts=[W + 'compute_inter_link_squared_dists']),
    'C20': dict(level='proof', only=J18, cases=6000, contracts=[W + 'solve_com_forward_kinematics', W + 'compute_total_inertia_matrix']),
}
U = 'urdf::'
READERS = [U + x for x in ('parseJoint', 'parseLink', 'parseURDF', 'parseInertial', 'parsePose', 'parseJointLimits', 'parseJointSafety', 'parseJointDynamics', 'parseJointMimic', 'parseJointCalibration',
                           'Vector3::init', 'Rotation::init')]
TREE = [U + 'ModelInterface::initTree', U + 'ModelInterface::initRoot', U + 'parseURDF']
DOCUMENT = 'link element|joint element|link the|joint the|link inertial|joint limits|joint safety|joint mimic|joint dynamics|joint calibration|link an inertial|link element is'
STRUCTURE = 'joints connect|one child|every listed|a link has a parent|there is a link|the root is|the only one|leads up|is a link of that name|is a joint of that name|only version|is rejected|different names|a model or nothing|known type|well-formed'
PROPS['C15'] = dict(level='proof', cases=6000, contracts=READERS)
PROPS['C14'] = dict(level='proof', cases=8000, variants=['plain', 'asan'], contracts=TREE + [CT], rely=(U + 'parseJoint', U + 'parseLink'), only={'parseURDF': (ALL, STRUCTURE)})
PROPS['C16'] = dict(level='proof', cases=6000, contracts=[U + 'exportURDF', U + 'exportLink', U + 'exportJoint', U + 'exportInertial', U + 'exportPose', U + 'parseJoint', U + 'parseLink'], theorems=['RoundTripJoint', 'RoundTripLink'])

# ---- what the argument for each property assumes beyond the obligations (listed in the evidence)
MODEL = ['joint axes have unit length (UNITAXES; the constructor states it as an assumption about the axis elements of the document, UNITDOC)',
         'the objects a model refers to (links, joints, inertials) are alive and only the functions under contract write their fields, so a weak_ptr that was set is not expired',
         'the height of a link in the tree (RANK) and the place in the parent list (CIDX) are ghost functions; that they exist is what the contract of initTree proves (reachable from the root)',
         'Eigen expression objects are evaluated where they are formed (no alias of the destination on the right side)']
CALCULUS = ['derivatives: addition formulas of sin and cos and the difference quotient of sin and cos; the derivative statement is reduced to a polynomial identity plus these',
            'asin and atan2 on their ranges: sin(asin s) = s, cos(asin s) >= 0, polar coordinates for atan2 (away from the origin); derivative rules of asin and atan2 for the roll, pitch and yaw rows']
SUMS_ = ['finite sums are ghost functions given by their recursion; equality of sums is proved by induction on the number of terms']
DOCS = ['TinyXML: the element tree of a document is what TiXmlDocument::Parse made of it (XROOT, XCHILD, XNEXT; children and attributes do not change while they are read; sibling lists are finite: XLEFT decreases)',
        'text conversion in the C++ library: istringstream >> double, strtol, std::string::find_first_of and substr are described by uninterpreted functions of the text with their documented relations',
        'the object returned by parseURDF is named by a function of the document and the heap (PARSED); objects not yet allocated are heap cells with arbitrary contents']
OUT = ['the text written for a double shows six significant digits of it and is read back as that number (FMT); three numbers separated by blanks are split into these three texts',
       'the global C++ locale is the classic one while exporting (values2str does not imbue a locale)',
       'TiXmlElement::LinkEndChild, SetAttribute and SetDoubleAttribute build the element tree described by the ghost fields $first, $kids and $attr; printing a document and parsing the text again gives that tree (executed by the harness, not proved)']
BATCH = ['row h of a result belongs to waypoint h div n and link h mod n (Euclidean division as functions FQ and FR with their defining facts)',
         'the Jacobian returned by get_jacobian is named by a function of what its reads clause lists (JAC), proved to be determined by those values']
READ = ['the constructor is verified against the contract of parseURDF, which the checks of C14 and C15 prove (and this check too in the thorough tier)']
for _p, _a in dict(C01=MODEL + READ, C02=MODEL, C03=MODEL + CALCULUS[:1], C04=MODEL + CALCULUS, C05=MODEL + CALCULUS[1:], C06=MODEL + READ, C07=MODEL + SUMS_ + READ, C08=MODEL + SUMS_ + READ, C09=MODEL + READ, C10=READ,
                   C11=READ, C12=READ, C13=MODEL + READ + ['memory safety inside the C++ library, Eigen and TinyXML; the harness runs under AddressSanitizer'],
                   C14=DOCS + ['the least fixed point of "is reached from the root by child lists" is used through its rule of induction'], C15=DOCS, C16=DOCS + OUT,
                   C17=CALCULUS, C18=MODEL + BATCH + ['with use_cache on, the statement is proved for waypoints equal to the current joint angles'], C19=MODEL + BATCH, C20=MODEL + BATCH + SUMS_).items():
    PROPS[_p]['assumes'] = _a
