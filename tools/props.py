# -*- coding: utf-8 -*-
"""The properties (source of /verif/properties.jsonl). Run to regenerate the file."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))
core = 'arboris/core.py'

# ---------------------------------------------------------------- structure
prop('S01', 'The links of a world always form a tree rooted at the ground',
 """After any sequence of accepted link additions and joint replacements, every linked body other than the ground has
 exactly one parent joint, whose two frames belong to its parent body and to itself, and following parents always ends
 at the ground. Enumerating the bodies (or the joints) of the world visits each of them exactly once, depth first, the
 children of a body in the order in which they were attached; the ancestors and descendants of every body are the ones
 of that tree.""",
 ['histories'], 'every sequence of link additions (one or several links per call) and joint replacements, attached to bodies or to frames of bodies',
 'The tests build four fixed robots and never compare the enumerations with an independent account of the structure; the guarantee ranges over all construction histories.',
 [core], [('add_link, replace_joint', core), ('depth-first iterators', core)],
 [('parentjoint / childrenjoints', 'edges of the tree', core)], ['iterbodies', 'iterjoints', 'iter_ancestor_bodies'])
prop('S02', 'A refused link leaves the world, the bodies and the joint unchanged',
 """A request to attach a body which already has a parent, which is the ground, or which is the attachment body itself
 or one of its ancestors, is refused with an error, since it would close a kinematic loop. After the refusal the world,
 its bodies, its registered frames and the joint are exactly as before, so that the same joint and the same world can
 be used in a valid link.""",
 ['histories', 'inputs'], 'every refused request at every point of every construction history, followed by any accepted request',
 'The only test of a refusal checks one error class; nothing looks at the state after it, nor retries.',
 [core], [('checks made before any mutation in add_link', core)], [], ['add_link'])
prop('S03', 'Replacing a joint keeps the rest of the world as it was',
 """Replacing a joint by another joint, or by a chain of joints and new bodies between the same two bodies, puts the
 new branch at the place of the old one among the children of the parent body, and leaves every other link, and the
 position and velocity of every other joint, unchanged. The replaced joint is detached and can be used again, and
 the world is ready for use: the degrees of freedom are renumbered for the new structure.""",
 ['histories'], 'every joint of every world, every replacement type (same or other number of degrees of freedom, chains), repeated replacements',
 'The tests replace two joints in one robot and compare names only.',
 [core], [('replace_joint', core)], [], ['iterjoints', 'ndof'])
prop('S04', 'Degrees of freedom are numbered contiguously in enumeration order',
 """Once a world is initialised, its joints own consecutive, disjoint ranges of degrees of freedom, in the enumeration
 order of the joints, which cover exactly the degrees of freedom of the world, whose number is the sum of the joints'
 ones. The worldwide vectors and matrices have the corresponding sizes, and a list of joints (any selection, in any
 order) reports exactly the degrees of freedom of its members, in the order of the list.""",
 ['histories', 'configurations'], 'every world (including joints without degree of freedom), after any change of its structure followed by an initialisation, every selection of joints',
 'The tests check the ranges of one arm; branching worlds, fixed joints, re-initialisation and selections of joints are not covered.',
 [core], [('World.init', core), ('JointsList', core)], [('dof slices', 'range of each joint', core)], ['Joint.dof', 'World.ndof', 'getjoints().dof'])
prop('S05', 'Initialisation preserves the state and shares the velocities',
 """Initialising a world, any number of times and after any structural change, leaves the position and the velocity of
 every joint as they were. Afterwards the velocity of each joint and the worldwide velocity are one and the same data:
 modifying a joint velocity in place changes the worldwide one, integrating updates both; on the contrary the
 worldwide velocities and forces returned to the user are copies which cannot corrupt the world.""",
 ['histories'], 'every interleaving of initialisations, structural changes, in-place velocity changes and integrations',
 'No test initialises twice or changes the structure in between while looking at the state.',
 [core], [('World.init', core), ('integrate of the joints', 'arboris/joints.py')], [('gvel', 'worldwide velocity, viewed by the joints', core)], ['World.gvel', 'Joint.gvel'])
prop('S06', 'Registration is idempotent, complete and ordered',
 """Each registered frame, shape, constraint and controller is listed exactly once, in the order of first registration,
 whatever the number of times it is registered; registering a shape registers its frame, adding a link registers
 its frames, and registering a contact registers its two moving frames. Joints and unknown objects are refused
 without effect, and the lists given to the user are snapshots which can be modified without effect on the world.""",
 ['histories'], 'every sequence of registrations and link additions, with repetitions',
 'Tests register each object once; duplicates and refusals are not covered.',
 [core, 'arboris/constraints.py'], [('World.register', core)], [], ['getframes', 'getshapes', 'getconstraints', 'getcontrollers'])
prop('S07', 'Traversing a world visits every element once, parents first',
 """Walking through a world delivers to the visitor each link, each body, each registered frame, shape, constraint and
 controller exactly once. The ground comes first, a link comes after the body it is attached to and right before the
 body it leads to, the frames of a body and the shapes attached to a frame come after it, and constraints and
 controllers come last.""",
 ['histories', 'configurations'], 'every world built by any history, including frames and shapes on any body',
 'One test walks one small world.',
 [core], [('World.parse', core)], [], ['visitor calls'])
prop('S08', 'Lookup by name is exact and duplicates are never hidden',
 """In a list of world elements, indexing by name returns the first object which bears it, searching returns all of
 them in order, and an absent name is an error. Conversion to a dictionary maps every named object to itself and
 ignores the unnamed ones, and it raises the documented error when a name is duplicated. Naming all the elements gives
 a name to each unnamed one, never changes an existing name, and reports duplicated names when asked to, for lists and
 for one-pass iterators.""",
 ['inputs', 'histories'], 'every list of named, unnamed and foreign objects with any repetition of names, modified by any sequence of list operations',
 'Doctests cover one list of four objects.',
 [core], [('NamedObjectsList', core), ('name_all_elements', core)], [], ['[]', 'find', 'as_dict', 'name_all_elements'])

# ---------------------------------------------------------------- rigid motion algebra
hg = 'arboris/homogeneousmatrix.py'
prop('M01', 'Displacement matrices form the group of rigid displacements',
 """Every translation, rotation and composed rotation matrix is the product of the elementary displacements its name
 announces, in that order, and is a proper rigid displacement for every angle. Inversion gives the inverse
 displacement, and points and free vectors are moved accordingly. The angles extracted from any rotation give this
 rotation back, including at the pitch singularity, and the frame aligned with a unit vector is a rotation whose third
 axis is that vector.""",
 ['inputs'], 'every angle, translation, rotation and unit vector, including multiples of a right angle, singular pitch and axis-aligned vectors',
 'Doctests evaluate one point per function, and one angle triple for the extraction.',
 [hg], [('constructors, inv, pdot, vdot, rotzyx_angles, zaligned', hg)])
prop('M02', 'Adjoint and adjacency matrices transport twists',
 """The adjoint matrix of a displacement maps a twist to the same motion expressed in the other frame, so that it is a
 group morphism whose value for the inverse displacement is the inverse adjoint. The adjacency matrix of a twist is the
 Lie bracket, and the time derivative of an adjoint is the adjoint times the adjacency of the body twist.""",
 ['inputs'], 'every displacement and every pair of twists',
 'Doctests compare one matrix with printed digits; the algebraic laws are not tested.',
 [hg, 'arboris/adjointmatrix.py', 'arboris/twistvector.py'], [('adjoint, iadjoint, dAdjoint', hg), ('inv', 'arboris/adjointmatrix.py'), ('adjacency', 'arboris/twistvector.py')])
prop('M03', 'The exponential of a twist is the motion it generates in unit time',
 """The exponential of a twist is the rigid displacement reached after a unit time by a frame which moves with this
 constant body twist, at full numerical accuracy, for twists of any magnitude: null, tiny, around the switch between
 the closed form and its expansion, and larger than a turn. The exponentials of multiples of the same twist compose.""",
 ['inputs'], 'every twist, at all scales of rotation and translation',
 'One doctest evaluates one large twist.',
 ['arboris/twistvector.py'], [('exp', 'arboris/twistvector.py')])
prop('M04', 'Mass matrices of solids, their transport and their principal frame are exact',
 """The mass matrices of the homogeneous solids hold their mass and the integrals of their density. Transporting a mass
 matrix to another frame preserves the kinetic energy of every motion, and the principal frame of any regular mass
 matrix is a rigid displacement to the center of mass, in which the matrix is diagonal. Validation accepts the
 symmetric positive (semi-)definite matrices with an isotropic mass and rejects the others.""",
 ['inputs'], 'every solid, every regular mass matrix (including repeated moments of inertia) and every change of frame',
 'Doctests use one axis-aligned solid per function and one principal frame.',
 ['arboris/massmatrix.py'], [('box, ellipsoid, cylinder, sphere, transport, principalframe, ismassmatrix', 'arboris/massmatrix.py')])

# ---------------------------------------------------------------- joints
jt = 'arboris/joints.py'
prop('J01', 'Each joint realises the relative motion its name announces',
 """The relative pose of a joint is, for every position, the ordered product of the elementary motions it is made of
 (rotations or translations along the announced axes; the stored displacement for a free joint; none for a fixed
 one), and the inverse pose is its inverse. The number of degrees of freedom, the sizes of the position and of the
 velocity match, and the state given at creation (or a null one) is the one of the joint, independent from the
 user's arrays.""",
 ['inputs'], 'every joint type, every position (several turns, singular configurations) and creation argument (scalars, lists, arrays, integers)',
 'Doctests evaluate one hinge at one angle; most joint types are never evaluated away from zero.',
 [jt, 'arboris/rigidmotion.py', core], [('pose, ipose', jt), ('RigidMotion', 'arboris/rigidmotion.py')])
prop('J02', 'Joint velocities, jacobians and adjoints are the derivatives of the joint motion',
 """For every joint, position and velocity, the relative twist is the one of the relative pose moving at this velocity
 and equals the jacobian times the velocity; the jacobian derivative is the time derivative of the jacobian along the
 motion. The inverse twist, the adjoint matrices of the pose and of its inverse, their derivatives and the adjacency
 matrices are those of the same motion.""",
 ['inputs'], 'every joint type, every position and velocity',
 'One unit test compares one joint with finite differences at one point.',
 [jt, 'arboris/rigidmotion.py'], [('jacobian, djacobian, twist', jt), ('itwist, adjoint, iadjoint, dadjoint, idadjoint', 'arboris/rigidmotion.py')])
prop('J03', 'Integrating a joint moves it along its velocity and keeps it a valid motion',
 """Integrating a joint over a time step with a new velocity stores that velocity and moves the position to where this
 constant velocity leads: by velocity times duration for joints with linear coordinates, and by the displacement
 generated by the body twist for a free joint. After any number of steps of any size the pose of a free joint is
 still a rigid displacement up to rounding, and a fixed joint never moves.""",
 ['inputs', 'histories'], 'every joint type, state, velocity and duration, and long sequences of integrations',
 'Tests integrate for a few steps with one dt and check rough values.',
 [jt, core, 'arboris/twistvector.py'], [('integrate', jt)])

# ---------------------------------------------------------------- kinematics
prop('K01', 'Body poses compose the joint motions along the tree',
 """After an update of the geometric or of the dynamic model, the pose of every body relative to the ground is the
 product, from the ground to the body, of the attachment frame pose, of the joint motion and of the inverse of the
 child frame pose of each link; the ground stays at the identity. Both updates agree, depend only on the current joint
 positions, and the poses are rigid displacements.""",
 ['histories', 'inputs', 'configurations'], 'every tree, joint types, attachment frames on both sides, joint positions, and histories of updates',
 'Tests compare poses of two fixed robots at a few configurations, mostly without child-side frames.',
 [core], [('update_geometric, update_dynamic', core)], [], ['Body.pose'])
prop('K02', 'Body twists and jacobians are the derivatives of the poses',
 """After an update of the dynamic model, the twist of every body is the body velocity of its pose when the joints move
 at their current velocities, each column of its jacobian is the velocity produced by the corresponding degree of
 freedom alone, and the twist is the jacobian times the worldwide velocity. Columns of joints which are not between
 the ground and the body are null.""",
 ['histories', 'inputs', 'configurations'], 'every tree, joint types, attachment frames, positions and velocities',
 'Two tests compare jacobians with recorded numbers for one robot.',
 [core], [('Body.update_dynamic', core)], [], ['Body.twist', 'Body.jacobian'])
prop('K03', 'The jacobian derivative is the time derivative of the jacobian',
 """After an update of the dynamic model, the jacobian derivative of every body is the exact time derivative of its
 jacobian along the current motion, for every tree, every joint type and every attachment of frames.""",
 ['inputs', 'configurations'], 'every tree, joint types, attachment frames, positions and velocities',
 'A test checks one robot against recorded numbers; with non-commuting joints nothing did.',
 [core, 'arboris/rigidmotion.py'], [('Body.update_dynamic', core), ('idadjoint', 'arboris/rigidmotion.py')], [], ['Body.djacobian'])
prop('K04', 'Frames fixed to a body move rigidly with it',
 """The pose, twist, jacobian and jacobian derivative of a frame are those of its body transported by the constant
 displacement between them, which always is the one given by the user: later changes of the user's array have no
 effect, and only a moving frame can be displaced, by an explicit assignment which affects no other frame. Creation
 with something which is not a body or not a displacement is refused.""",
 ['inputs', 'histories'], 'every frame of every body in every state, and histories of assignments, updates and changes of the arrays involved',
 'One test checks the pose of one frame.',
 [core], [('SubFrame, MovingSubFrame', core)], [], ['SubFrame.pose', 'bpose'])

# ---------------------------------------------------------------- dynamics
prop('D01', 'The worldwide mass and viscosity matrices give the total energy and dissipation',
 """After an update of the dynamic model the worldwide mass (viscosity) matrix is symmetric, positive semi-definite
 for bodies' matrices which are so, and its quadratic form is the sum over the bodies of the quadratic form of their
 own matrix for their own twist, for every velocity. It depends on the current joint positions only.""",
 ['inputs', 'configurations', 'histories'], 'every tree, body matrices (massless bodies included), configuration and velocity, after any history of updates',
 'A test compares the matrix of one arm with recorded numbers; viscosity is never tested.',
 [core], [('World.update_dynamic', core)], [], ['World.mass', 'World.viscosity'])
prop('D02', 'Nonlinear effects are the exact gyroscopic and centrifugal forces',
 """The worldwide nonlinear effects matrix times the velocity is the generalized force that the Newton-Euler equations
 require to keep the joint velocities constant, for bodies with any center of mass. Consequently its power equals half
 the rate of change of the mass matrix along the motion: unforced motion conserves kinetic energy.""",
 ['inputs', 'configurations'], 'every tree, joint types, mass distribution, configuration and velocity',
 'Recorded numbers of one planar arm; the error in composed rotations went unnoticed.',
 [core], [('Body.update_dynamic, World.update_dynamic', core)], [], ['World.nleffects'])

# ---------------------------------------------------------------- controllers
ct = 'arboris/controllers.py'
prop('A01', 'Weight is the gradient of the gravitational potential energy',
 """The generalized force of the weight controller is, in every configuration, minus the gradient of the potential
 energy of the bodies for the given gravity along the vertical axis of the world, with a null impedance. It vanishes
 for massless bodies and acts on all the bodies linked when the world is initialised, wherever their centers of mass
 are.""",
 ['inputs', 'configurations'], 'every tree, mass distribution, configuration and gravity value',
 'A test checks that a falling ball accelerates.',
 [ct], [('WeightController', ct)], [], ['update'])
prop('A02', 'The PD controller applies its gains implicitly to exactly its own joints',
 """The generalized force of a proportional-derivative controller, including its impedance part for the velocity at the
 end of the step, is the gains applied to the position error predicted at the end of the step and to the velocity error
 at the end of the step, for full gain matrices. It acts on the degrees of freedom of the controlled joints only,
 wherever they are in the world and in the order in which they were given, even if the world changed since the creation
 of the controller and was initialised again.""",
 ['inputs', 'configurations', 'histories'], 'every selection of joints (any order, different sizes), gain matrices, desired positions and velocities, states and time steps',
 'Tests control one or two hinges with diagonal gains.',
 [ct], [('ProportionalDerivativeController', ct)], [], ['update'])
prop('A03', 'Controllers add up, and the admittance inverts the impedance',
 """At each step the generalized force is the sum of the forces of all the registered controllers, and the impedance is
 the mass matrix divided by the time step plus viscosity and nonlinear effects, minus the sum of the controllers'
 impedances. The admittance is its inverse; nothing is left over from previous steps.""",
 ['inputs', 'histories', 'configurations'], 'every set of controllers, state and time step, and repeated updates',
 'A (disabled) doctest prints the matrices for one controller.',
 [core], [('World.update_controllers', core)], [], ['World.gforce', 'World.admittance'])

# ---------------------------------------------------------------- time
prop('T01', 'A time step satisfies the discretised equations of motion',
 """Over each step, the new velocity satisfies the semi-implicit equations of motion: mass times velocity change over
 the time step, plus viscosity and nonlinear effects times the new velocity, equals the forces of the controllers
 (with their impedance on the new velocity) and of the constraints. Then every joint moves according to its new velocity
 and the current time advances by the step.""",
 ['histories', 'inputs', 'configurations'], 'every world with any controllers and constraints, every state, every step size, along whole simulations',
 'Tests compare a few steps of one arm with recorded numbers.',
 [core], [('World.integrate', core)], [], ['World.gvel', 'World.current_time'])
prop('T02', 'A simulation follows the documented sequence at each instant',
 """A simulation initialises the constraints, the controllers and the observers once, then performs one step per
 interval of the timeline: model, controllers, then enabled constraints are updated, each observer is called once, in
 order, with the duration of the step while the world is in the state of its beginning, and finally the state is
 advanced. Each observer is finished exactly once, after the last step, and the world ends at the last instant.""",
 ['histories', 'configurations'], 'every timeline (uneven, one or two instants), every set of observers (list or dictionary), controllers and constraints, repeated simulations',
 'Tests run simulations and look at the final values only.',
 [core], [('simulate', core)], [], ['Observer.init/update/finish'])
prop('T03', 'The motion depends only on the state of the world',
 """The trajectory is a function of the structure, of the joint positions and velocities at the first instant and of
 the timeline: running again from the same state, splitting the timeline into consecutive simulations, repeating the
 updates of the model and of the controllers, watching with observers, or building an identical world give the same trajectory.""",
 ['histories', 'schedules'], 'every world and timeline, every way of splitting it, every history of previous updates and simulations',
 'No test runs the same world twice.',
 [core, 'arboris/observers.py', 'arboris/constraints.py'], [('simulate, init', core)], [], ['gpos', 'gvel'])

# ---------------------------------------------------------------- constraints
cs = 'arboris/constraints.py'
prop('C01', 'Exactly the enabled and active constraints act, through their own jacobian',
 """At each step the generalized force is the one of the controllers plus, for each constraint which is enabled and
 reports itself active, its transposed jacobian times its force, whatever the others do; disabled or inactive
 constraints have no effect, and constraints enabled again act as if they had always been. Each constraint is presented
 with its own velocity and its own block of the admittance.""",
 ['histories', 'configurations'], 'every set of constraints of any size, every history of enabling, disabling and (in)activity',
 'No test disables a constraint or mixes active and inactive ones.',
 [core], [('World.update_constraints', core), ('Constraint', core)], [], ['World.gforce'])
prop('C02', 'Joint limits are never crossed and act only when reached',
 """When a joint limit is active at the beginning of a step, each degree of freedom ends the step within its bounds;
 the force on it is zero unless it ends the step exactly at a bound, and then pushes towards the inside. A limit is
 active as soon as a degree of freedom is closer to a bound than the proximity, or beyond it.""",
 ['inputs', 'histories', 'configurations'], 'every joint (any number of degrees of freedom), bounds, state, external force, admittance, and whole simulations',
 'One test lets one hinge fall on one limit.',
 [cs], [('JointLimits', cs)], [], ['force', 'gpos'])
prop('C03', 'Ball and socket constraints close kinematic loops',
 """At the end of a step the centers of the ball and of the socket are together, up to the rotation during the step
 (second order in its duration), even if they were apart at its beginning, for every mutual placement of the bodies.
 The constraint applies equal and opposite forces at the centers on the two bodies, and nothing else.""",
 ['inputs', 'histories', 'configurations'], 'every pair of frames of the world (ground included), every state, and whole simulations of closed loops',
 'One test simulates one loop and checks it stays roughly closed.',
 [cs], [('BallAndSocketConstraint', cs)], [], ['force', 'pose'])
prop('C04', 'Contacts push, never pull, and prevent penetration',
 """The normal force of a contact is never attractive; if the bodies would still be apart at the end of the step without
 it, the contact force is null; otherwise the predicted normal distance at the end of the step is not negative, and is
 zero if the normal force is not. A contact which is closing within its proximity is always taken into account.""",
 ['inputs', 'histories', 'configurations'], 'every pair of shapes, state, external forces, admittance and time step, including rebounds, separations and initial penetrations',
 'Tests drop one ball vertically on a plane.',
 [cs], [('SoftFingerContact.solve, PointContact.update', cs)], [], ['force', 'velocity'])
prop('C05', 'Contact friction obeys the Coulomb soft-finger law',
 """The friction force and torque of a contact never exceed the friction coefficient times the normal force (elliptic
 law). When they are strictly smaller the contact neither slides nor spins at the end of the step; when it slides or
 spins, friction is at its maximum and opposed to the motion, so that it never produces energy.""",
 ['inputs', 'histories', 'configurations'], 'every contact velocity, admittance (coupled directions included), friction coefficient (null included) and distance',
 'One test pushes a ball which sticks; sliding is only exercised without assertion on the force.',
 [cs], [('SoftFingerContact.solve', cs)], [], ['force', 'velocity'])
prop('C06', 'Contact frames follow the shapes and give the contact kinematics',
 """At each update a contact places its two frames, on the two bodies, at the closest points of the shapes with their
 common normal as third axis, and it is active if and only if the distance predicted at the end of the step is less
 than the proximity. The contact jacobian times the worldwide velocity is the relative velocity (spin about the normal
 and translation) of the second frame with respect to the first, in the contact axes.""",
 ['inputs', 'histories', 'configurations'], 'every pair of supported shapes on any two bodies or frames, every state',
 'Not tested beyond one ball on one plane fixed to the ground.',
 [cs, 'arboris/collisions.py'], [('PointContact.update, SoftFingerContact.jacobian', cs)], [], ['frames', 'jacobian', 'is_active'])

# ---------------------------------------------------------------- geometry
co = 'arboris/collisions.py'
prop('G01', 'Collision detection returns the signed distance and its witnesses',
 """For every supported pair of shapes, in any pose, the distance is the smallest signed distance between their
 surfaces (negative for penetration, with its depth); the two returned frames have their origins on the two surfaces
 at the closest points, the same orientation, the outward normal of the first shape as third axis, and are apart by
 exactly the distance along it. The result follows any common displacement of the shapes.""",
 ['inputs'], 'every pose and dimension of planes, spheres, boxes and points, separate or penetrating (except positions where the normal is not defined)',
 'Doctests use poses aligned with the axes.',
 [co], [('collision solvers', co)], [], ['solver result'])
prop('G02', 'Shape pairs are dispatched symmetrically and contacts enumerated completely',
 """Choosing a solver for two shapes gives, whatever their order, the same two shapes and the solver of this pair of
 types, or the documented error when the pair is not supported. Looking for all the contacts of a world gives exactly
 one contact for every supported pair of registered shapes which belong to distinct bodies, with the requested
 parameters, and modifies nothing.""",
 ['configurations', 'inputs'], 'every set of shapes of all types on any bodies and frames, in any order',
 'One test has three shapes.',
 [co, cs], [('choose_solver', co), ('get_all_contacts', cs)], [], ['choose_solver', 'get_all_contacts'])

# ---------------------------------------------------------------- observers
ob = 'arboris/observers.py'
prop('O01', 'Recorders hold exactly one faithful value per step',
 """At the end of a simulation a recorder holds one value per step, in order: the position, velocity, pose, twist,
 force, distance or center of mass as it was when the step was computed; later changes of the world do not alter the
 recorded values, and a new simulation starts a new record. Likewise the summary of a performance monitor gives the
 total, smallest, mean and largest durations of the steps of the last simulation.""",
 ['histories', 'configurations'], 'every recorder, world, timeline, and sequences of simulations with the same recorder',
 'Tests check the number of values of two recorders.',
 [ob], [('_Recorder and its subclasses, PerfMonitor', ob)], [], ['get_record', 'get_summary'])
prop('O02', 'Logged data are the data of the simulation and survive storage',
 """Reading back what a logger stored (pickle or HDF5, in any group) gives one entry per step with the times, and, as
 selected, the joint positions and velocities, the model matrices and the transforms of the simulation: absolute body
 poses, or joint poses named after the second frame of the joint, and the moving frames likewise. Nothing which was not
 selected is stored, and elements which cannot be told apart by name are refused.""",
 ['histories', 'configurations'], 'every selection of data, storage format, world (named or not, fixed and free joints, contacts) and timeline',
 'The tests of the loggers run one selection and do not read the values back.',
 [ob], [('SaveLogger, PickleLogger, Hdf5Logger', ob)], [], ['files'])
prop('O03', 'Energies reported are those of the bodies',
 """At every step the energy monitor reports the time, the kinetic energy of the bodies for their actual motion, the
 potential energy of their centers of mass in the field of gravity along the vertical axis, and their sum; one value
 per step, starting again with each simulation.""",
 ['histories', 'inputs', 'configurations'], 'every world (massless bodies, any center of mass), motion and timeline',
 'A test only plots the energies.',
 [ob], [('EnergyMonitor', ob)], [], ['kinetic_energy', 'potential_energy'])
prop('O04', 'The reported center of mass, its jacobian and their derivative are exact',
 """For any group of bodies, the reported center of mass is the mass-weighted mean of their centers of mass in the
 ground frame, its jacobian gives its velocity for every worldwide velocity, and the jacobian derivative is the time
 derivative of this jacobian along the motion. Massless bodies do not count.""",
 ['inputs', 'configurations', 'histories'], 'every group of bodies of every world, every mass distribution, state and history of updates',
 'A test compares one velocity with a finite difference, the derivative is not tested.',
 [ob], [('CoMObserver', ob)], [], ['get_CoMPosition', 'get_CoMJacobian', 'get_CoMdJacobian'])

# ---------------------------------------------------------------- robots
prop('R01', 'The human model has the requested size, mass and symmetry',
 """For every height, mass and prefix, the anthropometric model has the requested total mass, stands with its feet on the
 ground and the top of its head at the requested height, and has 36 joint degrees of freedom besides its free root
 in the documented tree. The left side mirrors the right one (exchanging the lengths of
 the sides mirrors the model), all names carry the prefix, lengths are given back as the
 height, and several humans can share a world.""",
 ['inputs', 'configurations'], 'every height, mass, prefix, and set of humans in the same world',
 'The test compares recorded values for one human.',
 ['arboris/robots/human36.py'], [('add_human36', 'arboris/robots/human36.py')], [], ['world content'])
prop('R02', 'The robot builders assemble what their parameters describe',
 """The arm and the snake have the given number of segments with the given lengths, masses and initial state, each
 segment having the mass and the inertia of its solid about its own joint and the next joint being at its end; the
 simple shapes have the inertia and the geometry of the same solid, and the humanoid robot has the mass, the solids,
 the joints and the contact spheres of its own tables, each joint with consistent limits, its left
 side being the mirror of its right side in all postures. Building adds to what the
 world already contains and initialises it.""",
 ['inputs', 'configurations'], 'every parameter of the builders, in empty and in populated worlds',
 'Tests build each robot once with default parameters.',
 ['arboris/robots/simplearm.py', 'arboris/robots/snake.py', 'arboris/robots/simpleshapes.py', 'arboris/robots/icub.py'],
 [('add_simplearm', 'arboris/robots/simplearm.py'), ('add_snake', 'arboris/robots/snake.py'), ('add_sphere...', 'arboris/robots/simpleshapes.py'), ('add', 'arboris/robots/icub.py')], [], ['world content'])

# ------------------------------------------------------------ visualisation
wd = 'arboris/visu/world_drawer.py'
prop('V01', 'Drawings show everything in the world where it is, also once animated',
 """Drawing a world creates one node for every frame of the world, attached (through other nodes) to the ground, whose
 composed pose is the pose of the frame: the nesting follows the joints, or all the bodies are attached to the ground
 when the drawing is flat. Each shape, each mass and each rigid link is drawn once, on the node of what it belongs to,
 with its dimensions, and in the color given to it, to its name or to its body, different bodies having different
 colors as long as the palette allows. Replacing the poses of the nodes by the transforms of the same names which a
 logger saved, or which are sent to a viewer, shows the world as it was at that time; nodes declared constant never
 change. Colors are converted as hue, saturation and value define.""",
 ['configurations', 'histories', 'inputs'], 'every world (joints of all types, frames of any kind at both ends of the joints, shapes on any frame, unnamed elements), nested or flat, any coloring, any motion after the drawing',
 'Tests only draw the simple arm and look at nothing.',
 [wd, 'arboris/visu/__init__.py', 'arboris/observers.py', 'arboris/core.py'],
 [('Drawer, ColorGenerator, hsv_to_rgb', wd), ('World.parse', core), ('SaveLogger transforms', 'arboris/observers.py'), ('pydaenimCom.update', 'arboris/visu/__init__.py')], [], ['calls of the drawing driver', 'messages', 'transforms'])
dw = 'arboris/visu/dae_writer.py'
prop('V02', 'Collada files describe the world and its motion',
 """The collada scene written for a world, read back from the file, has the frames of the world at their poses under
 their names, meshes with the dimensions, places and colors of the shapes (and, for the files of the desktop viewer,
 of the links and of the ellipsoids of inertia), the vertical axis, and rigid bodies whose mass, center of mass and
 principal inertias are the mass matrices of the bodies; scale and options are those requested. The animation written
 from the log of a simulation keeps this scene, and at each recorded instant moves the named frames to the poses they
 had. Viewing a world, or a scene with the log of its simulation, starts the viewer which is asked for on such files,
 with the requested options, and the temporary files of the desktop viewer are removed.""",
 ['configurations', 'inputs'], 'every world, shape, mass, color and option; nested or flat; logs in pickle and HDF5 files, in any group',
 'Tests write a file and do not read it.',
 [dw, 'arboris/visu/visu_collada.py', wd], [('pydaenimColladaDriver', dw), ('DaenimColladaDriver', 'arboris/visu/visu_collada.py'), ('write_collada_scene, write_collada_animation', dw)], [], ['collada files'])
prop('O05', 'Simulations talk to viewers through sockets without depending on them',
 """Each communication observer listens on the first free port from the one which is asked for, whatever the ports in
 use and the other observers. A viewer which connects receives the messages of the steps, each once, in order, then
 the closing message; one which leaves has received a prefix of that stream. Whether viewers come, stay or leave at
 any time, the simulation runs all its steps, the other observers and viewers get everything which is theirs, and the
 ports are free again when it ends.""",
 ['histories', 'schedules', 'inputs'], 'every number of viewers, every moment at which one comes, leaves or stays away, every message size, ports in use',
 'No test opens a connection.',
 ['arboris/observers.py', core], [('SocketCom', 'arboris/observers.py'), ('simulate', core)], [], ['port', 'stream of messages'])
ud, up_ = 'arboris/robots/urdf/__init__.py', 'arboris/robots/urdf/urdf_parser.py'
prop('U01', 'URDF descriptions are read and written without loss',
 """Reading a URDF file gives each link, joint, shape, inertia, limit and material exactly the values which the text
 gives, and the defaults of the format to those which it omits, whatever the order of the elements; what is written
 again describes the same robot when it is read. The root is the only link which is nobody's child, the chain between
 two links is the way along the joints of the tree, with or without the joints, links and fixed joints as asked; ends
 which are not related and files without single root are refused.""",
 ['inputs', 'configurations'], 'every description (any tree of links or any set of joints, any subset of optional elements, any order, any number), every pair of ends',
 'No test reads a URDF file.',
 [up_], [('from_xml, to_xml, get_root, get_chain', up_)], [], ['parsed elements', 'written file', 'root', 'chain'])
prop('U02', 'A robot loaded from a URDF file is the one which is described',
 """Loading a robot in a world adds a body for each link and a joint for each joint, under their names with the prefix and
 the suffix, and changes nothing else of the world: for every position of the joints each link is where the origins and
 the axes put it, its mass matrix is that of the described inertia, its collision shape has the described dimensions and
 place, and the limits are enforced. The base is fixed, or free, at the requested place. The tables of limits, collision
 shapes and visual shapes are those of the file; a description which is not a tree is refused.""",
 ['configurations', 'inputs', 'histories'], 'every valid description, several robots in one world, any positions after loading',
 'No test loads a URDF file.',
 [ud, up_], [('URDFConverter', ud)], [], ['bodies', 'joints', 'poses', 'masses', 'shapes', 'limits'])
prop('V03', 'Shapes added to a collada file appear where they were requested, and nothing else changes',
 """Adding shapes of other files (whole files, or one of their nodes with all that is below it or which it refers to) to
 a collada scene shows each of them in the requested frame, at the requested place, scale and color, and leaves what was
 shown before as it was; frames which are not in the scene get nothing. The identifiers of the result are unique and its
 references resolve, whatever the identifiers used by the files and the number of additions; the input file is modified
 only when no other output is given. The shapes of a robot described by a URDF file are added likewise.""",
 ['configurations', 'inputs', 'histories'], 'every scene and file of shapes (nested nodes, libraries, equal identifiers), every form of request, several additions in a row',
 'No test adds shapes and reads the result.',
 [dw, ud], [('add_shapes_to_dae', dw), ('get_visual_shapes, get_collision_shapes', ud)], [], ['collada files'])

prop('P01', 'Equivalent descriptions of a system have the same motion',
 """A mechanical system may be described in several ways: placed elsewhere in the ground frame (with the vertical axis), its
 links attached in another order, bodies given another origin and other axes, a body cut in parts fixed to each other or
 fixed bodies merged, a joint with several degrees of freedom written as a chain of simple joints between massless bodies,
 the axis of a joint reversed or called otherwise, masses and forces in other units. With its controllers, shapes and
 constraints expressed accordingly, every such description has the same simulated motion: the corresponding poses, twists,
 positions, velocities and generalized forces at every instant (and at least the same accelerations for the rewritings which
 the discretisation does not commute with: bodies whose centers of mass are expressed at another origin).""",
 ['configurations', 'inputs', 'histories'], 'every tree of bodies and joints, every sequence of rewritings, every state, controller, contact, limit or ball joint',
 'Tests simulate one description of each system.',
 [core, 'arboris/joints.py', 'arboris/controllers.py', 'arboris/constraints.py', 'arboris/collisions.py'],
 [('World.update_dynamic, update_controllers, update_constraints, integrate', core), ('Body.update_dynamic', core), ('all joints', 'arboris/joints.py')], [], ['poses', 'twists', 'gpos', 'gvel', 'gforce'])

ml = 'matlab/convert_py2mat.py'
prop('X01', 'Robots converted for Matlab are the same trees of simple joints, put on a base',
 """Converting a robot gives a tree where every joint with several rotations (the root one included) is the chain of the
 simple joints of the same axes, in the same order, between the same frames, through new light bodies, named after the joint
 when it has a name; a robot which is not attached by a free joint is put on a free heavy base, with its ground, its four
 spheres at the corners of the base and their contacts, between the frame of its root joint and the robot. Every other joint,
 with its position and velocity, every body, mass, shape, controller, and every other robot of the world stay as they were,
 whatever the shape of the tree; converting again changes nothing.""",
 ['configurations', 'inputs', 'histories'], 'every tree (branches, several robots), joint types, frames, names or none, successive conversions',
 'No test imports the conversion.', [ml, 'arboris/core.py'], [('MatlabConverter', ml), ('World.replace_joint', 'arboris/core.py')], [], ['links', 'frames', 'masses'])
prop('X02', 'The file written for Matlab describes the robot, or is refused',
 """Reading the generated functions gives back the tree of the robot: one entry for each link, attached where it is, with its
 name, axis, frames and mass (linear parts first), the shapes of its bodies with their dimensions and places, the pose of the
 root, and the positions and velocities in the order of the entries; the simulation has the instants of the timeline and the
 gravity of the world. All numbers have their digits, whatever the size of the robot; nothing depends on names, on the other
 robots, or on what was written before. What cannot be described (roots which are not free, joints which do not turn around
 one axis, infinite shapes, constraints, other controllers, several robots, timelines which are not regular) is refused and
 what was already written is marked as not to be used.""",
 ['configurations', 'inputs', 'histories'], 'every tree, state, set of shapes, names or none, timeline, vertical axis, sequences of conversions and writings',
 'No test writes or reads such a file.', [ml], [('MatlabRobotGenerator, MatlabSimulationGenerator', ml)], [], ['m-files'])

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in P:
            if not p['anchors']['state']: del p['anchors']['state']
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
