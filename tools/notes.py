# technique and level_note of each check
COMMON = ' Trusted: TLC, the fixed-point arithmetic (spec/Fix.tla, its Java override is tested against it), the drivers.'
HIST = 'TLA+ state machine model-checked by TLC; its behaviours are replayed on the implementation and the recorded traces are validated by TLC'
NUM = 'TLA+ specification from first principles, model-checked on a grid by TLC; states of the grid and random ones are evaluated on the implementation and the traces are validated by TLC'
def N(ids, t, n):
    for i in ids.split(): NOTES[i] = (t, n + COMMON)
N('S01 S02 S03 S04 S05 S06 S07', HIST, 'WorldTree.tla is checked exhaustively for all histories of a few operations over small universes (3 bodies, 3 joints), and along random long histories over a universe of 5 bodies and 7 joints; every one (a sample in the quick tier) is replayed on the code, all observables being compared after each step. Replacement is covered for accepted requests whose new bodies are childless.')
N('S08', HIST, 'Names.tla is checked exhaustively for lists of up to 5 operations over objects with repeated, missing and empty names; behaviours and random longer lists are replayed. The same object twice in a list is excluded.')
N('M01 M02', NUM, 'Algebraic laws are model-checked on a grid of angles and positions at 60 fractional bits; implementation agrees within 1e-9 on the grid and on random, singular, large and tiny inputs.')
N('M03', NUM, 'The exponential is specified by its series (scaling and squaring); group laws model-checked; implementation compared at all scales of rotation and translation (1e-12 to 1e3), relative tolerance 1e-9.')
N('M04', NUM, 'Solids are specified by their second moments, transport by invariance of the kinetic energy, frames by diagonality; masses which are validated or rejected are away from the threshold of the code.')
N('J01 J02 J03', NUM, 'Joint motions are products of elementary motions, their derivatives jets (Leibniz rule, model-checked against difference quotients); all joint types, grid and random states, histories of integrations; tolerance 1e-9.')
N('K01 K02 K03 K04 D01 D02 A01 O04', NUM, 'Tree.tla derives poses, velocities, jacobians and their derivatives, mass, viscosity, bias forces, weight and center of mass from products of jets; the model is checked for all trees of 2 bodies (3 in the thorough tier) of some joint types: Newton-Euler against Lagrange, weight against the gradient of the potential energy. Worlds of up to 6 bodies and 12 degrees of freedom (18) are compared, tolerance 1e-9.')
STEP = 'TLA+ specification of the step (relations between the state, the forces and the next state), TLC; random worlds are stepped by the implementation and every step of the recorded traces is validated by TLC'
N('A02 A03 T01 C01', STEP, 'Step.tla is the discretised equation of motion with implicit gains; worlds of up to 5 bodies with controllers (weight, proportional-derivative, user-defined), constraints of all types and user-defined probes; several steps with several durations, repeated updates, late links. Relative tolerance 1e-7. Carts.tla and Pucks.tla compute the steps of small systems (their next-state functions are model-checked against the laws): their behaviours are replayed as whole trajectories.')
N('C02 C03 C04 C05', STEP, 'The laws (complementarity of the limits, no relative velocity, Signorini, Coulomb) are required of every recorded step whose constrained directions are independent and whose Gauss-Seidel iterations have converged; force and velocity tolerances 1e-6 to 1e-9. Trajectories of Carts.tla (limits) and Pucks.tla (ball joints, contacts) are replayed step by step, their steps being computed by the model.')
N('C06', STEP, 'Frames, activation and jacobian of contacts are those derived from the distance of the shapes (Shapes.tla), for all pairs of shapes which are supported.')
N('G01 G02', NUM, 'Distances of the shapes are specified by their supports and model-checked against a sampling of their surfaces; collision frames are validated as witnesses of the distance for all pairs, touching, apart or penetrating, rotated, at all scales; surfaces of boxes within 1e-6 are checked for alignment and distance only.')
N('T02', HIST, 'Sim.tla is the protocol of simulations: which element is called when, with which arguments, on a world with integer motion, so that all comparisons are exact; small configurations exhaustively, seeded random ones with up to 3 controllers, constraints and observers, 3 simulations, elements registered late, constraints toggled by the elements while running.')
N('T03', 'TLA+ self-composition (two runs of one world) model-checked by TLC; pairs of runs are recorded from the implementation and compared by TLC', 'MCTwin.tla composes two copies of a simulation whose histories differ; runs of random worlds (repeated, split, twin, repeated updates, watched) are compared: bit-exact when the same operations run, relative 1e-7 otherwise. Worlds which explode or with nearly singular constraints claim nothing.')
N('O01', HIST, 'Records.tla specifies a record as a sequence of values; MCRecords refines it with arrays; histories of simulations, state changes and kept records are replayed with all recorders; each value is compared with what KinTrace/Step derive from the recorded state (poses, twists, center of mass, distances, forces).')
N('O02', 'TLA+ model of the layout of the logs, model-checked by TLC on all namings and selections of a small world; its states are replayed and the files validated by TLC', 'Pickle and Hdf5 loggers; all selections, duplicated or missing names, groups, several logs in one file; values are compared bit for bit with those seen by a plain observer. Messages to viewers: V01, V02, O05.')
N('O03', HIST, 'Energies are derived by Tree.tla from the recorded state, on the histories of Records.tla; masses are definite or null.')
N('R01', HIST, 'Human.tla describes one side of the anthropometric model and mirrors it; model-checked: the mirror of a human is the human whose lengths are exchanged, total mass, feet on the ground, height, 36+6 degrees of freedom. Sequences of buildings (several humans, other robots, user content) are replayed; every name, place, mass and joint is compared. The transverse inertias of the hands are not distinguished (the recorded data of the repository exchange them on one side).')
N('R02', HIST, 'Robots.tla describes the arm, the snake, the solids and (from the tables which the module returns) the humanoid; model-checked sizes, masses and inertias about the joints; sequences of buildings in empty and populated worlds are replayed and every element compared. The data of the tables of the humanoid are constrained by its symmetry and by the consistency of the limits only.')
N('V01', HIST, 'Scene.tla specifies drawing item by item and the transforms which animate the result; MCScene checks on all worlds of 1 (2) bodies with frames at any ends that every node is always shown where the world has it. These configurations and random worlds are drawn with a driver which records, then animated by pickle and Hdf5 logs and by the messages to the browser; TLC composes the recorded nodes and compares them with the world. A second frame of a joint which is a moving frame is refused by the Drawer and excluded.')
N('V02', HIST, 'The same specification, on the scenes and animations read back from the collada files of both drivers: meshes are judged by their vertices, masses by the mass matrix they describe. Collada stores single precision: tolerance 1e-5. The scene, the command and the messages which a viewer in another process gets from DaenimCom, or the view functions, are judged likewise (stand-ins for the viewers copy what they get). The real viewers are not covered; add_shapes_to_dae: V03.')
N('O05', 'TLA+ model of simulations with several viewers (all plans, all interleavings of steps and network) model-checked by TLC; its plans and random ones are replayed with real sockets and the streams which viewers received are validated by TLC', 'MCCom: up to two viewers which never come, stay or leave after any message; ports in use; the invariant is that what is received is a prefix of the stream, and all of it for those who stay; termination. Real connections on the loopback, viewers are threads; messages up to 100 kB.')
N('U01', HIST, 'Urdf.tla defines trees, roots and chains; MCUrdf loads all lists of a few joints in any order (refused exactly when they are not a tree). These and random descriptions (optional parts, any order, odd numbers) are read, written and read again. Names of links and joints are distinct.')
N('U02', HIST, 'UrdfTrace.tla puts each link where the products of its origins and joint motions put it (Geom.tla), for the valid descriptions of MCUrdf and random ones, several robots in a world, moved after loading. Types revolute, prismatic, fixed and floating (the others are refused by the code); inertias are those of real bodies; nothing is claimed of a world whose loading was refused.')
N('V03', HIST, 'Added.tla defines what a file shows (nodes, references, libraries); MCAdded adds shapes of files which share identifiers, call after call. Its histories and random ones, and the shapes of URDF robots, are replayed; the files are read before and after and TLC compares all the meshes. Collada stores single precision: tolerance 1e-5. Lights, cameras and textures are not covered; identifiers of frames like those made for the shapes (name_0) are excluded.')

N('P01', 'TLA+ model of the rewritings of a description, with the correspondence of the states; model-checked by TLC (poses, velocities, mass matrix, viscosity, bias forces, weight); the rewritings are replayed on the implementation and the runs compared by TLC through the correspondence', 'MCEquiv: all rewritings of the worlds of 2 bodies, random sequences of 4 rewritings of worlds of 3 bodies. Random worlds of up to 4 bodies with controllers and at most one exactly solved constraint, sequences of up to 8 rewritings. The matrix of the nonlinear effects of the code depends on the origins of the bodies: the rewritings which move them are run with steps of 1e-5, which observe the accelerations (1e-3), the other ones with any steps (1e-7, contacts 1e-5). Nothing is claimed for contacts whose friction may have several solutions (mu large against the admittance).')
N('X01', HIST, 'Matlab.tla gives the links which replace each one; MCMatlab converts all small trees joint by joint, in every order, and TLC checks that the poses are kept. These trees and random worlds (several robots, names or none) are converted by the implementation, several times, and compared link by link. The positions given to the joints of chains are not claimed (the code documents that they are not handled), nor the inertia of the base.')
N('X02', HIST, 'Matlab.tla defines the branches which are written and how a list of branches is read as a tree; MCMatlab checks, for all trees of 4 bodies, that reading gives back the tree and that no other attachment is taken for it. Files of the implementation are parsed and TLC reads them (isomorphism with the tree, up to the order of children). Numbers to 11 digits; names of robots are valid identifiers and names of joints have no quote.')
