"""Writes known_findings.txt: the defects which were repaired, by commit subject."""
import os, subprocess
PROP = [
  ('PerfMonitor forgets the previous', 'O01', 'the summary of a second simulation mixed the durations of both'),
  ('converted for Matlab get light', 'X01', 'the intermediate bodies of converted joints had the mass of the base, 10 tons'),
  ('root joints with several axes are converted', 'X01', 'a root joint with several axes was left under the base'),
  ('every branch of a robot is converted', 'X01', 'links were skipped while the list of the children changed'),
  ('have all their digits, on single lines', 'X02', 'vectors of large robots were cut in several rows, and digits were lost'),
  ('robots made of a single free body', 'X02', 'a robot made of a single free body raised'),
  ('shapes are written for Matlab with the body', 'X02', 'shapes of the ground or of other robots raised, those of unnamed bodies went to another body'),
  ('shapes which cannot be written for Matlab', 'X02', 'a plane was written as the shape before it, or raised'),
  ('a generator can write several robots', 'X02', 'the second robot of a generator got the positions of the first one too'),
  ('timelines which are equally spaced up to', 'X02', 'regular timelines raised because of roundings'),
  ('files of refused simulations are marked', 'X02', 'the file of a refused simulation was not marked'),
  ('collada scenes can be viewed with', 'V02', 'view(scene, hdf5_file, hdf5_group) raised: the group was given as the type of the file'),
  ('viewed in the browser which is asked for', 'V02', 'the browser argument of view and of pydaenimCom was ignored'),
  ('FreeJoint accepts integer', 'J01', 'FreeJoint(gpos=integer matrix): integration raised a casting error'),
 ('ProportionalDerivativeController controls joints of different ndof', 'A02', 'controlling a 1-dof and a 2-dof joint together raised an error'),
 ('principalframe returns a rotation', 'M04', 'principalframe of a mass with repeated principal moments was not a rotation'),
 ('SocketCom sends bytes', 'O02', 'SocketCom.finish sent a str to a socket (TypeError)'),
 ('EnergyMonitor handles massless', 'O03', 'EnergyMonitor divided by the null mass of a massless body (nan energies)'),
 ('name_all_elements checks', 'S08', 'name_all_elements(iterator, True) consumed the iterator and never saw duplicates'),
 ('Hdf5Logger saves the state', 'O02', 'Hdf5Logger with save_state or save_model raised an error'),
 ('CoMObserver derivative', 'O04', 'the derivative of the jacobian of the center of mass missed the rotation of the bodies'),
 ('subframes own their pose', 'K04', 'a subframe changed when the array given at creation was modified'),
 ('joints accept integer initial', 'J01', 'joints created with integer positions or velocities could not be integrated'),
 ('NamedObjectsList.as_dict', 'S08', 'as_dict raised NameError instead of DuplicateNameError'),
 ('add_link refuses', 'S02', 'add_link accepted links to the ground or to an ancestor: infinite recursion'),
 ('a link refused', 'S02', 'a refused link left the joint attached'),
 ('JointLimits enforces', 'C02', 'limits of joints with several dofs were not enforced dof by dof'),
 ('exponential of small twists', 'M03', 'exp of twists around the switch of expansions was not a rotation to the announced order'),
 ('normal of a sphere whose center', 'G01', 'sphere with its center inside a rotated box: wrong normal'),
 ('plane collision frames', 'G01', 'plane frames ignored the pose of the plane'),
 ('contact point of a sphere which penetrates', 'G01', 'contact point of a penetrating sphere was on the wrong side'),
 ('plane collisions accept normals', 'G01', 'normals unitary up to rounding were refused'),
 ('a sticking soft finger', 'C04', 'a sticking contact could pull'),
 ('frictionless and grazing', 'C05', 'frictionless or grazing contacts raised an error'),
 ('SoftFingerContact sliding', 'C05', 'the sliding friction did not satisfy the Coulomb law when directions are coupled'),
 ('choose_solver accepts a point and a box', 'G02', 'choose_solver(point, box) raised NotImplementedError while (box, point) is supported'),
 ('sliding contacts between bodies with few', 'C05', 'sliding contacts raised LinAlgError when some directions of contact cannot move'),
 ('sliding friction is exact when the admittance', 'C05', 'the sliding force did not satisfy the Coulomb law when the admittance is not symmetric'),
 ('a point or the center of a sphere on the surface of a box', 'G01', 'box against a point on its surface: nan frames'),
 ('RigidMotion.itwist', 'J02', 'itwist used the wrong adjoint'),
 ('the trunk of asymmetric humans', 'R01', 'the suprasternale and the inertia of the upper trunk were not those of the mirrored lengths'),
 ('loggers refuse moving frames', 'O02', 'a moving frame with the name of a body or of a joint frame silently replaced its transform'),
  ('the visualisation modules work with Python 3', 'V01', 'arboris.visu could not be used with Python 3'),
  ('the collada drivers take the graphic options', 'V02', 'the collada drivers ignored the scale and options of the drawing'),
  ('flat drawings place the moving frames', 'V01', 'flat drawings placed the moving frames at their pose in their body instead of in the ground'),
  ('collada scenes of unnamed bodies', 'V02', 'write_collada_scene raised with unnamed bodies, and inertias were not bound to their body'),
  ('lines which do not start at the origin', 'V02', 'create_line scaled the start of the line'),
  ('friction does not vanish at the very limit', 'T01', 'a contact sliding at the very limit of its cone got no friction at all'),
  ('simulations with a socket observer end without viewer', 'O05', 'SocketCom.finish raised without connection, and kept the port when the viewer had left'),
  ('socket observers which ask for the same port', 'O05', 'two SocketCom of one simulation took the same port and the second one raised'),
  ('the URDF modules work with Python 3', 'U01', 'the URDF modules could not be used with Python 3'),
  ('origins of URDF files may have', 'U01', 'an origin with only xyz or only rpy raised'),
  ('URDF links without inertia', 'U02', 'links without inertia (or without mass) raised'),
  ('the axes of URDF joints may be absent', 'U02', 'joints without axis raised, axes of any length gave displacements which are not rigid'),
  ('URDF robots can be loaded with a prefix', 'U02', 'a prefix or a suffix raised'),
  ('joints of URDF robots may have no limits', 'U02', 'joints without limits raised'),
  ('meshes of URDF files may be scaled', 'U02', 'the scale of meshes was a string, or raised'),
  ('boxes of URDF files are not drawn twice', 'U02', 'boxes were twice as large as described'),
  ('mimic elements of URDF joints', 'U01', 'mimic elements raised when they were written'),
  ('whole files of shapes, and shapes with a scale', 'V03', 'whole files, and shapes with a scale and no transform, raised'),
  ('shapes added to collada files do not get', 'V03', 'a shape got the geometry or the material of another file which has the same ids'),
  ('the shapes of a URDF file which is parsed afterwards', 'U02', 'get_visual_shapes and get_collision_shapes raised when the file was given to parseURDF'),
  ('nodes of libraries can be added', 'V03', 'instances of nodes of libraries raised')]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = [l.split(' ', 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
out = ['# Defects of the code under test found by the checks.', '# "fixed:" entries were repaired in /repo and suppress nothing.',
       '# "known:" entries are recorded, not repaired: a test of the repository holds the present value.',
       'known: property=R01 key=clause:inertia_of_the_right_hand the transverse inertias of the right hand (HandR) are exchanged: they are not the mirror of those of the left hand']
done = set()
for h, s in reversed(log):
    if not s.startswith('fix:'): continue
    m = [p for p in PROP if p[0] in s] 
    if len(m) > 1: m = [max(m, key=lambda p: len(p[0]))]
    if not m: raise SystemExit('no entry for ' + s)
    out.append('fixed: property=%s %s %s' % (m[0][1], h, m[0][2])); done.add(m[0][0])
for p in PROP:
    if p[0] not in done: print('unused', p)
open(os.path.join(root, 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
