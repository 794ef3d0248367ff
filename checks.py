"""Properties, and the harness entries that decide them. `vf.py gen` writes properties.jsonl, MANIFEST.json and DESIGN.md from this file."""
CORE=['core/Body.cpp','core/BodyContainer.cpp','core/Cell.cpp','core/Clump.cpp','core/ForceContainerParallel.cpp','core/Interaction.cpp','core/InteractionContainer.cpp','core/Material.cpp','core/Scene.cpp','core/State.cpp','core/corePlugins.cpp','lib/base/Math.cpp','lib/factory/ClassFactory.cpp','lib/factory/DynLibManager.cpp']
CHECKS={}; NA={}
def P(id,title,statement,over,quant,why,files,mech,explanation,units,assumptions=(),budget=None):
    CHECKS[id]=dict(title=title,statement=statement,over=over,quant=quant,why=why,files=files,mech=mech,explanation=explanation,units=units,assumptions=list(assumptions),budget=budget or {})
def U(harness,*entries,sources=None,env=True,**kw): return dict(harness=harness,env=env,sources=(CORE if sources is None else sources),entries=list(entries),**kw)
def E(fn,bounds,**kw): return dict(fn=fn,bounds=bounds,**kw)
def T(fn,bounds,**kw): return E(fn,bounds,thorough=True,**kw)

def N(id,title,statement,over,quant,why,files,mech,reason):
    NA[id]=dict(title=title,statement=statement,over=over,quant=quant,why=why,files=files,mech=mech,reason=reason)
N('C40','Pore fluid flow conserves fluid mass and balances the forces on the grains',
 'In a fluid-saturated packing the flow through the facets of every pore without imposed pressure balances its change of volume (plus compressibility) in every step, imposed pressures are met exactly, and the fluid forces on the grains add up to the force of the imposed pressures on the boundaries.',
 ['inputs','histories'],'all packings, boundary conditions and deformation histories',
 'tests solve one or two packings; balance must hold for every triangulation and boundary condition',
 ['pkg/pfv/FlowEngine.ipp.in','lib/triangulation/FlowBoundingSphere.ipp','lib/triangulation/FlowBoundingSphereLinSolv.ipp'],['FlowEngine::action','FlowBoundingSphere::gaussSeidel, computeFacetForcesWithCache'],
 'the flow code works on a CGAL regular triangulation built with filtered exact predicates and (in practice) a sparse direct solver in an external library; both are far outside what can be executed symbolically within reach (the geometry of the triangulation would be enumerated, not decided), and the solver is not part of this code base')
N('C41','Polyhedral bodies: overlap volume, forces and splitting are geometrically exact',
 'The contact of two polyhedra has the volume, centroid and normal of their geometric intersection, mass properties are those of the solid, and splitting a polyhedron conserves its volume.',
 ['inputs'],'all pairs of convex polyhedra and placements',
 'tests place a few cubes',
 ['pkg/dem/Polyhedra_support.cpp','pkg/dem/Polyhedra_Ig2.cpp','pkg/dem/Polyhedra.cpp'],['polyhedron_polyhedron_intersection','P_volume_centroid','Polyhedra::Initialize'],
 'every function works on CGAL polyhedra, convex hulls and AABB trees (lazy exact kernels, reference-counted handles, interval arithmetic with changed rounding modes); a symbolic run would have to execute CGAL itself on symbolic reals')
N('C42','A distributed run computes the same trajectories as a single-process run',
 'Splitting a simulation over several processes changes no trajectory beyond rounding: every body is integrated by exactly one process, its copies and remote contacts follow it, and domain reassignment loses and duplicates no body.',
 ['schedules','histories'],'every number of processes, order of messages and history of reassignments',
 'tests do not start several processes',
 ['py/mpy.py','py/domaindecomposition.py','core/Subdomain.cpp'],['splitScene, mergeScene, sendRecvStates, checkCollision, reallocateBodiesToSubdomains'],
 'the protocol is written in Python on top of mpi4py and of the scene object; there is no encodable intermediate representation of the Python layer here, and mpi4py is not installed so a counterexample could not be replayed. The C++ side (buffers and states exchanged) is decided under C30, the collider rules for subdomains under C04')

P('C01','Body ids always designate the same body',
 'Adding a body gives it the next id, and from then on that id designates that body and no other until the body is erased; erasing leaves every other body, its id and the number of slots unchanged, and a freed id can be taken again by an explicit insertion at that id and by nothing else. Iterating over the bodies visits every existing body exactly once in increasing id order, and operations on ids out of range or already free are refused without effect. Every insertion records the step and time of birth and makes collision detection start afresh.',
 ['histories'],'every history of up to 4 (thorough: 5) insertions, insertions at an id, erasures and clears, with every id from -1 to one past the end',
 'tests erase and insert a few bodies in one fixed order; the property quantifies over every order of operations and over ids at both ends of the range',
 ['core/BodyContainer.hpp','core/BodyContainer.cpp','core/Body.cpp'],['BodyContainer::insert, insertAtId, erase, clear, exists, smart_iterator'],
 'Every history within the bound is one symbolic path (operation codes and ids are solver variables split by path); after every operation the container is compared with a reference vector: size, existence, identity, ids, iteration, birth data, sort request; memory accesses outside the vector are violations.',
 [U('containers.cpp',E('h_bodies4','4 operations'),T('h_bodies5','5 operations'))])

P('C02','The contact list and the contacts seen from each body agree',
 'A pair of bodies has at most one contact; a contact that was created is listed exactly once, can be found from its two bodies in either order and is among the contacts of both bodies, until it is purged or its bodies are deleted. Requesting removal of a contact makes it virtual but keeps it listed until the next purge, purging removes exactly the virtual contacts that collision detection does not want to keep, and deleting or replacing a body, clearing the list, or saving and loading never leaves a stale entry, a hole, a lost contact or a wrong count of real contacts on any body.',
 ['histories','schedules'],'every history of up to 2 (thorough: 3) operations among insertion, removal request, conditional purge with any keep decision (1 or 2 threads queues), full purge, body erasure and re-insertion, clear, save+load, on 3 or 4 bodies from any initial set of virtual or real contacts',
 'tests create contacts through whole simulations and never compare the linear list with the per-body maps; stale or duplicate entries need particular orders of erasure, replacement and purge',
 ['core/InteractionContainer.hpp','core/InteractionContainer.cpp','core/Interaction.cpp','core/Body.hpp'],['InteractionContainer::insert, erase, requestErase, conditionalyEraseNonReal, eraseNonReal, preSave/postLoad, clear; Interaction::reset'],
 'Histories from an arbitrary initial contact graph are executed symbolically (graph, operations, arguments and keep decisions are solver variables split by path) and compared after every operation with a reference list of contacts: membership both ways, pointers, reality, counts, size, holes, number purged.',
 [U('containers.cpp',E('h_intrs3','3 bodies, any initial graph, 2 operations'),E('h_intrs4','4 bodies, any graph on 5 pairs, 1 operation'),T('h_intrs3_3','3 bodies, 3 operations',opts=['--max-paths',400000]),T('h_intrs4_2','4 bodies, any graph on 4 pairs, 2 operations',opts=['--max-paths',400000]))],
 ['a contact whose two bodies have both been replaced is not inserted again before a purge'])

P('C03','Forces on a body are the sum of all contributions plus the permanent part',
 'After synchronization the force, torque, prescribed displacement and prescribed rotation of every body are the exact sums of everything that any thread added since the last reset, plus the permanent force and torque set for that body; this does not depend on which thread contributed, in what order, or on how far the storage had to grow. A reset zeroes exactly the resettable part, permanent forces last until they are overwritten or explicitly reset, and a read without synchronization returns the same sum.',
 ['histories','schedules','inputs'],'every history of 3 (thorough: 4) operations among additions by either of 2 threads, permanent force updates, resets, synchronizations, unsynchronized reads and growth requests, for ids 0, 4 and 170 and all force values',
 'tests read forces after single-threaded steps; sums over threads with different storage sizes, growth between additions and permanent forces of high ids depend on the history',
 ['core/ForceContainer.hpp','core/ForceContainerParallel.cpp'],['ForceContainer::addForce/addTorque/addMove/addRot, setPermForce, ensureSize, syncSizesOfContainers, sync, reset, get*Single'],
 'Operation, thread and body are path-split solver variables and all force components are real variables; the values returned are compared with a reference sum for all values of the contributions.',
 [U('force.cpp',E('h_force3','3 operations, forces, torques, moves and rotations'),T('h_force4','4 operations, forces and torques',opts=['--max-paths',200000]),env=False,sources=[])])
GEO=CORE+['pkg/dem/ScGeom.cpp','pkg/dem/FrictPhys.cpp','pkg/common/common.cpp','pkg/common/Dispatching.cpp']
P('C06','Linear frictional contacts: elastic, Coulomb-limited, balanced',
 'Two overlapping bodies with the linear frictional law repel with stiffness times overlap along the normal, and their shear force is the rotated previous one plus the elastic increment, scaled back onto the Coulomb limit (same direction) when it exceeds friction times the normal force; creep only relaxes it by the viscous law. The forces on the two bodies are opposite and applied at the contact point, separated bodies exchange no force and lose the contact unless it must be kept, and the reported elastic energy and plastic dissipation are those of these forces.',
 ['inputs'],'all radii 0.5-2, overlaps up to 0.5 (separations up to 0.5), any unit normal, any position, previous force, shear increment, stiffness 0.1-10, friction 0-2, periodic or not, spherical or general bodies',
 'tests run a few contacts along coordinate axes; friction return, torque arms and energy accounting have to hold for every direction, force history and combination of options',
 ['pkg/dem/ElasticContactLaw.cpp','pkg/dem/ElasticContactLaw.hpp','pkg/dem/ScGeom.cpp'],['Law2_ScGeom_FrictPhys_CundallStrack::go, elasticEnergy, getPlasticDissipation','Law2_ScGeom_ViscoFrictPhys_CundallStrack::go','ScGeom::rotate'],
 'The law runs on a contact whose geometry and state are real variables; forces, torques, energies and the decision to keep the contact are compared with the Coulomb law for all values.',
 [U('frict.cpp',E('h_frict','one contact, any normal'),E('h_frict_rot','one sticking contact along x that tilts and spins'),E('h_frict_per','one contact, any normal, periodic, viscous variant without creep'),E('h_frict_energy','one contact along x, energy tracking'),E('h_frict_sep','separated contact'),E('h_frict_creep','one contact along x, creep on or off'),sources=GEO+['pkg/dem/ElasticContactLaw.cpp'])])

P('C32','Contact stiffness and friction follow from the two materials',
 'When a contact between elastic or frictional bodies is created, its normal and shear stiffnesses are the harmonic means of the two bodies\' stiffnesses (modulus times radius, times the shear ratio; a body without radius takes the other\'s), and its friction coefficient is the tangent of the smaller friction angle or of the user-defined pair value. User-defined pair values do not depend on the order of the pair, an explicitly listed pair takes precedence over the fallback rule, and an existing contact keeps its parameters.',
 ['inputs'],'all moduli 0.1-100, shear ratios 0.05-0.95, radii 0.1-10 with either body possibly without radius, friction angles 0-1.2, all six fallback rules, listed pairs of ids 0-3 in either order',
 'tests use identical materials on both sides, where errors in the averaging or in the order of the pair are invisible',
 ['pkg/dem/FrictPhys.cpp','pkg/dem/Ip2_ElastMat.cpp','pkg/common/MatchMaker.cpp','pkg/common/MatchMaker.hpp'],['Ip2_FrictMat_FrictMat_FrictPhys::go','Ip2_FrictMat_FrictMat_ViscoFrictPhys::go','Ip2_ElastMat_ElastMat_NormPhys::go','Ip2_ElastMat_ElastMat_NormShearPhys::go','MatchMaker::operator(), postLoad'],
 'The material functors run on two materials with real-valued parameters; the resulting stiffnesses and friction are compared with the averaging rule for all values.',
 [U('ip2.cpp',E('h_ip2_frict','one contact, every matcher case'),E('h_ip2_viscofrict','one contact, every matcher case'),E('h_ip2_elast','sphere and non-sphere geometry'),E('h_matchmaker','two listed pairs, ids 0-3'),sources=GEO+['pkg/dem/Ip2_ElastMat.cpp','pkg/common/MatchMaker.cpp'])])
NEWT=GEO+['pkg/dem/NewtonIntegrator.cpp','pkg/dem/GlobalStiffnessTimeStepper.cpp']
P('C05','Bodies move by Newton\'s law, honouring blocked axes, damping and cell flow',
 'In every step each free body\'s velocity changes by time step times (force/mass + gravity), reduced or increased by the non-viscous damping according to the sign of its power, and its position by the new velocity plus any prescribed move; blocked axes keep their velocity, bodies outside the mask or of another subdomain stay put, and density scaling multiplies accelerations. Rotations follow the torque (momentum-based for aspherical bodies) and orientations stay unit rotations; in a deforming periodic cell velocities and spins follow the change of the mean field and damping acts on the fluctuation; clumps integrate the forces and moments on their members, which keep their place and get the rigid-body velocity. Leaving the swept bound or a changed cell signals collision detection, and tracked kinetic energy, gravity work and damping dissipation are those of this motion.',
 ['inputs'],'all positions, velocities, forces, torques, masses 0.5-5, inertias 0.5-5, time steps 0.001-1, damping 0-0.9, gravity, every combination of blocked axes, masks, subdomains and request of cell velocity gradient, one body (two or three bodies for the collision signal, two members for clumps)',
 'tests integrate a handful of trajectories; sign-dependent damping, combinations of blocked axes, masks, periodic convective terms and aspherical rotations each have cases they never visit',
 ['pkg/dem/NewtonIntegrator.cpp','pkg/dem/NewtonIntegrator.hpp','core/Clump.hpp','core/Cell.hpp'],['NewtonIntegrator::action, leapfrogTranslate, leapfrogSphericalRotate, leapfrogAsphericalRotate, updateEnergy, saveMaximaDisplacement','Clump::addForceTorqueFromMembers, moveMembers'],
 'The integrator runs on bodies whose state, forces and parameters are real variables; the new state is compared with the leapfrog law for all values, with square roots, sines and cosines as constrained unknowns.',
 [U('newton.cpp',E('h_newton_lin','one body, 16 sets of blocked axes, damping'),E('h_newton_opts','one body, density scaling, mask, moves, subdomains'),E('h_newton_rot','angular velocity, 8 sets of blocked axes'),E('h_newton_rotdamp','damped angular velocity'),E('h_newton_ori','any unit orientation, prescribed rotation, mask'),E('h_newton_asph_x','aspherical, 4 orientations, inertia 1,2,4, dt 0.5'),E('h_newton_asph_y','aspherical with density scaling'),E('h_newton_asph_i','aspherical from identity, any inertia and dt'),E('h_newton_asph_damp','aspherical, damped torque'),E('h_newton_per','periodic, homoDeform 0-3, any gradients'),E('h_newton_perdamp','periodic damping'),E('h_newton_collide','one body'),E('h_newton_collide2','1-3 bodies, 2 threads'),E('h_newton_cellchange','periodic, three steps'),E('h_newton_energy','one body blocked'),E('h_newton_dampenergy','one body blocked'),E('h_newton_clump','clump of two members rotating about z'),sources=NEWT)],
 ['aspherical bodies start from one of five orientations whose components are exact binary fractions'])

IG2=GEO+['pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp','pkg/dem/Ig2_Box_Sphere_ScGeom.cpp','pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp','pkg/common/Facet.cpp','pkg/common/Wall.cpp']
P('C07','Contact geometry: overlap, normal, contact point and relative motion',
 'For a sphere touching another sphere, a box, a triangular facet or an axis-aligned wall, the overlap is the radius (sum of radii) minus the distance to the nearest point of the other body, the unit normal points from that nearest point (first centre) to the sphere and the contact point is in the middle of the overlap (for a wall: on the wall); a sphere whose centre is inside a box is pushed out through the nearest face. A contact is created exactly when the bodies touch (for spheres: within the detection factor) or when asked for, existing contacts are updated in place even when separated, and the nearest periodic image is used for positions and velocities. The shear increment is the tangential relative velocity at the contact times the step (with constant branch lengths when ratcheting is avoided), tangent vectors follow the rotation of the normal and the mean spin of the two bodies, and twist and bending measure the relative rotation since creation.',
 ['inputs'],'all radii, positions, velocities, spins, box sizes and facet sizes in the stated ranges; four orientations of boxes and facets; two shapes of triangle (right and obtuse); existing, virtual or new contacts; periodic offsets',
 'tests place bodies along coordinate axes with no periodic offset; nearest-point regions, order of the bodies, periodic images and rotation terms have cases that no fixed configuration visits',
 ['pkg/dem/ScGeom.cpp','pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp','pkg/dem/Ig2_Box_Sphere_ScGeom.cpp','pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp','pkg/common/Facet.cpp'],['Ig2_Sphere_Sphere_ScGeom::go','Ig2_Sphere_Sphere_ScGeom6D::go','Ig2_Box_Sphere_ScGeom::go, goReverse','Ig2_Facet_Sphere_ScGeom::go','Ig2_Wall_Sphere_ScGeom::go','ScGeom::precompute, getIncidentVel, rotate','ScGeom6D::precomputeRotations','Facet::postLoad'],
 'The geometry functors run on two bodies whose positions, sizes and motion are real variables; the result is compared with the definition of the nearest point (for facets: the returned point is in the triangle and satisfies the optimality condition against every vertex) and of the relative velocity for all values.',
 [U('geom.cpp',E('h_ig_ss','two spheres, new, virtual or existing contact'),E('h_ig_ss_per','same, periodic'),E('h_ig_ss_kin','relative motion'),E('h_ig_ss_kinper','relative motion, periodic with any velocity gradient'),E('h_ig_box','box and sphere, 4 orientations'),E('h_ig_box_per','periodic'),E('h_ig_box_rev','sphere given first, periodic or not'),E('h_ig_box_kin','relative motion'),E('h_ig_facet0','right triangle of any size, relative motion'),E('h_ig_facet1','obtuse triangle of any size'),E('h_ig_facet_rot','rotated facet, periodic'),T('h_ig_facet_rot4','four orientations, periodic'),E('h_ig_facetdata','right triangle, any order of the vertices'),E('h_ig_wall','wall, any axis and sense'),E('h_ig_rot','rotation of either body about any axis, 16 initial orientations'),sources=IG2)],
 ['facets have their origin at the centre of the inscribed circle and no shrink factor; rotations are less than half a turn; the centre of a sphere touching a facet is at least 0.01 away from its plane'])

BO=GEO+['pkg/common/Bo1_Aabb.cpp','pkg/common/Facet.cpp','pkg/common/Wall.cpp']
SCHED=BO+['pkg/common/InteractionLoop.cpp']
P('C13','A step runs every active engine once, in order, and advances time once',
 'Each step of a simulation first deforms the periodic cell, then runs exactly the engines that are neither dead nor inactive, in their order and with the simulation set, then advances the step number by one and the time by the time step; running the engines one at a time, or changing between whole steps and single engines at any point, gives the same sequence. Engines replaced during a step take effect from the next step. At most one time stepper is accepted and switching it on or off affects exactly it, and the bounding box of the simulation is the smallest one containing every body or its bound.',
 ['histories','inputs'],'three engines with at most one dead or inactive, up to 5 calls with sub-stepping on or off at each, replacement of the engines by another list during the first step, any time step, time, step number and cell velocity gradient; 0-2 time steppers; 2 bodies with or without bounds',
 'tests run whole steps with fixed engine lists; the two code paths for whole and single-engine stepping must agree at every point where the mode may change',
 ['core/Scene.cpp','core/Scene.hpp','core/Engine.hpp','core/TimeStepper.hpp'],['Scene::moveToNextTimeStep, timeStepperPresent/Active/Activate, updateBound'],
 'Engines of the harness record when they run; modes are path-split solver variables and times, steps and cell are real or integer variables; trace, step number, time and cell are compared after each call with a reference.',
 [U('sched.cpp',E('h_scene_step','3 engines, 5 calls, any mode sequence'),E('h_scene_misc','0-2 time steppers, 2 bodies'),sources=SCHED)],
 ['the wall clock used for the speed statistics is a stub'])
P('C12','Every contact goes through geometry, physics and law of its bodies\' types',
 'In each step every listed contact is processed once: the geometry functor gets both bodies in the order it was written for (the contact, its ids and its periods are swapped when needed) with the second body shifted by the contact\'s periods, then the physics functor gets the two materials and the law gets the result; a contact without geometry is not real, a law can end a contact, and the step at which it became real is remembered. Contacts of clumps, of erased bodies, of other subdomains or of bodies without shape or functor are not processed, callbacks see exactly the real contacts, and contacts that a marking collider did not see are removed unless real. The functor chosen for a pair of types is the one declared for the nearest base classes, whatever pairs were dispatched before.',
 ['inputs','histories'],'one contact through two steps with every outcome of geometry and law in each, 7 kinds of bodies, any cell; facet and sphere in either order; two contacts seen or unseen, real or virtual; up to three functors on a material hierarchy of depth 3, two lookups in any order',
 'tests use one functor per type and symmetric contacts, where a wrong order, period or functor is invisible, and never look at how a contact is dispatched after another one',
 ['pkg/common/InteractionLoop.cpp','pkg/common/Dispatching.cpp','lib/multimethods/DynLibDispatcher.hpp','core/Dispatcher.hpp','core/Interaction.cpp'],['InteractionLoop::action','DynLibDispatcher::add2DEntry, locateMultivirtualFunctor2D, getFunctor2D','Interaction::swapOrder, reset'],
 'Functors of the harness record their arguments and return solver-chosen results; every combination of outcomes is one path, compared with a reference of what must be called.',
 [U('sched.cpp',E('h_loop','one contact, two steps'),E('h_loop_swap','facet and sphere'),E('h_loop_unseen','two contacts'),E('h_dispatch','three functors, two lookups'),sources=SCHED)],
 ['the OpenMP loop over contacts is executed sequentially'])
P('C15','Periodic engines run when, and only when, their period has elapsed',
 'A periodic engine runs at its first opportunity only if an initial run was requested (or its period has elapsed already), and afterwards exactly when its period in steps, simulated time or wall-clock time has elapsed since it last ran, whichever comes first, until the requested number of activations is reached. With a first step given it runs at that step and periodically from there on, and when the step number goes back, counting starts again.',
 ['histories','inputs'],'3 calls at any later steps, times and clock readings, any periods, with each criterion alone and steps combined with simulated time (thorough: all combinations), initial run or not, limits -1, 1 and 2; first steps 1-5 with periods 1-3 over 8 steps',
 'tests run engines with one period and regular steps; the interplay of several criteria, limits and irregular progress of the clocks is never sampled',
 ['pkg/common/PeriodicEngines.hpp'],['PeriodicEngine::isActivated'],
 'Steps, times, periods and clock readings are solver variables; the decision at each call is compared with the definition for all values.',
 [U('sched.cpp',E('h_periodic_one','each criterion alone, 3 calls'),E('h_periodic_vi','steps and simulated time, 3 calls'),T('h_periodic_ri','steps and wall clock, 3 calls'),T('h_periodic_all','all criteria, 3 calls',opts=['--max-paths',200000]),E('h_periodic_first','first steps 1-5, periods 1-3'),E('h_periodic_reset','step number reset'),sources=SCHED)],
 ['the first call counts as one of the requested number of activations even when it does not run the engine'])
P('C14','The automatic time step never exceeds the critical step of any body',
 'The step chosen by the stiffness-based stepper is the safety factor times the smallest critical step over all movable bodies and axes, translational and rotational, with all contacts that carry a normal force (those of all members for a clump, and the dashpots when requested) added up; it is capped by a positive largest step and grows by at most 5% at a time. Without contacts the default step, or safety times the smallest radius over wave speed, is used; with density scaling the step is the target and each body in contact is scaled to make it stable.',
 ['inputs','histories'],'one contact with any stiffness and any normal in a coordinate plane, two contacts on a shared body with normals along axes, a clump of two members, one viscoelastic contact with or without a body that has none, all stiffnesses, masses and safety factors, capping, growth, default and update interval',
 'tests only run simulations that happen to be stable; a step that is too large for one orientation, body or clump diverges only in particular packings',
 ['pkg/dem/GlobalStiffnessTimeStepper.cpp','pkg/dem/GlobalStiffnessTimeStepper.hpp','pkg/dem/Shop_01.cpp'],['GlobalStiffnessTimeStepper::computeTimeStep, computeStiffnesses, findTimeStepFromBody, isActivated','Shop::PWaveTimeStep'],
 'The stepper runs on bodies and contacts with real-valued parameters; the square of the step is compared with the stiffness of every axis: no axis is exceeded and one is attained.',
 [U('timestep.cpp',E('h_dt_axis','one contact along each axis, rotational stiffness'),E('h_dt_trans','translation, any normal in a coordinate plane'),E('h_dt_rot','rotation, any normal in a coordinate plane'),E('h_dt_two','three bodies, two contacts, inactive contacts'),E('h_dt_clump','clump of two members'),E('h_dt_visc','dashpots, bodies without contact, switched on later'),E('h_dt_density','density scaling'),E('h_dt_state','default, cap, growth'),E('h_dt_when','update interval'),E('h_dt_pwave','wave-speed step of two spheres'),sources=NEWT+['pkg/dem/ViscoelasticPM.cpp','pkg/dem/Shop_01.cpp'])],
 ['the factor sqrt(2) of the code is 1.41044'])
P('C11','A clump is the rigid body made of its members',
 'A clump has the total mass of its members, lies at their centroid, and its orientation and principal inertia reproduce the inertia tensor of all members together (for overlapping spheres: of the grid cells covering their union); forming it leaves the members where they are, and from then on they follow its translation and rotation rigidly. Each body belongs to at most one clump, clump and members agree about it through additions, removals and mergers, and adding a member of another clump or removing a non-member is refused without effect.',
 ['inputs','histories'],'two spheres on a line, two overlapping spheres of equal radius on a grid of cells of that radius, one or two general bodies with any mass, inertia and four orientations on a line along an axis; any position, orientation and velocity of a clump with two members; 3 (thorough: 4) operations on two clumps and three bodies',
 'tests build clumps of one orientation and look at the mass or a settled position; a wrong handedness or order of principal axes shows only for some arrangements',
 ['core/Clump.cpp','core/Clump.hpp'],['Clump::updateProperties','Clump::updatePropertiesNonSpherical','Clump::moveMembers','Clump::add, del'],
 'The clump code and the eigenvalue solver of Eigen run on members with real-valued masses, inertias and positions; mass, centroid and the tensor R diag(I) R^T are compared with the parallel-axis theorem, membership with a reference for every history.',
 [U('clump.cpp',E('h_clump_spheres','two separate spheres, three axes'),E('h_clump_bodies','two general bodies, three axes, four orientations'),E('h_clump_single','one member'),E('h_clump_overlap','two overlapping spheres, 12 cells'),E('h_clump_members','3 operations'),T('h_clump_members4','4 operations',opts=['--max-paths',200000]),E('h_clump_move','two members, any motion'),sources=NEWT)],
 ['the members lie on a line along a coordinate axis, so that their inertia tensor is diagonal'])
P('C20','Cohesive contacts: elastic up to their strength, then broken or plastic',
 'A cohesive-frictional contact is elastic in the normal and shear directions up to its tensile strength and to its shear strength (adhesion plus friction, or adhesion alone on request); beyond them a brittle bond breaks for good (lost in tension, frictional in shear, never gaining force) and a ductile one stays at its strength, and a negative strength means unlimited. Rolling and twisting moments oppose the relative rotation elastically up to their limits and act oppositely on the two bodies, energies are those of the forces, and strengths, stiffnesses and brittleness follow from both materials when cohesion is requested, in the step of the request only.',
 ['inputs','histories'],'all overlaps and extensions, previous shear forces and increments, stiffnesses, strengths, friction, plastic extensions, brittle or ductile, intact or broken, fresh or old; moments in total and incremental form; two materials with any parameters; requests over three steps on three contacts',
 'tests break one bond in one direction; the order of the failure criteria and the state left behind matter in combinations they never reach',
 ['pkg/dem/CohesiveFrictionalContactLaw.cpp','pkg/dem/CohesiveFrictionalContactLaw.hpp'],['Law2_ScGeom6D_CohFrictPhys_CohesionMoment::go','Ip2_CohFrictMat_CohFrictMat_CohFrictPhys::go','CohFrictPhys::SetBreakingState'],
 'The law and the material functor run on one contact whose geometry, history and parameters are real variables; forces, moments, energies, bond state and the decision to keep the contact are compared with the failure criteria for all values.',
 [U('coh.cpp',E('h_coh','one contact, any normal'),E('h_coh_energy','one contact along x, energies'),E('h_coh_elastic','negative strengths, turning contact'),E('h_coh_creep','shear creep'),E('h_coh_moment','moments from total rotations'),E('h_coh_momentinc','moments from increments, plastic limits'),E('h_coh_ip2','parameters of a new contact'),E('h_coh_now','requests of cohesion'),sources=GEO+['pkg/dem/CohesiveFrictionalContactLaw.cpp','pkg/common/MatchMaker.cpp'])],
 ['the normal force of a ductile contact sliding under tension is not constrained','twist creep is outside the bounds'])
P('C19','Hertz-Mindlin contacts: Hertz force, Coulomb limit, dissipative damping',
 'A Hertz-Mindlin contact exerts the Hertz normal force (less the adhesion), a shear force that is the rotated previous one plus the stiffness at the current overlap times the slip, limited by Coulomb, and, on request, rolling and twisting moments that oppose the relative rotation; forces act at the contact point, oppositely on the two bodies, and nothing survives a separation. Viscous damping has the documented coefficient, opposes the velocity, never makes a non-adhesive contact attract, and the energies reported are the work of these forces. The coefficients follow from both materials and radii, and contradictory or incomplete damping parameters are refused.',
 ['inputs','histories'],'all radii 0.5-2, overlaps from 0.06 to 0.56 and separations up to 0.5, any unit normal, velocities, previous shear forces, slips and moments, stiffness coefficients, friction, adhesion and damping; fixed or free bodies; periodic or not; the linear-shear and partial-slip variants; every combination of damping parameters of two materials',
 'tests run the law on head-on collisions with equal materials; sliding, separation with kept contacts, damping limits and combinations of options are not visited',
 ['pkg/dem/HertzMindlin.cpp','pkg/dem/HertzMindlin.hpp'],['Law2_ScGeom_MindlinPhys_Mindlin::go, energies and counts','Law2_ScGeom_MindlinPhys_HertzWithLinearShear::go','Law2_ScGeom_MindlinPhys_MindlinDeresiewitz::go','Ip2_FrictMat_FrictMat_MindlinPhys::go','Ip2_FrictMat_FrictMat_MindlinCapillaryPhys::go'],
 'The laws and material functors run on one contact whose geometry (overlap as the square of a variable), history and parameters are real variables; forces, torques, energies, flags and coefficients are compared with the formulas for all values.',
 [U('hertz.cpp',E('h_hm','one contact, any normal'),E('h_hm_x','one contact along x'),E('h_hm_energy','energies'),E('h_hm_damp','damping'),E('h_hm_rot','rotation and moments'),E('h_hm_roll','rolling limit'),E('h_hm_sep','separation'),E('h_hm_linear','linear shear'),E('h_hm_slip','partial slip'),E('h_hm_ip2','parameters'),E('h_hm_ip2cap','parameters'),E('h_hm_es','parameters'),sources=GEO+['pkg/dem/HertzMindlin.cpp','pkg/common/MatchMaker.cpp'])],
 ['the friction limit of a contact in net attraction is only bounded from above','damping together with adhesion is outside the bounds','the fourth root and the logarithm are uninterpreted functions'])
P('C21','Viscoelastic and hysteretic contacts and liquid bridges',
 'A viscoelastic contact exerts an elastic plus viscous normal force that never attracts, and an elastic shear force (the rotated previous one plus the increment) limited by Coulomb plus a viscous part unless it slides, both from the true relative velocity of the two bodies at the contact, including that of a periodic image in a deforming cell; rolling resistance has the specified size against the direction of the relative spin, and Luding\'s hysteretic contact follows its loading, unloading and adhesive branches. Forces act at the contact point and oppositely on the two bodies, and separated dry contacts vanish. A liquid bridge forms on contact, pulls (damped) while shorter than its critical length and is lost beyond, the reported number and volume being those of the stretched bridges; parameters follow from both materials, and inconsistent materials are refused.',
 ['inputs','histories'],'all radii 0.5-2, overlaps up to 0.5, velocities, spins, previous shear forces, stiffnesses, viscosities and friction (any unit normal for bodies that do not spin); any velocity gradient of three components in a box cell; hysteretic states with any largest, force-free and previous overlap; four steps of touching or stretched bridge; every way of specifying the two materials',
 'tests let two spheres collide head-on in open space; periodic images, rolling, sliding under damping and bridge bookkeeping over several steps are not visited',
 ['pkg/dem/ViscoelasticPM.cpp','pkg/dem/ViscoelasticPM.hpp','pkg/dem/ViscoelasticCapillarPM.cpp','pkg/dem/LudingPM.cpp'],['computeForceTorqueViscEl','Law2_ScGeom_ViscElPhys_Basic::go','Law2_ScGeom_ViscElCapPhys_Basic::go','Ip2_ViscElMat_ViscElMat_ViscElPhys::go','Ip2_ViscElCapMat_ViscElCapMat_ViscElCapPhys::go','Law2_ScGeom_LudingPhys_Basic::go','Ip2_LudingMat_LudingMat_LudingPhys::go'],
 'The laws and material functors run on one contact whose geometry, motion, history and parameters are real variables; forces, torques, bridge state and coefficients are compared with the documented formulas for all values.',
 [U('visc.cpp',E('h_ve','one contact, any normal'),E('h_ve_x','one contact along x'),E('h_ve_per','periodic cell in any flow'),E('h_ve_rot','turning contact'),E('h_ve_roll','rolling resistance'),E('h_ve_sep','separation'),E('h_ve_bridge','liquid bridge over four steps'),E('h_ve_bridgeper','damped bridge in a periodic cell'),E('h_ve_ip2','parameters'),E('h_lud','hysteretic contact, any state, moving along the normal'),E('h_lud_per','hysteretic contact, first loading, periodic flow'),E('h_lud_shear','hysteretic contact, first loading, any motion'),E('h_lud_ip2','hysteretic parameters'),E('h_lud_sep','hysteretic contact, separation'),sources=GEO+['pkg/dem/ViscoelasticPM.cpp','pkg/dem/ViscoelasticCapillarPM.cpp','pkg/dem/LudingPM.cpp','pkg/common/MatchMaker.cpp'])],
 ['the capillary force formulas themselves are taken as given','the iterative search of a viscosity from a restitution coefficient is not encoded','the logarithm and the cube root are uninterpreted functions','hysteretic contacts of two spheres only'])
P('C16','Prescribed forces, gravity and motions reach exactly the chosen bodies',
 'Engines that apply a force, torque, radial force, drag, uniform, central or axial gravity, act on exactly the listed (or masked, existing) bodies with the specified size and direction, and gravity acts on every body except clumps and accounts for its work. Engines that prescribe a translation, rotation, helix, harmonic motion or a combination of motions set exactly the velocities, spins and displacements that follow from their parameters on exactly the listed bodies; the force-controlled servo never exceeds its speed limit and is corrected every given period. Values given by a table of times are interpolated linearly, held constant outside the table or wrapped around by whole periods, whatever was looked up before.',
 ['inputs','histories'],'three spheres (one possibly erased) with any positions, radii, masses, velocities and spins; any list of ids, mask, time step and engine parameter; three servo corrections; tables of up to four entries with two successive look-ups',
 'tests run at most one motion engine for its visible effect; erased bodies, masks, combined engines, wrapping and the order of successive table look-ups are not visited',
 ['pkg/common/ForceEngine.cpp','pkg/common/TorqueEngine.hpp','pkg/common/GravityEngines.cpp','pkg/common/KinematicEngines.cpp','pkg/common/StepDisplacer.hpp','lib/smoothing/LinearInterpolate.hpp','pkg/dem/Shop_02.cpp'],['ForceEngine, InterpolatingDirectedForceEngine, RadialForceEngine, DragEngine, LinearDragEngine ::action','TorqueEngine::action','GravityEngine, CentralGravityEngine, AxialGravityEngine ::action','KinematicEngine::action, CombinedKinematicEngine, TranslationEngine, RotationEngine, HelixEngine, HarmonicMotionEngine, HarmonicRotationEngine, ServoPIDController ::apply','StepDisplacer::action','linearInterpolate, Shop::periodicWrap'],
 'Every engine runs on three bodies whose state, and its own parameters, are real variables; forces, torques and velocities of all three bodies are compared with the documented effect for all values.',
 [U('motion.cpp',E('h_me_force','force and torque, any ids'),E('h_me_radial','any axis position, axis along z'),E('h_me_drag','linear and quadratic drag'),E('h_me_gravity','any gravity, masks, clumps, energy on or off'),E('h_me_central','any center and mask'),E('h_me_axial','any axis position, axis along y'),E('h_me_translate','any axis'),E('h_me_rotate','rotation or helix about an axis along z'),E('h_me_combined','three engines, one possibly dead'),E('h_me_harmonic','any amplitude, frequency, phase'),E('h_me_servo','3 steps, periods 1-3'),E('h_me_step','any displacement, rotation about y'),E('h_me_interp','tables of 1-4 entries, two look-ups from any cached position'),E('h_me_wrap','up to 14 periods away'),E('h_me_intforce','tables of 2-3 entries, wrapped or not, two look-ups'),E('h_me_inthelix','table of 3 entries'),sources=GEO+['pkg/common/ForceEngine.cpp','pkg/common/GravityEngines.cpp','pkg/common/KinematicEngines.cpp','pkg/dem/Shop_02.cpp'])],
 ['sine and cosine are uninterpreted functions satisfying the sum of squares; axes of rotation, radial and axial gravity are coordinate axes','wind velocities, hydrodynamic and boundary-controller engines are outside'])
P('C24','Measured stress, energy, porosity and bulk edits of a packing are exact',
 'The stress of a packing, or of each body, is that of its real contact forces and branch vectors (nearest images in a periodic cell) per volume; kinetic energy counts every dynamic body and clump once, relative to the mean flow of a deforming cell; momentum, unbalanced force, fabric, mean stiffness, volume, mass, porosity and extent are those of exactly the existing, chosen bodies and real contacts. Growing particles, resetting friction and stopping bodies change exactly the chosen bodies and keep mass, inertia, contact radii, stiffness and clump members consistent; created spheres and boxes have the mass and inertia of their shape. Flipping a sheared periodic cell, automatic or requested, keeps its volume and lattice and the image of every contact.',
 ['inputs'],'3-4 spheres with any positions, radii, masses, velocities; 1-3 contacts with any forces, one possibly virtual; one body possibly erased, fixed, aspherical or in a clump; any box cell with a shear of up to three periods (two shears for automatic flips)',
 'tests check single values of these measures on open packings of free spheres; erased and fixed bodies, clumps, periodic images and negatively sheared cells are not visited',
 ['pkg/dem/Shop_01.cpp','pkg/dem/Shop_02.cpp'],['Shop::getStress, getStressLWForEachBody','Shop::kineticEnergy, momentum, angularMomentum','Shop::unbalancedForce, totalForceInVolume, fabricTensor','Shop::getSpheresVolume, getSpheresMass, getPorosity, aabbExtrema','Shop::growParticles, growParticle, setContactFriction, calm','Shop::sphere, box','Shop::flipCell'],
 'Each function runs on a small packing whose state is made of real variables; its result is compared with the definition of the quantity for all values.',
 [U('measure.cpp',E('h_ms_stress','3 spheres, 2 contacts, sheared cell'),E('h_ms_bodystress','3 spheres, 2 contacts, sheared cell'),E('h_ms_extrema','2-3 spheres, any cutoff, positions on two axes'),E('h_ms_badcut','any cutoff'),E('h_ms_volume','3 bodies, any mask'),E('h_ms_kinetic','3 bodies, any flow of three components'),E('h_ms_kinmax','3 bodies'),E('h_ms_momentum','3 bodies, any origin'),E('h_ms_calm','3 bodies, any mask'),E('h_ms_unbalanced','3 bodies, 2 contacts, forces along x'),E('h_ms_unbclump','clump of two and a sphere'),E('h_ms_total','2 contacts'),E('h_ms_fabric','3 contacts, any threshold, one possibly outside'),E('h_ms_grow','4 bodies, clump, any factor'),E('h_ms_growone','3 bodies, any factor'),E('h_ms_friction','3 bodies, any angles'),E('h_ms_create','any size and density'),E('h_ms_flipxy','automatic, shear of x by up to 3 periods'),E('h_ms_flipyx','automatic, shear of y by up to 3 periods'),E('h_ms_flip3','automatic, two shears'),E('h_ms_flipgiven','requested flips, two shears'),sources=NEWT+['pkg/dem/Shop_01.cpp','pkg/dem/Shop_02.cpp','pkg/common/InsertionSortCollider.cpp','pkg/common/Collider.cpp'])],
 ['profiles along an axis, voxel porosity, stress tangent and split stress tensors (returned as Python objects) are outside','the tangent is an uninterpreted function'])
P('C25','Boundary controllers reach their stress and strain goals within their limits',
 'A box controller moves exactly its active walls: a stress-controlled wall by the missing force over the contact stiffness on it, damped and smoothed over the steps and never faster than its share of the speed limit, a strain-controlled pair of walls towards the prescribed strain rate; stress, porosity, size, strain rate and work of the walls are those of the box, and internal compaction grows the particles in proportion to the missing mean stress with held walls. Controllers of a periodic cell set its velocity gradient from the missing stress and the packing stiffness or the cell mass, or so that the prescribed strain is reached, within the strain-rate limits and without shrinking the cell below the required multiple of the largest body (smaller cells are refused); the reported stress, stiffness, strain and boundary work are those of the cell. A path-controlled cell follows the prescribed strain paths exactly, corrects stress-controlled components against the extrapolated error, and slows all components in proportion when the rate is limited.',
 ['inputs','histories'],'any box and wall positions, forces, stiffness, goals, speed limits, damping and time step; each of the six walls; each axis or component; one contact per wall; one or two steps (path control: four steps, one or two path parts); rectangular cells',
 'tests run one controller to one goal; the sign conventions of the six walls, the limits and the combinations of masks are not visited',
 ['pkg/dem/TriaxialStressController.cpp','pkg/dem/PeriIsoCompressor.cpp','pkg/dem/PeriIsoCompressor.hpp'],['TriaxialStressController::action, controlExternalStress, controlInternalStress, updateStiffness, computeStressStrain','PeriTriaxController::action, strainStressStiffUpdate','Peri3dController::action','PeriIsoCompressor::action'],
 'One to four steps of the controller run on a small packing whose geometry, forces, goals and limits are real variables; wall velocities, velocity gradients and reports are compared with the control rule for all values.',
 [U('ctrl.cpp',E('h_tc_stress','six walls, any force, size and limit'),E('h_tc_second','two steps'),E('h_tc_strain','three axes'),E('h_tc_porosity','two spheres, one possibly fixed'),E('h_tc_internal','all stress masks'),E('h_pt_strain','three axes, any limit'),E('h_pt_measure','one contact, any forces'),E('h_pt_stress','three axes'),E('h_pt_dyn','three axes, damping 1/4'),E('h_pt_work','four components of the velocity gradient'),E('h_pt_small','any size of bodies'),E('h_p3_path','six components, one or two parts, 4 steps'),E('h_p3_limit','two components, any limit'),E('h_p3_stress','one stress component, 3 steps'),E('h_pi','one stage'),sources=NEWT+['pkg/dem/TriaxialStressController.cpp','pkg/dem/PeriIsoCompressor.cpp','pkg/dem/Shop_01.cpp','pkg/dem/Shop_02.cpp'])],
 ['no fluid engine is present (its header is replaced by the names used)','exp, log are uninterpreted functions','Python hooks at the end of a stage, several stages and sheared cells are outside'])
P('C17','Values accumulated by several threads lose nothing',
 'Scalar, vector and integer accumulators, arrays of accumulators and the named energies of a simulation hold exactly the sum of what any of the threads added since the value was last set or reset; setting and resetting replace the contributions of all threads. Arrays keep their elements when they grow over any number of cache lines, added or cleared elements start from zero, and no memory outside the array is touched. Named energies are found again by every caller, only resettable ones are reset each step, the total is their sum, and lists filled by several threads contain every element once.',
 ['inputs','histories'],'1-3 threads, each operation by any thread; histories of 3 operations on accumulators, 2 resizes among 1, 8, 9 and 18 elements with 4 operations on arrays, 3 operations on up to 3 named energies, 4 insertions into lists; any values',
 'tests run with one thread; contributions of further threads and growth over a cache line are not visited',
 ['lib/base/openmp-accu.hpp','core/EnergyTracker.hpp'],['OpenMPAccumulator','OpenMPArrayAccumulator::resize, add, set, reset, get, clear','OpenMPVector','EnergyTracker::findId, add, set, total, resetResettables, clear'],
 'Histories of operations run with the thread, the operation and the values chosen by the solver; after each history the values are compared with the sum, and every memory access is checked.',
 [U('mpi.cpp',E('h_acc_scalar','3 operations, 1-3 threads'),E('h_acc_int','3 operations, 1-3 threads'),E('h_acc_vec3','2 additions, 1-3 threads'),E('h_acc_array','2 resizes, 4 operations, 1-3 threads'),E('h_acc_clear','2 threads'),E('h_acc_vector','4 insertions, 1-3 threads'),E('h_acc_energy','3 operations, 3 names, 2 threads'),E('h_acc_reuse','1-3 threads'),sources=NEWT+['core/Subdomain.cpp'])],
 ['operations of different threads on the same value are taken one after the other (each thread writes its own part); growing an array while other threads add to it is outside'])

P('C30','States exchanged between subdomains arrive unchanged at exactly their copies',
 'Position, velocity, spin and orientation (and the bound, where asked) read from a list of bodies and written to the same list in another subdomain give exactly those bodies the state of their originals and leave all others unchanged, for any list and order. Messages sent to a neighbour, received in any order, blocking or not, have the length the receiver expects and are applied only when asked and only to the mirror bodies of that neighbour; there is no message to the own or an unknown subdomain. A step in two subdomains followed by the exchange moves every copy as a step in one scene does, and the box of a subdomain encloses exactly its existing, bounded members.',
 ['inputs','schedules'],'3 bodies, any state; lists of 0-2 bodies in any order; three subdomains, two senders, both orders of reception, blocking and non-blocking; one step of two bodies in two subdomains; boxes of up to 3 members, one possibly erased or without bound',
 'no test runs more than one subdomain; a shifted component or a message applied to the wrong copy shows only as drift between the copies',
 ['core/Subdomain.hpp','core/Subdomain.cpp','pkg/dem/NewtonIntegrator.cpp'],['Subdomain::getStateValuesFromIds, setStateValuesFromIds, getStateBoundsValuesFromIds, setStateBoundsValuesFromIds','Subdomain::mpiSendStates, mpiRecvStates, mpiIrecvStates, mpiWaitReceived, setStateValuesFromBuffer, getStateValues','Subdomain::setMinMax, Bo1_Subdomain_Aabb::go'],
 'Several scenes exist side by side and the message functions are replaced by a queue; the states are real variables and the lists, the order and the kind of reception are chosen by the solver.',
 [U('mpi.cpp',E('h_sd_ids','3 bodies, lists of 0-2'),E('h_sd_bounds','3 bodies, lists of 0-2, one without bound'),E('h_sd_exchange','3 subdomains'),E('h_sd_box','up to 3 members'),E('h_sd_step','2 bodies in 2 subdomains'),sources=NEWT+['core/Subdomain.cpp'])],
 ['the message library delivers messages unchanged and in order per pair of processes','splitting and merging scenes and the choice of intersections are Python code (py/mpy.py) and outside'])
P('C22','Mortar, wire, viscous-frictional and jointed-rock contacts follow their laws',
 'A mortar contact is elastic and fails exactly when its stresses leave the tension, shear or compression part of its failure surface; a wire (stress-strain type) pulls with the force of its curve, unloads elastically, never pushes and breaks, counted once, beyond the last point; viscous-frictional contacts add normal damping and keep the shear force within friction times the normal force, and exert nothing when separated. Rock contacts repel or attract from their equilibrium distance, break in tension or shear at the Mohr-Coulomb limit exactly once with the cracks, damage and crack surface counted, then keep friction only, and smooth joints act along the joint normal with dilation and no torque. Forces on the two bodies are opposite and the stiffnesses, strengths and damping coefficients follow from the two materials, the weaker deciding strengths.',
 ['inputs','histories'],'all radii 0.5-2, overlaps, previous shear forces, shear increments, stiffnesses 0.1-10, friction 0-2, strengths in the stated ranges; cohesive or not, fresh or old, kept or not, periodic or not; wires with 2-3 points and up to 3 loads; every combination of joint side, body type, bonding period and weaker material',
 'tests run no wire, mortar or jointed contact at all; failure surfaces, unloading branches and the counters of bonds and cracks depend on the whole history and on the combination of options',
 ['pkg/dem/MortarMat.cpp','pkg/dem/WirePM.cpp','pkg/dem/FrictViscoPM.cpp','pkg/dem/JointedCohesiveFrictionalPM.cpp'],['Law2_ScGeom_MortarPhys_Lourenco::go','MortarPhys::failureCondition','Law2_ScGeom_WirePhys_WirePM::go','Law2_ScGeom_FrictViscoPhys_CundallStrackVisco::go','Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM::go','Ip2_*::go of these models'],
 'Each law runs on a contact whose geometry, history and parameters are real variables; forces, torques, failure, counters and the decision to keep the contact are compared with the law for all values; the material functors run on symbolic materials.',
 [U('models.cpp',E('h_mortar','one step, any direction'),E('h_mortar_ip','two materials'),E('h_fv','one step, any velocities'),E('h_fv_dir','one step without friction, any direction'),E('h_fv_energy','one step with energies'),E('h_fv_ip','two materials, sphere or wall'),E('h_wire_load','one load, 3 points'),E('h_wire_cycle','three loads, 2 points'),E('h_wire_ip','two materials'),E('h_jcf','one step'),E('h_jcf_joint','one step on a smooth joint'),E('h_jcf_ip','two materials off joints'),E('h_jcf_ipj','two materials on a joint'),sources=GEO+['pkg/common/MatchMaker.cpp','pkg/dem/MortarMat.cpp','pkg/dem/WirePM.cpp','pkg/dem/FrictViscoPM.cpp','pkg/dem/JointedCohesiveFrictionalPM.cpp'])],
 ['double twist by the Bertrand type (0) and randomly shifted (2) wires are outside','acoustic emission moments, crack files and Weibull strengths of jointed rock are outside','the elastic energy reported by the viscous-frictional law includes the viscous part and is not checked'])
P('C10','A saved and reloaded simulation is the same simulation',
 'Saving a simulation leaves it unchanged, and reloading it restores every body under its id with its state, shape, material, clump membership and erased slots, the materials shared as before, and exactly the real contacts with their bodies in order, forces, ages, activity and period offsets, known to the contact list and to both bodies. Time, step number, tags, energies, the periodic cell (with a pending change of its velocity gradient), counters of periodic engines and the settings of integrator, time stepper and cohesive bonds are restored, and derived values are computed again. A step taken after reloading gives the positions, velocities and contact forces it would have given without saving.',
 ['histories','crash_points'],'all real values of every attribute listed; 4 bodies of which one may be erased, 3 contacts each real or potential, active or not; periodic or not; 2 bodies in contact for the continuation',
 'tests compare a few attributes of one simulation; whether anything that influences the run is left out of the saved file, or is changed by the hooks run while saving and loading, concerns every attribute and every history',
 ['lib/serialization/Serializable.hpp','lib/base/Math.hpp','lib/base/openmp-accu.hpp','core/Scene.cpp','core/Scene.hpp','core/InteractionContainer.cpp','core/Interaction.hpp','core/Body.hpp','core/BodyContainer.hpp','core/Cell.hpp','pkg/common/Facet.cpp','pkg/dem/NewtonIntegrator.hpp'],['serialize of every class involved','InteractionContainer::preSave, postSave, preLoad, postLoad__calledFromScene','Scene::postLoad','Cell::postLoad','Facet::postLoad'],
 'The serialization functions of the classes run on objects whose attributes are real variables, writing to and reading from a tape that stands for the archive; the restored objects are compared attribute by attribute, and the next step of the restored simulation with that of the original, for all values.',
 [U('save.cpp',E('h_math','all values of every vector, rotation and matrix type'),E('h_accu','2 threads, 3 slots'),E('h_body','one body with shape, bound and material'),E('h_shapes','facet, box, wall'),E('h_cell','sheared cell, then one step'),E('h_scene','4 bodies, one may be erased, 3 contacts'),E('h_continue','2 bodies, one step'),E('h_continue_periodic','2 bodies in a deforming cell, one step'),E('h_engines','periodic engine, integrator, time stepper'),E('h_coh','one cohesive contact'),E('h_clump','2 members'),sources=SCHED+['lib/serialization/Serializable.cpp','pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp','pkg/dem/ElasticContactLaw.cpp','pkg/dem/CohesiveFrictionalContactLaw.cpp','pkg/dem/Ip2_ElastMat.cpp','pkg/common/MatchMaker.cpp','pkg/dem/NewtonIntegrator.cpp','pkg/dem/GlobalStiffnessTimeStepper.cpp'])],
 ['the archive (boost serialization: XML or binary files, compression) stores and returns numbers, strings and pointers unchanged','applied forces (permanent ones included) are not part of a saved simulation','potential contacts are found again by the collider and are not saved','overlap and shear increment of a contact, bounds and indices of energies are recomputed in the next step and not compared'])
COLL=BO+['pkg/common/InsertionSortCollider.cpp','pkg/common/Collider.cpp','pkg/dem/NewtonIntegrator.cpp','pkg/dem/GlobalStiffnessTimeStepper.cpp']
P('C04','Collision detection finds every overlap and drops separated pairs',
 'After every run of the insertion-sort collider each pair of bodies that may collide and whose bounds overlap is listed as a contact exactly once, in a periodic cell with a period for which the bounds do overlap, whatever the previous runs, bodies added, erased, replaced or bounded later, cell size changes or changes of periodicity were; potential contacts of separated bounds or erased bodies are removed and real contacts are kept. Pairs may collide unless their masks are disjoint or equal within the self-avoidance mask, one is a clump, both belong to the same clump, or the subdomain rules exclude them. A run is skipped only while no body can have left its enlarged bound and no body was added, and probing a volume returns exactly the bodies whose box meets it.',
 ['inputs','histories'],'2 spheres with any positions on three axes (first run), from any order of the bounds on two axes to any other (two runs), 3 spheres from 25 first orders to any positions on one axis; periodic: 2 spheres on one axis, positions over 4 periods; all masks 0-3, clump ids, subdomains 0-2',
 'tests detect collisions of packings in a few fixed histories; a missed inversion needs a particular previous order of bounds, and missed or stale contacts appear only later as bodies passing through each other',
 ['pkg/common/InsertionSortCollider.cpp','pkg/common/InsertionSortCollider.hpp','pkg/common/Collider.cpp','pkg/common/Dispatching.cpp'],['InsertionSortCollider::action, isActivated, insertionSort, insertionSortPeri, handleBoundInversion(Peri), spatialOverlap(Peri), shouldBeErased, probeBoundingVolume','Collider::mayCollide','BoundDispatcher::action'],
 'The collider runs on spheres whose positions are real variables, twice where the history matters; every order of the bounds is one symbolic path, and the contact list is compared with the overlap of the bounds for all positions on that path.',
 [U('collide.cpp',E('h_coll_2init','2 spheres, any position and radius, any sort axis'),E('h_coll_2xy','2 spheres, 2 runs, axes x and y'),E('h_coll_2yz','2 spheres, 2 runs, axes y and z'),E('h_coll_3x','3 spheres, 2 runs, axis x'),T('h_coll_2xz','2 spheres, 2 runs, axes x and z'),T('h_coll_3y','3 spheres, 2 runs, axis y'),T('h_coll_3z','3 spheres, 2 runs, axis z'),E('h_coll_then','separate sorting and colliding'),E('h_coll_real','real and virtual contacts, sort from scratch'),E('h_coll_filter','3 spheres, masks, clumps, unbounded'),E('h_coll_subdomain','2 spheres, 3 subdomains'),E('h_coll_change','3 spheres, 5 kinds of change'),E('h_coll_switch','periodicity switched'),E('h_coll_gain','bound gained'),E('h_coll_active','activation conditions'),E('h_coll_probe','any volume on one axis'),E('h_coll_peri_init','2 spheres, positions over 3 periods'),E('h_coll_peri_x','2 spheres, 2 runs'),E('h_coll_peri_cell','cell size 6-10'),E('h_coll_peri_then','separate sorting and colliding'),T('h_coll_peri_y','2 spheres, 2 runs'),T('h_coll_peri_z','2 spheres, 2 runs'),T('h_coll_peri3','3 spheres, 2 runs',opts=['--max-paths',200000]),sources=COLL)],
 ['bounds that touch exactly may or may not be a contact; in two-axis and three-body histories no two bounds coincide','the parallel sort used above 1000 bodies is outside the bounds','periodic bounds are up to half a period wide'])

P('C08','Every body lies inside its bounding box',
 'The bounding box computed for a sphere (enlarged by the detection factor), facet, box or wall contains the whole body, also in a periodic cell, where it is expressed in the coordinates of the unsheared cell; boxes in a sheared cell are refused. Every bounded body gets a bound, which is enlarged by the distance the body may move before the next update: this distance follows the recent displacement within its limits, and the position and step of the update are remembered.',
 ['inputs'],'all positions and sizes, enlargement factors 0.5-2, cells with edges 3-9 and any shear up to 3 per component, four orientations (boxes: any rotation about z), all sweep lengths and displacement histories of two updates',
 'tests use a few shear states; a bound that is too small only shows as a missing contact in particular shears and positions',
 ['pkg/common/Bo1_Aabb.cpp','pkg/common/Wall.cpp','pkg/common/Dispatching.cpp'],['Bo1_Sphere_Aabb::go','Bo1_Facet_Aabb::go','Bo1_Box_Aabb::go','Bo1_Wall_Aabb::go','BoundDispatcher::action, processBody'],
 'The bound functors run on bodies and cells with real-valued parameters; inclusion is asserted exactly: corners and vertices, and for a sphere in a sheared cell the support of the sheared sphere along each axis.',
 [U('cell.cpp',E('h_bound_sphere','one sphere, aperiodic or rectangular cell'),E('h_bound_sheared1','cell with one shear component'),E('h_bound_sheared2','cell with three shear components'),E('h_bound_facet','any facet; aperiodic, rectangular and sheared cell'),E('h_bound_box','4 orientations and any rotation about z'),E('h_bound_wall','3 axes'),E('h_bound_sweep','two spheres and an erased body'),sources=BO)])
P('C09','The periodic cell deforms consistently and wraps points by whole periods',
 'The cell vectors and the accumulated transformation are multiplied by (1 + step times velocity gradient) in every step, the previous cell, its sizes, volume, presence of shear, periodic offsets of positions and velocities and the strain measures are consistent with them, and a cell without volume is refused. Wrapping a point moves it by whole periods into the cell and reports these periods; shearing and unshearing are inverse of each other and map the cell axes to the cell vectors. Setting the size, box, cell vectors or transformation has exactly the documented effects, and a requested velocity gradient waits for the next step.',
 ['inputs'],'all cell vectors with entries up to 3 (9 on the diagonal), velocity gradients up to 1, transformations up to 2, steps up to 1; points within 9 (20) of the origin; period numbers -1 to 2',
 'tests deform cells in a few modes; the products have to be in the right order and the wrapping right at every sign and period for all cells',
 ['core/Cell.hpp','core/Cell.cpp'],['Cell::integrateAndUpdate','Cell::wrapPt, wrapShearedPt, wrapNum','Cell::setBox, setHSize, setSize, setTrsf, setVelGrad','Cell::intrShiftPos, intrShiftVel'],
 'The cell runs on matrices of real variables; results are compared with the matrix formulas for all values, periods are split by path.',
 [U('cell.cpp',E('h_cell_integrate','general cell, one step'),E('h_cell_measures','general transformation'),E('h_cell_shear','rectangular, one shear component (xy or zy), three shear components'),E('h_cell_wrap','rectangular cell'),E('h_cell_wrapsheared','sheared cell with vectors in the ratio 1, (3,4), 1'),E('h_cell_set','box and sheared cell'),E('h_cell_degenerate','two parallel cell vectors'),sources=BO)])
