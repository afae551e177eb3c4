# properties not decided here (static analysis cannot)
prop('N01', 'Closed elastic systems conserve energy within the scheme\'s accuracy', 'A closed system of elastic, frictionless contacts without damping conserves its total energy up to the accuracy of the time integration for every stable time step.',
 ['inputs', 'histories'], 'every initial state, time step and contact history', 'Tests sample single trajectories.', ['pkg/dem/NewtonIntegrator.cpp', 'pkg/dem/ElasticContactLaw.cpp'], [('leap-frog integration', 'pkg/dem/NewtonIntegrator.cpp')],
 na='Bounds on accumulated discretisation and rounding error quantify over run-time trajectories; no static argument in reach bounds them. The structural parts (action and reaction, shared contact point, integration scheme) are claimed separately.')
prop('N02', 'The estimated critical time step keeps every simulation stable', 'The time step chosen from contact stiffnesses or wave speeds never exceeds the stability limit of the explicit scheme.',
 ['inputs', 'configurations'], 'every packing and material', 'Tests use one packing.', ['pkg/dem/GlobalStiffnessTimeStepper.cpp', 'py/_utils.cpp'], [('per-body stiffness estimate', 'pkg/dem/GlobalStiffnessTimeStepper.cpp')],
 na='Stability depends on eigenvalues of the run-time stiffness matrix; the estimate is a heuristic whose sufficiency cannot be decided from the source.')
prop('N03', 'Pore fluid mass is conserved by the flow solver', 'In a saturated sample with closed boundaries the fluid flux into every pore balances the change of its volume to solver tolerance.',
 ['inputs', 'histories'], 'every packing and boundary condition', 'Tests compare one flow rate.', ['lib/triangulation', 'pkg/pfv'], [('assembly of the flow system', 'lib/triangulation/FlowBoundingSphereLinSolv.ipp')],
 na='The balance holds only to the tolerance of an iterative or factorised solution of a linear system assembled from a run-time triangulation; no static argument in reach bounds its residual.')
prop('N04', 'A reloaded simulation continues exactly like the original', 'Saving and loading a simulation and continuing gives the same trajectory as continuing without saving.',
 ['histories', 'crash_points'], 'every state at which a save may happen', 'Tests reload one small scene.', ['core/Omega.cpp', 'core/Scene.cpp', 'lib/serialization'], [('serialisation of all attributes', 'lib/serialization/Serializable.hpp')],
 na='Equality of trajectories quantifies over run-time values and third-party archive formats (text archives round reals); only structural parts could be decided.')
prop('C06', 'A step runs every live, due engine once, in order, and advances the clock once',
 'One step updates the periodic cell (if any), then runs every engine of the list that is neither dead nor not due, exactly once and in list order, then advances the step number by one and the time by the time step; sub-stepping performs the same items one per call, and a list replaced during a step takes effect only at the next one. '
 'A periodically run engine is due exactly when one of its positive periods (steps, simulated time, wall-clock time) has elapsed since it last ran and its execution limit is not used up, or on its requested first run. '
 'Grouped engines follow the same rule within their group, and a continuous run stops at the first step that reaches the requested step number or time.',
 ['histories', 'inputs', 'configurations'], 'every engine list, every combination of dead/due engines, sub-stepping state, periodicity, pending list and period settings',
 'Tests run a few steps of fixed lists; the sub-stepping, pending-list and period branches depend on histories no test goes through.',
 ['core/Scene.cpp', 'core/SimulationFlow.cpp', 'pkg/common/PeriodicEngines.hpp', 'pkg/common/ParallelEngine.cpp', 'pkg/common/Recorder.hpp', 'core/TimeStepper.hpp', 'py/wrapper/yadeWrapper.cpp'],
 [('step function', 'core/Scene.cpp'), ('activation predicate of periodic engines', 'pkg/common/PeriodicEngines.hpp'), ('simulation loop', 'core/SimulationFlow.cpp')],
 VN + ': effect sequences over the finite domain of counter orderings', 'All paths over all orderings of the counters with up to two engines (the loop body is generic); exceptions thrown by engines abort the step.')
prop('C07', 'Bodies move exactly by the leap-frog scheme and never along blocked axes',
 'In one step every body that is not a clump member (nor of another subdomain) gains velocity dt*(force/mass + gravity) along its free axes and none along blocked ones, its position advances by the new velocity times dt, and likewise for rotations; numerical damping, density scaling, prescribed displacements and rotations, motion masks and the mean field of a periodic cell act exactly as documented, whatever their combination. '
 'A clump is driven by the loads of its members and its members follow once, after it has moved. Orientations stay normalised; the momentum scheme is used only for aspherical bodies with no rotation blocked.',
 ['inputs', 'configurations'], 'every combination of blocked axes, damping, scaling, mask, periodicity, homothety level, clump role, sphericity and prescribed motion, with any state values',
 'Tests integrate a few spheres with all axes free or all blocked; the combinations of flags are thousands and single components are never compared.',
 ['pkg/dem/NewtonIntegrator.cpp', 'pkg/dem/NewtonIntegrator.hpp', 'core/State.hpp', 'core/Cell.hpp'],
 [('per-body integration', 'pkg/dem/NewtonIntegrator.cpp'), ('blocked degrees of freedom', 'core/State.hpp')],
 VN + ': normal forms of the new state of a generic body per combination of flags', 'All paths of the generic body iteration over 1940 flag combinations; exact algebra, no rounding.')
prop('C08', 'A clump is one rigid body made of its members',
 'Mass, centre, principal inertia and orientation of a clump are those of its members taken together, it is driven by the sum of their forces and of their torques plus the moments of their forces about its centre, and in every step its members are carried along rigidly: stored relative placements reproduce their positions and orientations, and their velocities are those of the rigid motion. '
 'A body that joins, changes or leaves a clump does so completely: it is listed by exactly the clump it names as its own, the clumps concerned get their properties refreshed, and clumps that were absorbed or emptied disappear; a refused request changes nothing.',
 ['inputs', 'histories'], 'every clump (any number, shape, placement and rotation of members) and every sequence of clump, addToClump, releaseFromClump, appendClumped',
 'Tests build one or two clumps of unrotated spheres; inertia of rotated members, handedness of principal axes and regrouping of existing clumps need particular geometries and histories.',
 ['core/Clump.cpp', 'core/Clump.hpp', 'py/wrapper/yadeWrapper.cpp', 'pkg/dem/NewtonIntegrator.cpp'],
 [('assembly of clump properties', 'core/Clump.cpp'), ('motion of members', 'core/Clump.hpp'), ('scripting operations', 'py/wrapper/yadeWrapper.cpp')],
 VN + ': component-wise normal forms of the assembled properties and of the members\' motion', 'All paths of the clump functions for a generic member; exact algebra; for overlapping spheres the integration formula over cells is checked, not its accuracy.')
prop('C09', 'The periodic cell is a lattice that deforms exactly as prescribed',
 'In every step base vectors and total transformation are multiplied by (identity + dt * velocity gradient), and lengths, skew and inverse transformations always are those of the current base vectors, however the cell was changed. '
 'Wrapping a point moves it by whole cells, rounded down, and reports how many; the image of a body a number of cells away is displaced by that number of base vectors and moves with the velocity gradient. '
 'Assigning shape, size, transformation or velocity gradient gives exactly what was asked; flipping the cell keeps the lattice, and with it the image of every contact; strain measures and volume follow their definitions.',
 ['inputs', 'histories'], 'every cell shape (any size and skew), velocity gradient, point, cell distance and sequence of assignments, steps and flips',
 'Tests deform one rectangular cell along its axes; products in the wrong order, one overlooked skew component or rounding towards zero need particular shapes or points beyond the origin.',
 ['core/Cell.hpp', 'core/Cell.cpp', 'pkg/dem/Shop_01.cpp', 'core/Scene.cpp'],
 [('update of the cell', 'core/Cell.cpp'), ('wrapping and images', 'core/Cell.hpp'), ('flip', 'pkg/dem/Shop_01.cpp')],
 VN + ': entry-wise normal forms of all operations on the cell', 'All paths of all methods of the cell and of flipCell; exact algebra; presence of skew over a finite set of shapes that separates the entries.')

prop('C10', 'The geometry of a contact is that of its two shapes and their motion',
 'For spheres against spheres, walls, boxes and facets, at any position and orientation, the normal is the unit vector from the closest point of the first shape to the sphere, the overlap is radius (or sum of radii) minus distance, and the contact point lies between the surfaces; only the position of the second body relative to the first, with its periodic shift, matters. '
 'A contact is refused only if it is new, not forced and the shapes do not overlap. The shear increment is the tangential relative velocity of the two bodies at the contact (including the velocity of the periodic image) times the time step; tangent vectors and local axes follow the rotation of the contact; relative rotations are measured from the orientations at its creation. '
 'Geometries with rotations take over everything from the simple ones, an existing contact keeps its geometry, and a reversed call exchanges shapes, states, bodies, shift and cell distance together.',
 ['inputs', 'histories'], 'every position, orientation, radius, extent, facet (acute, right-angled, obtuse), wall axis and sense, periodic shift, velocity, option of the functor and state of the contact (new, existing, forced)',
 'Tests touch a few configurations, mostly sphere-sphere without periodicity; the far side of a facet, an obtuse corner, a centre inside a box, an image contact in a deforming cell or one option bit need particular placements.',
 ['pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp', 'pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp', 'pkg/dem/Ig2_Box_Sphere_ScGeom.cpp', 'pkg/dem/L3Geom.cpp', 'pkg/dem/ScGeom.cpp'],
 [('sphere-sphere', 'pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp'), ('facet and wall', 'pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp'), ('box', 'pkg/dem/Ig2_Box_Sphere_ScGeom.cpp'), ('incremental geometry', 'pkg/dem/L3Geom.cpp'), ('motion and rotation', 'pkg/dem/ScGeom.cpp')],
 VN + ': exact normal forms of normal, overlap, point and increments in every region of the case distinctions', 'All paths of the functors; the regions (faces, edges, corners, inside, sides) are enumerated by interior points, within a region the comparison is exact; two generic orientations and two facet shapes.')
prop('C11', 'Every contact goes through geometry, physics, law and reset in the right order',
 'In every step each contact of the container is handled exactly once: its geometry is evaluated for the two bodies it names, in the order the functor wants, with the periodic shift of its own cell distance; then its physics from the two materials; then its law with exactly this geometry and physics, once each, and callbacks run for exactly the contacts that are real afterwards. '
 'When the functor wants the bodies the other way round, ids and cell distance are exchanged together, before the contact has any geometry. A contact is reset completely (no geometry, physics or remembered functors, eligible again) when a body has vanished, it belongs to other subdomains, its geometry has ceased or its law gives it up, and never otherwise; potential contacts the collider no longer sees are dropped. '
 'The step of creation is noted when and only when a contact becomes real. Separate dispatchers and the explicit creation of a contact follow the same life cycle.',
 ['inputs', 'histories', 'configurations'], 'every contact state (potential, partial, real), presence, role and subdomain of the bodies, order of shapes, periodicity, cached or missing functors, results of functors and collider history',
 'Tests follow ordinary sphere contacts; reversed pairs across a boundary, a law that gives up in the step of creation, stale functors after a reset or a vanished body need particular histories.',
 ['pkg/common/InteractionLoop.cpp', 'pkg/common/Dispatching.cpp', 'core/Interaction.cpp', 'core/InteractionContainer.cpp', 'pkg/dem/Shop_02.cpp'],
 [('contact loop', 'pkg/common/InteractionLoop.cpp'), ('separate dispatchers', 'pkg/common/Dispatching.cpp'), ('exchange and reset', 'core/Interaction.cpp')],
 VN + ': functor call sequences and final contact state of a generic iteration against a decision table', 'All paths of the generic iteration over all combinations of 24 conditions that it can distinguish; functors are opaque with free results and effects on their contact.')
prop('C12', 'No contact is missed: overlapping bodies are always paired by the collider',
 'Whenever the sorted collider is up to date, any two bodies whose bounding boxes meet, and which may interact, have a contact or potential contact, with the cell distance of the images that meet when periodic; contacts are erased only when not real and the boxes do not meet. '
 'The box of a body contains its shape for any position, rotation and skew of the cell and is enlarged on all sides by the margin; the collider runs again before any body has moved by its margin, and after bodies were added, erased or replaced, after contacts must be rebuilt and on request. '
 'The lists of box ends are sorted after each run (sequential or parallel, periodic or not) and each change of order of a lower and an upper end tests the pair. Only clumps, members of one clump, bodies without common mask bit, self-avoiding groups and bodies of other subdomains are excluded from pairing.',
 ['inputs', 'histories', 'schedules', 'configurations'], 'every shape, placement, rotation, cell shape, margin, motion, order and tie of box ends, number of threads and of bodies, history of additions, erasures and replacements',
 'Tests compare a few packings at rest; a missed pair needs a particular passing of ends on one axis, a skewed cell, a body id used again or the boundary between two threads.',
 ['pkg/common/InsertionSortCollider.cpp', 'pkg/common/Collider.cpp', 'pkg/common/Bo1_Aabb.cpp', 'pkg/common/Dispatching.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'core/InteractionContainer.cpp'],
 [('collider', 'pkg/common/InsertionSortCollider.cpp'), ('admission of pairs', 'pkg/common/Collider.cpp'), ('boxes', 'pkg/common/Bo1_Aabb.cpp'), ('motion limit', 'pkg/dem/NewtonIntegrator.cpp')],
 VN + ': generic iterations of sort and sweep over all orderings of box ends, and exact order types of the overlap test', 'All paths of the box functors, overlap test, admission test, sorts (sequential, periodic, parallel) and trigger; conditions evaluated at one representative of every cell of their case distinctions; real arithmetic; translation only between runs.')

prop('C13', 'Contact parameters come from both materials alike and are made once',
 'When a contact is created, its physical parameters are computed from the two materials and the geometry in a way that does not depend on which body comes first; elastic stiffnesses are the documented means of those of the two sides (stiffnesses in series, Hertz-Mindlin coefficients), the friction coefficient is the tangent of the smaller friction angle, adhesion uses the smaller cohesion on the smaller section, and a match maker, where given, overrides the value for its pair. '
 'A contact that already has parameters keeps them (only cohesion may be set anew on request). A match maker treats pairs of ids as unordered and otherwise applies the selected mean of the two values.',
 ['inputs', 'histories'], 'every pair of materials, radii, order of the bodies, presence of match makers and unset or zero parameters',
 'Tests use one material for all bodies, where mixing up the two sides cannot be seen.',
 ['pkg/dem/FrictPhys.cpp', 'pkg/dem/CohesiveFrictionalContactLaw.cpp', 'pkg/dem/HertzMindlin.cpp', 'pkg/dem/ViscoelasticPM.cpp', 'pkg/dem/CapillaryPhys.cpp', 'pkg/common/MatchMaker.cpp'],
 [('frictional contacts', 'pkg/dem/FrictPhys.cpp'), ('cohesive contacts', 'pkg/dem/CohesiveFrictionalContactLaw.cpp'), ('Hertz-Mindlin', 'pkg/dem/HertzMindlin.cpp'), ('viscoelastic', 'pkg/dem/ViscoelasticPM.cpp'), ('match maker', 'pkg/common/MatchMaker.cpp')],
 VN + ': exchange symmetry of the stored values and documented means', 'All paths of all functors creating contact parameters except polyhedra; values compared as normal forms, or at 59 representatives covering signs, zeros, unset values and match makers.')
