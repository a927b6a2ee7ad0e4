PROPS += [
P("P01", "Electromagnetic fields advance by the cylindrical Yee scheme",
  "One time step advances H by dt/mu0 times the discrete curl of E and E by dt/eps times (discrete curl of H minus current density), with the conductivity treated semi-implicitly, on the staggered r-z mesh of every sub-domain, including its special forms on the symmetry axis and at the walls of the simulated area. "
  "The magnetic field offered to the particles is the time-centred mean of the two half-step values. Cells outside the update ranges keep their values and halo cells are cleared before each half-step.",
  ["inputs", "configurations"], "all field contents, currents, cell sizes, time steps, sub-domain sizes and positions, wall combinations, with and without the absorbing layer",
  T_IN % "field contents and sub-domain shapes", ["src/maxwellSolver/maxwellSolverYee.cpp", "include/maxwellSolver.hpp"],
  [("explicit curl updates in calc_field_h / calc_field_e", "src/maxwellSolver/maxwellSolverYee.cpp"), ("wall-dependent index ranges", "src/maxwellSolver/maxwellSolverYee.cpp")],
  ["field grids after a step"]),
P("P02", "Absorbing layer conductivity grows quadratically from its inner border",
  "In every cell inside the absorbing layers at the low-z, high-z and high-r ends of the simulated area the conductivity is raised by sigma_1 + (sigma_2 - sigma_1)*(depth/length)^2, with depth measured from the inner border of that layer in global coordinates. "
  "Cells outside the layers, and layers of zero size, are left as they were.",
  ["inputs", "configurations"], "all layer sizes, conductivities, sub-domain positions and cell sizes",
  T_IN % "layer geometries", ["src/maxwellSolver/maxwellSolverYee.cpp"], [("set_pml", "src/maxwellSolver/maxwellSolverYee.cpp")], ["conductivity map"]),
P("P03", "Fields at a particle are volume-weighted from the staggered nodes around it",
  "The electric and magnetic field acting on a particle is, for each component, the sum over the four staggered nodes surrounding the particle of node value times the share of the particle's ring volume falling in that node's cell. "
  "Each component uses its own staggering and node values of that same component only.",
  ["inputs"], "all positions inside a sub-domain, field contents, cell sizes and sub-domain offsets",
  T_IN % "particle positions", ["include/maxwellSolver.hpp", "include/algo/weighter.hpp"],
  [("get_field_e / get_field_h", "include/maxwellSolver.hpp"), ("cylinder volume helpers", "include/algo/weighter.hpp")], ["vector returned for a position"]),
P("P04", "Every pusher performs its published relativistic momentum update",
  "For every particle the selected pusher (Boris classic, relativistic or adaptive, Vay, Higuera-Cary) replaces the velocity by the one its published scheme yields for the local fields, charge, mass and time step, adding external fields when they are enabled. "
  "The update of one particle depends on that particle's own state and fields only.",
  ["inputs", "configurations"], "all particle velocities (slow and relativistic), field values, charge/mass, time steps, particle counts, and the three Boris build variants, with and without external fields",
  T_IN % "velocities and fields", ["src/pusher/pusherBoris.cpp", "src/pusher/pusherVay.cpp", "src/pusher/pusherHC.cpp", "src/phys/rel.cpp"],
  [("PusherBoris", "src/pusher/pusherBoris.cpp"), ("PusherVay", "src/pusher/pusherVay.cpp"), ("PusherHC", "src/pusher/pusherHC.cpp")], ["particle velocity after the push"]),
P("P05", "Particle motion in cylindrical coordinates conserves geometry and speed",
  "A particle moves by velocity times time step in the local Cartesian frame, is then brought back to the r-z half-plane at its true radius with its velocity turned by the same azimuth, and its former position and owning cell are recorded. "
  "Particles closer than half a cell to the axis or to an outer wall of the simulated area are mirrored at that half-cell plane (repeatedly if needed) with the normal velocity reversed; beam particles are mirrored only at the axis.",
  ["inputs"], "all particle positions, velocities, time steps, particle counts and sub-domain positions",
  T_IN % "trajectories", ["src/specieP.cpp", "src/beamP.cpp"],
  [("mover_cylindrical, back_position_to_rz, back_velocity_to_rz, reflect, bind_cell_numbers", "src/specieP.cpp"), ("BeamP::reflect", "src/beamP.cpp")], ["particle position, velocity, old position, cell numbers"]),
P("P07", "Diagnostic moment maps are the weighted moments of the particles",
  "The density, momentum, energy and temperature maps of a species equal the sums over its particles of the respective moment (with relativistic momenta and energies for fast particles), shared among the four neighbouring cells by ring-volume weighting and normalised by cell volume or weighted density. "
  "Each map is rebuilt from scratch, so a repeated calculation gives the same result, and temperature is derived from the energy-consistent combination of mean and absolute momenta.",
  ["inputs", "histories"], "all particle populations, cell sizes, sub-domain positions and earlier map contents",
  T_IN % "particle populations", ["src/specieP.cpp", "include/algo/weighter.hpp"],
  [("calc_density, calc_momentum, calc_energy, calc_temperature", "src/specieP.cpp"), ("weight_cylindrical", "include/algo/weighter.hpp")], ["density / momentum / energy / temperature maps"]),
P("P08", "Sub-domains exchange every shared border exactly once",
  "After fields or currents are computed per sub-domain, each pair of sub-domains that share a border adds up the values of the two boundary layers and halos describing the same nodes, and both get the sum, for every vector component. "
  "Every such pair is treated exactly once per exchange for every exchanged field, for any number of sub-domains in r and z.",
  ["inputs", "configurations"], "all grid contents and sizes (symbolically), and which pairs exchange for 1..5 x 1..5 sub-domains",
  T_IN % "grid contents and tilings", ["include/algo/grid.hpp", "include/algo/grid3d.hpp", "src/SMB.cpp"],
  [("Grid::overlay_x / overlay_y / overlay_xy", "include/algo/grid.hpp"), ("SMB::current_overlay, field_e_overlay, field_h_overlay", "src/SMB.cpp")], ["border and halo cells of adjacent sub-domains"],
  "Element-wise part: value-flow equivalence with reference functions. Exchange pattern: iteration spaces of the calls instantiated for small tilings and compared with the set of adjacent pairs"),
P("P13", "Every time step applies each operation once, in dependency order",
  "In one time step every sub-domain has its E field advanced and exchanged before any H field is, its particles pushed, (optionally) collided, moved, folded back to the r-z plane, mirrored and bound to cells before particles migrate, and its current cleared and deposited before currents are exchanged; beams are injected only from sub-domains touching the left wall. "
  "Every operation reaches every sub-domain and every species exactly once, and a run performs inject, fields, particles, currents and output once per step, advancing time by one step, until the configured end.",
  ["histories", "configurations"], "all numbers of sub-domains and species (checked for representative sizes from symbolic iteration spaces), all build variants with collisions and external fields, every path through the main loop",
  "tests run no simulation step at all; the order is a whole-history fact", ["src/SMB.cpp", "src/domain.cpp", "src/PiCoPiC.cpp"],
  [("solve_maxvell, advance_particles, solve_current, inject_beam, distribute", "src/SMB.cpp"), ("wrappers over species", "src/domain.cpp"), ("main loop", "src/PiCoPiC.cpp")], ["sequence of operations applied to sub-domains"],
  "Closed-form iteration spaces of all calls (LLVM IR value-flow summaries) instantiated for several tilings; partial-order check against the dependency rule"),
P("P23", "Vector, grid and plasma-formula primitives compute their definitions",
  "Vector operations (with or without SIMD), grid arithmetic and accumulation, Lorentz factor, momentum, energy, Debye length, plasma and collision frequency and Coulomb logarithm return the value of their defining formula, using the documented physical constants. "
  "Guarded formulas end the program exactly for the arguments they declare invalid.",
  ["inputs"], "all arguments", T_IN % "arguments", ["include/math/vector3d.hpp", "include/algo/grid.hpp", "include/algo/grid3d.hpp", "src/phys/rel.cpp", "src/phys/plasma.cpp", "include/constant.hpp"],
  [("vector3d operators", "include/math/vector3d.hpp"), ("Grid / Grid3D operators", "include/algo/grid.hpp"), ("phys::rel, phys::plasma", "src/phys/rel.cpp")], ["returned values"]),
P("P22", "Every offered build configuration builds and selects what it names",
  "Each combination of pusher, current scheme, plasma distribution, collision scheme, external fields, absorbing layer, threading and MPI option that configure offers compiles, leaves no function of the project undefined, and makes the sub-domain use exactly the implementation the option names. "
  "Every configuration switch tested in the sources can be set by configure, and every offered switch selects something.",
  ["configurations"], "all single options and selected combinations of build options", "the test build compiles one configuration and none of the simulation sources",
  ["include/domain.hpp", "src/domain.cpp", "configure.ac", "include/defines.hpp.in"], [("implementation selection", "src/domain.cpp"), ("switches", "configure.ac")], ["whether a configuration builds", "class of pusher, current, solver, collisions"],
  "Type checking of all configurations by the compiler front end, undefined-symbol analysis of the linked IR and constructor reachability from the sub-domain constructor", "Stand-in headers declare the absent libraries (HDF5/HighFive, picojson, loguru, MPI, OpenMP); options are combined singly and in selected combinations, not exhaustively."),
P("P06", "Current deposition transports exactly the charge that crosses each node-cell face",
  "For every particle the charge it carries from its former to its present position is turned into currents on the staggered nodes: Villasenor-Buneman splits the straight way at every cell border it crosses (in order, also through a corner), and each piece adds to the faces of the ring-shaped node cells around it the charge crossing them by area and time step, with exactly axial and exactly radial ways handled as the limits; the azimuthal current is weighted at the middle of the way. The Zigzag variant breaks the way at the relay point and weights each half at its middle. Ways over more than one cell in a direction are reported and skipped. "
  "Deposition only adds to the current, which a reset clears completely, halo included.",
  ["inputs", "configurations"], "all particle positions, displacements, weights, charges, cell sizes, time steps, particle counts and sub-domain offsets, for both current solvers",
  T_IN % "particle displacements", ["src/current/currentVB.cpp", "src/current/currentZigZag.cpp", "src/domain.cpp"],
  [("rz_current_distribution, simple_current_distribution, strict_motion_distribution, azimuthal_current_distribution", "src/current/currentVB.cpp"), ("current_distribution", "src/current/currentZigZag.cpp"), ("reset_current", "src/domain.cpp")], ["current grids after a deposition"]),
P("P11", "Migration keeps every particle exactly once, in the sub-domain of its cell",
  "When particles migrate, each particle of each sub-domain and species is decided exactly once: kept if its cell lies in its own sub-domain, handed over once to the species with the same id of the sub-domain that owns its cell, or removed if its cell lies outside the simulated area. "
  "A particle handed over is removed from its former list, no particle is duplicated or lost, and nothing else of the program state changes.",
  ["inputs", "histories"], "all particle populations, cells and species (symbolically), for tilings of 1..8 x 1..4 sub-domains (thorough: up to 6 x 6)",
  T_IN % "populations and tilings", ["src/SMB.cpp"],
  [("particles_runaway_collector", "src/SMB.cpp")], ["particle lists of all sub-domains after the collection"],
  "Value-flow equivalence of the ordered list operations (append, per-particle keep/remove decision, erase) with a reference migration, for instantiated tilings"),
P("P12", "Threads never touch the same data unsynchronised",
  "In a build with threads, iterations of a parallel loop that may run at the same time work on different sub-domains (and, where particles migrate, never on adjacent ones), so results do not depend on the interleaving. "
  "Anything else they change is private to the thread, atomic, or changed inside one and the same critical section; no operation a sub-domain performs writes a global variable (random generators included) or an object all sub-domains share.",
  ["schedules", "configurations"], "all interleavings of the parallel loops, for tilings of 1..5 x 1..4 (thorough: 8 x 8) sub-domains, with and without collisions and external fields; particles jump at most to an adjacent sub-domain",
  "tests run no simulation step and a race needs a particular interleaving", ["src/SMB.cpp", "src/domain.cpp", "src/math/rand.cpp"],
  [("parallel loops", "src/SMB.cpp"), ("random generator", "src/math/rand.cpp")], ["memory shared by threads"],
  "Iteration-space disjointness on value-flow summaries of the outlined parallel loops, plus interprocedural write-effect analysis of everything they call"),
P("P10", "Sub-domains tile the area exactly, each with its own walls, layers and plasma",
  "The sub-domains cut the part of the area a process works on into adjacent parts of equal numbers of cells, covering it exactly once; cell sizes are those of the whole area, walls and absorbing layers belong to exactly the sub-domains at them, and each stands at its place in the grid. "
  "Every sub-domain gets each configured species once, with its share of the macroparticles and the part of the linear density profile (over the length of the whole area) between its own left and right edge, and every configured beam that has bunches.",
  ["inputs", "configurations"], "all sizes, densities and numbers of cells divisible by the number of sub-domains (others are rejected on start), for tilings of 1..3 x 1..4 (thorough: up to 4 x 8) sub-domains; builds with and without absorbing layers and with external fields",
  T_IN % "geometries", ["src/SMB.cpp", "include/geometry.hpp"],
  [("SMB::SMB", "src/SMB.cpp"), ("Geometry constructors", "include/geometry.hpp")], ["geometry, species and beams of every sub-domain"],
  "Value-flow summary of the constructor (LLVM IR, vectors modelled); contents and arguments of every created object compared with reference formulas for instantiated tilings"),
P("P14", "Beams enter bunch by bunch through their part of the left wall",
  "A beam is injected only while the time lies in the window of its current bunch, only by the sub-domains at the left wall its radius reaches into, each with its share of the radius; every sub-domain goes on to the next bunch when the time has passed the end of the current one, until the last. "
  "Each injected macroparticle has the id of the beam, a position inside the part of the wall, the beam velocity along z only, the cell its position lies in, and a weight that shares all real particles of the beam in proportion to the volume of the ring it stands for.",
  ["inputs", "histories"], "all beam parameters, geometries, times, and random numbers", T_IN % "beams",
  ["src/beamP.cpp"], [("BeamP::BeamP", "src/beamP.cpp"), ("BeamP::inject", "src/beamP.cpp")], ["injected macroparticles, bunch number"]),
P("P15", "The initial plasma has the configured density, place and velocities",
  "A species starts with as many macroparticles as configured (or as fit the cells evenly), all with its id, placed over the cells of the sub-domain but never closer than half a cell to an outer wall, in z by the inverse distribution of the linear density. "
  "Weights are proportional to the volume of the ring a macroparticle stands for and sum up to mean density times volume. Each of random, flat, centred and regular placement and thermal, rectangular and eigen velocity options does what it names; speeds follow from the energy, classically or beyond the limit from the momentum, with an independent random factor per component where the option says so.",
  ["inputs", "configurations"], "all species parameters, geometries, walls, macroparticle counts and random numbers; all placement and velocity options", T_IN % "species parameters",
  ["src/specieP.cpp"], [("rectangular_*_placement, set_weight", "src/specieP.cpp"), ("*_velocity_distribution", "src/specieP.cpp"), ("SpecieP::SpecieP", "src/specieP.cpp")], ["position, weight and velocity of initial macroparticles"]),
P("P16", "External fields are the configured ones, in every sub-domain alike",
  "A sub-domain takes the electric and the magnetic profile configured, each by its own name, and a name that is no profile ends the program. A homogeneous longitudinal profile gives the configured amplitude in every cell the particles of a sub-domain can feel, including the cells shared with neighbours, and zero at the walls of the area; without a profile the field stays zero. "
  "Setting one of the two fields leaves the other as it is.",
  ["inputs", "configurations"], "all amplitudes, sizes, profile names and all 16 combinations of outer walls", T_IN % "profiles",
  ["src/maxwellSolver/externalFields.cpp"], [("ExternalFields::ExternalFields, set_el_field_homogenous_z, set_magn_field_homogenous_z, operator()", "src/maxwellSolver/externalFields.cpp")], ["external field grids of a sub-domain"]),
P("P24", "A sub-domain is assembled of parts that work on its own data",
  "Constructing a sub-domain keeps its geometry, clock and the particles given to it, and creates one current deposition, one field solver and one pusher (and external fields and collisions where configured), of the kinds configured. "
  "Each of them works on the geometry, the clock and all particle species of this sub-domain, the solver takes the current of this deposition, the pusher the fields of this solver and of these external fields, and each external profile and its parameters are passed on as given, electric as electric, magnetic as magnetic.",
  ["configurations"], "all combinations of deposition, pusher, collisions and external fields in the list of builds", T_IN % "geometries and species",
  ["src/domain.cpp", "include/domain.hpp"], [("Domain::Domain", "src/domain.cpp")], ["members of the sub-domain"]),
P("P18", "Every probe gets its values, once per schedule, in its own place of the output",
  "In every step whose number is a multiple of a probe's schedule, and in no other, the probe gets the slice numbered step/schedule, for all steps whatever the accumulated rounding of the model time; existing slices are kept. "
  "The slice holds the values of the configured component (of the configured species) in exactly the cells of the probe: every sub-domain the probe touches writes its own part, taken at the right local place and put at the right offset; a rectangle never writes an empty part, an unknown component or species writes nothing. "
  "Densities, temperatures, energies and momenta are calculated for all sub-domains and then joined at their borders before they are written.",
  ["inputs", "configurations", "histories"], "all probe shapes and components, all placements relative to the sub-domains, all times and schedules (component mapping: 18 probes in pairs; species maps for 1x1, 1x2 and 2x1 sub-domains with two species)",
  T_IN % "probes", ["src/outController.cpp", "src/outWriter.cpp", "src/outEngine/outEngineHDF5.cpp"],
  [("OutController::OutController, init_datasets", "src/outController.cpp"), ("OutWriter::operator()", "src/outWriter.cpp"), ("OutEngineHDF5::write_*, extend_dataset", "src/outEngine/outEngineHDF5.cpp")],
  ["calls made to the HDF5 library with the contents of the passed vectors"]),
P("P17", "Binary collisions conserve momentum and energy, and meet every particle",
  "Particles are grouped by the cell they are in, and densities, temperatures, momenta and energies of a cell are those of its particles and its volume (a ring at its own radius). In every cell where these are normal numbers each particle collides once with its own kind (the first three of an odd number form a ring) and every particle of the more numerous kind meets one of the other kind, evenly. "
  "A pair is scattered as the chosen model (Takizuka-Abe, Sentoku-Kemp, Perez) prescribes: the collision happens in the center of mass, keeps the modulus of the relative velocity, deflects both particles oppositely (weighted particles with the probability or fraction their weights demand), also for pairs moving exactly along z; pairs without relative motion stay as they are. "
  "Takizuka-Abe collisions restore momentum and energy of each cell afterwards. A step clears, groups, shuffles, sums and then collides.",
  ["inputs", "configurations"], "all velocities, weights, masses, charges, densities, time steps and random numbers; any numbers of particles per cell; all three models", T_IN % "particles",
  ["src/collisions.cpp", "src/collisions/collisionsTA77S.cpp", "src/collisions/collisionsSK98.cpp", "src/collisions/collisionsP12.cpp"],
  [("Collisions::sort_to_cells, collect_weighted_params_tot_grid, get_*_density", "src/collisions.cpp"), ("Collisions*::collide_single, collide", "src/collisions/*.cpp"), ("CollisionsTA77S::correct_velocities", "src/collisions/collisionsTA77S.cpp")],
  ["velocities of the particles after the collision", "sequence of pairs"]),
P("P21", "A configuration file drives exactly the parameters it names, and inconsistent ones are refused",
  "Every parameter of the run is the value of its own key of the configuration file: size, grid, sub-domains and absorbing layers of the geometry (a layer is the given fraction of the cells of its own axis), times, species, beams, probes, external fields, output. "
  "Names and identifiers of species and beams are unique. A probe lies inside the area: rectangles may end at its border, rows, columns and dots lie on cells; its place in the output file is named by component, species, shape and cells. "
  "Macroparticles are shared out so that all cells of species and beams get the same amount, times the configured ratio for beams, and all of them sum up to the configured amount. "
  "The program ends with a fatal error exactly when a name or identifier is taken, a probe is unknown or out of the area, the amount of sub-domains is neither 1 nor even or does not divide the grid, or there are no electrons. What is read builds only on what was read before.",
  ["inputs", "configurations"], "all configuration files with the required keys, any number of species, beams and probes", T_IN % "configuration files",
  ["src/cfg.cpp", "include/cfg.hpp"], [("Cfg::init_*", "src/cfg.cpp"), ("Cfg::weight_macro_amount", "src/cfg.cpp"), ("Cfg::method_limitations_check", "src/cfg.cpp")], ["members of Cfg", "fatal exits"]),
]
