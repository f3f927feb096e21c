# The part of properties.jsonl that is decided on the whole program.
from properties_core import P

FULL = [
    P("P14", "Meshes of points in general position are Delaunay triangulations",
      "For any points in general position in any box, whatever their order, scale and clustering, the triangulation has exactly the inserted points as its vertices, its triangles or tetrahedra fill the hull without overlap, neighbours refer to each other across the faces they share, and no point lies inside the circumscribed circle or sphere of another element. This holds after every insertion.",
      ["inputs", "histories"], "all sets and orders of points in general position in two and three dimensions, boxes that are not cubes included",
      "The tests triangulate a few fixed random point sets in unit boxes and check selected conditions.",
      ["src/voronoi/delaunay/mod.rs", "src/voronoi/delaunay/impl_2d.rs", "src/voronoi/delaunay/impl_3d.rs", "src/voronoi/primitives/triangle.rs", "src/voronoi/primitives/tetrahedron.rs", "src/dimension.rs"],
      [("insertion and flips", "src/voronoi/delaunay/mod.rs, impl_2d.rs, impl_3d.rs"), ("predicates", "src/voronoi/primitives/"), ("coordinates of the predicates", "src/dimension.rs remap_point")],
      "all elements of the mesh after insertions"),
    P("P15", "The grid is the Voronoi grid of the particles, however many ranks build it",
      "For any particles in general position, the cell of each particle is the region of space closer to it than to any other particle and to any image of a particle in the neighbouring boxes; faces towards images connect cells if the box is periodic and are its boundary otherwise. Its volume, its size, and the area, the direction and the other side of each of its faces are those of that region, no face is missing or there twice, the faces of two neighbours agree, and the cells fill the box. The result does not depend on the number of ranks, on where the particles are, or on the first search radius, and every neighbour on another rank is known there as a halo particle.",
      ["inputs", "configurations", "schedules"], "all positions in general position, boxes, boundary conditions, search radii, and numbers of ranks with all their interleavings",
      "The tests compare a few random grids on one rank with themselves; the parallel construction is not among the stable tests.",
      ["src/voronoi/mod.rs", "src/voronoi/cell.rs", "src/voronoi/constructor/mod.rs", "src/voronoi/constructor/halo_iteration.rs", "src/voronoi/constructor/parallel/mod.rs", "src/sweep/grid/mod.rs"],
      [("cells from the dual mesh", "src/voronoi/cell.rs"), ("iteration until all haloes are known", "src/voronoi/constructor/halo_iteration.rs"), ("search on other ranks", "src/voronoi/constructor/parallel/")],
      "the cell of every particle on every rank"),
    P("P16", "Every particle is on exactly one rank, the one that owns its place, and the load is even",
      "Whatever the initial distribution of particles, after the decomposition and exchange every particle is on exactly one rank with all its components unchanged, and it is the rank that all ranks name as the owner of its position; every other place in the box has exactly one owner too. The domains are contiguous and ordered along the space-filling curve, and if no two particles share a key, every rank but the last has its share of the particles or one less.",
      ["inputs", "configurations", "schedules"], "all positions (clustered down to the resolution of the keys, on faces, edges and corners of the box), all initial distributions with at least one particle on every rank, any number of ranks",
      "The stable tests run on one rank; the decomposition is only tested on small regular point sets.",
      ["src/domain/decomposition.rs", "src/domain/key.rs", "src/domain/mod.rs", "src/domain/exchange_data_plugin.rs", "src/particle.rs"],
      [("search for the cuts", "src/domain/decomposition.rs Decomposer, KeyCounter, ParallelCounter, get_owning_rank"), ("exchange of all components", "src/domain/exchange_data_plugin.rs"), ("identities", "src/particle.rs")],
      "all particles of all ranks after the exchange"),
    P("P17", "Distances respect the periodic box, and searches find exactly what is in reach",
      "In every box, a position is wrapped into the box by whole sides and stays where it is if it lies inside, the distance of two positions is the shortest one over all images, and the 27 images are those shifted by whole sides. The search tree holds every particle exactly once in a node that contains it, within the limits of depth and occupation, and a search returns every particle whose distance is below the radius exactly once and no other.",
      ["inputs"], "all boxes, positions (on the boundary included), numbers and distributions of particles, tree parameters, centers and radii from zero to more than the box",
      "The tests search a few times among random points in one cube.",
      ["src/simulation_box.rs", "src/quadtree/mod.rs", "src/quadtree/radius_search.rs", "src/extent.rs", "src/dimension.rs"],
      [("wrapping and distances", "src/simulation_box.rs"), ("tree", "src/quadtree/mod.rs"), ("search", "src/quadtree/radius_search.rs"), ("images", "src/simulation_box.rs iter_periodic_images")],
      "wrapped positions, distances, nodes and search results"),
    P("P18", "Photons are conserved: each cell is solved once per direction, after its upwind neighbours, on any number of ranks",
      "In every sweep, each active cell is solved exactly once in each direction and only after all its active upwind neighbours, on whichever ranks they are. When it is done, the rate into each cell in each direction is the sum of what its upwind neighbours send through the faces they share, in proportion to the projected areas, what leaves a cell is what comes in plus its part of the source, attenuated by its optical depth (nothing, below the threshold), and in a closed box, all photons are absorbed or leave the box. The gas is then advanced by the timestep of its level with the total rate, the result is what the components of the particles and all other ranks see, the levels follow the timescales, and every cell is advanced by the same time in a step. The sweep ends on every schedule and, without periodic boundaries (what crosses one may be used in the same sweep or in the next), does not depend on the number of ranks, the size of the batches, or the search for deadlocks.",
      ["inputs", "histories", "schedules", "configurations"], "all grids, divisions between ranks, sets of directions, sources, timestep levels, thresholds and batch sizes, all interleavings of the ranks, all steps of a simulation",
      "The tests cover analytic cases on one rank; what goes wrong between ranks and levels is not visible there.",
      ["src/sweep/mod.rs", "src/sweep/site.rs", "src/sweep/task.rs", "src/sweep/active_list.rs", "src/sweep/deadlock_detection.rs", "src/sweep/communicator.rs", "src/chemistry/hydrogen_only/mod.rs"],
      [("dependency counts and task queue", "src/sweep/mod.rs init_counts, solve, handle_*"), ("corrections of rates", "src/sweep/mod.rs, site.rs"), ("update of the gas", "src/sweep/mod.rs update_chemistry, chemistry/hydrogen_only"), ("levels", "src/sweep/mod.rs, timestep_state.rs")],
      "every solved task in order, and all rates and states before and after each sweep"),
    P("P19", "Rates sent during a sweep arrive once, in order and unchanged",
      "Whatever the order and size of the batches handed to the communicator of the sweeps, and however the receivers are delayed, each rank receives exactly the rates sent to it by each other rank, in order and unchanged. Buffers are neither changed nor freed before their send is complete, also if the communicator goes away while it is sending, and every send is completed.",
      ["schedules", "histories"], "all histories of sends and receives and all lifetimes of communicators on any number of ranks, all interleavings",
      "The stable tests run on a single rank, where nothing is sent.",
      ["src/sweep/communicator.rs", "src/sweep/task.rs"],
      [("outstanding requests per rank", "src/sweep/communicator.rs try_send_all, update_pending_requests, Drop"), ("transported rates", "src/sweep/task.rs RateData")],
      "every rate at its receiver, every MPI request of every rank"),
    P("P20", "Timestep levels divide a step evenly",
      "For any number of levels and any largest timestep, a cell is given the longest allowed timestep that does not exceed the one it needs, or else the shortest. In a step, the cells of a level take part in sweeps at even intervals of their timestep, together with all cells of finer levels, and at the end of the step all have been advanced by the same time. The first steps use the finest levels only, and full steps begin at multiples of the largest timestep.",
      ["inputs", "histories", "configurations"], "all numbers of levels, largest timesteps, needed timesteps from zero to infinity, all steps of a simulation",
      "The tests list the order of levels for one number of levels.",
      ["src/sweep/timestep_level.rs", "src/sweep/timestep_state.rs"],
      [("order of the sweeps", "src/sweep/timestep_level.rs, timestep_state.rs iter_levels_in_sweep_order"), ("choice of the level", "src/sweep/timestep_state.rs get_desired_level_from_desired_timestep")],
      "the order of levels and the chosen levels"),
    P("P21", "The chemistry keeps the state of the gas physical and follows its rate equations",
      "For any state of the gas, photon rate, density and timestep, the solver ends, the ionized fraction stays between its limits, the temperature stays positive and finite, and, if cooling is prevented, neither falls below its first value. Rates and coefficients agree with their published formulas, the state agrees with an accurate integration of the rate equations when small relative changes are asked for, a cell absorbs what its optical depth stands for, and the timescale that is returned is the one in which the state changes by the allowed amount.",
      ["inputs"], "all temperatures, ionized fractions, densities, sizes, photon rates, timesteps and scale factors",
      "The tests check single states.",
      ["src/chemistry/hydrogen_only/mod.rs", "src/chemistry/timescale.rs"],
      [("rates and coefficients", "src/chemistry/hydrogen_only/mod.rs"), ("adaptive integration", "src/chemistry/hydrogen_only/mod.rs perform_timestep"), ("absorption", "src/chemistry/hydrogen_only/mod.rs get_outgoing_rate")],
      "states before and after every call, rates"),
    P("P22", "What is in the initial conditions is what is in the snapshots, particle by particle, at the times asked for",
      "However the initial conditions are divided into files with units of their own, and however many ranks read them, every particle is read once with its own values. Snapshots are written at the times that the parameters ask for and at the end, into the number of files asked for and with the fields asked for. Each holds every particle exactly once, the entries of a row belong to the same particle and to the time of the snapshot, rows keep their order from snapshot to snapshot, and dimensions and units are right, so that a snapshot can be read again as initial conditions. The time series has every event of the main rank with its time, the parameters that were used are written in a form that gives the same parameters, and the output of an earlier run is only touched if asked for.",
      ["inputs", "configurations", "histories"], "all numbers and sizes of files, units, numbers of ranks, output schedules, numbers of output files, selections of fields",
      "The stable tests only cover the division of files into regions; nothing is read or written.",
      ["src/io/input/mod.rs", "src/io/output/mod.rs", "src/io/output/plugin.rs", "src/io/output/parameters.rs", "src/io/output/timer.rs", "src/io/unit_reader.rs", "src/io/to_dataset.rs", "src/io/time_series.rs", "src/parameter_plugin/parameter_file_contents.rs"],
      [("reading in pieces", "src/io/input/mod.rs Reader"), ("snapshots", "src/io/output/mod.rs, plugin.rs"), ("schedule", "src/io/output/timer.rs"), ("time series", "src/io/time_series.rs")],
      "the particles of all ranks after reading, all files of the output"),
    P("P23", "The program turns initial conditions and parameters into the same results on any number of ranks",
      "Given initial conditions in the form of Arepo snapshots (with their units, and with comoving quantities if the cosmology says so), the first snapshot of a run holds the density, temperature, ionized fraction and mass that follow from them, the sources hold the luminosities that follow from their ages, masses and metallicities or from the parameters, and together emit what they are meant to, wherever in the box they are. The rates of the first sweep are those of a direct calculation along the directions. Runs with a different number of ranks give the same particles and times in all snapshots, and the same values unless the box is periodic, as does a run that reads its grid from a file instead of constructing it. A run that is continued by remapping gives each particle the values of the nearest one of the earlier run. The scale factor written with a snapshot is the one of its time.",
      ["inputs", "configurations", "histories"], "all initial conditions with particles in general position (enough for every rank to find its neighbours), units, cosmologies, sources, sets of directions, numbers of ranks, grids constructed or read, remapped or not",
      "No test runs the program; the stages of the start-up are not tested together.",
      ["src/arepo_postprocess/mod.rs", "src/main.rs", "src/arepo_postprocess/sources.rs", "src/arepo_postprocess/read_grid/mod.rs", "src/arepo_postprocess/remap.rs", "src/arepo_postprocess/bpass.rs", "src/arepo_postprocess/unit_reader.rs", "src/cosmology.rs", "src/source_systems.rs"],
      [("start-up", "src/arepo_postprocess/mod.rs, src/main.rs"), ("sources", "src/arepo_postprocess/sources.rs, bpass.rs, src/source_systems.rs"), ("grid from a file", "src/arepo_postprocess/read_grid/mod.rs"), ("remapping", "src/arepo_postprocess/remap.rs"), ("time and scale factor", "src/cosmology.rs, src/sweep/mod.rs")],
      "all snapshots of all runs"),
    P("P24", "The program runs with the parameters of the file and the command line, and with nothing it was not told",
      "Every value in the parameter file has its effect, an override on the command line takes precedence over the file (the last one over earlier ones) whether or not the file has the section or subsection, and what is given nowhere has its default. A value means the same in the file and on the command line. A section, key or value that means nothing, in the file or on the command line, a file that cannot be parsed, and a required value that is missing are refused and never ignored. The parameters that were used, overrides and defaults included, are recorded in a form that reads as the same parameters.",
      ["inputs", "configurations"], "all parameter files, all lists of overrides at any depth, all orders in which the parts of the program ask for their parameters",
      "The tests override a key or two of two sections.",
      ["src/parameter_plugin/parameter_file_contents.rs", "src/parameter_plugin/mod.rs", "src/command_line_options.rs", "src/simulation/mod.rs", "src/simulation_builder.rs", "src/parameters.rs"],
      [("sections, overrides and defaults", "src/parameter_plugin/parameter_file_contents.rs"), ("command line", "src/command_line_options.rs Override"), ("unused sections", "src/simulation/mod.rs validate")],
      "the parameters that each part of the program gets"),
    P("P25", "Times, scale factors and redshifts of a run are those of its cosmology",
      "For any flat cosmology, the time between two scale factors is the integral of the Friedmann equation, later scale factors have later times, times add up, and the scale factor at a time is the one that this integral leads to (within a hundred years), also beyond that of today. Redshift and scale factor belong together, and comoving quantities are converted with the powers of the scale factor and of the Hubble constant that their units have. Without a cosmology the scale factor is one, and what needs a cosmology, or a flat one, is refused.",
      ["inputs"], "all flat cosmologies, Hubble constants, scale factors and elapsed times, all units",
      "The tests check one time difference and 25 pairs of scale factors of one cosmology.",
      ["src/cosmology.rs", "src/time_spec.rs", "src/simulation_plugin/mod.rs"],
      [("time between scale factors and its inverse", "src/cosmology.rs"), ("time of the output", "src/time_spec.rs"), ("conversion", "src/cosmology.rs get_factor")],
      "times, scale factors, redshifts and factors"),
    P("P26", "Cartesian grids are a complete, consistent division of the box, whichever rank has which cell",
      "For any box and cell size that divides its sides, or numbers of cells per side, there is exactly one cell per site of the lattice, at its centre, on exactly one rank, with an id that no other has. Its size, volume, and six faces with their areas and normals are those of the cube, and behind each face is the right neighbour: the adjacent site under the id and rank that it has, the one on the other side of the box if the box is periodic, or the boundary. Each rank has a halo of exactly the sites of other ranks that its own cells touch.",
      ["inputs", "configurations"], "all sides and cell sizes, periodic or not, any number of ranks",
      "The tests look at the neighbours of a few cells on one rank.",
      ["src/sweep/grid/cartesian.rs", "src/sweep/grid/mod.rs"],
      [("sites", "src/sweep/grid/cartesian.rs IntegerPosition"), ("division between ranks, neighbours, haloes", "src/sweep/grid/cartesian.rs GridConstructor")],
      "all cells and haloes of all ranks"),
    P("P27", "What a run writes about its particles follows from their state: averages over time and derived fields",
      "In a run of the program, each time series has one entry per step with its time. The averages in it over mass and over volume of the ionized fraction, the temperature and the (weighted) photoionization rate are those of the particles at this step, whichever ranks have them, and the particles per timestep level are counted over all ranks. In every snapshot, the photoionization, heating, recombination and collisional ionization rates follow from the state of the particle, its source and the photons that reach it, the ionization time is that of the first step after which more than half of its hydrogen was ionized, and infinite before. Optional fields are written if and only if they are asked for, and nothing cools if cooling is prevented.",
      ["inputs", "configurations", "histories"], "all initial conditions, sources, timesteps and levels, selections of fields, numbers of ranks, all steps of a run",
      "No test looks at a time series or at a derived field.",
      ["src/sweep/time_series.rs", "src/io/time_series.rs", "src/sweep/chemistry_output.rs", "src/sweep/mod.rs", "src/components.rs"],
      [("averages", "src/sweep/time_series.rs"), ("derived fields", "src/sweep/chemistry_output.rs"), ("ionization time", "src/sweep/mod.rs run_sweep_system"), ("optional fields", "src/sweep/mod.rs init_optional_component")],
      "all time series and snapshots of runs that write one after every step"),
    P("P28", "A program is built and run as its parts ask for, alike on all ranks, and ends when it should",
      "Every part (plugin) that is added has its callbacks called as documented: those of the main rank only there, those of the other ranks only on them, those for all ranks everywhere, those that are to be called once per type once, however often it is added; a part whose condition does not hold is not built, and one that may not be added twice is refused the second time. Start-up systems run exactly once, before all others, and the systems of a step once in every step, in the order of their stages; systems added as well-ordered run in the order in which they were added. All ranks take the same steps, and a run ends with the first step that begins at or after the final time, or in which the end is asked for. Particles outside of the box are refused before anything is done with them. The record of the run gives the number of ranks and, for everything that is timed, how often it ran and for how long, and every rank has its log.",
      ["inputs", "configurations", "histories"], "all sequences of parts and systems, all orders that the scheduler may choose, all times and time steps, any number of ranks",
      "The tests do not add a plugin twice, do not look at the order of systems, and no test runs to a final time.",
      ["src/simulation/mod.rs", "src/simulation/subsweep_plugin.rs", "src/stages.rs", "src/simulation_plugin/mod.rs", "src/simulation_builder.rs", "src/performance.rs"],
      [("parts", "src/simulation/mod.rs add_plugin"), ("order", "src/stages.rs, src/simulation/mod.rs add_well_ordered_system_to_stage"), ("end of a run, particles outside", "src/simulation_plugin/mod.rs"), ("record", "src/performance.rs")],
      "the calls of all parts and systems on all ranks, the times of all steps, the record and the logs"),
    P("P29", "Quantities mean what their units say: in parameter files, in the code and between comoving and physical units",
      "A number with a unit, in a parameter file or in the code, stands for the quantity that this unit has in the literature (lengths from centimeters to gigaparsecs, times from nanoseconds to gigayears, masses, energies, densities, rates, comoving lengths with and without h), whatever its size and sign, and is the same number again when it is expressed in this unit. One with a unit of another dimension, with no unit or with one that does not exist is refused. Comoving lengths, given with or without h, become the physical lengths of the scale factor and h. Constants of nature have their values. Temperature, specific energy and energy density of a hydrogen gas are those of an ideal monatomic gas with the molecular weight of its ionization, and lead back to each other. Vectors of quantities are those of their components.",
      ["inputs"], "all numbers, units and dimensions, all states of the gas, all scale factors and h",
      "No test looks at the value of a unit or a constant; a wrong one shifts all results alike.",
      ["src/units/mod.rs", "src/units/dimension.rs", "src/units/specific_impls.rs", "src/units/helpers.rs", "src/cosmology.rs"],
      [("units and constants", "src/units/mod.rs"), ("gas", "src/units/specific_impls.rs"), ("dimensions", "src/units/dimension.rs")],
      "values of all units and constants in text and code, conversions of states of gas, of comoving lengths and of vectors"),
]
