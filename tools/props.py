import meta
from meta import prop

prop('C01', 'A run takes exactly the steps its start, duration and time step imply',
     'For every start time, duration, time step and direction, a model run visits step 0 at the start time and then '
     'every whole time step (forwards or backwards) that fits the duration, and then ends. After any sequence of '
     'stepping, rewinding, full runs, and changes of duration, time step, start time or uncertainty, the step number, model time, '
     'number of steps and element ages agree with that definition, and every change that invalidates past steps '
     'rewinds the run while a longer duration just continues it.',
     ['histories', 'configurations'],
     'all sequences of run-control operations, over durations that are and are not multiples of the time step, both directions',
     'the tests run a few fixed sequences (mostly one forward run); they never combine setters, rewinds and partial '
     'runs, and hardly ever backwards',
     ['gnome/model.py'],
     [('Model.step/rewind/setters', 'gnome/model.py'), ('Model._reset_num_time_steps', 'gnome/model.py')],
     observe=['Model.current_time_step', 'Model.model_time', 'Model.num_time_steps', 'element age'],
     technique='exhaustive operation-sequence exploration of the real Model against a reference state machine',
     note='every sequence of run-control operations up to the depth in the evidence, on the real Model, compared after each operation')

prop('C02', 'A simulation depends only on its configuration, not on what was done before',
     'Two models with the same configuration that are at the same step hold bit-for-bit the same elements, data arrays and '
     'mass balance, whatever steps, full or partial runs, rewinds and configuration changes came before. In '
     'particular re-running a rewound model reproduces the first run exactly.',
     ['histories', 'configurations'],
     'all sequences of steps, runs, rewinds and configuration edits, over transport, shoreline, polygon-release, subsurface and weathering models with and without uncertainty',
     'tests rewind once and compare a few positions; state left behind by an earlier run only shows for particular '
     'histories and components',
     ['gnome/model.py', 'gnome/spill_container.py', 'gnome/spills/release.py', 'gnome/movers', 'gnome/weatherers'],
     [('Model.rewind and the rewind of every collaborator', 'gnome/model.py'),
      ('random seed reset on rewind', 'gnome/utilities/rand.py'),
      ('SpillContainer.rewind', 'gnome/spill_container.py')],
     observe=['all data arrays and mass balance of both element sets'],
     technique='exhaustive history exploration with a differential oracle (fresh model)',
     note='bit-for-bit differential comparison after every operation of every sequence within the bound')

prop('C03', 'A spill releases the right elements at the right time, place and mass',
     'For every release kind (point, line, polygons, fixed positions, grid, subsurface), window, time step, direction and count, no element '
     'appears before the release time, the number released never decreases, keeps pace with the linear share of the window to one time step '
     'and equals the requested number once the window is over. Released elements lie on the source (for a moving '
     'source, where the source was), carry equal shares that sum to the spilled amount in the given units, and are never moved or duplicated by later releases. '
     'The polygons of a release get elements in proportion to their area, weight or thickness; a release that retains its initial positions keeps them; an element released on land is beached there.',
     ['configurations', 'inputs'],
     'all combinations of release kind, time step, offset and duration of the window relative to the steps, number of elements, uncertainty, units',
     'tests use a few windows aligned with the time step',
     ['gnome/spills/release.py', 'gnome/spills/spill.py'],
     [('Release.prepare_for_model_run / num_elements_after_time / initialize_LEs', 'gnome/spills/release.py'),
      ('Spill.release_elements', 'gnome/spills/spill.py')],
     observe=['positions, mass, init_mass, age, number of elements per step'],
     technique='exhaustive enumeration of release configurations run on the real Model against an arithmetic oracle',
     note='every configuration of the stated grid is run to the end and checked at every step')

prop('C04', 'Element bookkeeping: unique ids, aligned arrays, no interference between spills',
     'At every step of every run, all per-element arrays have one entry per element, ids are unique, increasing and never reused within the run, and '
     'every element is attributed to the spill that released it and ages by the time step from its release. Adding, removing, '
     'switching or changing one spill never changes the elements of another; forecast and uncertainty sets never share data.',
     ['histories', 'configurations'],
     'all combinations of up to several spills and on/off states, and all edit histories between runs',
     'tests use one or two spills in a fixed order and look at counts only',
     ['gnome/spill_container.py', 'gnome/spills/spill.py', 'gnome/utilities/orderedcollection.py'],
     [('SpillContainer.release_elements/_append_data_arrays', 'gnome/spill_container.py'),
      ('SpillContainerPair', 'gnome/spill_container.py')],
     observe=['data arrays of every container, iterspillsdata/substances views'],
     technique='exhaustive enumeration of spill combinations and edit histories, differential and invariant oracles',
     note='all combinations and histories within the bound, checked at every step on the real code')

prop('C05', 'Mass balance: oil is neither created nor lost by weathering and transport',
     'At every step of every run with weathering, for each element set, the oil afloat, beached and off the map plus everything '
     'the weathering processes and the clean-up operations removed equals the oil released so far; every term and every '
     'component of every element is finite and non-negative, removed amounts only grow, and elements that are '
     'beached or off the map are not weathered. The amounts reported as afloat, beached and not weathering, and the average density and '
     'viscosity, are those of the elements at that step.',
     ['configurations', 'inputs'],
     'all combinations of weathering processes and clean-up operations, time steps, sub-steps, release windows, wind and water extremes, open/shore/off-map geometry, with and without uncertainty, both directions',
     'tests run single weatherers or one fixed combination and check a coarse total on open water only',
     ['gnome/weatherers', 'gnome/model.py', 'gnome/spill_container.py', 'gnome/maps/map.py'],
     [('Model.weather_elements / step', 'gnome/model.py'), ('weatherer removal of mass components', 'gnome/weatherers'),
      ('off-map accounting', 'gnome/maps/map.py')],
     observe=['mass, mass_components, status_codes arrays', 'mass_balance dictionary'],
     technique='exhaustive enumeration of weathering configurations run on the real Model with a conservation monitor at every step',
     note='every configuration of the grid is run to the end; conservation is checked at every step')

prop('C06', 'A clean-up operation removes exactly what its window and rate imply',
     'Skimming, burning, chemical dispersion and manual beaching act only inside their active window, whatever its alignment with the time step and '
     'sub-steps, and remove the amount given by rate x efficiency x the overlap of the window with the step, never more than is available. Switched-off operations remove '
     'nothing, and splitting a time step into sub-steps does not change the total beyond rounding. They work on the '
     'oil they are meant for (skimming and burning on the elements released first, up to the amount planned, with the water of an emulsion '
     'counted as the operation handles it; dispersion on the share of the slick that is sprayed), in any units, and after a rewind start again with the settings they then have.',
     ['configurations', 'inputs'],
     'all alignments of the window relative to the steps, step lengths, sub-steps, units, amounts larger and smaller than the oil available',
     'tests use windows aligned with the time step and a single sub-step',
     ['gnome/weatherers/cleanup.py', 'gnome/weatherers/manual_beaching.py', 'gnome/model.py'],
     [('Skimmer/Burn/ChemicalDispersion', 'gnome/weatherers/cleanup.py'), ('Beaching', 'gnome/weatherers/manual_beaching.py')],
     observe=['mass_balance entries of the operations', 'element masses'],
     technique='exhaustive enumeration of windows x steps x operations on the real Model against an arithmetic oracle',
     note='every window alignment of the grid, compared at every step')

prop('C07', 'Oil never crosses or ends up on land without being beached there',
     'For every land layout, every start and every displacement in one step, an element whose straight path meets land is stopped on the first land '
     'it meets, marked beached with a last water position that is in water, and never found beyond a land barrier; an element '
     'whose path meets no land ends exactly where it was moved and stays in water. A beached element does not move until it refloats, and it refloats '
     'to its last water position.',
     ['inputs', 'histories'],
     'every small land raster and every move on it, larger rasters with single-pixel and wall-like land including the coarse layers, several projections, all sequences of moves',
     'tests use one hand-made raster and a handful of diagonal moves; thin land, path/land alignment and the coarse acceleration layers have far too many cases',
     ['gnome/maps/map.py', 'gnome/cy_gnome/cy_land_check.pyx'],
     [('RasterMap.beach_elements / check_land', 'gnome/maps/map.py'), ('do_landings / check_land_layers / find_first_pixel', 'gnome/cy_gnome/cy_land_check.pyx'),
      ('refloat', 'gnome/maps/map.py')],
     observe=['positions, next_positions, status_codes, last_water_positions after a step'],
     technique='exhaustive enumeration of land rasters x moves x sequences on the real map code against a geometric oracle',
     note='every raster/move of the stated sizes; the oracle accepts any pixel path compatible with the exact segment')

prop('C08', 'A map answers where water and land are, and what leaves the map, consistently',
     'For every kind of map (open water, raster, BNA file, straight shoreline, regular grid), a point is in water, on land or off the map and never two of these, '
     'single points and arrays give the same answer, and these agree with the polygons or raster the map was made from, including points off the raster and maps '
     'moved across the 180 degree seam. An element that leaves the map bounds at the surface is marked off map, stays so, no longer moves or weathers and its oil is counted '
     'once as off the map; submerged or airborne elements are kept within surface and domain. Refloating happens with the probability its half-life implies.',
     ['inputs', 'histories', 'configurations'],
     'all map kinds x points of a lattice reaching beyond the map x all sequences of moves',
     'tests query a few interior points per map and one exit',
     ['gnome/maps/map.py'],
     [('GnomeMap/RasterMap/ParamMap in_water/on_land/on_map/allowable_spill_position', 'gnome/maps/map.py'),
      ('MapFromBNA', 'gnome/maps/map.py'), ('refloat_elements', 'gnome/maps/map.py')],
     observe=['on_map, in_water, on_land, allowable_spill_position', 'status_codes', 'mass_balance off_maps'],
     technique='exhaustive enumeration of map kinds x lattice points x move sequences on the real maps against exact geometry',
     note='every lattice point and every move sequence of the stated bound')

prop('C10', 'Geometry helpers are exact: point in polygon, boxes, polygon sets, triangles',
     'For every polygon and point, the point-in-polygon test agrees with exact geometry (boundary points belong to exactly one of the polygons of a tiling), whatever the vertex order, '
     'starting vertex or type of input; bounding boxes overlap, contain and merge as sets of points do; polygon sets keep what is appended to them through copies and '
     'transformations, and BNA files are read back as they are written; polygons and polygons with holes are split into triangles of the same total area lying inside them.',
     ['inputs', 'histories'],
     'all polygons with few vertices on a lattice x all lattice and half-lattice points; all pairs of boxes; all operation sequences on polygon sets',
     'tests use a few well-behaved polygons; degenerate, self-crossing and vertex-aligned cases are the hard ones',
     ['gnome/utilities/geometry', 'gnome/utilities/file_tools/haz_files.py', 'gnome/utilities/geometry/geo_routines.py'],
     [('points_in_poly', 'gnome/utilities/geometry/cy_point_in_polygon.pyx'), ('BBox', 'gnome/utilities/geometry/BBox.py'),
      ('PolygonSet', 'gnome/utilities/geometry/polygons.py'), ('ReadBNA', 'gnome/utilities/file_tools/haz_files.py')],
     observe=['return values'],
     technique='exhaustive enumeration of small polygons, boxes and operation sequences against exact arithmetic',
     note='all polygons on the lattice, decided with exact rational geometry')

prop('C11', 'Coordinates, pixels and metres convert into each other consistently',
     'For every projection, bounding box and image size, a pixel converted to coordinates and back is the same pixel, every position inside a pixel maps to that pixel, north is up and '
     'the box is centred, fits the image and keeps its aspect; single points, lists, arrays and 3-d positions give the same result and inputs are never modified; '
     'rescaling a projection equals building a new one. Displacements in metres convert to degrees and back without loss, at every latitude.',
     ['inputs', 'histories'],
     'all projections x bounding boxes x image sizes x pixel classes and sub-pixel positions; all sequences of rescalings; latitudes x displacements',
     'tests check a few corner points of one box',
     ['gnome/utilities/projections.py'],
     [('GeoProjection/FlatEarthProjection/RegularGridProjection/RectangularGridProjection', 'gnome/utilities/projections.py')],
     observe=['to_pixel, to_lonlat, meters_to_lonlat, lonlat_to_meters'],
     technique='exhaustive enumeration of projections x boxes x sizes x positions, round-trip and arithmetic oracles',
     note='every combination of the grid is evaluated')

prop('C12', 'Collections of components are ordered lists of distinct objects with ids',
     'Whatever sequence of add, append, remove, replace (by position or by id), reorder, clear and update is applied to a collection of movers, weatherers, spills, outputters or other objects, '
     'it holds each object once, in the order they were added (a replacement takes the place of the replaced object), length, iteration, indexing, slices, membership, index() and id lookup all agree, '
     'failed operations change nothing, and the registered callbacks are told exactly of each object that was added, removed or replaced.',
     ['histories'],
     'all operation sequences up to a depth over a small pool of objects',
     'tests do one operation at a time; what breaks is positions after removals and replacements in combination',
     ['gnome/utilities/orderedcollection.py'],
     [('OrderedCollection', 'gnome/utilities/orderedcollection.py')],
     observe=['len, iteration, [], slices, in, index, ids, callbacks'],
     technique='exhaustive operation-sequence exploration of the real class against a reference list',
     note='every sequence up to the depth in the evidence')

prop('C13', 'The element cache returns every step exactly as it was saved',
     'For every sequence of saving steps, loading, rewinding and enabling or disabling the cache, loading a step gives exactly the arrays, mass balance and time that were saved for that step (with and without uncertainty), '
     'the same whether the step is still in memory or read from disk; steps that were not saved since the last rewind raise CacheError; later changes of the elements never alter what was cached; '
     'two caches never share files and the files are removed with the cache. The steps a model run returns from its cache equal the elements at those steps.',
     ['histories', 'configurations'],
     'all operation sequences over save/load/rewind/enable with several element sets; whole runs',
     'tests save two steps and read them back once',
     ['gnome/utilities/cache.py', 'gnome/model.py'],
     [('ElementCache', 'gnome/utilities/cache.py'), ('Model.step/__getitem__ caching', 'gnome/model.py')],
     observe=['ElementCache.load_timestep, recent, save_timestep, rewind', 'files in the cache directory'],
     technique='exhaustive operation-sequence exploration of the real cache against a reference map',
     note='every sequence up to the depth in the evidence, and whole runs')

prop('C20', 'The wind at any time, in any units and coordinates, is the wind that was given',
     'For every wind time series, the wind between two data times is the linear interpolation of its components, at the data times it is the data, before and after the data it is an error, or the first or last value '
     'where extrapolation is allowed; all ways to ask (get_wind_data, get_value, at with or without points, in every coordinate system and unit) agree. What was given in any unit, coordinate system, form or file layout is the same physical '
     'wind, and stays so through changes of units, time zone shifts, re-assignment and serialization; arrays of the caller are never modified; series that do not ascend, unknown units and malformed files are refused. '
     'The same holds for water properties and their units, and for running averages of the wind.',
     ['inputs', 'histories'],
     'all short series x query time classes x ways to ask; all units x forms of input; all edit sequences; all file layouts',
     'tests check a few values in two units; interpolation at the ends, unit changes after the fact and combinations of edits are not covered',
     ['gnome/environment/wind.py', 'gnome/utilities/timeseries.py', 'lib_gnome/OSSMTimeValue_c.cpp', 'gnome/environment/water.py'],
     [('Wind', 'gnome/environment/wind.py'), ('Timeseries', 'gnome/utilities/timeseries.py'), ('OSSMTimeValue_c::GetTimeValue', 'lib_gnome/OSSMTimeValue_c.cpp'),
      ('transforms', 'gnome/utilities/transforms.py'), ('RunningAverage', 'gnome/environment/running_average.py'), ('Water.get/set', 'gnome/environment/water.py')],
     observe=['Wind.get_wind_data/get_value/at/timeseries', 'RunningAverage.timeseries', 'Water.get'],
     technique='exhaustive enumeration of series, queries, edit sequences and file layouts on the real objects against exact interpolation',
     note='every case of the grids and every edit sequence up to the depth')

prop('C14', 'What was saved is what is loaded',
     'For every object of the documented classes with any of its settings, saving it and loading it again gives an equal object: every setting, name, data file, substance and time as before, and objects that shared another object (a wind, water, substance) share it after loading, '
     'objects that did not do not, whatever the names of objects and data files. It holds for every documented form of location (file name with or without ending, path, directory, open archive, none, new, existing, appending) and way to read it. '
     'Saving changes nothing: neither the object nor, at any moment of a run, the rest of the run. The loaded model runs exactly as the saved one.',
     ['inputs', 'histories', 'configurations'],
     'all classes x settings, all pairs of names, all wirings of shared objects, all locations, a save after every step of a run',
     'tests round-trip a few default objects; combinations of settings, colliding names, shared references and saves during a run are not covered',
     ['gnome/gnomeobject.py', 'gnome/persist/base_schema.py', 'gnome/persist/extend_colander.py', 'gnome/model.py'],
     [('GnomeId.save/load', 'gnome/gnomeobject.py'), ('ObjType.save/load', 'gnome/persist/base_schema.py'), ('Model.save/load', 'gnome/model.py')],
     observe=['attributes of loaded objects', 'identity of shared objects', 'histories of loaded models', 'files in the target directory'],
     technique='exhaustive enumeration of classes, settings, names, wirings, locations and save moments on the real code; loaded object compared with the saved one',
     note='every case of the stated grids')

prop('C15', 'A save is all or nothing',
     'Wherever a save fails (disk full, a write cut short) or the process dies during it, the save file afterwards is either exactly what it was before (or still absent) or the complete new object: never truncated, mixed or unreadable. '
     'A save that failed raises an error, leaves no partial files next to the target, leaves the object and a running model as they were, and the next save succeeds. save() never returns normally unless the file holds the new object.',
     ['crash points', 'faults'],
     'a fault or death of the process at every file operation of a save, for new, existing and appended files',
     'tests never make a write fail; each fault point is one execution',
     ['gnome/gnomeobject.py', 'gnome/model.py', 'gnome/persist/base_schema.py'],
     [('GnomeId.save', 'gnome/gnomeobject.py'), ('Model._write_to_zip/_save_spill_data', 'gnome/model.py')],
     observe=['the save file after the fault, loaded by the real code', 'files in its directory', 'the object and its run after a failed save'],
     technique='exhaustive fault-point and crash-point enumeration on the real code under an LD_PRELOAD fault injector',
     note='every file operation x kind of fault; process death, not power loss')

prop('C16', 'Archives from elsewhere are contained, checked and understood',
     'Whatever the names in an archive, extracting or loading it writes only inside the directory given (or a temporary one). is_savezip_valid() always answers: False for every truncated archive, every archive whose content is damaged, with a JSON file or compression ratio over the limit, '
     'or with ".." in a name; True for what save() writes. A save file re-packed in another order, compression, in a top-level folder or with macOS metadata loads as the same object.',
     ['inputs', 'corruption'],
     'all member names and pairs, every byte altered, dropped or doubled, every truncation, sizes around the limits, all member orders and layouts',
     'tests try three bad archives',
     ['gnome/persist/save_load.py', 'gnome/utilities/save_updater.py', 'gnome/gnomeobject.py'],
     [('is_savezip_valid, extract_zipfile', 'gnome/persist/save_load.py'), ('extract_zipfile', 'gnome/utilities/save_updater.py'), ('GnomeId.load', 'gnome/gnomeobject.py')],
     observe=['the whole scratch tree before and after', 'is_savezip_valid()', 'loaded objects'],
     technique='exhaustive enumeration of names, damage, sizes and layouts on the real functions in a nested scratch directory',
     note='every case of the stated grids')

prop('C17', 'Objects keep their meaning through JSON, and an update changes what it says',
     'For every object of the documented classes with any of its settings, serialize() gives JSON from which deserialize() makes an equal, independent object, with objects shared as before; neither changes the object or the JSON given, and doing it twice gives the same. '
     'update_from_dict() with some settings changes exactly those (and what is documented to follow from them), reports that it changed something, with the object\'s own JSON changes nothing; updates one after another end where setting all at once does. '
     'Updating the collections of a model gives the listed objects in the listed order, keeping those that exist, and the model then runs like one made from that JSON.',
     ['inputs', 'histories', 'configurations'],
     'all classes x settings, all ordered pairs of updates, all edit sequences of the collections, all wirings',
     'tests update a few attributes of a few classes',
     ['gnome/gnomeobject.py', 'gnome/persist/base_schema.py', 'gnome/persist/extend_colander.py', 'gnome/model.py'],
     [('GnomeId.serialize/deserialize/update_from_dict', 'gnome/gnomeobject.py'), ('ObjTypeSchema.process_subnode', 'gnome/persist/base_schema.py'), ('Model.update_from_dict', 'gnome/model.py')],
     observe=['attributes and identity of objects', 'the JSON given', 'return values', 'histories'],
     technique='exhaustive enumeration of classes, settings, update sequences and wirings on the real code against construction from scratch',
     note='every case of the stated grids and every edit sequence up to the depth')

prop('C18', 'Outputters write exactly the steps their settings ask for',
     'An outputter that is on writes the first step iff output_zero_step (or a single output at the start of the run is asked for), the last step if output_last_step, nothing before output_start_time, the first step at or after it, and then every step (output_timestep None), the steps that complete another output_timestep, or none (output_single_step); '
     'the same running forwards and backwards, for every outputter class, again after a rewind, next to other outputters, and when the output is written afterwards from the cache. An outputter that is off writes nothing. Runs of a single step, of a few steps and of days alike.',
     ['configurations', 'histories'],
     'all combinations of the settings of the grid, directions, shapes of run, outputter classes, and all sequences of steps, rewinds and changes up to the depth',
     'tests try a few output_timesteps forward in time',
     ['gnome/outputters/outputter.py', 'gnome/outputters/netcdf.py', 'gnome/outputters/binary.py', 'gnome/model.py'],
     [('Outputter.prepare_for_model_step/write_output/write_output_post_run', 'gnome/outputters/outputter.py'), ('Model.write_output', 'gnome/model.py')],
     observe=['steps on which write_output produced something', 'times and step numbers in the files'],
     technique='exhaustive enumeration of outputter settings and histories on the real model against the closed form of the documented schedule',
     note='every combination of the stated grids')

prop('C19', 'What is in the output files is what the model computed',
     'For every step written, each output format (NetCDF, GeoJSON, SpillJSON, binary, KMZ, shapefile, mass balance JSON, oil budget CSV, memory) holds exactly the elements of that step: their number, positions, status, mass, age, spill and the times, within the precision of the format, the forecast and the uncertain elements apart, also when their numbers differ, elements are released or leave the map; the surface concentration, when asked for, is the kernel estimate of the masses of the elements of that step. '
     'Nothing of an earlier run, of another step or of the other set of elements is in the file; a run after changed settings, file names or spills writes what a new outputter would; a run stopped early leaves what was written so far. NetCDFOutput.read_data() returns the data of the time asked for, or of the closest.',
     ['histories', 'configurations'],
     'kinds of run x uncertainty x direction x which_data x zip x cadence x stopping point, all sequences of changes between runs up to the depth, all times of a grid',
     'tests compare one forward run whose sets never differ in size',
     ['gnome/outputters/netcdf.py', 'gnome/outputters/geo_json.py', 'gnome/outputters/json.py', 'gnome/outputters/binary.py', 'gnome/outputters/kmz.py', 'gnome/outputters/shape.py', 'gnome/outputters/weathering.py', 'gnome/outputters/oil_budget.py', 'gnome/utilities/shapefile_builder.py'],
     [('NetCDFOutput.write_output/read_data', 'gnome/outputters/netcdf.py'), ('TrajectoryGeoJsonOutput.write_output', 'gnome/outputters/geo_json.py'), ('BinaryOutput.write_output', 'gnome/outputters/binary.py'), ('ShapeOutput.post_model_run', 'gnome/outputters/shape.py')],
     observe=['every file, read back with independent readers', 'what step() returns'],
     technique='exhaustive enumeration of runs, settings and histories on the real model and outputters; files read back and compared with copies of the model state',
     note='every case of the stated grids')

prop('C22', 'Every mover carries every element exactly as its law says',
     'After every step an element in the water is where the sum of the moves of the active movers takes it, each from the position at the start of the step: SimpleMover its velocity; PointWindMover and WindMover the wind times the windage of the element (at the surface only); CurrentMover and WindMover integrated by their numerical method (Euler, RK2, RK4) times scale_value; RiseVelocityMover the rise velocity of the element; CatsMover the velocity of the triangle times the scale at the reference point times the tide (at the surface only, zero outside of the grid), which is also what get_scaled_velocities() shows. Forwards and backwards, metres to degrees at the latitude of the element. '
     'A mover acts on a step iff it is on and the middle of the step lies in its active range. Elements on land do not move, and no element moves differently because of the others. Windages stay in their range (scaled by the persistence) and change only as often as the persistence says. '
     'The moves of RandomMover and RandomMover3D never exceed the bound of their diffusion coefficients and spread by 2 D dt in each direction, forwards and backwards; RandomMover leaves submerged oil alone; RandomMover3D never lifts an element above the surface, uses the coefficients of the layer the element is in, and with surface_is_allowed leaves surface oil alone.',
     ['configurations', 'inputs', 'histories'],
     'all sets of eight movers, every mover x step length x direction x uncertainty x windage, every pair of times as active range, grids of diffusion coefficients and scales',
     'tests try single movers with one step length, and compare with recorded numbers',
     ['gnome/movers/movers.py', 'gnome/movers/simple_mover.py', 'gnome/movers/c_wind_movers.py', 'gnome/movers/py_wind_movers.py', 'gnome/movers/py_current_movers.py', 'gnome/movers/vertical_movers.py', 'gnome/movers/random_movers.py', 'gnome/movers/c_current_movers.py', 'gnome/utilities/rand.py', 'gnome/utilities/projections.py', 'lib_gnome/WindMover_c.cpp', 'lib_gnome/CATSMover_c.cpp', 'lib_gnome/Random_c.cpp', 'lib_gnome/RandomVertical_c.cpp', 'lib_gnome/RiseVelocity_c.cpp'],
     [('Mover.prepare_for_model_step', 'gnome/movers/movers.py'), ('PyMover.delta_method', 'gnome/movers/movers.py'), ('Model.move_elements', 'gnome/model.py'), ('CATSMover_c::GetScaledPatValue', 'lib_gnome/CATSMover_c.cpp')],
     observe=['positions, windages of every element after every step', 'get_scaled_velocities()'],
     technique='exhaustive enumeration of mover sets, active ranges, step lengths and settings on the real model, every element compared with an independent integration',
     note='every case of the stated grids; the random walks are bounded on every move, their spread is judged on 1500 (600) elements with a fixed seed')

prop('C21', 'A time means the same in every time zone, season and form',
     'The result of a run (times, positions, masses, tides) is the same whatever the local time zone of the computer is, also over a change of the clock, at the end of February or of the year, and when a model saved in one zone is loaded in another. date_to_sec and sec_to_date are inverse of each other and uniform (a second is a second) for scalars, lists and arrays, and the native code agrees with them. '
     'A time given as datetime or as text in any accepted form is the same time. Infinite times compare with every time as their names say. An offset from UTC is kept and written to the minute; changing the time zone of a wind or of a release moves its times by exactly the difference of the offsets, changes nothing else, and does nothing where an offset is not known. round_time gives the nearest multiple.',
     ['inputs', 'configurations', 'histories'],
     'every half hour of whole years and every second round the clock changes in 13 zones, every minute offset, all sequences of zones up to the depth, whole runs in every zone',
     'tests run in the zone of the machine and try a few dates',
     ['gnome/utilities/time_utils.py', 'gnome/utilities/inf_datetime.py', 'gnome/environment/wind.py', 'gnome/spills/release.py', 'gnome/utilities/timeseries.py', 'lib_gnome/StringFunctions.cpp', 'lib_gnome/ShioTimeValue_c.cpp'],
     [('date_to_sec/sec_to_date/TZOffset', 'gnome/utilities/time_utils.py'), ('InfTime/MinusInfTime', 'gnome/utilities/inf_datetime.py'), ('Wind._set_timezone_offset', 'gnome/environment/wind.py'), ('Release._set_timezone_offset', 'gnome/spills/release.py'), ('SecondsToDate', 'lib_gnome/StringFunctions.cpp')],
     observe=['values returned', 'all data of every step of runs', 'times of wind series and releases'],
     technique='exhaustive enumeration of instants, zones, offsets and sequences of zone changes on the real code; differential runs of the real model between zones',
     note='every case of the stated grids; zones with one standard offset and at most one hour of summer time')

prop('C23', 'Uncertainty spreads the uncertain elements as its settings say, nothing else',
     'Turning uncertainty on leaves the forecast as it is, bit for bit, and adds a second set with the same elements (number, ids, spills, ages, initial masses). The movement of an uncertain element differs from the forecast at its place by no more than the settings of the mover (uncertainty_scale; uncertain_along and uncertain_cross; up, down, left and right uncertainty of CatsMover; the speed and angle scales of the winds; in winds below 1 m/s a spread of sqrt(600/dt) m/s), uses that range, both ways, and not at all when they are zero. '
     'There is no deviation before uncertain_time_delay; then every element keeps its own deviation, also when others are released or leave, until uncertain_duration has passed, when all are drawn anew. For SimpleMover, PointWindMover, WindMover, CurrentMover and CatsMover, forwards and backwards.',
     ['configurations', 'histories'],
     'all schedules of releases and removals of four elements x durations x delays x step lengths x movers x direction; grids of limits',
     'tests look at one mover with all its elements released at the start',
     ['gnome/movers/simple_mover.py', 'gnome/movers/py_current_movers.py', 'gnome/movers/py_wind_movers.py', 'gnome/movers/c_wind_movers.py', 'gnome/movers/c_current_movers.py', 'gnome/spill_container.py', 'lib_gnome/WindMover_c.cpp', 'lib_gnome/CurrentMover_c.cpp', 'lib_gnome/CATSMover_c.cpp'],
     [('SpillContainerPair', 'gnome/spill_container.py'), ('CurrentMover._add_uncertainty', 'gnome/movers/py_current_movers.py'), ('WindMover_c::UpdateUncertainty/AddUncertainty', 'lib_gnome/WindMover_c.cpp'), ('CurrentMover_c::UpdateUncertainty', 'lib_gnome/CurrentMover_c.cpp')],
     observe=['positions of every element of both sets after every step'],
     technique='exhaustive enumeration of schedules, durations, delays and limits on the real model; the deviation of every element recovered from its movement and compared with the law',
     note='every case of the stated grids; one listed finding (CurrentMover)')

prop('C09', 'Every weathering process follows its published law at every sub-step',
     'Each time Evaporation, NaturalDispersion (Delvigne-Sweeney or Li 2017, with sedimentation), Emulsification, Fay spreading or Langmuir thinning acts on the oil, the masses of the components, the evaporated, dispersed and sedimented amounts, the water content, the area and the coverage change by exactly what the published law gives for the wind, waves, water and oil at that time and for the length of the sub-step, for each surface element on its own; nothing else changes, and submerged, beached and spent elements do not. '
     'Together the sub-steps cover every time step once. Density and viscosity of an element are those of its remaining components and water content. No mass, area or amount ever becomes negative or NaN, also for oil as heavy as the water, in a calm, and when all the oil is gone. '
     'The order in which processes were added makes no difference, nor does the number of elements of a sudden spill; a process that is off acts as if absent. A half-life weatherer halves the mass every half-life.',
     ['configurations', 'inputs', 'histories'],
     'nine sets of processes x winds x waters x oils x step lengths x sub-steps x amounts x releases x places (open sea, submerged, near land), every call of every process of every step',
     'tests look at one process for one step, and compare with recorded numbers',
     ['gnome/weatherers/evaporation.py', 'gnome/weatherers/natural_dispersion.py', 'gnome/weatherers/emulsification.py', 'gnome/weatherers/spreading.py', 'gnome/weatherers/core.py', 'gnome/ops/density.py', 'gnome/ops/viscosity.py', 'gnome/ops/aggregated_data.py', 'gnome/model.py', 'lib_gnome/Weatherers_c.cpp'],
     [('Evaporation.weather_elements', 'gnome/weatherers/evaporation.py'), ('NaturalDispersion.weather_elements', 'gnome/weatherers/natural_dispersion.py'), ('Emulsification.weather_elements', 'gnome/weatherers/emulsification.py'), ('FayGravityViscous.weather_elements/Langmuir', 'gnome/weatherers/spreading.py'), ('recalc_density', 'gnome/ops/density.py')],
     observe=['every data array and the mass balance before and after every call of every process'],
     technique='exhaustive enumeration of process sets, seas, oils, step lengths and releases on the real model; each transition (one call of one process) compared with an independently written law',
     note='every case of the stated grids; Biodegradation and Dissolution are not claimed')

prop('C24', 'An oil answers with the data it holds, at any temperature and after any change',
     'Density, kinematic viscosity and vapour pressure of an oil at any temperature are those its measurements give by the documented laws (interpolated expansion between measurements, the default coefficient of its API outside of them, no lower than the pour point; exponential fit; Antoine), for one temperature or many at once, the measurements themselves at their temperatures, monotone in temperature, the same for a copy or a reloaded oil. '
     'After any sequence of changes of the data (by attribute or update) and questions, the answer is that of the data held now, and other oils are not affected. Elements released carry the mass of the volume at standard density, and density and viscosity at the temperature of the water. Non-weathering substances keep their density.',
     ['inputs', 'histories'],
     'data sets x pour points x API x temperatures x form of the question; all sequences of 14 changes and questions up to the depth; all oils of the package',
     'tests ask new oils at a few temperatures',
     ['gnome/spills/gnome_oil.py', 'gnome/spills/substance.py', 'gnome/spills/sample_oils.py', 'gnome/ops/density.py', 'gnome/ops/viscosity.py'],
     [('GnomeOil.density_at_temp/kvis_at_temp/vapor_pressure', 'gnome/spills/gnome_oil.py')],
     observe=['answers of the oil', 'arrays of released elements'],
     technique='exhaustive enumeration of data sets, temperatures and sequences of changes on the real classes against closed forms',
     note='every case of the stated grids')

prop('C25', 'The state of the sea is the same in every unit and follows wind and water',
     'A property of the water (temperature, salinity, sediment, wave height, fetch, viscosity) given in any accepted unit reads back as given and converts to every other unit, through any sequence of changes by set(), attribute, units or update, and saving and loading; a refused unit changes nothing; the density is that of the equation of state for the temperature and salinity held now. '
     'Waves give the height, breaking fraction and energy of the documented formulas for a wind, or for a given wave height, never decreasing with the wind nor with the fetch. A run gives the same budget whatever the units of the water. A running average of a wind is the trapezoidal mean of its hourly speeds over the past hours, and lies within their range.',
     ['inputs', 'histories', 'configurations'],
     'every property x unit x value x way of setting; all sequences of 14 operations up to the depth; grids of winds, wave heights and fetches; runs in every unit',
     'tests try one unit per property',
     ['gnome/environment/water.py', 'gnome/environment/waves.py', 'gnome/environment/running_average.py', 'gnome/weatherers/natural_dispersion.py', 'gnome/utilities/weathering/'],
     [('Water.get/set/units', 'gnome/environment/water.py'), ('Waves.get_value', 'gnome/environment/waves.py'), ('RunningAverage', 'gnome/environment/running_average.py')],
     observe=['values returned', 'mass balances of runs'],
     technique='exhaustive enumeration of properties, units, settings and histories on the real classes against closed forms; differential runs between units',
     note='every case of the stated grids')

prop('C26', 'A field read from files moves the oil with what the files say',
     'A current or wind on a regular, curvilinear or triangular grid read from netCDF files (one file or a list, dividing the records in any way, also one record to a file) moves an element in a time step by the velocity of the field at its place and the time of the step, linear in time between the two records around it whether or not they lie in the same file, shifted by the time offset, times the scale (and the windage, for winds, at the surface only); nothing where the grid ends or has no data. '
     'Before and after the data the first or last record is used with extrapolation on, and the mover refuses otherwise; a single record holds at all times. The answer at a time depends only on the data, the settings and the time asked for, not on the times asked for before: jumps, rewinds, runs backwards, failures and changes of offset or extrapolation leave no trace. '
     'The velocities shown for currents are those used. Euler, RK2 and RK4 are the methods of that name. A mover that is gone leaves no file open.',
     ['histories', 'inputs', 'configurations'],
     'all histories of questions at times before, at, between and after the records and changes of settings, up to the depth, x 6 grids x 6 divisions over files; units, places, scales, steps, methods; all histories of model operations up to the depth',
     'tests read one file at one time and look at a few numbers',
     ['lib_gnome/TimeGridVel_c.cpp', 'lib_gnome/TimeGridWind_c.cpp', 'lib_gnome/GridCurrentMover_c.cpp', 'lib_gnome/GridWindMover_c.cpp', 'gnome/movers/c_current_movers.py', 'gnome/movers/c_wind_movers.py', 'gnome/cy_gnome/cy_gridcurrent_mover.pyx', 'gnome/cy_gnome/cy_gridwind_mover.pyx'],
     [('TimeGridVel_c.SetInterval/CheckInterval/CheckAndScanFile', 'lib_gnome/TimeGridVel_c.cpp'), ('GridCurrentMover_c.GetMove', 'lib_gnome/GridCurrentMover_c.cpp'), ('c_GridCurrentMover', 'gnome/movers/c_current_movers.py')],
     observe=['movement of each element', 'velocities shown', 'refusals'],
     technique='exhaustive exploration of the histories of questions and settings on the real movers over generated files, against the field that was written',
     note='every history within the stated depth; netCDF files without depth levels')

prop('C27', "A tide is what its station's constants predict, whatever was asked before",
     "A tide read from a station file (heights, progressive wave, currents) gives at every time of the years covered the value of the harmonic prediction from the station's constituents, the node factors of the year and the station's offsets of time, height and speed, on the station's clock (daylight saving time in summer unless switched off), times the scale factor for heights and progressive waves: the rate of change between high and low water for a station of heights, the height of the curve for a progressive wave, the strength at floods, ebbs and slack waters for currents. A tide given as a series is linear in time between its values. "
     'The answer at a time does not depend on what was asked before, in which order or direction, on other tides, or on steps over the end of a month or year; it is always a finite number. A CATS current moves oil with its pattern times the tide at the time of the step. A station file with a line missing, cut short or without its number is refused, and the ends of its lines do not matter.',
     ['histories', 'inputs', 'configurations'],
     'all histories of questions at 13 times and changes of scale up to the depth x 3 kinds x 3 regimes of tide; each constituent x year x day; each offset; walks forwards and backwards; each line of the file dropped, cut or spoilt; series',
     'tests read two stations and look at a few numbers',
     ['lib_gnome/ShioTimeValue_c.cpp', 'lib_gnome/ShioHeight.cpp', 'lib_gnome/ShioCurrent1.cpp', 'lib_gnome/ShioCurrent2.cpp', 'lib_gnome/OSSMTimeValue_c.cpp', 'gnome/environment/tide.py', 'gnome/cy_gnome/cy_shio_time.pyx', 'lib_gnome/CATSMover_c.cpp'],
     [('ShioTimeValue_c.GetTimeValue/ReadShioValues', 'lib_gnome/ShioTimeValue_c.cpp'), ('GetReferenceCurve', 'lib_gnome/ShioHeight.cpp'), ('Tide', 'gnome/environment/tide.py')],
     observe=['values of the tide', 'movement of each element', 'refusals'],
     technique='exhaustive exploration of the histories of questions and of the stated grids of stations, years, offsets and damaged files on the real tide, against an independent harmonic prediction',
     note='every case within the stated bounds')

prop('C28', 'Oil released under water rises as its droplets imply',
     "The droplets (or rise velocities) of a subsurface release follow the distribution that is set, also when it is replaced between runs, within its limits, for the certain and the uncertain elements. A droplet rises with the velocity of the law for its size, its density and the water (Stokes' law for small droplets, form drag for large ones, a smooth curve between), a droplet heavier than the water sinks as fast as the equally lighter one rises, the velocity is always a finite number and does not depend on the other droplets. "
     'In a run every element rises by its velocity each step, is at the surface when that takes it there and never above it, and stays at the surface; how the time is cut into steps or the release into parts does not change when it arrives.',
     ['inputs', 'configurations', 'histories'],
     'lattice of sizes, densities and waters over every regime of the law; every distribution and limit; distribution x substance x window x step x uncertainty; all orders of changes between runs',
     'tests look at a handful of droplets and check that some number comes out',
     ['lib_gnome/RiseVelocity_c.cpp', 'gnome/spills/release.py', 'gnome/spills/initializers.py', 'gnome/utilities/distributions.py', 'gnome/movers/vertical_movers.py', 'gnome/cy_gnome/cy_rise_velocity_mover.pyx'],
     [('GetRiseVelocity', 'lib_gnome/RiseVelocity_c.cpp'), ('SubsurfaceRelease', 'gnome/spills/release.py'), ('InitRiseVelFromDropletSizeFromDist', 'gnome/spills/initializers.py'), ('WeibullDistribution', 'gnome/utilities/distributions.py')],
     observe=['rise velocities and droplet sizes of elements', 'depths of elements', 'samples of distributions'],
     technique='exhaustive enumeration of the stated lattices, configurations and orders of changes on the real code against an independent statement of the law and of the distributions',
     note='every case within the stated bounds')

prop('C29', 'The model refuses what it cannot run and answers truthfully about a run',
     'Before a run the model tells of everything that is wrong with its set-up: a set-up that cannot be run (a release before the start of the run, a continuous release or weathering of oil in a run backwards, an environment missing for weathering, oil heavier than the water) is refused before the first step with no element released, every other one is run, and spills outside the map, on land, after the end of or above the surface are warned of, spills that are off are not. Asking changes nothing, and a refused model that is put right runs like one that was never wrong. '
     "During a run, whatever way the elements' data is asked for (by name, by set, filtered by conditions) gives the values of exactly the elements asked for, of the certain or uncertain set asked for. Two runs are equal when all their data is equal, also where it is undefined, and unequal when any value differs. Components are found by class, attribute and id, and merging models adds what is not there yet, in order.",
     ['configurations', 'histories', 'inputs'],
     'direction x times x places x on/off x continuous x map; substance x weathering x environment; all pairs of spills; every array x comparison x value at every step; every array entry changed; all pairs of sets of components',
     'tests try single wrong set-ups and a few properties',
     ['gnome/model.py', 'gnome/spill_container.py', 'gnome/array_types.py', 'gnome/spills/spill.py', 'gnome/weatherers/core.py'],
     [('Model.check_inputs', 'gnome/model.py'), ('Model.get_spill_data', 'gnome/model.py'), ('Model.merge', 'gnome/model.py'), ('SpillContainerData.__eq__', 'gnome/spill_container.py'), ('Model.find_by_class', 'gnome/model.py')],
     observe=['refusal or run', 'warnings', 'arrays asked for', 'equality', 'contents of collections'],
     technique='exhaustive enumeration of the stated configurations and questions on the real model against an independent statement of which set-ups can run and of the filters',
     note='every case within the stated bounds')

prop('C30', 'A save file of an older version loads as the set-up it holds',
     'A model saved by an older version of the program (save file versions 1 to 4: other names of classes and packages, windages kept apart from the substance, WeatheringData among the weatherers) is loaded, from a folder or an archive, as the set-up it holds: the same movers, environment, weatherers, map, spills, substances, windages and times in the same order. (The record of an oil of version 1 that can not be used any more is replaced by a non-weathering substance with the windage of the oil.) Loading again gives the same, and saved again it loads the same. '
     'A conversion that is interrupted between any two changes of files is completed by the next load, with the same result.',
     ['configurations', 'crash points', 'histories'],
     'versions 1-4 x sets of movers x spills and substances x maps x containers; WeatheringData at every place and pair of places among the weatherers; interruption before every file operation of the conversion',
     'tests load four sample files and look at a few attributes',
     ['gnome/utilities/save_updater.py', 'gnome/gnomeobject.py', 'gnome/persist/base_schema.py'],
     [('update_savefile', 'gnome/utilities/save_updater.py'), ('extract_zipfile', 'gnome/utilities/save_updater.py'), ('GnomeId.load', 'gnome/gnomeobject.py')],
     observe=['attributes of the loaded objects', 'files after an interruption'],
     technique='exhaustive enumeration of set-ups x older layouts x interruption points on the real loader, compared with the set-up that was saved',
     note='every case within the stated bounds')

prop('C31', 'Oil on a tide flat waits there until the water is back',
     'With a map that has tide flats, oil in the water that comes to lie where the flat is dry at the time of the step is marked as on the tide flat, no mover moves it while the flat there is dry, and it floats on from where it lies in the first step in which the flat is wet again; oil that is on land, off the map or elsewhere in the water is not affected, for the certain and the uncertain elements alike. Flats that never fall dry change nothing, and any other question to the map is answered as by the map without flats. A flat given by a polygon and a dry spell is dry exactly inside, from its beginning to its end.',
     ['histories', 'schedules', 'configurations'],
     'all tables of dry and wet for 3 cells x 3 steps x kinds of land map x uncertainty x a late release; all movers x all patterns over 4 steps; polygons x dry spells x times x lattice of points',
     'tests put one flat under one spill for one dry spell',
     ['gnome/maps/tideflat_map.py', 'gnome/model.py', 'gnome/movers/movers.py'],
     [('TideflatMap.beach_elements/refloat_elements', 'gnome/maps/tideflat_map.py'), ('SimpleTideflat.is_dry', 'gnome/maps/tideflat_map.py'), ('Model.move_elements', 'gnome/model.py')],
     observe=['status and position of each element after each step', 'answers of the map'],
     technique='exhaustive exploration of all wet and dry tables on the real model, each step compared with an automaton per element',
     note='every case within the stated bounds')
