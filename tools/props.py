TECH = 'deterministic simulation with fault injection: '

prop('C01', 'Halo exchange delivers the owner\'s values under every message schedule',
     'After the exchange step of the parallel driver every rank holds, for each foreign face adjacent to its own '
     'subdomain, exactly the temperature, ice height and water height of the rank that owns the face, in whatever '
     'order and with whatever delay messages are delivered, buffered or transferred. '
     'Its own faces and unrelated faces keep their values.',
     ['schedules', 'inputs', 'configurations'],
     'every grid, every number of ranks, every interleaving of ranks, every legal message delivery order across '
     'channels, eager or rendezvous transfer of each message, arbitrary stalls of ranks or of the network',
     'No test runs the parallel driver at all; on one machine with small messages MPI buffers eagerly and almost every '
     'schedule looks the same.',
     ['crysgsu/crys.py', 'crysgsu/gsu/zone.py', 'crysgsu/gsu/zones_adjacency_matrix.py'],
     [('packing of border values per neighbour in common border order', 'crysgsu/crys.py: put_to_superbuffer, '
       'get_from_superbuffer, get_mpi_borders'),
      ('non-blocking exchange completed before buffers are reused', 'crysgsu/crys.py: start_exchanges'),
      ('own / ghost face of a border edge', 'crysgsu/gsu/zone.py: get_real_face, get_ghost_face')],
     state=[('send/receive superbuffers', 'values of border faces per neighbour', 'crysgsu/crys.py: __main__')],
     observe=['face values of each rank when it enters the final gather'],
     technique=TECH + 'simulated MPI (schedule, delivery, eager/rendezvous) + owner-value oracle',
     note='Seeded exploration of schedules, message modes and small grids over the real driver on a simulated MPI; '
          'trusts that the simulated MPI implements the standard.')

prop('C02', 'Gathered ice heights reach exactly the faces they were computed for',
     'When the parallel driver collects ice heights, the surface is rebuilt at the root with, for every face, the height '
     'computed by the rank that owns this face, for any distribution of faces between ranks (unequal or empty '
     'subdomains included). The rebuilt grid is stored and equals the one a sequential run of the same step produces.',
     ['schedules', 'inputs', 'configurations'],
     'every grid, number of ranks and division remainder, every interleaving and completion order of the collective '
     'operations',
     'No test runs the driver; a wrong displacement is invisible when subdomains have equal sizes or equal heights.',
     ['crysgsu/crys.py', 'crysgsu/remeshing.py', 'crysgsu/gsu/grid.py'],
     [('gather of counts and variable-size gather of heights', 'crysgsu/crys.py: remesh'),
      ('solver step on the rank\'s own faces in zone order', 'crysgsu/crys.py: __main__, crysgsu/cpp/src/swim.cpp')],
     observe=['heights seen by the remesher at the root', 'stored remeshed grid'],
     technique=TECH + 'simulated MPI + per-face height oracle and sequential reference run',
     note='Seeded exploration over the real driver and the real remesher; refinement against a sequential run.')

prop('C03', 'The parallel run always completes, without relying on MPI buffering',
     'For any grid and any number of ranks the parallel driver terminates on all ranks for every fair schedule, whether '
     'messages are buffered or synchronous, including ranks without neighbours or without faces. '
     'No rank ends with an operation in progress and no message is left unreceived; the partitioned and the rebuilt '
     'grid are stored completely.',
     ['schedules', 'configurations', 'inputs'],
     'every interleaving, every eager/rendezvous decision per message, synchronising or non-synchronising collectives, '
     'connected and disconnected grids, more ranks than faces',
     'Deadlocks that need unbuffered sends or an isolated rank never show in a single-process unit test.',
     ['crysgsu/crys.py', 'crysgsu/split.py'],
     [('all sends and receives posted before waiting', 'crysgsu/crys.py: start_exchanges'),
      ('same sequence of collectives on all ranks', 'crysgsu/crys.py: remesh, __main__')],
     observe=['end state of every rank', 'MPI queues at the end', 'res.dat, remeshed.dat'],
     technique=TECH + 'simulated MPI, deadlock / step-bound detection, leak check at finalize',
     note='Liveness as termination within a step bound under schedules that starve ranks or the network; sampling, '
          'not exhaustive.')

TOOLS = ['crysgsu/split.py', 'crysgsu/merge.py', 'crysgsu/remesh.py', 'crysgsu/drops.py', 'crysgsu/convert/interpolate.py',
         'crysgsu/convert/lazurit_to_crystal.py', 'crysgsu/convert/lazurit_add_beta_from_ansys.py',
         'crysgsu/convert/ansys_to_crystal.py', 'crysgsu/convert/gsu_converter.py', 'crysgsu/gsu/grid.py']

prop('C04', 'A tool that reports success has written its complete, correct output',
     'If a command-line tool exits with status 0, every output file it promises exists and has exactly the content the '
     'inputs determine, whatever disk errors, full disks or interruptions occurred while it ran. '
     'Short transfers, interrupted system calls and older output files in place never make it fail or change its '
     'output.',
     ['fault_sequences', 'inputs', 'configurations'],
     'every tool, every input, every failing or partial file operation (open, read, write, close, mkdir, list) at any '
     'point, singly and in combination, any buffer size',
     'Tests run single functions on one healthy disk; none looks at exit status or at a failing write or close.',
     TOOLS,
     [('outputs written through files closed on every path', 'crysgsu/gsu/grid.py: store, store_mpi, '
       'store_faces_calc_data; crysgsu/merge.py: merge; crysgsu/split.py: split; crysgsu/geom/trajectory.py: dump'),
      ('errors propagate to the exit status', 'crysgsu/*.py, crysgsu/convert/*.py: __main__')],
     observe=['exit status', 'content of all output files'],
     technique=TECH + 'simulated disk with fault schedule, independent models of each tool as oracle',
     note='Seeded exploration; correctness oracle is an independent re-implementation of what each tool promises '
          '(structure, values), then byte equality with the undisturbed run.')

prop('C05', 'An interrupted tool run can simply be repeated',
     'After a tool was killed, lost power or failed at any point, any number of times, running it again with the same '
     'command succeeds and leaves exactly the output of a run that was never interrupted. '
     'Repeating a finished run changes nothing.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every tool and input, every file operation as the crash point, unsynchronised data lost or partially kept on '
     'power loss, chains of interruptions',
     'Tests never interrupt anything.',
     TOOLS,
     [('output files opened for truncation, own outputs not read back', 'crysgsu/merge.py: merge; '
       'crysgsu/remesh.py: __main__; crysgsu/gsu/grid.py: store, store_mpi'),
      ('existing output directories accepted', 'crysgsu/split.py, crysgsu/merge.py, crysgsu/remesh.py')],
     observe=['files after the repeated run'],
     technique=TECH + 'kill / power-loss at seeded crash points, rerun compared with the undisturbed run',
     note='Seeded crash points over all tools; simulated page cache decides what survives a power loss.')

prop('C06', 'Tools never touch their inputs or anything outside their output locations',
     'Running a tool, successfully or not, never modifies, truncates or removes its input files or any file that is not '
     'its own output, even transiently. New files and directories appear only in the output locations given by the '
     'command.',
     ['inputs', 'configurations', 'fault_sequences', 'crash_points'],
     'every tool, relative or absolute paths, any working directory, outputs beside inputs, any fault or kill during '
     'the run',
     'Tests neither run the tools nor look at the files around the outputs.',
     TOOLS + ['crysgsu/remeshing.py', 'crysgsu/utils.py'],
     [('names of outputs', 'crysgsu/split.py: split; crysgsu/merge.py: merge; crysgsu/remesh.py: __main__; '
       'crysgsu/remeshing.py: __call__; crysgsu/convert/*.py')],
     observe=['every changing file operation of the run', 'snapshot of the disk afterwards'],
     technique=TECH + 'every file operation of the tool checked against the allowed locations, with faults and kills',
     note='Seeded; invariant checked at each operation, so transient changes are seen too.')

prop('C07', 'Tools running at the same time do not disturb each other',
     'When several tool runs work concurrently on different cases, even when they share input or output directories or a '
     'working directory, each produces exactly the output it produces alone. '
     'A run that is killed does not affect the others.',
     ['schedules', 'inputs', 'configurations', 'crash_points'],
     'every combination of tools and inputs, every interleaving of their file operations, a kill of one of them at any '
     'point',
     'Tests run one thing at a time.',
     TOOLS,
     [('no shared temporary names, directories created tolerantly', 'crysgsu/split.py, crysgsu/merge.py, '
       'crysgsu/remesh.py: makedirs; crysgsu/merge.py: selection of own files'),
      ('case of a file decided by its exact name', 'crysgsu/utils.py: is_filename_correct_crys_txt_file')],
     observe=['outputs of each run compared with the same run alone'],
     technique=TECH + 'seeded interleaving of file operations of several simulated processes vs. solo runs',
     note='Seeded interleavings at file-operation granularity of 2-4 simulated processes.')

prop('C08', 'Output depends on the input only, not on the environment of the run',
     'The same command on the same inputs gives byte-identical data files whatever the order in which the file system '
     'lists directories, the wall clock and its jumps, the hash seed of the interpreter, the addresses of objects and '
     'the state of the random generator. It creates the same set of files.',
     ['configurations', 'inputs', 'schedules'],
     'every tool and input, every permutation of directory listings, clock values and jumps, hash seeds, memory layouts',
     'On one machine the listing order, hash seed effects and clock are practically constant between test runs.',
     TOOLS + ['crysgsu/utils.py', 'crysgsu/gsu/zone.py'],
     [('ordering of listed files', 'crysgsu/merge.py: merge; crysgsu/convert/lazurit_to_crystal.py; '
       'crysgsu/utils.py: group_txt_files_by_timestamps'),
      ('sets used only where order does not matter', 'crysgsu/gsu/grid.py: link_nodes_and_edges_to_zones')],
     observe=['output bytes under two environments'],
     technique=TECH + 'listing order, clock, hash seed and addresses perturbed by seed; outputs compared byte for byte',
     note='Seeded pairs of environments; hash seeds from a fixed set of interpreters.')

GRID = ['crysgsu/gsu/grid.py', 'crysgsu/gsu/zone.py', 'crysgsu/gsu/face.py', 'crysgsu/gsu/edge.py', 'crysgsu/gsu/node.py']

prop('C09', 'The icing cycle carries every face value through, whatever is interrupted',
     'Over any number of cycles split - parallel solver - merge - remesh, each merged grid holds for every face exactly '
     'the values computed by the rank that owned it, at the time in its file name, on the geometry of the original grid, '
     'the total table is the sum of the tables of the ranks, and each remeshed grid keeps zones, connectivity and face '
     'values and consumes the ice height. Killing and restarting the job or any of the tools, merging while the job is '
     'running or repeating a step does not change the result.',
     ['histories', 'schedules', 'crash_points', 'fault_sequences', 'configurations'],
     'every grid, partition, number of cycles, time steps and ranks, every interleaving of ranks and of a concurrent '
     'merge, every kill of the job or of a tool',
     'No test runs more than one tool, and none the sequence a user actually runs.',
     ['crysgsu/split.py', 'crysgsu/merge.py', 'crysgsu/remesh.py', 'crysgsu/remeshing.py', 'crysgsu/utils.py'] + GRID,
     [('face identifiers keep their meaning from partition to merge', 'crysgsu/gsu/grid.py: load, decompose_*, store_mpi, '
       'load_faces_calc_data'),
      ('names and times of files', 'crysgsu/utils.py; crysgsu/split.py: split; crysgsu/merge.py: merge; '
       'crysgsu/remesh.py: __main__'),
      ('sum of tables', 'crysgsu/merge.py: merge'),
      ('moving nodes by the ice height, once per node', 'crysgsu/remeshing.py')],
     observe=['files after each stage'],
     technique=TECH + 'simulated ranks, network, disk and restarts over several cycles vs. sequential reference',
     note='Real tools; the parallel solver is a small stencil program on simulated ranks which reads the partition files '
          'and writes result files as the real one does.')

prop('C10', 'Partition files describe one consistent distributed surface',
     'For every grid and strategy the files split writes contain each face exactly once, with its identifier, geometry, '
     'values and neighbours. For every pair of adjacent subdomains the two files list the same common edges in the same '
     'order, fixed zones form subdomains of their own, and therefore a solver that exchanges border values only by '
     'these lists obtains exactly the sequential result and never waits for a message that is not sent. A request that '
     'cannot be satisfied (unknown zone or strategy, no subdomains left for the other faces) is refused and writes nothing.',
     ['inputs', 'configurations', 'schedules'],
     'every grid (disconnected, closed, several zones, non-contiguous zones), strategy, number of parts and fixed zones, '
     'every schedule of ranks and deliveries',
     'Tests check face counts after load; none reads a *.cry file back, and consistency between files matters only to a '
     'parallel reader.',
     ['crysgsu/split.py'] + GRID + ['crysgsu/gsu/zones_adjacency_matrix.py'],
     [('decomposition strategies', 'crysgsu/gsu/grid.py: decompose_mono, decompose_random, decompose_linear, '
       'decompose_hierarchical, decompose_farhat'),
      ('writing of a subdomain: local numbering, sections, border lists', 'crysgsu/gsu/grid.py: store_mpi; '
       'crysgsu/gsu/zone.py; crysgsu/gsu/zones_adjacency_matrix.py'),
      ('fixed zones and recovery factor from json', 'crysgsu/split.py: split')],
     observe=['all *.cry files', 'result of the distributed stencil'],
     technique=TECH + 'distributed stencil solver on simulated ranks/network reading the files vs. sequential result',
     note='Also a direct consistency check of the set of files by an independent strict reader.')

prop('C11', 'A grid survives any history of checkpoints, restarts and faults unchanged',
     'Through any sequence of loading, storing, changing face values, decomposing, exchanging face values by files and '
     'restarting from the last checkpoint, the grid keeps exactly the faces, vertex coordinates, value of every variable, '
     'names and zone membership that the accepted operations imply. A store that reports success leaves a file '
     'from which exactly this grid is loaded; an operation either succeeds or raises, and a failing disk, kill or power '
     'loss never damages another checkpoint.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'every sequence of operations, every grid, any values, any failing file operation, any kill point',
     'Tests load one file once; drift or loss needs several operations in sequence or a fault between them.',
     GRID,
     [('file format reader and writer', 'crysgsu/gsu/grid.py: load, store, store_faces_calc_data, load_faces_calc_data'),
      ('merging of coincident nodes', 'crysgsu/gsu/grid.py: find_near_node, add_node'),
      ('links node-edge-face-zone', 'crysgsu/gsu/grid.py: link_*, link_nodes_and_edges_to_zones')],
     observe=['structure reachable from the Grid object after each operation', 'checkpoint files'],
     technique=TECH + 'seeded histories with disk faults, kills and restarts against an executable reference model',
     note='Reference model holds the surface as a list of faces with coordinates, values and zones.')

prop('C12', 'Any sequence of decomposition requests leaves a valid decomposition',
     'After each accepted request on the same grid, whatever requests came before (failed and interrupted ones '
     'included), every face belongs to exactly one zone, the number and sizes of zones are as the request promises '
     '(balanced to within one face for linear and farhat, for hierarchical each zone halved at the median of the axis '
     'which gives the shortest border), fixed zones are intact and the nodes, edges and common borders of zones, and the '
     'printed report of them, agree with the faces. Geometry, values and numbering never change.',
     ['histories', 'inputs', 'fault_sequences'],
     'every sequence of requests with any strategy, count, seed and fixed zones; impossible requests; an exception '
     '(Ctrl-C, no memory) at any executed line of a previous request',
     'Tests decompose each grid once and look at no zone links.',
     GRID + ['crysgsu/gsu/zones_adjacency_matrix.py'],
     [('unlinking of old zones before a request', 'crysgsu/gsu/grid.py: unlink_faces_from_zones, decompose_*'),
      ('linking of nodes and edges to zones', 'crysgsu/gsu/grid.py: link_nodes_and_edges_to_zones')],
     observe=['structure of the grid after each request', 'partition files after each request'],
     technique=TECH + 'seeded request histories with exceptions injected at executed lines, reference model',
     note='Faults: KeyboardInterrupt / MemoryError at a seeded line, impossible requests.')

prop('C13', 'A grid object that was used or has failed before behaves like a fresh one',
     'After any history of loads, decompositions, stores and their failures or interruptions at any point, loading a '
     'file into the same object, or decomposing it anew, gives exactly the counts, structure and files a new '
     'object gives.',
     ['histories', 'fault_sequences', 'inputs'],
     'every history, every failing operation, an exception at any executed line, any later operation',
     'Tests always start from a new object.',
     GRID,
     [('complete reset', 'crysgsu/gsu/grid.py: clear, load'),
      ('reset of zones', 'crysgsu/gsu/grid.py: unlink_faces_from_zones, decompose_*')],
     observe=['counts, names, files of the used object against those of a new one'],
     technique=TECH + 'seeded fault histories, then differential comparison of used and fresh object',
     note='Faults: I/O errors, KeyboardInterrupt / MemoryError at a seeded line, truncated inputs.')

prop('C16', 'An incomplete input file is never silently accepted',
     'If an input file was cut short or has lost blocks (zeroed by a crash), so that it is no longer a complete file '
     'of its format, a tool either fails with a non-zero exit status or still produces exactly the output of the intact '
     'file. It always terminates.',
     ['inputs', 'fault_sequences', 'crash_points'],
     'every tool, every input file, every length to which it may be cut and every zeroed range',
     'Tests read only good files.',
     TOOLS + ['crysgsu/utils.py'],
     [('counted reading of sections', 'crysgsu/gsu/grid.py: load, load_faces_calc_data'),
      ('rows of tables', 'crysgsu/merge.py: merge'),
      ('counted reading of foreign formats', 'crysgsu/convert/*.py, crysgsu/drops.py')],
     observe=['exit status and outputs compared with the run on intact inputs'],
     technique=TECH + 'inputs as a crashed producer leaves them (cuts, zeroed blocks), every tool, output oracle',
     note='Damage that leaves a complete well-formed file is not counted.')

prop('C14', 'Work on different grids in one process does not interfere',
     'Threads of one interpreter which load, decompose, change, store, merge, remesh, interpolate or trace drops on '
     'grids and files of their own get exactly the results and files each gets alone, wherever the interpreter '
     'switches between them. One object is never affected by the history of another one.',
     ['schedules', 'inputs', 'histories'],
     'every set of tools and grid programs, every preemption between any two executed lines',
     'Tests use one grid at a time in one thread; hidden shared state (class attributes, module caches, default '
     'arguments) shows only when uses overlap.',
     ['crysgsu/split.py', 'crysgsu/merge.py', 'crysgsu/remeshing.py', 'crysgsu/smoothing.py', 'crysgsu/drops.py',
      'crysgsu/convert/gsu_converter.py', 'crysgsu/geom/triangles_cloud.py', 'crysgsu/utils.py'] + GRID,
     [('state lives in the objects', 'crysgsu/gsu/grid.py: __init__, clear; crysgsu/gsu/zone.py, face.py, edge.py, '
       'node.py: __init__; crysgsu/remeshing.py: __init__; crysgsu/geom/*.py')],
     observe=['files and counts of every thread against the same work alone'],
     technique=TECH + 'threads preempted by seed at executed lines of the real code, compared with solo runs',
     note='Seeded preemption at Python line granularity; the global random stream is shared by design and excluded.')

prop('C15', 'Any history of local transformations leaves the same, consistent surface',
     'After any sequence of dividing faces, cutting edges (inner or border, by one or two points), turning pairs of '
     'faces and collapsing edges, inside of zones and across their borders, with checkpoints and restarts in between, '
     'the grid is exactly the surface these transformations define. Orientation, values and zones of faces are '
     'inherited, every border node and edge belongs to both zones, a new point at a node of another part of the '
     'surface is this node, numbers of nodes, edges and faces have no gaps or repetitions, and an edge or face to which a transformation does not apply is refused and left unchanged.',
     ['histories', 'inputs', 'fault_sequences', 'crash_points'],
     'every sequence of transformations on every grid, every point on an edge or in a face, faults and restarts between',
     'The unit test applies each transformation once to a fresh single-zone grid and only counts identifiers.',
     GRID,
     [('transformations', 'crysgsu/gsu/grid.py: divide_face, collapse_face, cut_edge, collapse_edge, cut_single_edge, '
       'cut_edge_with_two_nodes, del_face, del_edge, del_node'),
      ('helpers', 'crysgsu/gsu/node.py: replacing_node; crysgsu/gsu/face.py: max_edge_from_face')],
     observe=['stored grid, counts, numbers and partition files after each step'],
     technique=TECH + 'seeded transformation histories with checkpoint faults and restarts vs. simplicial model',
     note='Reference model: set of oriented triangles with zone and values; partition files check the links.')

prop('N01', 'First hit of a segment with a cloud of triangles is found',
     'The tree of bounding boxes returns the same nearest intersection of a segment with a surface as checking all '
     'triangles.',
     ['inputs'], 'every surface and segment', 'Geometry of arbitrary inputs is not settled by examples.',
     ['crysgsu/geom/triangles_cloud.py', 'crysgsu/geom/triangle.py', 'crysgsu/geom/box.py', 'crysgsu/geom/segment.py'],
     [('tree search', 'crysgsu/geom/triangles_cloud.py: first_intersection_with_segment')],
     na='A pure function of its arguments: no scheduling, time, I/O or other party can influence it, so there is '
        'nothing for a simulator to decide (its use in drops.py is exercised by C04).')

prop('N02', 'Drop trajectories follow the equation of motion',
     'Each step of a drop obeys the drag law for the air velocity at its position, and a drop stops where it first '
     'meets the surface or leaves the space.',
     ['inputs'], 'every air field, drop and time step', 'Numerics over arbitrary inputs.',
     ['crysgsu/drops.py', 'crysgsu/geom/trajectory.py'],
     [('integration step', 'crysgsu/drops.py: fly_step, fly')],
     na='Pure numerical computation on one input without concurrency, time source or I/O inside; fault injection '
        'cannot distinguish a right formula from a wrong one.')

prop('N03', 'Remeshing accretes the computed volume of ice and keeps faces regular',
     'Volume between the old and the new surface equals the sum of ice heights times areas; smoothing does not change '
     'it and does not invert faces.',
     ['inputs'], 'every grid and height distribution', 'Numerics over arbitrary inputs.',
     ['crysgsu/remeshing.py', 'crysgsu/smoothing.py'],
     [('growth', 'crysgsu/remeshing.py: remesh_step, define_ice_shifts'), ('smoothing', 'crysgsu/smoothing.py')],
     na='Pure numerical algorithm on one grid; nothing in it depends on schedules, faults or history beyond what '
        'C04, C05 and C09 already simulate around it.')

prop('N04', 'Physical laws and conversion formulas are right',
     'Tabulated properties of water, ice and air, heat transfer and recovery coefficients have the values of their '
     'defining formulas.',
     ['inputs'], 'every temperature and state', 'Only sample values can be tested.',
     ['crysgsu/phys/laws.py', 'crysgsu/convert/ansys_to_crystal.py'],
     [('laws', 'crysgsu/phys/laws.py'), ('heat transfer', 'crysgsu/convert/ansys_to_crystal.py: '
       'calculate_htc_recovery_factor')],
     na='Stateless formulas; no schedule, fault, time or history for the property to depend on.')

prop('N05', 'File names are classified exactly',
     'A name is accepted as a file of a case exactly if it consists of the stem of the case, a five-digit rank, a '
     'twelve-digit time and the suffix.',
     ['inputs'], 'every string', 'Infinitely many names.',
     ['crysgsu/utils.py'], [('classification', 'crysgsu/utils.py: is_filename_correct_crys_txt_file, '
                             'is_filename_correct_crys_cry_file, get_filename_and_timestamp_pair')],
     na='Pure string functions without state or environment; their effect on tools that work side by side is decided '
        'under C07 and C09.')
