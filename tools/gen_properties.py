"""Writes /verif/properties.jsonl (kept as a script so the lines stay valid JSON)."""
import json, os

CR = 'swirl_fem/communication/crystal_router.py'
PS = 'swirl_fem/communication/pscan.py'
JD = 'swirl_fem/communication/jit_distributed.py'
ST = 'swirl_fem/communication/semi_traced_scalar.py'
GS = 'swirl_fem/core/gather_scatter.py'
PM = 'swirl_fem/core/premesh.py'
ME = 'swirl_fem/core/mesh.py'
FE = 'swirl_fem/core/fespace.py'
CG = 'swirl_fem/linalg/cg.py'
TR = 'swirl_fem/niles/train.py'
IP = 'swirl_fem/niles/input_pipeline.py'
DG = 'swirl_fem/niles/datagen/datagen.py'
MR = 'swirl_fem/common/mesh_reader.py'
MP = 'swirl_fem/common/mesh_partitioner.py'
MF = 'swirl_fem/core/mesh_refiner.py'
SD = 'swirl_fem/sde/sdeint.py'
NS = 'swirl_fem/navier_stokes/navier_stokes.py'
FS = 'swirl_fem/sde/flax_nn_sde.py'
FU = 'swirl_fem/common/facet_util.py'

props = []


def P(id, title, statement, over, text, why, files, mech, observe=(), state=(),
      hook=None):
  props.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
                   mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                   observe_at=list(observe), hook_needed=hook)))


P('C01', 'Sparse all-to-all delivers every item exactly once to its target',
  'After a sparse all-to-all exchange, the valid items held by each device are exactly the multiset of items that any device had addressed to it: nothing is lost, duplicated, corrupted or delivered elsewhere, and every device\'s reported count is the number it holds. '
  'Storage beyond a device\'s valid count never influences the result, and the caller\'s inputs are left unchanged. '
  'This holds for any number of devices (including one, odd and non-power-of-two counts, and one axis of a multi-axis device mesh), any target pattern and any per-device counts including zero.',
  ['schedules', 'inputs', 'configurations', 'fault_sequences'],
  'for every device count and mesh layout, per-device counts, target pattern, item type and trailing shape, padding content, and every message delay, reordering, retransmission and device stall',
  'The tests fix one device count (5) and two random target patterns with scalar items; loss needs particular odd splits, skewed targets, empty devices, hostile padding, one device or vector-valued items.',
  [CR, JD],
  [('divide-and-conquer stages with partner permutations', CR + ':_crystal_router_loop'),
   ('keep/send split and concatenation', CR + ':_crystal_router_stage'),
   ('final truncation to the global maximum count', CR + ':_crystal_router_flat')],
  ['return value of the routine returned by crystal_router_setup'])

P('C02', 'Routed items keep their fields together and name their true sender',
  'All fields of a routed item arrive together on the same device and in the same slot, with their element types and trailing shapes preserved, whether or not the sender is requested. '
  'When the sender is requested, every delivered item is labelled with the device that actually sent it. '
  'Routing a result back to the reported senders returns to every device exactly the items it started with, up to order.',
  ['schedules', 'inputs', 'histories', 'fault_sequences'],
  'for every nesting of item fields, element types, trailing shapes, with and without sender labels, and every sequence of exchanges where one result feeds the next, under message delay, reordering, stalls and failed dispatches',
  'The tests use one or two rank-one fields of one type and check a single round trip on five devices.',
  [CR],
  [('source array appended and routed as one more field', CR + ':_crystal_router_flat'),
   ('flatten/unflatten of the item structure', CR + ':crystal_router_setup'),
   ('one index array selects all fields', CR + ':CrystalData.select')],
  ['data and source returned by the router'])

P('C03', 'Sparse all-to-all survives running out of buffer at any stage',
  'If intermediate storage turns out to be too small at any stage of an exchange, the exchange grows it and continues without losing, duplicating or re-sending any item, and it finishes after a bounded number of retries. '
  'A call that fails part-way because a dispatch is refused or a device dies leaves nothing behind: repeating the call with the same routine and inputs gives the right answer, and later calls with other sizes do too.',
  ['inputs', 'crash_points', 'fault_sequences', 'histories'],
  'for every target pattern that overflows at any stage any number of times, every dispatch at which a failure is injected, and every history of calls of different sizes through one routine',
  'The tests never force overflow at a chosen stage or repeated overflows in one call, and never fail a dispatch.',
  [CR],
  [('early return with restart stage when storage is too small', CR + ':_crystal_router_loop'),
   ('host loop that resizes and resumes', CR + ':_crystal_router_flat.crystal')],
  ['returned items and number of dispatches per call'])

P('C04', 'All devices run collectives in lockstep: no hang, no mismatch',
  'Every distributed operation the library offers finishes on every device: no device waits for a message that is never sent, none sends a message that is never received, and all devices agree on the kind, shape, type and participants of every collective they enter. '
  'The result does not depend on the relative speed of the devices or the order in which messages arrive. '
  'This covers item routing, prefix scans, reductions, shared-node exchange, distributed iterative solves and data-parallel training steps, whatever per-device data each device holds.',
  ['schedules', 'inputs', 'configurations', 'fault_sequences'],
  'for every device count, per-device data (including data that makes devices take different branches or loop counts), message delay, reordering, loss with retransmission, duplication and device stall',
  'Tests run on one in-process backend with one effective schedule, on a few device counts and symmetric data; a data-dependent collective hangs only when devices disagree.',
  [CR, PS, GS, CG, TR, ST],
  [('schedules computed identically on every device from static axis size', ST + ':SemiTracedScalar'),
   ('collectives kept outside data-dependent branches', PS + ':_fanin_fanout_flat'),
   ('loop condition derived from globally reduced quantities', CG + ':cg'),
   ('gradient averaging on every replica', TR + ':train_step')],
  ['completion of each simulated device and the per-collective match records'])

P('C05', 'Distributed exclusive prefix scan equals the sequential scan',
  'A distributed exclusive prefix scan gives device k the combination, in device order, of the inputs of devices 0 to k-1, and gives device 0 the identity of the operation, for each of the seven supported operations. '
  'When the total is also requested, every device receives the same combination of all inputs. '
  'This holds for every device count, element type for which the operation is defined (including infinite and extreme values), array shape and nested structure of inputs, with each leaf treated independently.',
  ['schedules', 'inputs', 'configurations', 'fault_sequences'],
  'for every device count, axis of a device mesh, operation, element type, value, shape and nesting, with and without the total, under every message delay, reordering, retransmission and stall',
  'Tests use a handful of sizes and integer values; wrong identities need extreme or infinite values, wrong trees need particular odd sizes, and ordering mistakes vanish for commuting operations on equal data.',
  [PS, ST],
  [('fan-in/fan-out tree', PS + ':_fanin_fanout_flat'),
   ('identity table', PS + ':unit_table')],
  ['pscan return value on every device'])

P('C06', 'All-reduce gives every device the identical total',
  'A distributed reduction returns, on every device, the combination of all devices\' inputs under each of the seven supported operations, for any device count, shape, nesting and element type for which the operation is defined. '
  'All devices hold bit-identical results, so that later decisions made from it cannot diverge.',
  ['schedules', 'inputs', 'configurations', 'fault_sequences'],
  'for every device count, axis of a device mesh, operation, value, shape and nesting, under every arrival order and fault on the simulated network',
  'Tests reduce integers on a few sizes in one fixed order; replica divergence needs float data and sizes for which partners combine in different orders.',
  [PS],
  [('native collectives for sum, max and min', PS + ':preduce'),
   ('fan-in/fan-out tree for the others', PS + ':_fanin_fanout_flat')],
  ['preduce return value on every device'])

P('C07', 'Distributed compilation runs the function once per device on its slice',
  'A function compiled for a device mesh behaves as if each device ran it alone on its own slice along the first dimension of every array argument, with results stacked back in device order along the mapped axis. '
  'Compile-time arguments are passed unsplit and each distinct value gets its own correct result; functions without array arguments still run once per device. '
  'Positional, keyword and default arguments and nested inputs and outputs are all accepted, and devices along other mesh axes see the same values.',
  ['schedules', 'inputs', 'configurations', 'programs'],
  'for every device count, device order and multi-axis mesh, every mix of positional, keyword, default and compile-time arguments, call histories that alternate compile-time values, and every device schedule',
  'Tests cover four small signatures on one mesh; slice/order mistakes need other mesh layouts and call histories.',
  [JD],
  [('separation of compile-time and sharded arguments', JD + ':jit_distributed'),
   ('per-device mapping with a size-one batch', JD + ':jit_distributed')],
  ['return values of the compiled function'])

P('C08', 'Every device agrees with the globally predicted schedule scalars',
  'A scalar tracked both as a per-device value and as a table of all devices\' values is always consistent: on every device the local value equals that device\'s entry of the table. '
  'Consistency is kept by every supported arithmetic, bitwise, comparison and selection operation, in either operand order and with plain constants, to any depth of expression.',
  ['programs', 'configurations', 'schedules'],
  'for every expression over device index, axis size and constants using the supported operations, for every device count, axis and device',
  'There are no direct tests; router and scan tests exercise a few operations on a few sizes.',
  [ST],
  [('operators lifted over both views', ST + ':_lift_op'),
   ('reflected operators', ST + ':_lift_ops')],
  ['local and global_ of a SemiTracedScalar evaluated on each device'])

P('C09', 'Shared-node exchange sums all copies of a node and touches nothing else',
  'After exchanging nodal values, every copy of a mesh node that exists on several devices or is tied to another node by periodicity holds the sum (up to rounding) of the values that all copies of that node had before, and all these copies hold the very same value. '
  'Values of nodes that have a single copy are unchanged, and padding positions never contribute to or receive anything from real nodes. '
  'This holds for a single unpartitioned domain and for any partitioning, on any number of devices.',
  ['schedules', 'inputs', 'configurations', 'fault_sequences'],
  'for every mesh, periodic linkage (including chained and corner nodes), assignment of elements to devices, nodal values, and every message arrival order and fault',
  'Tests use a few hand-written index arrays and one to four devices with fixed values.',
  [GS, ME],
  [('gather, reduce across devices, add back the difference', GS + ':exchange'),
   ('exchange index tables', GS + ':get_exchange_indices'),
   ('periodic representatives', GS + ':get_unique_node_indices')],
  ['Mesh.exchange on every device'])

P('C10', 'Partitioning a mesh over devices neither loses nor alters any of it',
  'When a mesh is distributed, every element is held by exactly the device its partition number names, and unused element and node slots are marked as padding. '
  'Each element\'s nodes keep their original coordinates (periodic meshes included), their order inside the element and their membership in named boundary groups, exactly as when the same mesh is not partitioned: a node belongs to a group when it, or a node periodically identified with it, is listed there. '
  'Two node slots, on the same or on different devices, carry the same global number if and only if they represent the same or a periodically identified node.',
  ['inputs', 'configurations'],
  'for every mesh dimension, size and order, uneven or scrambled assignment of elements to devices, periodic linkage, and named boundary groups',
  'Tests check one-dimensional and small two-dimensional partitions without comparing coordinates of partitioned periodic meshes.',
  [PM, GS],
  [('grouping elements by partition with padding', GS + ':group_by_partitions'),
   ('local renumbering', GS + ':get_local_elements'),
   ('construction of the per-device mesh', PM + ':Premesh.finalize')],
  ['fields of the partitioned Mesh'])

P('C11', 'Distributed assembly equals serial assembly for any partition',
  'Applying a finite element operator (mass, stiffness, load vector or scatter-then-exchange of element values) to a field distributed over devices gives, at every node of every device, the value that the same operator gives at that node on the unpartitioned mesh, up to rounding. '
  'Consequently integrals, element counts and total mass are independent of how many devices are used and of which device owns which element.',
  ['schedules', 'configurations', 'inputs', 'fault_sequences'],
  'for every mesh, polynomial order, field, assignment of elements to devices (uneven, scattered, several devices meeting at a corner, periodic across devices), and message arrival order',
  'Tests compare one or two fixed partitions; padding and corner mistakes need uneven partitions and nodes shared by three or more devices.',
  [ME, GS, FE, PM],
  [('gather to elements with padding masked', GS + ':gather'),
   ('scatter-add with padding masked', GS + ':scatter'),
   ('sum across devices', GS + ':exchange')],
  ['FiniteElementSpace / Mesh operators followed by Mesh.exchange'])

P('C12', 'Distributed conjugate gradients equals the serial solve on every device',
  'A conjugate gradient solve over a distributed field, given a globally summed inner product, performs the same number of iterations on every device, reports the same residual everywhere, and returns the serial solution up to rounding with all copies of shared nodes equal. '
  'It stops as soon as the (preconditioned) squared residual is within the requested tolerance of the right-hand side or the iteration limit is reached, never later and never with a worse residual than it reports. '
  'The user-supplied inner product and preconditioner are used for every scalar the iteration depends on.',
  ['schedules', 'inputs', 'configurations', 'fault_sequences'],
  'for every symmetric positive definite operator, right-hand side (including zero), start value, tolerance, iteration limit, preconditioner and distribution over devices, under every message order and stall',
  'Tests solve one serial system; divergence of loop counts between devices is invisible without several devices.',
  [CG],
  [('all scalars go through the supplied inner product', CG + ':cg'),
   ('loop condition on globally reduced residual', CG + ':cg')],
  ['solution and info returned by cg on every device'])

P('C14', 'Training resumes from the last durable checkpoint and ends in the same state',
  'If training is killed at any moment and started again with the same configuration and working directory, it continues from the newest checkpoint that was completely written, never from a torn one, and never loses a checkpoint it had reported as written. '
  'The restored parameters, optimiser state and step number are exactly those that were saved, no step is skipped or applied twice relative to that checkpoint, and training ends at exactly the configured number of steps with a checkpoint of the final state. '
  'Given the same batches, an interrupted run ends with bit-identical state to an uninterrupted one, and rerunning a finished job changes nothing.',
  ['crash_points', 'fault_sequences', 'histories', 'configurations'],
  'for every crash point (any file operation, step, evaluation or batch fetch), sequences of several crashes, storage faults while saving, checkpoint/evaluation/logging cadence, number of hosts and devices',
  'The training loop has no tests at all, and no test can crash a process between two file operations.',
  [TR],
  [('restore before replicate, loop from the restored step', TR + ':train_and_evaluate'),
   ('saving one replica of the state at its own step', TR + ':save_checkpoint'),
   ('checkpoint cadence and final save', TR + ':train_and_evaluate')],
  ['checkpoint files in the working directory, returned final state, batches consumed per step'])

P('C15', 'Training randomness depends only on step and device, not on time or history',
  'The random numbers used in a training or evaluation step are a function of the fixed seed, the phase, the device and the step number only: they do not depend on wall-clock time, on how often the process was restarted, on evaluation, logging or checkpoint cadence, or on thread timing. '
  'Different devices of one host, different steps, and training versus evaluation draw different random streams. '
  'Clock jumps, in either direction, change nothing but reported speed.',
  ['schedules', 'crash_points', 'histories', 'configurations'],
  'for every clock behaviour (skew, jumps, stalls short of a zero interval), restart history, cadence setting and device count',
  'No test runs the training loop; reuse of a random stream is only visible by comparing whole histories.',
  [TR],
  [('per-step key derived from the step number', TR + ':train_step'),
   ('separate per-device train and eval keys', TR + ':train_and_evaluate')],
  ['random key seen by each device at each step'])

P('C16', 'Data-parallel replicas stay identical and match a single large batch',
  'After every training step all devices on all hosts hold bit-identical parameters, optimiser state and step number. '
  'The update equals, up to rounding, the one a single device would make on the union of the devices\' batches, every example of the global batch contributing with equal weight exactly once, and reported metrics are the means over all devices.',
  ['schedules', 'configurations', 'inputs', 'fault_sequences'],
  'for every number of hosts and devices per host, batch content, number of steps, gradient clipping setting, and every arrival order, delay and stall in the gradient averaging',
  'No test runs a training step on more than one device, or at all.',
  [TR],
  [('gradient mean across replicas before the update', TR + ':train_step'),
   ('batch split over local devices', TR + ':prepare_tf_data'),
   ('metric mean', TR + ':compute_metrics')],
  ['state on every replica, metrics written'])

P('C17', 'Data pipeline gives every host its own aligned, reproducible share of windows',
  'Over one pass, the windows produced on different hosts are disjoint and consist only of contiguous, correctly strided spans of a single source file; together they cover all windows of the files, in file order, up to the declared number of examples, apart from an incomplete last batch on each host. '
  'Velocity, pressure and time in one example always come from the same span, in time order. '
  'Each host\'s stream of batches is identical every time the pipeline is started with the same configuration, and every batch has the requested size.',
  ['schedules', 'configurations', 'histories', 'inputs'],
  'for every number of hosts, batch size, window size, stride and step, number and length of files, cache setting, restart, and background-thread timing',
  'The input pipeline has no tests.',
  [IP, TR],
  [('windowing per file', IP + ':_read_and_parse'),
   ('per-host slice', IP + ':create_split'),
   ('fixed shuffle seed', IP + ':create_split')],
  ['batches produced by create_split on each simulated host'])

P('C18', 'A damaged or unreadable data file stops the pipeline instead of feeding garbage',
  'If a data file is missing, truncated, or a read fails part-way, starting the pipeline raises an error and never silently yields fewer, shifted or altered windows. '
  'If a read merely returns fewer bytes than asked for, the data is nevertheless read completely and correctly. '
  'After the fault is gone, restarting gives exactly the stream that a fault-free start gives.',
  ['fault_sequences', 'inputs', 'crash_points'],
  'for every file, read operation at which an error, short read or truncation is injected, and every restart after it',
  'No test reads a data file, let alone a faulty one.',
  [IP],
  [('whole-file read through the file library', IP + ':read_snapshots_file')],
  ['exception or batches of create_split'])

P('C19', 'Simulation output files chain without gap, overlap or drift',
  'Each simulation cycle\'s output file starts with the state and time at which the previous cycle\'s file ended, contains every tenth step in order with matching velocity, pressure and time, and is named by the exact range of steps it covers; consecutive ranges abut. '
  'The trajectory does not depend on how the total number of steps is divided into cycles: all history needed by the multi-step scheme is carried over. '
  'Recorded content does not depend on the wall clock.',
  ['configurations', 'histories', 'schedules'],
  'for every number of cycles, cycle length, multi-step order, dynamics and clock behaviour',
  'Data generation has no tests, and could not even start at the pinned commit.',
  [DG],
  [('initial state written as first row, history carried as tuples', DG + ':one_cycle'),
   ('cycle loop and step numbering', DG + ':run_simulation')],
  ['HDF5 files written to the working directory'])

P('C20', 'Reading a mesh file under storage faults fails loudly or reads it right',
  'Reading a mesh file whose reads fail, or whose content is truncated, either raises an error or yields exactly what the delivered bytes describe; short reads never change the result, and a retry after the fault clears gives the fault-free mesh. '
  'A mesh that is returned has every element of the requested dimension once, with nodes in lexicographic order so that element orientation is positive, original coordinates, and every periodic facet in lexicographic order too and paired node by node with its partner. '
  'Reading never modifies the file and leaves no file open.',
  ['fault_sequences', 'inputs', 'configurations'],
  'for every mesh size and dimension, node and element numbering, distortion, periodic directions, and every read operation or byte position at which a fault is injected',
  'Tests read three generated meshes without faults and without scrambled numbering.',
  [MR],
  [('node ordering permutation', MR + ':_NODE_ORDERING_PERMUTATIONS'),
   ('periodic facet pairing', MR + ':_get_periodic_links'),
   ('element type lookup with error', MR + ':read')],
  ['Premesh returned by read, or exception'])

P('C21', 'Simulation output survives write faults and restarts without wrong data',
  'If writing an output file fails or the process is killed, no error is swallowed: the run stops with the error and does not go on to later cycles as if the file existed, and files completed earlier remain intact. '
  'Running the simulation again from the start reproduces every file with identical content, replacing any incomplete one. '
  'A file is never complete-looking with wrong content: it either reads back as exactly what the simulation computed or cannot be read as a whole data file.',
  ['crash_points', 'fault_sequences', 'histories'],
  'for every file operation at which an I/O error, full disk, short write or process kill is injected, and every rerun after it',
  'Data generation has no tests and no test injects a storage fault.',
  [DG],
  [('serialise in memory, then write the whole file once', DG + ':one_cycle')],
  ['files in the working directory after each simulated run'])

P('C22', 'A solve set up from a mesh file on many devices gives the right solution',
  'Every process that reads the same mesh file, partitions it and raises its order gets bit-identical coordinates, elements, links, groups and owners, whatever its hash seed and random state and however often a read failed before, and every element belongs to exactly one part, none of which is empty or more than twice its fair share. '
  'A Poisson or Helmholtz problem solved on the distributed mesh has the exact solution wherever that solution is a polynomial of the element order, and otherwise the solution of one process, up to the tolerance, for every number of parts that is not refused, schedule and survived fault. '
  'The devices agree bit for bit on iterations, residual and integrals, and fixed sides count each of their nodes once.',
  ['schedules', 'fault_sequences', 'configurations', 'inputs'],
  'for every mesh file, element order and kind of nodes, order of partitioning and refining, number of parts and processes, hash seed, fixed sides, schedule and fault sequence',
  'Tests check reading, partitioning, refining, finalising and solving one by one on a few fixed meshes, never together, and never with two processes.',
  [MR, MP, MF, FU, PM, ME, GS, FE, CG],
  [('partition of the element graph', MP + ':partition'),
   ('nodes shared through facets', MF + ':refine_premesh'),
   ('distribution over devices', PM + ':Premesh.finalize')],
  ['arrays of the prepared mesh in every process; solution, iterations, residual and integrals on every device'])

P('C23', 'Progress reports and evaluations happen at exactly the configured steps',
  'Within one uninterrupted session every training report is stamped with the step it was made at, is made at exactly the configured steps, and averages exactly the steps since the previous report. '
  'Evaluations run at exactly the configured steps with the configured number of evaluation batches, using the parameters of that step and without changing training. '
  'Checkpoints are made at the configured steps and at the end; after a restart all of these continue at the step numbers of an uninterrupted run, and only the first host writes reports.',
  ['histories', 'crash_points', 'configurations', 'schedules'],
  'for every logging, evaluation and checkpoint cadence, number of hosts, restart point and clock behaviour',
  'No test runs the training loop.',
  [TR],
  [('cadence arithmetic in the loop', TR + ':train_and_evaluate'),
   ('reset of accumulated metrics', TR + ':train_and_evaluate')],
  ['scalars handed to the metric writer'])

P('C24', 'A stochastic ensemble is the same however it is spread and interrupted',
  'Every member of an ensemble follows the Euler-Heun path of its own Brownian increments, whatever the other members, devices, output times and schedule, and continuing from any output time with the remaining increments, on any number of devices, gives the path of an uninterrupted integration. '
  'The increments of a member depend only on its key, differ between members and have variance one over their number. '
  'Gradients averaged over devices are bit-identical on all of them, equal those of one process and agree with the derivative of the path up to the discretisation error.',
  ['schedules', 'crash_points', 'fault_sequences', 'configurations'],
  'for every drift and diffusion, structure of the state, number and placement of members, output times, interruption and fault sequence',
  'Tests integrate four linear equations on one device, with one key and without interruption.',
  [SD, FS],
  [('Euler-Heun steps within a segment', SD + ':_sdeint'),
   ('segments between output times', SD + ':sdeint'),
   ('adjoint of a segment', SD + ':_sdeint_rev'),
   ('lifting over network parameters', FS + ':core_sdeint')],
  ['paths, increments, averages and gradients on every device'])

P('C25', 'Flows stay the same however they are spread, interrupted or differentiated',
  'Every one of many incompressible flows, on meshes with any mix of walls, open and periodic sides, follows the semi-implicit splitting scheme of the configured order in time, viscosity, time step, filter, forcing and wall velocities, whatever the other flows, their placement on devices and the schedule, and continuing from saved histories on any number of devices gives the flow of an uninterrupted job. '
  'Every new velocity is discretely divergence free, has the prescribed values (passed through the filter) on walls and the same value on periodic copies, its vorticity is its curl, and the pressure is that of the scheme, with zero mean where only its differences matter. '
  'Gradients of the result with respect to histories, forcing, wall velocities and parameters are the derivatives of that flow, and averages over devices are bit-identical on all of them.',
  ['schedules', 'crash_points', 'fault_sequences', 'configurations'],
  'for every mesh and order, boundary kinds, order in time, parameters, number and placement of flows, interruption, driver (own loop, training, data generation) and fault sequence',
  'Tests step two closed-form flows on one device, without interruption, and never differentiate a step with walls or compare its pressure.',
  [NS, TR, DG],
  [('one step: right-hand side, Helmholtz solve, pressure correction, filter', NS + ':StokesSEM.stokes_one_step'),
   ('advection and its overintegration', NS + ':StokesSEM.C'),
   ('vorticity', NS + ':StokesSEM.vorticity'),
   ('extrapolated advection and forcing in the drivers', TR + ':_solve_one_step')],
  ['velocities, pressures, vorticities, gradients and averages on every device'])

# ---- stated, but not decidable by deterministic simulation (see MANIFEST) ----
P('N01', 'Quadrature, interpolation and differentiation are exact for polynomials',
  'Interpolating, differentiating or integrating nodal values of a polynomial within the degree of the nodes gives the exact polynomial result up to rounding, in any dimension and for every supported node family.',
  ['inputs', 'configurations'], 'for every order, node family, dimension and polynomial',
  'Tests sample a few orders and monomials.',
  ['swirl_fem/core/interpolation.py'],
  [('barycentric interpolation and quadrature weights', 'swirl_fem/core/interpolation.py')])
P('N02', 'Refining a mesh keeps it conforming and geometrically the same',
  'Raising the order of a mesh keeps its geometry, gives shared faces and edges shared nodes (no duplicates, no cracks), and carries boundary groups and periodic links to the new nodes.',
  ['inputs', 'configurations'], 'for every mesh, orientation of neighbours and order',
  'Tests refine a few fixed meshes.',
  ['swirl_fem/core/mesh_refiner.py', 'swirl_fem/common/facet_util.py'],
  [('facet-based node sharing', 'swirl_fem/core/mesh_refiner.py')])
P('N03', 'Finite element operators are symmetric, consistent and converge',
  'Mass and stiffness operators are symmetric and positive (semi-)definite, reproduce polynomials exactly, and the Poisson solution converges at the rate of the chosen order on any valid mesh.',
  ['inputs', 'configurations'], 'for every mesh, order and smooth data',
  'Tests check a few manufactured solutions.',
  ['swirl_fem/core/fespace.py', 'swirl_fem/examples/poisson.py'],
  [('weak-form assembly', 'swirl_fem/core/fespace.py')])
P('N04', 'Flow solver steps converge at the configured order in time',
  'Computed flows converge to the solution of the incompressible Navier-Stokes equations at the configured order as the time step shrinks, and spectrally as the order of the elements grows.',
  ['inputs', 'configurations'], 'for every mesh, boundary condition, viscosity and time order',
  'Tests check two analytic flows.',
  ['swirl_fem/navier_stokes/navier_stokes.py'],
  [('pressure projection and multi-step coefficients', 'swirl_fem/navier_stokes/navier_stokes.py')])
P('N05', 'Stochastic integrator converges and its gradients match the sampled path',
  'For a fixed random key the stochastic integrator returns one path that converges to the solution of the equation as the step shrinks, and gradients are those of that same path.',
  ['inputs'], 'for every drift, diffusion, key and step size',
  'Tests check two equations.',
  ['swirl_fem/sde/sdeint.py', 'swirl_fem/sde/flax_nn_sde.py'],
  [('fixed-key noise increments', 'swirl_fem/sde/sdeint.py')])
P('N06', 'Closure model maps element features to element forcing deterministically',
  'For fixed parameters and random keys the closure model is a deterministic map that keeps element count and channel count, and leaves frozen parts unchanged.',
  ['inputs', 'configurations'], 'for every configuration and input',
  'There are no tests.',
  ['swirl_fem/niles/transformer.py'],
  [('module definitions', 'swirl_fem/niles/transformer.py')])
P('N07', 'Mesh partitioning assigns every element to one valid, non-empty part',
  'Partitioning a mesh assigns each element exactly one part number below the requested number of parts, balances the parts, and changes nothing else in the mesh.',
  ['inputs'], 'for every mesh and number of parts',
  'Tests partition a few meshes.',
  ['swirl_fem/common/mesh_partitioner.py'],
  [('graph partitioner on the dual graph', 'swirl_fem/common/mesh_partitioner.py')])

if __name__ == '__main__':
  out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                     'properties.jsonl')
  with open(out, 'w') as f:
    for p in props:
      assert len(p['title']) <= 80, (p['id'], len(p['title']))
      f.write(json.dumps(p, ensure_ascii=False) + '\n')
  print(len(props))
