"""What each check covers, in words (goes into the evidence)."""

SPMD_REAL = [
    'the library code under test, traced by the real JAX',
    'all device-local computation: executed by real XLA, one device at a time',
]
SPMD_STUB = [
    'devices: generators stepped by the simulator',
    'collectives (permute, all-reduce, gather): simulated network',
    'dispatch: simulated runtime that can refuse or lose a program',
]
SPMD_ASSUME = [
    'collectives match by program point and loop iteration, as compiled SPMD '
    'channel ids do; the transport below them is reliable once retransmission '
    'is counted (loss and duplication change timing, not content)',
    'device-local code is deterministic and is not preempted between '
    'collectives (it has no other interaction)',
]
RULE_ROUTER = (
    'A case fixes a device mesh, item fields and types, a history of exchanges '
    'with per-device counts, targets and padding content, a schedule seed and '
    'a fault list, all drawn from VERIF_SEED. Non-trivial: more than one device '
    'and at least one item; distinct by the hash of the ordered event log.')

META = {}


def _add(ids, rule, note, real=SPMD_REAL, stub=SPMD_STUB, assume=SPMD_ASSUME):
  for i in ids:
    META[i] = dict(rule=rule, real=real, stub=stub, assumptions=assume,
                   note=note)


_add(('C01', 'C02', 'C03'), RULE_ROUTER,
     'Seeded search, not exhaustive: up to 24 simulated devices, up to 12 '
     'items per device, meshes with one or two axes; the oracle is an exact '
     'multiset model of routing.')

_add(('C05', 'C06'),
     'A case fixes a device mesh, an operation, a nested structure of arrays '
     'with types and value styles (small, random, extreme, infinite), 1-3 '
     'calls, a schedule seed and a fault list, all drawn from VERIF_SEED. '
     'Non-trivial: more than one device; distinct by the hash of the ordered '
     'event log.',
     'Seeded search: up to 24 simulated devices, seven operations, ten element '
     'types, three ways of mapping; the oracle is a sequential left-to-right '
     'scan, exact where the operation is associative and to rounding '
     'elsewhere.')
_add(('C07',),
     'A case fixes a device mesh, a function signature (array, static, '
     'keyword-only, optional and nested parameters), 1-4 calls with values and '
     'ways of passing them, a schedule seed and a fault list, all drawn from '
     'VERIF_SEED. Non-trivial: more than one device; distinct by the hash of '
     'the ordered event log.',
     'Seeded search over signatures, call histories, meshes of up to 24 '
     'simulated devices and schedules; the oracle evaluates the function on '
     'every slice in numpy.')
_add(('C08',),
     'A case fixes a device mesh, up to six random expressions over tracked '
     'scalars and a permutation expression that is used to send data, a '
     'schedule seed and a fault list, all drawn from VERIF_SEED. Non-trivial: '
     'more than one device; distinct by the hash of the ordered event log.',
     'Seeded search over expressions up to depth five on up to 24 simulated '
     'devices; values are kept within 28 bits and division by zero is '
     'excluded; the oracle is exact integer arithmetic.')
RULE_MESH = (
    'A case fixes a mesh (dimension 1-3, size, order, node family, distortion, '
    'node and element numbering, periodic directions, boundary groups), an '
    'owner for every element, data, a schedule seed and a fault list, all '
    'drawn from VERIF_SEED. Non-trivial: more than one device (or a periodic '
    'mesh, for C09 and C10); distinct by the hash of the ordered event log.')
MESH_REAL = SPMD_REAL + ['mesh construction, refinement and partitioning code']
_add(('C09', 'C10'), RULE_MESH,
     'Seeded search over meshes of up to 64 elements on up to 8 simulated '
     'devices; the oracle matches slots to original nodes by coordinates and '
     'computes sums, identities and memberships from the original mesh.',
     real=MESH_REAL)
_add(('C11', 'C12'), RULE_MESH,
     'Seeded search over meshes, partitions, operators and solver settings on '
     'up to 6 simulated devices; the oracle is the same code on the '
     'unpartitioned mesh in one process (for C12 also textbook CG in numpy on '
     'assembled matrices), in single and double precision; no periodicity inside one partition (unsupported).',
     real=MESH_REAL)
RULE_TRAIN = (
    'A case fixes the number of hosts and devices, the training configuration '
    '(steps, cadences, batch size, solver steps), clocks, a schedule seed and '
    'a fault list (kills, disk faults, device faults, clock jumps), all drawn '
    'from VERIF_SEED. Non-trivial: more than one device or at least one '
    'restart, and at least one step; distinct by the hash of the ordered event '
    'log.')
TRAIN_REAL = [
    'swirl_fem.niles.train.train_and_evaluate with its step, loss, metric, '
    'schedule, checkpoint and input-iterator functions',
    'flax checkpoints (msgpack format), flax prefetch and replication, optax',
    'JAX tracing and XLA execution of every device program']
TRAIN_STUB = [
    'devices, collectives, network (simulated)', 'clock (simulated)',
    'file calls (simulated faults over a scratch directory)',
    'flow solver and transformer (small smooth functions)',
    'input pipeline (numbered examples)', 'metric writer (recorder)', 'profiler',
    'process barrier']
_add(('C14', 'C15', 'C16', 'C23'), RULE_TRAIN,
     'Seeded search: up to 3 simulated hosts with up to 4 devices, up to 16 '
     'steps, up to 5 faults; a killed job loses what its processes had not '
     'handed to the operating system, nothing else; checkpoints in the msgpack '
     'format.', real=TRAIN_REAL, stub=TRAIN_STUB)
_add(('C04',),
     'A case takes a workload of one of eleven other checks (routing, scan, '
     'reduction, distributed compilation, schedule scalars, exchange, '
     'assembly, solver, training), a schedule seed and network faults and '
     'stalls, all drawn from VERIF_SEED, and runs it twice. Non-trivial: at '
     'least one collective among more than one device; distinct by the hash of '
     'the ordered event log of the second run.',
     'Seeded search; the oracle is the same workload run in order without '
     'faults: the bits every device computed in every mapped call, and the '
     'sequence of collectives per device, must be equal; reductions add in rank '
     'order.',
     real=SPMD_REAL + TRAIN_REAL[:2], stub=SPMD_STUB + TRAIN_STUB[1:])
_add(('C17', 'C18'),
     'A case fixes the number of hosts, the window length, stride and step, the '
     'lengths and contents of 28 data files, batch size, caching, the history '
     'of process starts and a fault list (kills while reading, missing, '
     'truncated or unreadable files, lost, short or foreign fields, failing '
     'and short reads), all drawn from '
     'VERIF_SEED. Non-trivial: more than one host (C17) or a fault that had an '
     'effect (C18); distinct by the hash of the ordered event log.',
     'Seeded search: up to 4 simulated hosts, two to four starts, up to four '
     'passes; the oracle recomputes every window from the data and the declared '
     'number of examples.',
     real=['swirl_fem.niles.input_pipeline', 'h5py, epath, tf.data'],
     stub=['file calls (simulated faults over a scratch directory)',
           'process index and count', 'entropy of unseeded operations', 'clock'],
     assume=['tf.data keeps its promise of a fixed order for seeded shuffles '
             'whatever its threads do',
             'files do not change while a process reads them'])
_add(('C19', 'C21'),
     'A case fixes the mesh, time step, number of cycles and steps per cycle, '
     'the clock of every process start, the size of write calls, what earlier '
     'jobs left in the directory and a fault '
     'list (I/O errors, full disk, torn and short writes, kills), all drawn '
     'from VERIF_SEED. Non-trivial: more than one cycle or at least one '
     'restart; distinct by the hash of the ordered event log.',
     'Seeded search: up to 5 cycles of up to 40 steps, up to 4 process starts; '
     'the oracle is an undisturbed run (C21) and an undisturbed run in a single '
     'cycle (C19); a stub solver whose step uses all of the history, and the '
     'real solver in about one group of fifty.',
     real=['swirl_fem.niles.datagen', 'h5py, epath',
           'the real flow solver in some cases'],
     stub=['flow solver (a small nonlinear recurrence) in most cases',
           'file calls (simulated faults over a scratch directory)', 'clock'],
     assume=['a killed process loses what it had not handed to the operating '
             'system and nothing else (no power failure)'])
_add(('C20',),
     'A case fixes one or two mesh files (dimension, size, numbering, entities, '
     'periodic sides, format), a history of reads with replacement of the file '
     'between them and the faults of each read (missing, empty, truncated or '
     'partly unreadable file, failing and short reads), all drawn from '
     'VERIF_SEED. Every run reads at least three times; distinct by the hash of '
     'the ordered event log.',
     'Seeded search: meshes of up to 27 elements in Gmsh formats 2.2 and 4.1, '
     'text and binary; the oracle is the generated mesh, and for a truncated '
     'file what meshio makes of the same bytes; node tags follow file order '
     'where the mesh is periodic (meshio ignores tags there).',
     real=['swirl_fem.common.mesh_reader, mesh refinement', 'meshio'],
     stub=['file calls (simulated faults over a scratch directory)'],
     assume=['meshio interprets the bytes of a truncated file correctly'])
_add(('C22',),
     'A case fixes a mesh file (as in C20), the number of parts, the order and '
     'kind of nodes, whether refinement or partitioning comes first, a linear '
     'problem (Poisson or Helmholtz, fixed sides, data), the number of '
     'processes that set up the mesh, the disk faults each meets, a schedule '
     'seed and a list of network and device faults, all drawn from VERIF_SEED. '
     'Non-trivial: more than one part and not refused; distinct by the hash of '
     'the ordered event log.',
     'Seeded search: up to 8 devices, meshes of up to 80 elements of order up '
     'to 4; the oracle is the polynomial that solves the problem where the '
     'elements are boxes, elsewhere the same problem on one device without '
     'partition; every job includes a separate process with another hash seed.',
     real=['swirl_fem.common.mesh_reader, mesh_partitioner (pymetis), mesh '
           'refinement, premesh, gather-scatter, operators and CG', 'meshio'] +
     SPMD_REAL[1:],
     stub=SPMD_STUB + ['file calls (simulated faults over a scratch directory)'],
     assume=SPMD_ASSUME)
_add(('C24',),
     'A case fixes a system of stochastic equations (scalar, diagonal noise, '
     'one noise for all, state in a tree, network), its parameters, the number '
     'of members, output times and increments, how members are placed on '
     'devices, after which output times the job is stopped and with how many '
     'devices it goes on, a schedule seed and a list of network and device '
     'faults, all drawn from VERIF_SEED. Non-trivial: more than one device or '
     'an interrupted job; distinct by the hash of the ordered event log.',
     'Seeded search: up to 18 members on up to 6 devices, up to four output '
     'times with up to 48 increments each, up to two interruptions; the oracle '
     'is the Euler-Heun scheme in numpy for paths, the same code in one process '
     'for averages and gradients, and automatic differentiation of the written '
     'out scheme (up to the discretisation error) for gradients.',
     real=['swirl_fem.sde.sdeint, flax_nn_sde', 'jax, XLA CPU and flax'],
     stub=SPMD_STUB, assume=SPMD_ASSUME)
_add(('C25',),
     'A case fixes a mesh, what its sides are (walls, open, periodic), the '
     'order in space and time, overintegration, the driver (an own loop, the '
     'step of training, the step of data generation), viscosity, time step, '
     'filter, drag, the number of flows and steps, how flows are placed on '
     'devices, after which steps the job is stopped and with how many devices '
     'it goes on, a schedule seed and a list of network and device faults, all '
     'drawn from VERIF_SEED. Non-trivial: more than one device or an '
     'interrupted job; distinct by the hash of the ordered event log.',
     'Seeded search: up to 8 flows on up to 4 devices, up to four steps, up to '
     'two interruptions; meshes of up to 9 quadrilaterals (8 hexahedra) of '
     'order 3 to 5; the oracle is the scheme written out in dense numpy '
     'algebra, and for gradients its derivative by a complex step.',
     real=['swirl_fem.navier_stokes, core, linalg.cg',
           'one step of swirl_fem.niles.train and of datagen',
           'jax and XLA CPU'],
     stub=SPMD_STUB, assume=SPMD_ASSUME)
