PAR = 'src/gridpack/'
na('X01', 'Distributed linear and nonlinear solves return solutions of the assembled system',
   'A converged solve returns a vector whose residual against the assembled matrix is within the requested tolerance, on any number of processes.',
   ['inputs', 'configurations', 'schedules'], 'all matrices, process counts and solver options', 'The tests solve a few small systems on one and two processes.',
   ['src/math'], [('solver wrappers', 'src/math/petsc')],
   'The result is computed inside PETSc (closed binary here, iterative floating-point algorithms over MPI); a contract on the wrappers would only assume what PETSc promises, so there is nothing to discharge on GridPACK code.')
na('X02', 'Ghost copies equal their owners after an exchange',
   'After a bus or branch exchange completes, every ghost copy on every process holds the exchanged values of its owner.',
   ['schedules', 'configurations'], 'all partitions, process counts and message schedules', 'Tests run on one or two processes with one partition.',
   ['src/network/base_network.hpp'], [('exchange of bus and branch buffers', 'src/network/base_network.hpp')],
   'The guarantee is about one-sided Global Arrays communication between processes; a sequential function-by-function verifier has no contract for remote memory it could discharge against real code.')
na('X03', 'Partitioning assigns every bus and branch to exactly one process',
   'After partitioning, each bus and branch is active on exactly one process, the union over processes is the original network, and ghosts are exactly the neighbours.',
   ['inputs', 'configurations', 'schedules'], 'all networks and process counts', 'Tests partition two small networks on at most two processes.',
   ['src/partition', 'src/network/base_network.hpp'], [('partition and redistribution', 'src/network/base_network.hpp')],
   'Ownership is decided by ParMETIS and moved by all-to-all MPI and Global Arrays calls on templates over boost::mpi; the statement quantifies over processes, which contracts on one sequential call cannot express.')
na('X04', 'Distributed results do not depend on the number of processes',
   'Power flow, state estimation and dynamic simulation deliver the same results, up to solver tolerance, on any number of processes.',
   ['configurations', 'schedules'], 'all networks and process counts', 'Only a few counts are tested.', ['src/applications', 'src/mapper'], [('assembly over processes', 'src/mapper')],
   'A relational whole-program property over MPI executions and PETSc solves; it has no per-function contract form.')
na('X05', 'Distributed index hash and shuffler deliver every item to its destination',
   'Looking up a key in the distributed index returns exactly the values registered for it on any process, and a shuffle delivers every item once to the requested process.',
   ['inputs', 'schedules', 'configurations'], 'all key sets and process counts', 'Tests use fixed small sets.', ['src/parallel/index_hash.cpp', 'src/parallel/shuffler.hpp'],
   [('hash distribution', 'src/parallel/index_hash.cpp'), ('shuffler', 'src/parallel/shuffler.hpp')],
   'Implemented with raw Global Arrays / all-to-all MPI on packed byte buffers (several hundred lines interleaving address arithmetic with collective calls); the sequential part is out of the executor\'s reach and the rest is inter-process.')

FY = A + 'modules/dynamic_simulation_full_y/'
prop('C06', 'Control blocks realise their transfer function, limits and curves',
     'Every linear control block realises exactly its documented transfer function, starts in equilibrium at the requested output, advances by forward Euler then trapezoidal steps within its rate and state limits, and never delivers an output outside its limits. '
     'The static blocks (gain limiter, slope, piecewise slope, deadband, low and high value gates) deliver their documented characteristic for every input.',
     ['inputs', 'histories'], 'all gains, time constants, limits, states, inputs and time steps; both integration stages; rising and falling curves of every size',
     'The application tests simulate a few seconds of two textbook systems in which most limits never bind, and no unit test touches the blocks.', [FY + 'cblock.cpp', FY + 'dblock.cpp'],
     [('state-space form of each block', FY + 'cblock.cpp'), ('integration stages and limits', FY + 'cblock.cpp'), ('initialisation', FY + 'cblock.cpp'), ('static characteristics', FY + 'dblock.cpp')])

DA = A + 'modules/dynamic_simulation_dae/'
DM = DA + 'model_classes/'
prop('C07', 'Jacobian of every dynamic model is the derivative of its residual',
     'In the differential-algebraic simulation, every entry that a machine, exciter or governor model writes into the Jacobian block of its bus is the partial derivative of the corresponding residual row (or of the current it injects into the network) with respect to that variable, plus the shift times the derivative with respect to its rate. '
     'This includes the coupling between a machine and its controllers and the bus voltage, entries of zero, every combination of active limits, and the fault-on/fault-off mode in which differential states are frozen.',
     ['inputs', 'configurations'], 'all states, rates, bus voltages, parameters, shifts, limit flags and differential/algebraic state patterns; every machine with every exciter and governor',
     'The simulation of one nine-bus system samples a few points; a wrong entry only slows the Newton iteration or spoils it for parameters the test does not use.', [DM, DA + 'base_classes'],
     [('setJacobian of every model', DM), ('vectorValues of every model', DM), ('current injection', DM), ('field voltage and mechanical power couplings', DM)])

prop('C08', 'Dynamic models follow their equations, start in equilibrium, freeze in faults',
     'Initialised from a power-flow solution, every machine with its exciter and governor starts in exact equilibrium: all residuals are zero and the current injected is the one of the power flow. '
     'In normal operation each residual row is the documented differential or algebraic equation; while the fault is switched all differential states are frozen at their previous values and algebraic ones keep their equation. '
     'Each limited quantity is monitored for reaching and for leaving its limit, is held exactly at the limit while it is active, and is released only in the direction that leaves it. '
     'Pushing a solution vector onto a model sets exactly its states, rates or previous states, in order.',
     ['inputs', 'histories', 'configurations'], 'all parameters, power-flow solutions, states and limit flags; every machine with every exciter and governor; normal and fault modes',
     'One nine-bus simulation is run with one parameter set, and its trajectories are not compared with the equations.', [DM, DA + 'base_classes'],
     [('init of every model', DM), ('vectorValues of every model', DM), ('event functions and handlers', DM), ('setValues', DM)])

PFC = A + 'components/pf_matrix/pf_components.cpp'
prop('C09', 'Operating-point changes touch exactly the addressed item and can be undone',
     'Setting, scaling, shifting or switching a generator or load changes exactly the addressed item of the bus: real power moves by the given fraction of its margin to the limit in that direction, loads scale real and reactive power by the factor, statuses, limits and shares follow, and every other quantity of the bus keeps its value. '
     'A bus regulates its voltage while a generator of a regulated bus is in service and never otherwise. Reset restores generation, loads and voltages as loaded; taking a generator out and putting it back restores the bus. '
     'Saving writes the solved voltage (angle in degrees) and each generator\'s share of the injection plus local load, in per unit and in the units of the case, without touching other data.',
     ['inputs', 'histories'], 'all buses with any number of generators and loads, identifiers (also absent or repeated ones), factors of either sign, and sequences outage/restoration',
     'The contingency and path-rating examples change a handful of generators in one case and compare logs.', [PFC],
     [('setpoints', PFC + ' setGeneratorRealPower, setLoadRealPower, setParam'), ('scaling', PFC + ' scaleGeneratorRealPower, scaleLoadPower, getGeneratorMargins, getLoadPower'), ('switching and restoration', PFC + ' setGenStatus, getGenStatus, setGeneratorStatus, setIsPV, resetIsPV, resetPower'), ('write-back', PFC + ' saveData, saveDataAlsotoOrg')])

prop('C10', 'Full-Y exciters and governors follow their diagrams and hold a steady state',
     'From any state, each predictor and corrector stage of the SEXS, IEEET1, EXDC1, ESST1A and ESST4B exciters and the TGOV1, GAST and HYGOV governors computes exactly the documented block diagram: every state rate, predicted and corrected state, limiter and output, from the terminal quantities, the speed and the set points it was given; blocks with zero time constants are bypassed. '
     'Initialised at an operating point inside its limits, a controller delivers the requested field voltage or mechanical power and stays there in every later stage. Saturation passes through its two given points and vanishes below its threshold.',
     ['inputs', 'histories'], 'all parameters, states, inputs and time steps (no bound); all operating points inside the limits for the equilibrium; zero time constants included',
     'Dynamic examples run one case per model; a wrong sign or a stale input changes a trajectory that nobody compares with the diagram.', [FY + 'model_classes', FY + 'base_classes'],
     [('init, predictor, corrector of each controller', FY + 'model_classes'), ('control blocks', FY + 'cblock.cpp, dblock.cpp')])

prop('C11', 'Full-Y machines follow their equations and start in equilibrium',
     'Initialised with the power-flow voltage and dispatch, GENROU, GENSAL and classical machines inject exactly the current of that dispatch through their Norton admittance, every state rate is zero, controllers see unchanged inputs, and the states stay where they are in the predictor and the corrector. '
     'From any state and terminal voltage, each stage computes the documented rates, Norton current (system base, network axes), field current and new states, takes field voltage and mechanical power from its controllers, and runs each controller exactly once with the terminal voltage, field current, speed and stabiliser signal of the stage. '
     'A machine that is out of service injects nothing and rests; a tripped one only offsets its Norton admittance. Parameters, machine base and dispatch are taken from the data of the addressed generator; watched values are angle, speed and power on the requested base; saturation passes through its two given points.',
     ['inputs', 'histories'], 'all parameters, states, terminal voltages, dispatches and time steps (no bound), with and without each controller; controllers are arbitrary (checked against their interface)',
     'Dynamic examples run a few cases whose machines share a structure; deviations of a term or a base change a trajectory that is not compared with the equations.', [FY + 'model_classes'],
     [('machines', FY + 'model_classes genrou, gensal, classical: load, init, NortonImpedence, predictor/corrector(_currentInjection), tripGenerator, getWatchValues, setState, getState, Sat')])
prop('C12', 'Data collections return what was stored under a name and index',
     'A collection is seven independent maps, one per value type, from names (and an index, any integer) to values. addValue stores the value unless that entry exists, setValue replaces the value exactly if the entry exists and reports whether it did, getValue delivers the stored value and true or reports false and leaves the target alone; no other entry of any type changes. '
     'Entries of one name with different indices are different entries and none is confused with an entry of another name of the dictionary. Assignment copies every entry, and everything a collection holds reaches the archive that carries it to another process. No name or index makes an access write outside its own memory.',
     ['inputs', 'histories'], 'all names, indices, values and previous contents (no bound)',
     'Tests store and read a few small indices; an overload that uses the wrong map, the wrong key, overwrites or overflows its index buffer shows only for other types, large indices or repeated stores.', [PAR + 'component/data_collection.cpp', PAR + 'component/data_collection.hpp'],
     [('collection', PAR + 'component/data_collection.cpp addValue/setValue/getValue (42 overloads), operator=, serialize'), ('names', PAR + 'parser/dictionary.hpp')])

prop('C13', 'Full-Y network admits exactly the equipment in service, before and after events',
     'In the full-Y dynamic simulation the network matrix of a bus is its Y-bus entry plus the constant admittances of loads, absorbing machines and machines without a model plus the Norton admittances of the dynamic machines and loads in service, and its right-hand side the sum of their Norton currents, for any number of them. '
     'Every event changes exactly the matrix entries it should, once: a fault adds and removes its admittance; switching a generator its machine\'s admittance; switching or tripping a line exactly the pi-model of the addressed element in all four entries (several elements and branches add up); load changes and shedding the stated power. Unknown identifiers change nothing. Statuses follow in both places that hold them. '
     'Each stage runs every machine in service and every dynamic load exactly once with the voltage, frequency and step of the stage; the bus frequency follows the angle of its voltage.',
     ['inputs', 'histories'], 'any number of machines, dynamic loads, parallel elements and tripped branches; all parameters, voltages, tags and statuses; each event from any state',
     'The example cases use one machine per bus and one event per run, so sums, indices after skipped machines and repeated or combined events are never seen.', [FY + 'dsf_components.cpp'],
     [('matrix and right-hand side', FY + 'dsf_components.cpp matrixDiagValues, vectorValues, setValues'), ('events', FY + 'dsf_components.cpp setEvent, setGenStatus, setLineStatus, setBranchTripAction, applyConstYLoad_Change_P, applyConstYLoadShedding'), ('stages', FY + 'dsf_components.cpp predictor, corrector, currentInjection, setVolt, updateFreq'), ('branch data', FY + 'dsf_components.cpp DSFullBranch::load')])

PFF = A + 'modules/powerflow/pf_factory_module.cpp'
prop('C14', 'Network-wide checks and updates cover each active item once, on all processes',
     'The power-flow factory works on the whole network, whatever its size and distribution. A voltage, line-overload or reactive-limit check is passed exactly if no active bus or line that counts violates its limit on any process, in the whole network, in an area, or on a list of lines; each violation found here is recorded once, with the bus or line it belongs to. '
     'Ignoring marks exactly the items in violation by the same rule as the check; clearing makes all count again. Isolated buses are found, taken out and put back as they were. '
     'Totals and margins of an area and zone count each in-service generator or load of an active bus once over all processes. Setup, resets, scaling and set points reach every bus and branch once, branches before the buses that sum them up.',
     ['inputs', 'configurations', 'histories'], 'networks of any size with any distribution over any number of processes, any active flags, areas, zones, limits, ratings, identifiers and earlier records',
     'The example cases run on one or two processes, with no ghost items carrying load, and compare printed tables; they do not see items counted twice, missed records, or verdicts that differ between processes.', [PFF, PFC],
     [('voltage checks', PFF + ' checkVoltageViolations, ignoreVoltageViolations, clearVoltageViolations, setVoltageLimits'), ('line checks', PFF + ' checkLineOverloadViolations, ignoreLineOverloadViolations, clearLineOverloadViolations, useRateB; ' + PFC + ' PFBranch::setIgnore, getIgnore'),
      ('isolated buses and reactive limits', PFF + ' checkLoneBus, clearLoneBus, checkQlimViolations, clearQlimViolations'), ('totals', PFF + ' getTotalLoadRealPower, getGeneratorMargins'), ('dispatch', PFF + ' setYBus, setSBus, updatePg, updateQg, resetPower, resetVoltages, scaleGeneratorRealPower, scaleLoadPower, setRTPRParams')])

prop('C15', 'Set-points, switching and readings of full-Y equipment reach the named item only',
     'In the full-Y dynamic simulation, setting or switching a generator and scaling a generator or load by its identifier changes exactly the first item of that name, in the bus and in the case data, and nothing else; an unknown identifier changes nothing. Switching a generator off zeroes its dispatch; resetting restores every saved value. '
     'Lists, margins and totals of a bus report every item with its own values and status, totals count those in service, and a device is found by its own identifier. Tripping, parameter and wide-area signals reach every machine of that name once, load shedding every dynamic load once. '
     'Watched values are those of the watched machines, in order; the frequency check fails exactly if a watched machine exceeds the limit or has drifted for half a second.',
     ['inputs', 'histories'], 'any number of generators, loads and dynamic loads, any identifiers (repeated ones included), values, statuses and monitoring histories',
     'The example cases have one machine per bus and never scale, reset or switch by tag; a wrong index, a stale copy in the case data or an item out of service in a total is not seen.', [FY + 'dsf_components.cpp'],
     [('set-points and switching', FY + 'dsf_components.cpp setGeneratorRealPower, setGeneratorStatus, scaleGeneratorRealPower, scaleLoadPower, resetPower'), ('lists and totals', FY + 'dsf_components.cpp getGeneratorMargins, getLoadPower, getTotalLoadPower, getTotalGeneratorPower, getGeneratorPower, getGenerator, getLoad'),
      ('signals', FY + 'dsf_components.cpp applyGeneratorTripping, applyGFIAdjustment, setWideAreaControlSignal, applyLoadShedding'), ('observation', FY + 'dsf_components.cpp setWatch, getWatchedGenerators, getWatchedValues, checkFrequency')])
