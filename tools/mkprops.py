#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept in a script only so the long texts are editable).
import json, os
S='src/DRAMPower/DRAMPower/'
def stds(pat): return [S+'standards/%s/%s'%(d,pat%n) for d,n in (('ddr4','DDR4'),('ddr5','DDR5'),('lpddr4','LPDDR4'),('lpddr5','LPDDR5'),('lpddr6','LPDDR6'))]
CORES=stds('%sCore.cpp'); IFS=stds('%sInterface.cpp')
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p('C01','Per-bank command counts are exact and attributed to the addressed banks',
 "For every legal command history on every standard, each bank's reported count of activates, reads, writes, auto-precharging reads and writes and every refresh kind equals the number of accepted commands that covered that bank, and no other bank's counts change. All-bank, same-bank, two-bank and dual-bank commands count exactly once on each bank they cover. A precharge of any kind counts only on banks it actually takes from open to closed, the closing at the end of a refresh is not counted, and each self-refresh or auto-precharge is never double counted.",
 ['histories','inputs','configurations'],'all legal command sequences over ranks, banks, bank groups and refresh kinds of the five standards, and all bank/rank/bank-group organisations',
 'Tests replay about a hundred fixed sequences on the default organisation with bank 0..2; counts on the other banks, unusual organisations and repeated/redundant commands are not sampled.',
 CORES+[S+'util/RegisterHelper.h',S+'data/stats.h'],
 [('command dispatch to bank/rank/bank-group handlers',S+'util/RegisterHelper.h'),('handleAct/handlePre/handleRef*/handleRead*/handleWrite*',S+'standards/*/*Core.cpp'),('getWindowStats copies counters',S+'standards/*/*Core.cpp')],
 ['getWindowStats(t).bank[].counter'],[('bank.counter','number of commands seen by the bank',S+'dram/Bank.h')])

p('C02','Elapsed time is partitioned exactly over the states of banks and ranks',
 "At every query time, for every bank and every rank, the reported active, precharged, active power-down, precharged power-down, self-refresh and deep-sleep cycles add up to the elapsed cycles and each is non-negative. A bank's active cycles are exactly the cycles in which it was open or refreshing and its rank not in power-down; a rank's active cycles are exactly the cycles in which at least one of its banks was.",
 ['histories','inputs','configurations'],'all legal command histories with arbitrary gaps, on several ranks, and all query times from the last command on',
 'The unit tests check final numbers of a few short sequences; whether the interval arithmetic equals the per-cycle definition for every interleaving of banks, refreshes and power-downs is not sampled.',
 CORES+[S+'dram/Rank.cpp',S+'util/cycle_stats.h'],
 [('interval open/close on command handling',S+'standards/*/*Core.cpp'),('Rank::isActive / countActiveBanks',S+'dram/Rank.cpp')],
 ['getWindowStats(t).bank[].cycles','getWindowStats(t).rank_total[].cycles'])

p('C03','Auto-precharge closes the bank at its own deadline, whatever happens meanwhile',
 "A bank read or written with auto-precharge closes exactly at the later of activation plus the minimum row-active time and access plus the standard's read- or write-to-precharge delay, counts exactly one precharge, and does so regardless of which commands to other banks, queries or idle gaps occur before the deadline.",
 ['histories','schedules','inputs','configurations'],'all orders of pending deadlines relative to other commands and queries; all timing parameter values; both branches of the maximum',
 'Tests use one timing set per standard and query once at the end; the order of several pending deadlines (equal, nested, crossing ranks) is not enumerated.',
 CORES+[S+'util/ImplicitCommandHandler.h']+[S+'memspec/MemSpec%s.cpp'%n for n in ('DDR4','DDR5','LPDDR4','LPDDR5','LPDDR6')],
 [('implicit command queue ordered by time',S+'util/ImplicitCommandHandler.h'),('handleReadAuto/handleWriteAuto',S+'standards/*/*Core.cpp'),('prechargeOffsetRD/WR derivation',S+'memspec/*.cpp')],
 ['getWindowStats(t).bank[].cycles.act','getWindowStats(t).bank[].counter.pre','getLastCommandTime()'])

p('C04','Refreshes occupy exactly the covered banks for exactly their refresh time',
 "An all-bank, per-bank, same-bank, two-bank or dual-bank refresh makes exactly the banks it covers busy (accounted active) from the command until exactly the refresh time of that kind and of the configured refresh mode later, then leaves them precharged. Banks it does not cover keep their state, and the rank is accounted active for as long as any bank is refreshing or open.",
 ['histories','inputs','configurations'],'all legal placements of refreshes relative to open banks, other refreshes and queries; all bank organisations, refresh modes and refresh timings',
 'Tests refresh from reset with default timings; overlapping per-bank refreshes on different banks, refreshes next to open rows, refresh modes and organisations are not combined.',
 CORES,
 [('handleRefreshOnBank / handleRefAll / handleRefSameBank / handleRefPerTwoBanks / handleRefDualBanks',S+'standards/*/*Core.cpp'),('refresh timing selection',S+'memspec/*.cpp')],
 ['getWindowStats(t)'])

p('C05','Power-down is entered and left at the right cycle and restores the open banks',
 "A power-down entry or exit takes effect at the later of its own time and the moment all activations, precharges and refreshes already begun on the rank have completed. While a rank is in power-down all of its time is accounted to that power-down kind and none to active or precharged, and on exit exactly the banks that are still open continue to be accounted active.",
 ['histories','schedules','inputs'],'all positions of power-down entry/exit relative to activations, precharges, pending auto-precharges, refreshes and queries on the same rank and other ranks',
 'Tests cover entry/exit with one or two banks at comfortable distances; entries coinciding with completions, pending auto-precharges and several power-downs in one history are not covered.',
 CORES,
 [('handlePowerDown*Entry/Exit, earliestPossiblePowerDownEntryTime',S+'standards/*/*Core.cpp')],
 ['getWindowStats(t).bank[].cycles','getWindowStats(t).rank_total[].cycles'])

p('C06','Self-refresh and deep-sleep time is accounted exactly',
 "A self-refresh entry performs one all-bank refresh and the rank is accounted in self-refresh from exactly the end of that refresh until the exit command, on every bank of the rank and on no other rank. Where the standard has a deep-sleep mode, time between its entry and exit is accounted as deep sleep and not as self-refresh.",
 ['histories','inputs'],'all legal self-refresh and deep-sleep episodes, repeated, on several ranks, with queries before, inside and after each phase',
 'Tests contain single episodes on one rank; repeated episodes, multi-rank overlap and queries in the middle of each phase are not covered.',
 CORES,[('handleSelfRefreshEntry/Exit, handleDSMEntry/Exit',S+'standards/*/*Core.cpp')],['getWindowStats(t)'])

p('C07','Queries are repeatable and never influence later results',
 "Asking for statistics or energy at a time, any number of times and anywhere in a history, returns the same answer for the same time and does not change any statistic or energy reported later. Reporting at the last command time is the same as reporting the window that ends there.",
 ['histories','schedules'],'all ways of interleaving statistics and energy queries at any reachable time with any legal command history',
 'Tests query once at the end. Queries mutate internal queues and bus state, so a lost or duplicated update only shows when more commands follow a query taken at a particular moment.',
 CORES+IFS+[S+'dram/dram_base.h',S+'util/bus.h',S+'util/pin.h',S+'util/databus.h'],
 [('lazy processing of implicit commands on query',S+'util/ImplicitCommandHandler.h'),('pending statistics',S+'util/pending_stats.h')],
 ['getWindowStats(t)','getStats()','calcCoreEnergy(t)','calcInterfaceEnergy(t)','getTotalEnergy(t)'])

p('C08','Ranks are independent of each other',
 "Commands addressed to one rank change neither the bank and rank statistics nor the timing behaviour of any other rank; the statistics of a rank equal those obtained by simulating that rank's commands alone.",
 ['histories','configurations','schedules'],'all interleavings of legal per-rank histories over any number of ranks',
 'Almost all tests use one rank.',
 CORES+[S+'util/RegisterHelper.h'],[('per-rank state vectors and rank/bank offsets in the statistics',S+'standards/*/*Core.cpp')],['getWindowStats(t).bank[]','getWindowStats(t).rank_total[]'])

p('C09','Each command drives exactly the bit pattern its standard defines',
 "Every supported command drives on the command/address bus, beat by beat, exactly the word of its standard's command truth table, with every row, column, bank and bank-group address bit at its defined position, burst-length dependent bits set for the burst actually transferred, and don't-care bits held at the defined level. Address bits that do not belong to the command have no influence. With LPDDR6 parity checking on, every word carries even parity.",
 ['inputs','configurations','histories'],'all commands of the five standards, all coordinate values (every single address bit), burst lengths and preceding commands',
 'Tests check a handful of encoded words; 5 standards x ~20 commands x ~40 address bits are not enumerated.',
 IFS+[S+'command/Pattern.cpp',S+'util/PatternHandler.h',S+'standards/lpddr6/LPDDR6Pattern.cpp',S+'standards/lpddr6/LPDDR6Command.cpp'],
 [('registerPatterns',S+'standards/*/*Interface.cpp'),('PatternEncoder::encode',S+'command/Pattern.cpp'),('LPDDR6 encoder','%sstandards/lpddr6/LPDDR6Pattern.cpp'%S)],
 ['commandBus statistics of getWindowStats, one command at a time'])

p('C10','Command-bus statistics equal the waveform on the wires',
 "At any query time the reported ones, zeros and transitions of the command bus are exactly those of the line-by-line waveform formed by the driven words and, between them, the idle level, each line counted once per beat up to the query time. Back-to-back, overlapping-window and mid-command queries agree with the same waveform.",
 ['histories','inputs','configurations'],'all sequences of commands with arbitrary gaps (including none) and query times, all bus widths, data rates and idle levels',
 'Tests check short hand-computed sequences with full gaps; adjacency, mid-word queries and long idle runs are where double or missing counts hide.',
 [S+'util/bus.h',S+'util/pending_stats.h',S+'util/burst_storage.h',S+'util/binary_ops.h']+IFS,
 [('Bus::load/get_stats/add_previous_stats',S+'util/bus.h')],['getWindowStats(t).commandBus'])

p('C11','Read and write data statistics equal the transferred data',
 "For data-carrying accesses the reported read and write bus ones, zeros and transitions equal those of the transferred bits laid out beat by beat over the bus width, with the bus at its idle level otherwise, for every data value, burst length, width and spacing of bursts. Reads never influence write statistics or the reverse.",
 ['inputs','histories','configurations'],'all data values, bus widths (including widths beyond one machine word and several devices), burst lengths, spacings and query times',
 'Tests use a few 64/128-bit constants on 8/16 bit buses.',
 [S+'util/databus.h',S+'util/databus_presets.h',S+'util/bus.h',S+'util/dynamic_bitset.h',S+'util/burst_storage.h']+IFS,
 [('DataBus::load/get_stats',S+'util/databus.h'),('insert_data split into beats',S+'util/burst_storage.h')],
 ['getWindowStats(t).readBus','getWindowStats(t).writeBus'])

p('C12','Toggling-rate mode yields the configured activity for exactly the busy time',
 "With a configured toggling rate and duty cycle the data-bus statistics equal width times the transferred beats weighted by duty cycle and toggle rate, plus the configured idle level for every beat not transferring, and bursts without data are accounted this way. Without configured rates, data is accounted bit-exactly and bursts without data contribute nothing.",
 ['histories','inputs','configurations'],'all burst sequences, rates, duty cycles, idle patterns, widths and query times',
 'Tests use one or two bursts and the rates 0/0.5/1.',
 [S+'util/databus.h','lib/DRAMUtils','src/DRAMPower/DRAMPower/simconfig/simconfig.h'][:1]+[S+'simconfig/simconfig.h']+[S+'dram/Interface.cpp',S+'dram/Interface.h']+IFS,
 [('TogglingHandle',S+'dram/Interface.cpp'),('DataBus mode selection',S+'util/databus.h')],['togglingStats and read/write bus statistics of getWindowStats'])

p('C13','Clock and strobe activity matches the clock periods and bursts',
 "The reported clock ones, zeros and transitions equal those of a clock running in every cycle except while it is stopped, and data strobes or write clocks are active exactly during the transfers of their direction (or always, where so configured), at the standard's rate and over all strobe lines; a transfer's strobes are accounted whole from its start.",
 ['histories','configurations','inputs'],'all burst, power-down and self-refresh sequences, strobe configurations, data rates and query times',
 'Tests check single bursts and one stop/start of the clock.',
 [S+'util/clock.h']+IFS,[('Clock::start/stop/get_stats_at',S+'util/clock.h'),('handleDQs / clock stop-start',S+'standards/*/*Interface.cpp')],
 ['clockStats, wClockStats, readDQSStats, writeDQSStats of getWindowStats'])

p('C14','Data bus inversion inverts exactly when beneficial and drives its own lines',
 "With data bus inversion enabled, every inversion group of every beat is transmitted inverted if and only if the standard's rule says so for its bits, the data statistics are those of the transmitted bits, and each inversion line is driven with the inversion flag for exactly the beats of the burst and idles otherwise. With inversion disabled data is transmitted unchanged and the inversion lines stay idle; a device width without inversion support refuses to enable it. An inversion unit used on its own, with either rule (majority level or number of toggles against the beat before), any idle level and a known or unknown bus width, does the same and tells of every chunk and every return to rest once, at its own time.",
 ['inputs','histories','configurations'],'all data, widths, burst spacings (seamless and not), enable/disable points and query times',
 'Tests use a few bytes at one spacing.',
 [S+'util/dbi.h',S+'util/dbialgos.h',S+'util/dbihelpers.h',S+'util/dbitypes.h',S+'util/pin.h']+IFS,
 [('DBI algorithms',S+'util/dbialgos.h'),('DBI::updateDBI',S+'util/dbi.h'),('Pin',S+'util/pin.h')],
 ['readBus, writeBus, readDBI, writeDBI of getWindowStats'])

p('C15','LPDDR6 bursts carry data, metadata and inversion flags at their defined places',
 "An LPDDR6 transfer places every payload bit, metadata bit and inversion flag at its defined beat and line of the transmitted frame, for both burst lengths, and changing one payload or metadata bit changes exactly the corresponding position. Metadata set through the extension applies to the following bursts until changed.",
 ['inputs','histories','configurations'],'all payload and metadata values (each single bit), both burst lengths, inversion on or off',
 'Tests transfer a few constant payloads.',
 [S+'standards/lpddr6/LPDDR6Interface.cpp',S+'standards/lpddr6/LPDDR6Interface.h',S+'util/burst_storage.h',S+'util/extensions.h'],
 [('burst formatter',S+'standards/lpddr6/LPDDR6Interface.cpp')],['readBus/writeBus statistics of getWindowStats'])

p('C16','DDR4 read and write preambles and postambles merge exactly on seamless bursts',
 "Each DDR4 rank reports as seamless exactly those reads (writes) that start at the cycle the rank's previous read (write) ended, independently for reads and writes and for each rank; all other bursts pay the full configured preamble and postamble.",
 ['histories','inputs','configurations'],'all spacings and mixes of reads and writes over ranks',
 'Tests use two bursts.',
 [S+'standards/ddr4/DDR4Interface.cpp',S+'standards/ddr4/interface_calculation_DDR4.cpp',S+'dram/Rank.h'],
 [('handlePrePostamble',S+'standards/ddr4/DDR4Interface.cpp')],['rank_total[].prepos of getWindowStats'])

p('C17','Core energy equals the documented model applied to the reported statistics',
 "For every memory specification and every statistics record, each core energy component (activation, precharge, background, read, write, every refresh kind, power-down, self-refresh, deep sleep) equals the bank-wise power model of its standard summed over all voltage domains, ranks and devices, computed from the counts and cycles of the bank or rank it belongs to.",
 ['inputs','configurations'],'all statistics records and all currents, voltages, timings, bank-wise power factors, organisations and device counts',
 'Tests evaluate one specification per standard and rarely more than one rank or device.',
 stds('core_calculation_%s.cpp'),[('calcEnergy',S+'standards/*/core_calculation_*.cpp')],['calcCoreEnergy(t)','calcCoreEnergyStats(stats)'])

p('C18','Interface energy equals the documented model applied to the reported statistics',
 "For every memory specification and statistics record, static and dynamic interface energy on the controller and on the memory side equals the sum over clock, strobe, command, data and inversion lines of (time at the terminated level x termination power) and (transitions x load energy), each with its own impedance parameters and attributed to the side that drives the line.",
 ['inputs','configurations'],'all statistics records and all impedance, voltage and timing parameters',
 'Tests evaluate one parameter set per standard with most statistics zero.',
 stds('interface_calculation_%s.cpp'),[('calculateEnergy',S+'standards/*/interface_calculation_*.cpp')],['calcInterfaceEnergy(t)','calcInterfaceEnergyStats(stats)'])

p('C19','Totals are the sum of their parts, scale with devices and never decrease',
 "Total energy is exactly the core total plus the interface total, and each of these is the sum of its published components over all banks, ranks and devices. Identical devices contribute identical bank energies, and with physically sensible parameters every component is non-negative and no component decreases as time passes or commands are added.",
 ['inputs','histories','configurations'],'all histories, specifications and device counts; all pairs of query times',
 'Tests compare single values for one device count.',
 [S+'data/energy.cpp',S+'data/energy.h',S+'dram/dram_base.h',S+'data/stats.h'],[('energy_t::total, aggregated_bank_energy, operators',S+'data/energy.cpp'),('getTotalEnergy',S+'dram/dram_base.h')],['getTotalEnergy(t)','calcCoreEnergy(t)','calcInterfaceEnergy(t)'])

p('C20','Saving and restoring a simulation is invisible',
 "At any point where the simulation declares itself serializable, saving it and restoring it into a simulation of the same specification, freshly constructed or used before with nothing left pending, yields a simulation that reports the same statistics and energies now and after any continuation as one that was never saved.",
 ['histories','crash_points','configurations'],'all save points in all legal histories (open rows, active power-down, bursts in flight, inversion and metadata state, toggling mode, pending bus transitions) and all continuations',
 'Tests save at a few points and compare a few numbers right after restoring.',
 [S+'util/Serialize.h',S+'util/Deserialize.h',S+'dram/Rank.cpp',S+'dram/Bank.h',S+'util/bus.h',S+'util/databus.h',S+'util/dbi.h',S+'util/pin.h',S+'util/clock.h',S+'util/PatternHandler.h']+IFS+CORES,
 [('serialize/deserialize of every component','src/DRAMPower/DRAMPower/**')],['serialize()','deserialize()','isSerializable()','getWindowStats(t)'])

p('C21','Copies and moved simulations are complete and independent',
 "A copied, assigned or moved simulation reports what the original would have reported, under every continuation, and nothing done afterwards to one of the two objects, including enabling extensions or destroying it, affects the other.",
 ['histories','programs'],'all copy, assignment and move points in all histories and all continuations of either object',
 'Tests never copy a simulation object in mid-history.',
 [S+'dram/dram_base.h',S+'util/extension_manager.h',S+'util/extensions.h']+IFS+stds('%s.cpp'),[('defaulted copy and move operations of the simulation classes',S+'standards/*/*.h'),('extension and router callbacks',S+'util/extensions.h')],['getWindowStats(t) of both objects'])

p('C22','Bit vectors behave as mathematical bit vectors of their size',
 "Bit vectors of any length behave as the mathematical sequence of that many bits: indexing, pushing, setting, clearing, complement, and/or/xor, counting, comparison and conversion agree with the bitwise definition for every length including those that are not a multiple of the machine word, no operation exposes bits beyond the length, and out-of-range access is refused.",
 ['inputs','programs'],'all lengths (word boundaries included), all contents and all sequences of operations',
 'The 20-odd unit tests use lengths below 64 or a few constants.',
 [S+'util/dynamic_bitset.h',S+'util/sub_bitset.h',S+'util/binary_ops.h'],[('dynamic_bitset operations',S+'util/dynamic_bitset.h'),('sub_bitset operations',S+'util/sub_bitset.h')],['public operations of the bit vector types'])

p('C23','Interval counters measure exactly the time they were open',
 "An interval counter's total at a time equals the number of cycles before that time in which it was open, for every sequence of start, conditional start, close, reset and query operations; closing a closed counter or querying changes nothing.",
 ['histories','programs'],'all operation sequences and query times, signed and unsigned time types',
 'Unit tests sample a dozen fixed sequences.',
 [S+'util/cycle_stats.h'],[('interval_counter',S+'util/cycle_stats.h')],['interval_counter public methods'])

p('C24','Extensions are found exactly when registered and their hooks run exactly once',
 "An extension can be found and used if and only if it was registered, through the simulation and through the generic extension managers, every call reaches exactly the registered object, static hooks call every extension that implements the hook exactly once in order and no other, and an extension's reported setting is always the last one that was accepted.",
 ['programs','histories','inputs'],'all registration and call sequences over sets of extensions',
 'Tests register one or two extensions.',
 [S+'util/extension_manager.h',S+'util/extension_manager_static.h',S+'util/extensions.h',S+'util/extensions.cpp',S+'util/extension_base.h'],[('ExtensionManager / StaticExtensionManager',S+'util/extension_manager*.h')],['extension manager public methods'])

p('C25','Command names and command types correspond one to one',
 "Every command type that can be written as a name is read back from that name as the same type, distinct types have distinct names, any other text reads as no operation, and which commands carry data is the same for every part of the system.",
 ['inputs'],'all command types and arbitrary strings',
 'Tests use the names of the commands they need.',
 [S+'command/CmdType.h',S+'command/Command.h',S+'command/Command.cpp'],[('CmdTypeUtil',S+'command/CmdType.h')],['CmdTypeUtil::to_string / from_string'])

p('C26','Derived memory parameters follow from the specification for every configuration',
 "For every memory specification, the organisation, refresh timing selected by the refresh mode, read- and write-to-precharge delays, burst durations, bank architecture, currents with their documented defaults and impedance parameters used by the simulation are those the specification's fields determine, including every optional field present or absent.",
 ['configurations','inputs'],'all field values and all combinations of optional fields of the five standards',
 'Tests load one file per standard.',
 [S+'memspec/MemSpec%s.cpp'%n for n in ('DDR4','DDR5','LPDDR4','LPDDR5','LPDDR6')],[('MemSpec constructors',S+'memspec/*.cpp')],['public fields of the MemSpec types','getWindowStats(t)','calcCoreEnergy(t)'])

p('C27','The command-line run gives the same result as driving the library directly',
 "Reading a command list file and running it yields exactly the commands written in it, in order, with their coordinates, times and data, and reports the same statistics and energies as issuing those commands through the library, printed or written to the file named for it; rows with missing or malformed numbers or data, commands for ranks or banks the memory does not have, unusable configurations and unusable places for the result are rejected rather than misread.",
 ['inputs','histories'],'all command list files (every command, coordinate value, data word, optional columns, malformed rows) and configurations',
 'There are no tests of the command line program.',
 ['src/cli/lib/DRAMPower/cli/run.cpp','src/cli/lib/DRAMPower/cli/util.cpp','src/cli/lib/DRAMPower/cli/config.h','src/cli/main/main.cpp','src/cli/main/validators.cpp'],[('parse_command_list / jsonFileResult / runCommands','src/cli/lib/DRAMPower/cli/run.cpp')],['result file of the command line library'])

p('C28','Reports carry every number under its own name',
 "The JSON reports and the printed or written results of a run contain every published component of the statistics and energies exactly once under its own name, bank, device and rank with the value of that component, and adding statistics or energy records adds every component.",
 ['inputs'],'all statistics and energy records',
 'Tests do not check the reports field by field.',
 [S+'data/stats.h',S+'data/energy.h',S+'data/energy.cpp'],[('to_json and operator+=',S+'data/energy.cpp'),('stats operators and to_json',S+'data/stats.h')],['to_json','operator+=','operator+'])

p('C29','A deferred command takes effect exactly once, in time order and never early',
 "A command whose effect is scheduled for a later time takes effect exactly once, when the simulation has advanced to that time and never before, in the order of the scheduled times and, at equal times, in the order in which they were scheduled; advancing in many steps or one gives the same sequence, no scheduled command is lost, and the time of the last effect is remembered.",
 ['schedules','histories'],'all sequences of schedulings and advances',
 'The tests schedule one or two commands and look at the result once.',
 [S+'util/ImplicitCommandHandler.h'],[('ImplicitCommandHandler',S+'util/ImplicitCommandHandler.h')],['addImplicitCommand','processImplicitCommandQueue','implicitCommandCount'])

p('C30','A group of lines counts exactly the beats during which it is switched on',
 "A bus, an estimator of toggling activity, a data bus of any width up to 4096 that changes between the two, or a clock reports, at every time, the ones, zeros and transitions of its lines in exactly the beats before that time during which it was switched on: nothing is counted while it is off, a burst ends with the time on in which it began, it starts again from its idle level, each beat of a data bus is seen by either the bus or the estimator, a changed toggling definition prices all the estimator's beats, and saving and restoring it in any state changes nothing. A single pin, which can float, likewise counts the levels and toggles of the beats before that time, at whatever rate its bursts and the queries are given.",
 ['histories','schedules'],'all sequences of bursts, switchings, queries and save/restore of a line group; all widths, data rates, idle levels',
 'The unit tests switch a bus off and on once, before any burst or long after one.',
 [S+'util/bus.h',S+'util/databus.h',S+'util/databus_presets.h',S+'util/burst_storage.h',S+'util/pending_stats.h',S+'util/clock.h',S+'util/pin.h',S+'dram/Interface.cpp'],[('Bus::load/enable/disable/get_stats',S+'util/bus.h'),('Pin::set/get_stats_at',S+'util/pin.h'),('DataBus::enableBus/enableTogglingRate',S+'util/databus.h'),('TogglingHandle',S+'dram/Interface.cpp'),('Clock::start/stop',S+'util/clock.h')],['get_stats','enable','disable'])

p('C31','The array and the interface of a memory can be driven together or apart',
 "A history gives the same bank, rank and interface statistics and last command time whether each command is given to the memory at once, or to its array side and its interface side separately, one side ahead of the other by any number of commands and in any order between the sides; neither side's results depend on what the other was given.",
 ['histories','schedules'],'all histories with every interleaving of core-only, interface-only and whole commands',
 'The tests use one entry point throughout; none mixes them.',
 [S+'dram/dram_base.h']+[S+f'standards/{x.lower()}/{x}.h' for x in ('DDR4','DDR5','LPDDR4','LPDDR5','LPDDR6')],[('doCommand / doCoreCommand / doInterfaceCommand',S+'dram/dram_base.h')],['doCommand','doCoreCommand','doInterfaceCommand','getLastCommandTime'])

p('C32','A command a memory cannot carry out leaves no trace',
 "A command addressed to a rank or bank that the memory does not have, or that it cannot carry out in its configuration (a two-bank refresh of an LPDDR5 memory with eight banks), is refused with an exception, and one that the memory's standard does not know is passed over by array and interface alike (compiled without assertions). Either way nothing but the passing of time changes: every later statistic and energy is that of the same history without it.",
 ['inputs','histories','configurations'],'all histories with such commands anywhere in between; all commands, ranks and banks outside the organisation, organisations and standards',
 'No test gives a command outside the organisation or the standard.',
 CORES+IFS+[S+'util/RegisterHelper.h'],[('bank, rank and bank group handlers',S+'util/RegisterHelper.h'),('doCommand switch',S+'standards/*/*Core.cpp')],['doCommand','doCoreCommand','doInterfaceCommand','getWindowStats'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
