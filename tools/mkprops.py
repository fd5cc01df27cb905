#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Parallel runs neither lose nor duplicate agents",
  "In a parallel run on any number of processes, every agent that is inserted, spawned or loaded is held by exactly one process, with its attributes unchanged, until its location is explicitly cleared. The total number of agents that the simulation reports is the same on every process and equals the agents added minus the agents cleared, also while roads are closed and reopened under travelling agents.",
  ["schedules", "inputs", "histories", "configurations"],
  "All process counts, parallel and latency modes, process schedules, and histories of insert / spawn / clear / close / reopen / evolve operations.",
  "The repository's tests run the parallel module on one process at most; distribution over several processes, uneven remainders and closures under travelling agents are never executed.",
  ["flee/pflee.py"],
  [("round-robin agent placement by running total", "flee/pflee.py Ecosystem.addAgent/insertAgent"),
   ("total recomputed by reduction", "flee/pflee.py Ecosystem.updateNumAgents"),
   ("removal and recount", "flee/pflee.py Ecosystem.clearLocationsFromAgents")],
  ["Ecosystem.numAgents() on every process", "the agents each process holds"],
  [("total agents", "replicated running total that also decides placement", "flee/pflee.py Ecosystem")])

p("C02", "Parallel head counts are identical and correct on every process",
  "After every completed time step and after every clear or explicit recount in a parallel run, the number of refugees that each process reports for every location and every open road is the same on all processes and equals the number of agents actually there, summed over all processes. The reported number of IDPs is the sum over IDP camps, the same on all processes, for any number of processes.",
  ["schedules", "inputs", "histories", "configurations"],
  "All process counts, both latency modes, both parallel modes, all histories of operations and agent distributions (including processes holding no agents).",
  "Needs more than one process; the tests never compare counters between processes.",
  ["flee/pflee.py"],
  [("sum of per-process counts, one buffer or one call per counter", "flee/pflee.py Ecosystem.updateNumAgents, MPIManager"),
   ("per-process counters", "flee/pflee.py Location/Link Increment/DecrementNumAgents"),
   ("IDP total", "flee/pflee.py Ecosystem.numIDPs")],
  ["Location.numAgents, Link.numAgents, Ecosystem.numIDPs() on every process after each operation"])

p("C03", "Location scores and fixed routes agree across processes and are fresh",
  "In every time step of a parallel run, the attractiveness of every location and, with fixed routes, the route table (destinations, paths and weights) of every location are the same on every process, and equal what the sequential code computes for the same day and the same state of locations and roads. This holds in both parallel modes, for any number of locations and processes, also after closures, conflict changes and location type changes.",
  ["schedules", "inputs", "histories", "configurations"],
  "All process counts (including more processes than locations), modes, networks and histories of closures and conflict changes.",
  "Score exchange between processes only happens with more than one process, which no test uses.",
  ["flee/pflee.py", "flee/scoring.py", "flee/crawling.py"],
  [("block distribution of locations and gather of scores", "flee/pflee.py Ecosystem.evolve / synchronize_locations"),
   ("score formula", "flee/scoring.py updateLocationScore"),
   ("route generation", "flee/crawling.py generateLocationRoutes")],
  ["Location.getScore(1) and Location.routes on every process after each step"])

p("C04", "Parallel runs never deadlock or mismatch collective operations",
  "In a parallel run all processes perform the same sequence of collective communications with compatible buffers, so every operation sequence completes on every process whatever the relative speed of the processes, the number of agents each of them holds, the modes and the logging level. No process aborts on a legal workload.",
  ["schedules", "inputs", "configurations", "histories"],
  "All interleavings and delays of processes, process counts, agent distributions (including empty processes) and settings.",
  "With one process every collective is trivially matched.",
  ["flee/pflee.py", "flee/coupling.py", "runscripts/run_par.py"],
  [("collective calls on every path", "flee/pflee.py MPIManager, updateNumAgents, synchronize_locations, evolve"),
   ("broadcast of coupled data", "flee/coupling.py CouplingInterface.Couple")],
  ["completion of every operation on every process"])

p("C05", "Parallel and sequential runs agree when nothing is left to chance",
  "For a scenario in which no decision depends on chance (all move chances are zero or one and each agent has one possible route), a parallel run reports for every day the same number of agents at every location and on every road as the sequential run. This holds for every number of processes, parallel mode, latency mode and random seed.",
  ["schedules", "inputs", "configurations", "histories"],
  "All chance-free scenarios, process counts, modes, per-process seeds and schedules.",
  "The tests never run the two implementations against each other.",
  ["flee/pflee.py", "flee/flee.py", "flee/moving.py"],
  [("shared movement rules", "flee/flee.py Person.evolve / finish_travel"),
   ("parallel step", "flee/pflee.py Ecosystem.evolve")],
  ["per-day Location.numAgents / Link.numAgents of the sequential and the parallel run"])

p("C06", "Spawning is replicated consistently over processes",
  "When agents are spawned in a parallel run (by displacement data, constant or random conflict-driven rates, or explicitly), all processes report the same number of new agents, the same remaining population of every location, the same spawned totals and the same debt. A location's population decreases by exactly the number of agents spawned there, its spawned total equals that number, and the agents all exist at that location.",
  ["schedules", "inputs", "configurations", "histories"],
  "All process counts, spawn modes, per-process random states and schedules.",
  "Needs several processes with differing random states; tests use one process.",
  ["flee/pflee.py", "flee/spawning.py", "flee/flee.py"],
  [("population and spawn counters", "flee/pflee.py Ecosystem.addAgent, evolve (spawn counts)"),
   ("choice of spawn locations", "flee/flee.py Ecosystem.pick_spawn_locations"),
   ("daily displacement", "flee/spawning.py spawn_daily_displaced")],
  ["Location.pop, Location.numAgentsSpawned on every process", "agents by home location"])

p("C07", "Daily displacement accounts for every refugee in the data",
  "On every day the number of agents spawned so far minus the refugee debt (data decreases not yet made up for) equals the cumulative change of the number of displaced people in the data (from day 1 on, if the refugees of day 0 are placed in the camps), and the debt is never negative. Those of day 0 are placed in the camps in which the data have them, unless settings leave them out. With take-from-population each spawned agent takes exactly one person from the location it starts in and no population becomes negative, and new agents start only in locations that are conflict zones on that day (or flooded ones under flood-driven spawning), in the configured number.",
  ["inputs", "histories", "configurations"],
  "All displacement time series (rising, falling, oscillating), spawn settings, conflict schedules and populations.",
  "Tests use a handful of fixed series and short horizons; debt carried over several days and its repayment is not exercised.",
  ["flee/spawning.py", "flee/flee.py", "flee/datamanager/handle_refugee_data.py", "flee/datamanager/DataTable.py"],
  [("daily difference, debt", "flee/spawning.py spawn_daily_displaced"),
   ("spawn weights", "flee/spawning.py refresh_spawn_weights"),
   ("population decrement", "flee/flee.py Ecosystem.addAgent")],
  ["return value of spawn_daily_displaced", "Ecosystem.numAgents()", "Location.pop", "home locations of new agents"])

p("C08", "Head counts always match where the agents are",
  "In a sequential run, after every operation (insert, spawn, time step, clear, road or border or location closure and reopening, location type change) the number of refugees reported for each location and each open road equals the number of agents actually present there. No agent disappears or is duplicated other than by inserting or clearing, and the reported total equals the agents inserted and spawned minus those cleared.",
  ["histories", "inputs", "configurations"],
  "All networks and all histories of operations, including clearing locations and closing roads with agents on them.",
  "Tests check single counters after fixed short scenarios; counters drift only under particular sequences.",
  ["flee/flee.py"],
  [("increment/decrement on each transition", "flee/flee.py Person.handle_travel"),
   ("clearing", "flee/flee.py Ecosystem.clearLocationsFromAgents"),
   ("link close/reopen", "flee/flee.py Ecosystem._remove_link_1way/_reopen_link_1way")],
  ["Location.numAgents, Link.numAgents, Ecosystem.numAgents(), agents' positions"])

p("C09", "Agents only travel along open roads, without teleporting",
  "In each time step an agent moves only along roads that are open that day, each starting where the previous one ended, and a journey that is longer than a day continues on the same road until its length is covered. An agent travelling on a road that is closed under it returns to the road's start and not to its destination; an agent at a location with no open road stays there.",
  ["histories", "inputs", "configurations"],
  "All networks, closure schedules, awareness levels, fixed-route and free-route modes, and random choices.",
  "Requires closures to hit while particular agents are in transit, and multi-hop days; the tests have a few fixed cases.",
  ["flee/flee.py", "flee/moving.py", "flee/crawling.py"],
  [("route following", "flee/flee.py Person.take_next_step"),
   ("arrival or return", "flee/flee.py Person.finish_travel"),
   ("route selection", "flee/moving.py selectRoute")],
  ["agent positions between consecutive steps, visited locations"])

p("C10", "No agent travels further in a day than its speed allows",
  "In one time step an agent covers at most the distance that the applicable daily speed limit allows (maximum move speed, a road's own speed limit, or walking speed where it applies), also when it passes several locations in one day. The total distance recorded for an agent equals the lengths of the roads whose journey it ended (at the far end or, if the road was closed under it, back at its start).",
  ["histories", "inputs", "configurations"],
  "All networks with roads shorter than, equal to and longer than a daily range, chains of short roads, road speed limits, walking rules and random choices.",
  "Needs multi-hop days over particular combinations of road lengths and speed limits.",
  ["flee/flee.py"],
  [("distance bookkeeping", "flee/flee.py Person.finish_travel"),
   ("daily reset", "flee/flee.py Ecosystem.evolve")],
  ["positions, progress on roads and distances in agent logs and agent state between steps"])

p("C11", "Closure schedules open and close exactly the scheduled roads and camps",
  "At every time the set of open roads, camp states and forced-redirection flags is exactly what the schedule of closures (country borders, locations, roads, camps, IDP camps, redirections) up to that time prescribes: a closure takes effect on its start day, is undone on its end day, and affects only the named objects, in the directions asked for. Closures act as events in the order of the list: the start of each closes and the end of each reopens the objects it names, also where closures overlap. A closed and reopened road has its original endpoints, length and attributes, and no road is lost or doubled by any sequence of overlapping closures. A call that closes, reopens or removes a road reports whether any road was changed, and the exported graph and the list of camps are those of the moment.",
  ["histories", "inputs", "configurations"],
  "All networks and schedules of overlapping, nested, repeated and one-way closures.",
  "Tests close and reopen a few individual objects; overlaps and one-way modes are not covered.",
  ["flee/flee.py", "flee/InputGeography.py"],
  [("schedule execution", "flee/flee.py Ecosystem.enact_border_closures"),
   ("close/reopen primitives", "flee/flee.py _remove_link_1way, _reopen_link_1way, _change_location_1way, _change_border_1way"),
   ("schedule reading", "flee/InputGeography.py ReadClosuresFromCSV")],
  ["open and closed roads per location, camp flags, after each day"])

p("C12", "Conflict, flood and location-type schedules are applied on the right day",
  "On every day a location is a conflict zone, with the intensity that the input tables give for that day, exactly when the tables say so, flood levels equal the flood table's values of that day, and scheduled location-type changes take effect on their day. Spawn weights and location scores used that day follow from these values by the documented formulas.",
  ["histories", "inputs", "configurations"],
  "All conflict and flood tables, location change lists (for places without a conflict schedule), decay settings and networks.",
  "Tests use constant or single-change tables over few days.",
  ["flee/InputGeography.py", "flee/flee.py", "flee/spawning.py", "flee/scoring.py"],
  [("daily update", "flee/InputGeography.py AddNewConflictZones, UpdateLocationAttributes"),
   ("zone add/remove", "flee/flee.py add_conflict_zone, remove_conflict_zone, change_location_type"),
   ("weights", "flee/spawning.py refresh_spawn_weights; flee/scoring.py updateLocationScore")],
  ["Location.conflict/camp/town/attributes, Ecosystem.spawn_weights, scores after each day"])

p("C13", "Deactivated agents leave the active simulation for good",
  "With camps-are-sinks, agents are deactivated only at the end of a step, only in a camp that has a deactivation probability, always when it is 1 and never when it is 0; from then on they never move, are never reactivated and are not written to agent logs. They do not prevent later operations (steps, clearing, logging) from completing, in sequential and in parallel runs.",
  ["histories", "inputs", "configurations", "schedules"],
  "All networks with sink camps, probabilities and later operations, sequential and parallel.",
  "One sequential test with one camp; operations after deactivation and parallel runs are not tested.",
  ["flee/flee.py", "flee/pflee.py", "flee/Diagnostics.py", "flee/SimulationSettings.py"],
  [("deactivation", "flee/flee.py and flee/pflee.py Ecosystem.evolve"),
   ("skip in logs", "flee/Diagnostics.py write_agents_par"),
   ("setting", "flee/SimulationSettings.py ReadFromYML")],
  ["agents' positions, agent logs, operation completion"])

p("C14", "Nobody sets out for a camp that is full",
  "An agent never sets out on the final leg of, or any leg of, a route whose destination is a camp that already holds its scaled capacity of refugees at that moment (in parallel runs: at the last count). Camps without capacity, other locations and camps that hold no more than the buffered share (and less than all) of their scaled capacity are never refused on these grounds. The capacity is that of the input during the whole simulation, less the refugees of day 0 where insert_day0 and empty_camps_on_day0 leave them out of the simulation.",
  ["histories", "inputs", "configurations", "schedules"],
  "All networks, capacities, capacity scaling and buffer settings, and agent orders.",
  "Requires camps to fill up to the exact limit while others are under way.",
  ["flee/flee.py", "flee/moving.py"],
  [("full camp check", "flee/flee.py Person.check_dest_is_full_camp / take_next_step"),
   ("capacity multiplier", "flee/moving.py getCapMultiplier")],
  ["departures observed against head counts"])

p("C15", "Every legal scenario runs to completion",
  "On every legal scenario (any network shape, including isolated, dead-end, disconnected and fully closed ones; any documented setting such as awareness level 0 to 3, fixed routes, pruning, age, population and flood rules) each time step completes in bounded time without an error. Time advances by exactly one per step.",
  ["inputs", "configurations", "histories"],
  "All networks, documented settings and operation histories.",
  "Tests cover a few settings on well-connected networks.",
  ["flee/flee.py", "flee/moving.py", "flee/crawling.py"],
  [("route selection", "flee/moving.py selectRoute, calculateLinkWeight, pruneRoutes"),
   ("fixed routes", "flee/crawling.py generateLocationRoutes"),
   ("step", "flee/flee.py Ecosystem.evolve")],
  ["completion of Ecosystem.evolve()"])

p("C16", "File coupling delivers each exchange exactly once and complete",
  "In a file-coupled run, the number of agents each model takes in at a coupled location on a coupling day equals the mean over instances, rounded to a nearest integer, of the number that the other side wrote for that day, however the models interleave, however slowly or piecewise files are written, and when a writer is killed in the middle of writing and restarted from the beginning with the same inputs and seed. A model never consumes a partial, missing or doubly written exchange file.",
  ["schedules", "crash_points", "fault_sequences", "inputs"],
  "All interleavings of coupled models, write chunkings, short writes, delays, and writer crash and restart points.",
  "No test runs a coupled pair at all.",
  ["flee/coupling.py"],
  [("writing the exchange file", "flee/coupling.py writeOutputToFile"),
   ("waiting and reading", "flee/coupling.py waitForInputFiles, readInputFromFile")],
  ["agents inserted per coupled location and day on each side; content of exchange files"])

p("C17", "Agents are conserved across a coupled pair",
  "In a one-to-one coupled run, agents that leave one model through a coupled location appear in the other model on the same coupling day and nowhere else: the sum of agents over both models plus those in exchange equals all agents spawned. Agents at locations that are not coupled, or coupled only inwards, are untouched by an exchange.",
  ["schedules", "inputs", "histories", "configurations"],
  "All coupled networks, directions, spawn patterns, interleavings, sequential and parallel models.",
  "No test runs a coupled pair.",
  ["flee/coupling.py", "flee/flee.py", "flee/pflee.py"],
  [("exchange step", "flee/coupling.py Couple"),
   ("clear and insert", "flee/flee.py, flee/pflee.py clearLocationsFromAgents/insertAgents")],
  ["numAgents of both models after each coupling step"])

p("C18", "Coupled models advance in lockstep and never stall",
  "A coupled model never completes the coupling of day t before every instance of the other side has produced its data of day t, so models of opposite sides are never more than one day apart. As long as no model dies, all models reach the end of the run within a bounded number of polls, whatever the speeds, file-visibility delays, directory listing order or clock jumps.",
  ["schedules", "fault_sequences", "configurations"],
  "All relative speeds, stalls, clock jumps and visibility delays; all numbers of instances.",
  "Depends on schedules between independent programs.",
  ["flee/coupling.py"],
  [("waiting for all instances", "flee/coupling.py waitForInputFiles"),
   ("interval check", "flee/coupling.py Couple")],
  ["recorded history of days begun and finished by each model"])

p("C19", "Ensemble coupling uses the mean over all instances in any order",
  "When several instances are coupled, each receiving model takes in, per coupled location, the arithmetic mean over all instances of the other side rounded to a nearest integer, each instance counted exactly once, independently of the order in which instances produce their data and of instance start order. All receiving instances take in the same numbers.",
  ["schedules", "inputs", "configurations"],
  "All instance counts, values, names and arrival orders, for file coupling.",
  "No test has more than zero coupled instances.",
  ["flee/coupling.py"],
  [("aggregation", "flee/coupling.py readInputFromFile"),],
  ["agents inserted on each instance"])

p("C20", "MUSCLE3 managers aggregate and broadcast faithfully",
  "In a MUSCLE3-coupled run each manager receives exactly one message from each instance per coupling step and sends each instance the same per-location rounded mean of all of them; each model takes in exactly what the peer manager sent for that step, on all of its processes. This holds for all message delays and orders, and every participant finishes.",
  ["schedules", "fault_sequences", "configurations", "inputs"],
  "All message delays and reorderings between channels, instance counts, and process counts per model.",
  "MUSCLE3 needs a running manager; there are no tests.",
  ["flee/coupling.py"],
  [("manager branches", "flee/coupling.py Couple"),
   ("bcast to all processes", "flee/coupling.py Couple")],
  ["messages sent and received, agents inserted"])

p("C21", "Coupled-run logs and summed output reflect the run",
  "The exchange logs of a coupled model contain one row per coupling day, in order, with the totals and coupled-location numbers at the time of the exchange and the logged new refugees. The combined output file of an ensemble, computed when all instances have finished, contains for every day the mean over all instances, whatever order they finished in. The end of a run as in the multiscale run script (every instance saves its exchange logs, the first one then plots those of all instances and combines their outputs) succeeds for any length of the run and any progress of the other instances.",
  ["schedules", "inputs", "configurations"],
  "All instance counts, outputs and finishing orders.",
  "No test calls these functions.",
  ["flee/coupling.py"],
  [("logging", "flee/coupling.py logExchangeData, logNewAgents, saveExchangeDataToFile"),
   ("combining", "flee/coupling.py sumOutputCSVFiles")],
  ["log_exchange_data/*.csv, out.csv"])

p("C22", "Agent logs record every active agent in every step and survive crashes",
  "With agent logging on, the log of a run contains for every completed step exactly one end-of-step row per active agent (plus one row per intermediate stop at the higher levels) that matches the agent's true state, in step order after one header; parallel runs write one such file per process that together cover all agents. When the program is killed, all rows of completed steps are in the file and no earlier row is damaged.",
  ["histories", "crash_points", "inputs", "configurations", "schedules"],
  "All histories, log levels, granularities, agent populations (including none at the start), process counts and kill points.",
  "Tests never read the logs back and never kill a run.",
  ["flee/Diagnostics.py", "flee/flee.py", "flee/pflee.py"],
  [("writer", "flee/Diagnostics.py write_agents_par"),
   ("call per step", "flee/flee.py and flee/pflee.py Ecosystem.evolve")],
  ["agents.out.<rank>"])

p("C23", "Link logs count every entry onto every road",
  "With link logging on, each step's log has one row per open road giving the cumulative number of agent entries onto that road so far, per process in parallel runs, and with attribute logging the per-value counts add up to it. Counts never decrease and survive closing and reopening of the road.",
  ["histories", "inputs", "configurations", "schedules", "crash_points"],
  "All histories with closures, attribute sets, granularities and process counts.",
  "Tests do not read the link log.",
  ["flee/Diagnostics.py", "flee/flee.py", "flee/pflee.py"],
  [("entry counting", "flee/flee.py Link.IncrementNumAgents"),
   ("writer", "flee/Diagnostics.py write_links_par")],
  ["links.out.<rank>"])

p("C24", "A failed write is reported, never silently lost",
  "If writing an agent log, link log or coupling file fails (disk full or I/O error, at any byte), the step or exchange in progress reports the failure; a run that completes without an error (also because a retry succeeded) has complete files. A peer never takes in data from a write that failed.",
  ["fault_sequences", "crash_points", "inputs"],
  "All points and kinds of write failure (ENOSPC, EIO, short writes), for all output files of a step.",
  "Tests never inject I/O errors.",
  ["flee/Diagnostics.py", "flee/coupling.py"],
  [("log writing", "flee/Diagnostics.py"),
   ("exchange writing", "flee/coupling.py writeOutputToFile, saveExchangeDataToFile")],
  ["exceptions raised by the step; file contents"])

p("C25", "Runs with the same inputs and seeds are reproducible",
  "Two runs with the same input files, settings, random seeds and (in parallel) number of processes give identical results, logs and outputs. The result does not depend on hash seed, directory listing order, wall-clock time, process schedule, left-over files of earlier runs or on what ran before in the same process.",
  ["schedules", "configurations", "inputs", "fault_sequences"],
  "All schedules, hash seeds, listing orders, clock values and stale files.",
  "Tests do not repeat runs under varied environments.",
  ["flee/flee.py", "flee/pflee.py", "flee/spawning.py", "flee/moving.py", "flee/Diagnostics.py"],
  [("all randomness from the seeded generators", "flee/moving.py, flee/flee.py, flee/spawning.py"),
   ("input reading order", "flee/spawning.py read_demographics")],
  ["complete state after every step, output files"])

p("C26", "Simulations in one process do not influence each other",
  "Two simulations created in one program, run one after the other or with their steps interleaved, each give the results they give alone: agents, locations, roads, attributes, demographics, displaced totals and refugee debt of one are never visible in the other. Likewise locations, roads and agents of one simulation created without explicit attributes do not share them.",
  ["schedules", "histories", "inputs"],
  "All interleavings of operations of two simulations in one process (sequential code, common settings).",
  "Each test builds a single simulation and never compares.",
  ["flee/flee.py", "flee/spawning.py"],
  [("state held per simulation", "flee/flee.py Ecosystem, flee/spawning.py")],
  ["complete state of each simulation after each of its operations"])

p("C27", "Agents keep their identity, and demographics follow the input tables",
  "An agent's home location and attributes never change after creation, whatever happens to it or to other agents. Attributes drawn for a new agent come from the demographic tables of its own location (or the default column), as one entry per table, with frequencies proportional to the listed weights; a value with weight zero is never drawn.",
  ["histories", "inputs", "configurations", "schedules"],
  "All demographic tables, locations, spawn modes, agent files and histories, sequential and parallel.",
  "Tests check types of a few draws only.",
  ["flee/spawning.py", "flee/flee.py", "flee/pflee.py", "flee/InputGeography.py"],
  [("sampling", "flee/spawning.py draw_samples"),
   ("agents file", "flee/InputGeography.py ReadAgentsFromCSV"),
   ("attributes kept with agent", "flee/flee.py Person")],
  ["agent attributes and home location at creation and after every step"])

p("C28", "Camp arrival statistics match the arrivals that happened",
  "With camp logging on, the number of arrivals recorded for a step equals the number of times an agent reached a camp in that step, and the recorded average travel duration is the mean over these arrivals of the days since departure (since creation for an agent that has not moved before). A return to the start of a road that was closed is not an arrival. In a parallel run the figures on every process refer to the whole simulation.",
  ["histories", "inputs", "configurations", "schedules"],
  "All networks, histories, multi-hop days, sequential and parallel.",
  "Tests do not look at the arrival statistics.",
  ["flee/flee.py", "flee/pflee.py"],
  [("collection at arrival", "flee/flee.py Person.finish_travel"),
   ("aggregation", "flee/flee.py Ecosystem._aggregate_arrivals")],
  ["Ecosystem.num_arrivals, Ecosystem.travel_durations"])

p("C29", "The run scripts run what the input files describe and report what they ran",
  "The sequential and the parallel run script, given the same inputs, print one header and one row per simulated day in order, all by one process whatever their number, whose camp columns, totals, IDP total and debt are those of the simulation on that day; all rows have the columns the header names. On every day of the simulation the conflicts, closed roads and closed camps are those that the input files give for that day, one step is made, and the number of people grows by those displaced that day. For chance-free inputs both scripts print identical tables.",
  ["schedules", "inputs", "configurations"],
  "All input directories, durations, process counts and schedules.",
  "The scripts are not run by the tests.",
  ["runscripts/run.py", "runscripts/run_par.py", "flee/datamanager/handle_refugee_data.py", "flee/InputGeography.py"],
  [("daily loop", "runscripts/run.py, runscripts/run_par.py"),
   ("output on one process", "flee/pflee.py Ecosystem.getRankN")],
  ["standard output of the scripts"])

p("C30", "Input network files are represented exactly",
  "After reading locations, routes and closures files, the simulation contains exactly the locations, two-way roads, lengths, attributes, capacities or populations, countries and scheduled closures that the files describe, each once. A forced redirection is set on exactly the one direction that the file names. Major routes are known at both ends, one of them in each direction; comments, blank lines and padding are no routes. Short reads make no difference, a file that cannot be read or a road to a place that is not described fails the start, and the network stays as described while the simulation runs, apart from scheduled changes.",
  ["inputs", "configurations"],
  "All well-formed input directories.",
  "Tests read a few fixed directories and spot-check values.",
  ["flee/InputGeography.py", "flee/micro_InputGeography.py"],
  [("reading and storing", "flee/InputGeography.py ReadLocationsFromCSV, ReadLinksFromCSV, _ReadMajorLinksFromCSV, StoreInputGeographyInEcosystem")],
  ["Ecosystem.locations and their links after loading"])

p("C31", "Refugee data tables interpolate and correct counts consistently",
  "For any registration data the number of refugees on a day with data equals the data (after level-1 corrections, scaling and the sum of the files that make up a column, where a file without a number for that day counts with one between those of its neighbouring dates), between data points it lies on the line between them (or, without interpolation, keeps the last value), outside them it is the nearest value, and daily differences add up to the total difference. With empty camps on day 0 every number is less by that of day 0. Every answer depends only on the data and the corrections made so far, not on what was asked before, in what order, by which process or on which other table, and data that cannot be read fail the start.",
  ["histories", "inputs", "fault_sequences"],
  "All registration series and corrections, all orders of questions, read errors and short reads.",
  "Tests use a few fixed series, asked once in a fixed order.",
  ["flee/datamanager/DataTable.py", "flee/datamanager/handle_refugee_data.py"],
  [("interpolation", "flee/datamanager/DataTable.py get_interpolated_data, get_field, get_daily_difference"),
   ("corrections", "flee/datamanager/handle_refugee_data.py correctLevel1Registrations")],
  ["return values of get_field, get_daily_difference, is_interpolated"])

p("C32", "Validation error metrics follow their definitions",
  "The error and comparison metrics computed from simulation output (absolute, relative, averaged relative difference, MASE and related) equal their published definitions for all valid inputs.",
  ["inputs"],
  "All output and data tables.",
  "Tests do not call the metrics on more than trivial data.",
  ["flee/postprocessing/analysis.py", "flee/postprocessing/calc_error.py"],
  [("metrics", "flee/postprocessing/analysis.py")],
  ["return values"])

p("C33", "Settings left out have their documented defaults",
  "A simulation runs identically (same seeds, same results and output files) when any set of keys or whole sections of the settings file is left out instead of being given with its documented default, whatever the other keys are, in whatever order and YAML notation they are written, whether flood rules stand in their own subsection or in move_rules, and whatever settings another simulation has read before in the same process. The same holds for settings whose value cannot matter: the exponent of a rule that is switched off, a rule with exponent 0, the walking speed when nobody walks, the base of a population scaling with factor 0, a flood forecast of zero days, flood rules where nothing is ever flooded. A settings file that cannot be read fails the start.",
  ["inputs", "configurations", "histories"],
  "All settings files and all settings read earlier in the process.",
  "Tests read a few settings files, each in the form in which it was written.",
  ["flee/SimulationSettings.py"],
  [("parsing", "flee/SimulationSettings.py ReadFromYML"),
   ("process-wide tables that earlier settings leave behind", "flee/SimulationSettings.py SimulationSettings.move_rules, spawn_rules, log_levels")],
  ["simulation state, return values and output files"])

p("C34", "Random decisions follow the documented probabilities",
  "On every simulated day, the chance that an agent leaves its location, takes a given road, starts on foot, goes on from a place it reached on a short first journey the same day, starts in a given place, is deactivated in a sink, and the number of people displaced by chance are those that the documented formulas give for the current state of the simulation (move chances, location weights, distance softening and powers, awareness level, route pruning, population scaling, conflict decay, flood levels, full and nearly full camps). Agents facing the same decision decide independently of each other, in sequential and in parallel runs alike.",
  ["histories", "inputs", "configurations"],
  "All networks, rule settings and histories of conflicts, closures, floods and populations; awareness levels of at least 1, without ethnicity matching and flood forecasts; fixed routes are the matter of C35.",
  "Tests run one seedless random simulation and do not look at the distribution of decisions.",
  ["flee/moving.py", "flee/scoring.py", "flee/spawning.py", "flee/flee.py"],
  [("weights and routes", "flee/moving.py calculateLinkWeight, getEndPointScore, chooseFromWeights"),
   ("move chance", "flee/moving.py calculateMoveChance"),
   ("spawn weights", "flee/spawning.py"),
   ("deactivation", "flee/flee.py Person.evolve, Person.finish_travel")],
  ["positions of agents at the end of every simulated day"])

p("C35", "Fixed routes lead everyone the best way",
  "With fixed_routes, all agents that leave one place for the same destination on the same day take the same route, and it is the best one: no other way over roads that are open that day, of at most awareness_level steps, is shorter. Markers are passed through: they are never destinations and do not count as steps. Every place within that reach is a destination, those that are full excepted; where the places do not differ in attractiveness, each is chosen with the probability that the documented weights of its route's length and of its free capacity give (softening, powers, closeness to home and population included). An agent that lost its route, at a marker too, gets a new one. All of this holds in sequential and in parallel runs alike, and after every change of roads, conflicts, floods and types.",
  ["histories", "inputs", "configurations"],
  "All networks, movement settings and histories; awareness levels of at least 1, without major routes. How often the attractiveness of places enters is not documented, so probabilities are compared only where it is 1.",
  "The unit test builds the routes of one network once; it does not look at markers, changes or choices.",
  ["flee/crawling.py", "flee/moving.py", "flee/flee.py"],
  [("routes", "flee/crawling.py generateLocationRoutes, calculateLocCrawlLinkWeight, _addLocationRoute"),
   ("choice", "flee/moving.py selectRoute"),
   ("recalculation", "flee/flee.py Ecosystem._updateLocationRoutes")],
  ["positions and remaining routes of agents at the end of every simulated day"])

p("C36", "Observing a simulation does not change its course",
  "For the same inputs and seeds, the state after every step and the result of every operation are the same whatever is logged (agents, links, camps, conflicts, initial state, totals, granularity, exchanged data) and whatever is asked in between (numbers of agents and IDPs, the printed report, the exported graph), in serial, parallel and coupled runs. A query by itself changes nothing.",
  ["configurations", "histories", "inputs"],
  "All networks, rule settings, histories and combinations of log levels and queries; not what is only there to be logged (journey lengths, places visited). The run-time type checks of FLEE_TYPE_CHECK are left out: they draw from the global random generator by design of the library behind them.",
  "Tests with logging on look at whether files appear; none compares the course of a run with and without.",
  ["flee/Diagnostics.py", "flee/flee.py", "flee/pflee.py", "flee/coupling.py"],
  [("logs", "flee/Diagnostics.py write_agents, write_agents_par, write_links, write_links_par"),
   ("queries", "flee/flee.py Ecosystem.numAgents, numIDPs, printComplete, export_graph; flee/pflee.py"),
   ("collection for logs", "flee/flee.py Person.evolve, finish_travel (distance and places travelled)"),
   ("coupling logs", "flee/coupling.py logLocationsWriteHead, logLocationsNumAgents")],
  ["states after every operation, return values of operations"])

p("C37", "Names of places and countries are only names",
  "If the places and countries of all inputs are given other names, the same seeds give the same run: every state, result and log is the one of the original run with the names exchanged. This holds for names that are parts of one another, that differ only in case, that contain spaces, digits, punctuation or letters of any script, that sort differently or look like numbers or keywords, in sequential, parallel and coupled runs.",
  ["inputs", "histories", "configurations"],
  "All networks, input tables, settings and histories; names without commas, quotation marks and line breaks that do not start with # (they stand in tables), and not the reserved column names total and Default.",
  "Tests use one fixed set of plain names.",
  ["flee/flee.py", "flee/pflee.py", "flee/InputGeography.py", "flee/coupling.py", "flee/spawning.py", "flee/datamanager/DataTable.py"],
  [("lookup by name", "flee/flee.py Ecosystem._convert_location_name_to_index, close_link, reopen_link, _change_location_1way, _change_border_1way"),
   ("tables", "flee/InputGeography.py; flee/datamanager/DataTable.py; flee/spawning.py draw_sample"),
   ("coupling files", "flee/coupling.py")],
  ["states after every operation, return values, logs, states before and after exchanges"])

p("C38", "What is still to come has no effect yet",
  "If two sets of inputs agree on everything before a day, the runs agree up to that day for the same seeds: conflicts, floods, closures, location-type changes and conflict dates that lie ahead, entries of refugee data beyond the next one, further rows of tables and the length of the run change nothing before their time. Tables that end before a later day are sufficient for the days before it. The same holds for rows printed by the run scripts and for exchanges of coupled runs.",
  ["inputs", "histories", "configurations"],
  "All networks, settings and histories, serial, parallel and coupled; the flood table is known in advance where the flood forecaster is on, and the next entry of refugee data where data are interpolated.",
  "Tests run one set of inputs to its end.",
  ["flee/InputGeography.py", "flee/flee.py", "flee/spawning.py", "flee/datamanager/DataTable.py", "flee/coupling.py", "runscripts/run.py", "runscripts/run_par.py"],
  [("schedules", "flee/InputGeography.py AddNewConflictZones, UpdateLocationAttributes, ReadLocationChangesFromCSV; flee/flee.py Ecosystem.enact_border_closures"),
   ("data", "flee/datamanager/DataTable.py get_daily_difference, get_interpolated_data"),
   ("daily loop", "runscripts/run.py, runscripts/run_par.py")],
  ["states after every operation up to the day, return values, rows of the output, states before and after exchanges"])

p("C39", "With hasten, N times as many people give the same simulation",
  "The setting hasten divides every number of people that the input files give - populations, capacities and all refugee data, corrected or not - by the same factor, everywhere it is used. So a simulation in which all these numbers and hasten are N times as large behaves exactly as the one it was made from: same agents, states, capacities left, exhausted populations, day-0 placements, log files and rows of the run scripts, for the same seeds.",
  ["inputs", "configurations", "histories"],
  "All input directories, spawning modes, factors and numbers of processes; rates that are given as agents per day stay as they are.",
  "No test uses hasten.",
  ["flee/InputGeography.py", "flee/datamanager/DataTable.py", "flee/datamanager/handle_refugee_data.py", "flee/spawning.py", "runscripts/run.py", "runscripts/run_par.py"],
  [("places", "flee/InputGeography.py StoreInputGeographyInEcosystem"),
   ("data", "flee/datamanager/DataTable.py ConvertCsvFileToNumPyTable, get_daily_difference; flee/datamanager/handle_refugee_data.py correctLevel1Registrations"),
   ("factor", "runscripts/run.py, runscripts/run_par.py")],
  ["states after every operation, return values, log files, rows of the output"])

p("C40", "Places that nobody can come to have no influence",
  "A simulation depends on the places and roads that people can come to, not on what else the input files list. Adding places that have no road to any of the others (single ones or a network of their own), with nobody in them and nobody spawned there, at any position in locations.csv and routes.csv leaves everything else exactly as it was for the same seeds: agents, states and scores of the other places, spawn weights, closures, return values, log files and rows of the run scripts, sequential and parallel.",
  ["inputs", "configurations", "histories"],
  "All networks, kinds of places, positions of the added rows, settings and numbers of processes; in parallel, with parallel mode classic.",
  "Tests use fixed networks; none adds a place to an existing one.",
  ["flee/flee.py", "flee/pflee.py", "flee/InputGeography.py", "flee/scoring.py", "flee/spawning.py", "flee/crawling.py", "flee/Diagnostics.py", "runscripts/run.py", "runscripts/run_par.py"],
  [("names and positions", "flee/flee.py Ecosystem.addLocation, linkUp, _convert_location_name_to_index; flee/InputGeography.py StoreInputGeographyInEcosystem, AddNewConflictZones"),
   ("loops over places", "flee/flee.py Ecosystem.evolve, pick_spawn_locations; flee/spawning.py refresh_spawn_weights, spawn_daily_displaced; flee/pflee.py updateNumAgents, evolve")],
  ["states after every operation, return values, log files, rows of the output"])

p("C41", "Distances matter only in proportion to speeds",
  "Flee has no built-in unit of length: a simulation in which all road distances, the daily speed limits (max_move_speed, max_walk_speed, speed attributes of roads) and the distance softening are multiplied by the same factor is the same simulation. For the same seeds every agent makes the same choices and is in the same place on every day, with the distances on roads and in the logs multiplied by the factor; head counts, scores, closures, return values, the other log files and the rows of the run scripts are identical, sequential and parallel.",
  ["inputs", "configurations", "histories"],
  "All networks, settings (except stay_close_to_home, which uses coordinates, and use_v1_rules, which sets speeds itself), operation sequences, factors and numbers of processes.",
  "No test compares two simulations at different scales.",
  ["flee/flee.py", "flee/moving.py", "flee/crawling.py", "flee/scoring.py", "flee/pflee.py", "flee/InputGeography.py", "flee/SimulationSettings.py"],
  [("choices", "flee/moving.py calculateLinkWeight; flee/crawling.py _addLocationRoute, calculateLocCrawlLinkWeight"),
   ("travel", "flee/flee.py Person.finish_travel, Ecosystem.evolve")],
  ["states after every operation, return values, log files, rows of the output"])

p("C42", "Only the days since the start date matter, not the calendar",
  "Dates in the input (sim_period.csv, refugee data, registration_corrections.csv) only say how many days after the start something is. A simulation with all dates moved by the same number of days - to another month, year, century, over leap days or the end of a year - is the same simulation: for the same seeds the same people are displaced on the same days, all states, data values, corrections and log files are identical, and the rows of the run scripts differ in nothing but the date column, which is moved by that number of days.",
  ["inputs", "configurations", "histories"],
  "All input directories, spawning modes, corrections, start dates and numbers of processes.",
  "The tests use a handful of fixed dates.",
  ["flee/datamanager/DataTable.py", "flee/datamanager/handle_refugee_data.py", "flee/datamanager/read_period.py", "flee/spawning.py", "runscripts/run.py", "runscripts/run_par.py"],
  [("dates", "flee/datamanager/DataTable.py subtract_dates, steps_to_date, _processEntry; flee/datamanager/read_period.py read_sim_period"),
   ("corrections", "flee/datamanager/handle_refugee_data.py ReadL1Corrections, correctLevel1Registrations"),
   ("rows", "runscripts/run.py, runscripts/run_par.py")],
  ["states after every operation, return values, log files, rows of the output"])

p("C43", "The order of input that names what it belongs to has no meaning",
  "Columns and rows that carry the name of what they belong to may stand in any order: settings in simsetting.yml, columns of conflicts.csv and flood_level.csv, columns of demographics files, attribute columns of locations.csv and routes.csv, rows of data_layout.csv (after the total), sim_period.csv, registration_corrections.csv, and rows of closures.csv that act on different days. A simulation with these in another order is exactly the same one for the same seeds: states, return values, log files and rows of the run scripts, sequential and parallel.",
  ["inputs", "configurations", "histories"],
  "All input directories, orders, spawning modes and numbers of processes; the order of places and roads is kept.",
  "Tests use fixed input files, mostly in the documented order.",
  ["flee/InputGeography.py", "flee/SimulationSettings.py", "flee/spawning.py", "flee/datamanager/DataTable.py", "flee/datamanager/handle_refugee_data.py", "flee/datamanager/read_period.py", "runscripts/run.py", "runscripts/run_par.py"],
  [("tables", "flee/InputGeography.py ReadConflictInputCSV, ReadAttributeInputCSV, ReadLocationsFromCSV, ReadLinksFromCSV, ReadClosuresFromCSV"),
   ("demographics", "flee/spawning.py read_demographic_csv, draw_sample"),
   ("data", "flee/datamanager/DataTable.py DataTable; flee/datamanager/read_period.py read_sim_period"),
   ("settings", "flee/SimulationSettings.py ReadFromYML")],
  ["states after every operation, return values, log files, rows of the output"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
