"""Single source for properties.jsonl and MANIFEST.json (run tools/gen.py)."""

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None,
         observe=None, level="model_checking", claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, state=state,
                  observe=observe, level=level, claimed=claimed, reason=reason))


STD = ("Exhaustive within the stated bounds on the real Python code imported from /repo; trusts the "
       "harness (random-choice interception, reference model) and CPython/numpy/pandas. ")

prop("C01", "Agents are conserved and place counters always match",
     "At every step boundary each displaced agent is in exactly one place (a settlement or a road), and every settlement's and road's occupancy counter equals the number of agents actually there. The number of agents in the simulation changes only when agents are explicitly added, inserted or cleared, by exactly that amount: time steps, closures, reopenings, road removals and type changes never create, lose or duplicate agents.",
     ["histories", "inputs"],
     "every sequence (to a depth) of time steps, agent additions, clearings, road/location/border closures and reopenings, on every small graph in the set, for every outcome of the random draws",
     "Existing tests check a total or one counter after one scripted run with one random seed; conservation must hold for every interleaving of operations and every random outcome.",
     ["flee/flee.py"],
     [("Person.handle_travel decrement/increment", "flee/flee.py:103"), ("Ecosystem.evolve", "flee/flee.py:1640"), ("addAgent/insertAgent/clearLocationsFromAgents", "flee/flee.py:1770")],
     "explicit-state BFS over operation histories of the real ecosystem with every random choice enumerated; accounting invariant on every state",
     STD + "Bounds: graphs of 2-4 places, 1-3 agents, histories to depth 3-5.",
     state=[("Location.numAgents/Link.numAgents", "occupancy counters", "flee/flee.py")],
     observe=["Ecosystem.agents", "Location.numAgents", "Link.numAgents", "Ecosystem.numAgents()"])

prop("C02", "Road travel: arrival day, daily progress and closed-road return",
     "An agent on a road advances by its travel speed of that day and arrives at the far end on the first day its accumulated distance exceeds the road length, never earlier or later and never anywhere else. If the road it is on was closed in the meantime, it is returned to the settlement where it entered instead. The speed is the general maximum, or the road's own maximum if given, or walking speed when travelling its first leg under the start-on-foot rule or with the road's walking probability.",
     ["inputs", "histories"],
     "every road length, speed setting, walking-probability outcome and closing day in the grid, for journeys of several days",
     "Tests run one or two fixed lengths with default speeds; boundary lengths, per-road speeds, walking outcomes and mid-journey closures are not covered.",
     ["flee/flee.py"],
     [("Person.finish_travel", "flee/flee.py:226"), ("Link.closed", "flee/flee.py:970")],
     "lockstep exhaustive exploration of journeys against a reference traveller, enumerating lengths, speeds, closing days and every walk/drive outcome",
     STD + "Bounds: chains of up to 3 roads, lengths on a boundary grid, up to 8 days.",
     observe=["Person.location", "Person.travelling", "Person.distance_travelled_on_link"])

prop("C03", "No agent covers more than its maximum speed in one day",
     "Within a single time step the total distance an agent covers, over all the roads it travels that day, never exceeds its maximum travel speed. An agent that reaches a settlement with distance to spare may continue the same day, but only with what is left of the day; if it does stop it starts the next leg on a later day.",
     ["inputs", "histories"],
     "every chain of road lengths in the grid and every random outcome, over several days",
     "Tests only look at final populations after many days; over-speeding on the second leg of a day is invisible to them.",
     ["flee/flee.py"],
     [("Person.finish_travel evolveMore branch", "flee/flee.py:270")],
     "exhaustive exploration of multi-leg days on chain graphs with an odometer monitor",
     STD + "Bounds: chains of up to 4 roads, lengths on a grid, 3-4 days.",
     observe=["Person.location", "Person.distance_travelled_on_link", "Person.distance_travelled (agent log level 1)"])

prop("C04", "Daily departure probability follows the settlement's move chance",
     "The probability that an agent in a settlement departs on a day equals the settlement's move chance (given by its type and settings, scaled by the documented population factor, overridden by the flood move chance where flooded), capped at one. Passing through a town on a short stint under the avoid-short-stints rule it always continues; closed-off or empty surroundings never make it fail.",
     ["inputs", "configurations"],
     "every settlement type, population, capacity, scaling factor, flood level and stint history in the grid, with the probability computed exactly over all random draws",
     "A unit test can only sample a probability; the tests use certain (0 or 1) chances.",
     ["flee/moving.py", "flee/flee.py"],
     [("calculateMoveChance", "flee/moving.py:340"), ("Person.evolve draw", "flee/flee.py:195")],
     "exact probability computation by symbolic-interval enumeration of the uniform draws of one real time step",
     STD + "Random draws are intercepted as lazily refined intervals so probabilities are exact.",
     observe=["distribution of Person.location after Ecosystem.evolve()"])

prop("C05", "Route discovery finds exactly the loop-free routes within awareness",
     "The routes an agent considers from a settlement are exactly the loop-free open paths whose number of settlements (markers not counted) is within the awareness level, each once per distinct sequence of roads, and none that ends at a marker. At awareness zero the agent picks one of its adjacent roads uniformly. Discovery always terminates.",
     ["inputs", "configurations"],
     "every directed graph up to 4 nodes (5 in thorough), every marker placement, every awareness level 0..4 and parallel roads",
     "Tests list the routes on one toy graph per awareness level; cyclic, directed, closed and marker-chained graphs are unexplored.",
     ["flee/moving.py"],
     [("calculateLinkWeight recursion", "flee/moving.py:205"), ("selectRoute", "flee/moving.py:470")],
     "exhaustive enumeration of all small graphs; real route set compared with an independent path enumerator",
     STD + "Bounds: all directed graphs on <=4 labelled nodes with marker subsets.",
     observe=["moving.selectRoute", "Person.route"])

prop("C06", "Route weights follow the documented formula",
     "The weight of a considered route is ((weight softening + destination attractiveness) / (distance softening + total route length)^distance power x capacity factor)^weight power. The attractiveness includes the documented population, home-distance, flood and demographic (ethnicity, age, gender) multipliers when enabled, and the distance is the sum over all roads of the route including those through markers.",
     ["inputs", "configurations"],
     "every combination of formula settings, destination kinds, populations, distances and agent attributes in the grid",
     "Tests assert a handful of weights with default settings; settings interactions (powers, softening, population, home distance, flood, demographics) are not exercised.",
     ["flee/moving.py"],
     [("calculateLinkWeight", "flee/moving.py:180"), ("getEndPointScore", "flee/moving.py:18")],
     "exhaustive enumeration of setting/topology combinations against a reference formula",
     STD + "Bounds: grid of settings, graphs up to 4 settlements. Flood forecasting weights are outside the claim.",
     observe=["moving.selectRoute(return_all_routes=True)"])

prop("C07", "Routes are chosen with probability proportional to weight, after pruning",
     "An agent picks each considered route with probability proportional to its weight, and uniformly when all weights are zero. When pruning is enabled, exactly the routes whose weight is below the best weight divided by the threshold are dropped; every kept route keeps its own weight and the best route is always kept. With no route available the agent simply stays. With fixed routes, the probability is proportional to the weight of the route the settlement holds times the attractiveness of its destination for the agent and its capacity factor.",
     ["inputs", "configurations"],
     "every weight vector up to length 4 over a value grid (including zeros, ties and duplicates) and every threshold in the grid, and end-to-end on small graphs",
     "A random selection cannot be settled by sampling, and tests only prune one hand-made list.",
     ["flee/moving.py", "flee/flee.py"],
     [("pruneRoutes", "flee/moving.py:440"), ("normalizeWeights/chooseFromWeights", "flee/moving.py:290")],
     "exact distribution of the real selection over all random outcomes, compared with the proportional rule for every weight vector",
     STD + "Bounds: vectors up to length 4-5 on a value grid.",
     observe=["distribution of Person.route / chosen next settlement"])

prop("C08", "Full destinations are avoided",
     "A destination's capacity factor is 1 up to the buffer fraction of its scaled capacity, 0 at or above the scaled capacity, and falls linearly and monotonically in between; places without a capacity are never full. No agent newly picks a route to a full destination while alternatives exist, and an agent under way drops its route at the next settlement when the camp it is heading to has become more than half way into the buffer.",
     ["inputs", "configurations", "histories"],
     "every occupancy from empty to beyond full, every capacity, buffer and scaling value in the grid, and every multi-hop journey whose destination fills up at each possible day",
     "Tests never approach a capacity limit.",
     ["flee/moving.py", "flee/flee.py"],
     [("getCapMultiplier", "flee/moving.py:140"), ("check_dest_is_full_camp/take_next_step", "flee/flee.py:120")],
     "exhaustive occupancy sweep plus enumeration of journeys with the destination filling at every point",
     STD + "Bounds: capacities up to 20 agents, buffer/scaling grid.",
     observe=["moving.getCapMultiplier", "Person.route", "Person.location"])

prop("C09", "Destination attractiveness follows type, country and conflict age",
     "At every time step a settlement's base attractiveness is the product of the foreign weight if abroad, the camp weight if a camp, and the conflict weight raised to (conflict intensity x decay for the time since the conflict started) if in conflict; otherwise 1. It is refreshed every time step, so a change of type or conflict status is reflected in the very next step, and the decay list advances exactly once per decay interval and stays at its last entry.",
     ["inputs", "histories", "configurations"],
     "every sequence of conflict/type changes up to a depth, every settlement kind, weight setting, decay list and interval in the grid",
     "Tests check a few scores at time 0 with defaults.",
     ["flee/scoring.py", "flee/SimulationSettings.py"],
     [("updateLocationScore", "flee/scoring.py:18"), ("get_conflict_decay", "flee/SimulationSettings.py:40")],
     "BFS over histories of status changes and time steps; score compared with the product rule in every state",
     STD,
     observe=["Location.getScore(1)"])

prop("C10", "Location-generated routes are the best route per reachable destination",
     "With fixed routes enabled, after each time step's refresh every settlement holds, for each destination reachable within the awareness level, exactly one route: a real open path to it with the highest weight among all candidates, computed from the current attractiveness of all settlements regardless of the order settlements were created. Agents then follow these routes.",
     ["inputs", "configurations", "histories"],
     "every directed graph up to 4 nodes with parallel paths, each settlement ordering, awareness 1..3, and status changes between steps",
     "Tests look at one graph; best-of-several-paths, ordering and staleness are not covered.",
     ["flee/crawling.py", "flee/scoring.py"],
     [("generateLocationRoutes", "flee/crawling.py:250"), ("_addLocationRoute best-of", "flee/crawling.py:55")],
     "exhaustive enumeration of small graphs and settlement orders against a brute-force best-path oracle",
     STD,
     observe=["Location.routes after Ecosystem.evolve()"])

prop("C11", "Closing and reopening roads, locations and borders is exact and reversible",
     "Closing a road, a location or a border makes exactly the named roads in the requested direction(s) unusable and leaves all others untouched. Reopening makes exactly the named ones that are closed usable again with their original length and properties. Any sequence of closures and reopenings leaves each road either open or closed, never duplicated, lost or in both states, and every operation terminates and reports truthfully whether it found a road or location to change.",
     ["histories", "inputs"],
     "every sequence to a depth of close/reopen of links, locations and borders, one- and two-way, on small multi-country graphs, with names given as fresh strings",
     "Tests close one location or link once, with name objects identical to the stored ones, and never reopen.",
     ["flee/flee.py"],
     [("_remove_link_1way/_reopen_link_1way", "flee/flee.py:985"), ("_change_location_1way", "flee/flee.py:1150"), ("_change_border_1way", "flee/flee.py:1240")],
     "explicit-state BFS over operation sequences on the real ecosystem in lockstep with a set-based reference model",
     STD + "Bounds: 3-4 locations in 2 countries, operation depth 3-4.",
     observe=["Location.links", "Location.closed_links"])

prop("C12", "Scheduled closures take effect exactly at their start and end times",
     "Each scheduled closure (country, location, link, camp, idpcamp, remove_forced_redirection) is applied at its start time and undone at its end time and at no other time, affecting only what it names; a name that does not exist affects nothing. After every time step the open/closed state of all roads and camps is the one implied by the schedule so far.",
     ["histories", "inputs"],
     "every closures table of up to two rows over all types, name pairs and start/end times in the grid, stepped through every time",
     "Tests run one country-closure example; other closure kinds, reopenings and CSV-loaded names are untested.",
     ["flee/flee.py", "flee/InputGeography.py"],
     [("enact_border_closures", "flee/flee.py:930"), ("ReadClosuresFromCSV", "flee/InputGeography.py:370")],
     "exhaustive enumeration of schedules through the CSV reader, stepped in time in lockstep with a reference timeline",
     STD,
     observe=["Location.links", "Location.camp/idpcamp/movechance", "Link.forced_redirection"])

prop("C13", "Changing a location's type is equivalent to having created it so",
     "After a location is changed to a type, or opened or closed as a camp, or made or unmade a conflict zone, its kind, move chance and conflict status are those of a location created with that type, with no trace of the previous type and no effect on any other location. Naming an unknown location changes nothing.",
     ["histories", "inputs"],
     "every sequence to a depth of type changes, camp openings/closings and conflict additions/removals over all types",
     "Tests change one location once.",
     ["flee/flee.py"],
     [("change_location_type", "flee/flee.py:1360"), ("open_camp/close_camp", "flee/flee.py:440"), ("add/remove_conflict_zone", "flee/flee.py:1500")],
     "BFS over operation sequences with comparison against freshly created locations in every state",
     STD,
     observe=["Location flags", "Location.movechance", "Location.conflict"])

prop("C14", "Conflict and type-change schedules are followed day by day",
     "When the daily update is applied for each day from day zero, a settlement is a conflict zone on exactly the days the conflicts file gives it a positive intensity, with that day's intensity; without a conflicts file a settlement dated in the locations file becomes a conflict zone exactly on its date and stays one. Scheduled location type changes are applied exactly on their day, and flooded settlements carry exactly the flood level of the day from the flood file, all others zero.",
     ["inputs", "histories"],
     "every intensity series of length up to 4 over {0, 0.5, 1.0} for up to two settlements, every conflict date, every type-change day, every flood series in the grid",
     "Tests read one conflicts file and look at one or two days.",
     ["flee/InputGeography.py", "flee/flee.py"],
     [("AddNewConflictZones", "flee/InputGeography.py:600"), ("UpdateLocationAttributes", "flee/InputGeography.py:560")],
     "exhaustive enumeration of schedules written as CSV, read by the real reader and stepped day by day against a reference timeline",
     STD,
     observe=["Location.conflict", "Location.movechance", "Location.attributes"])

prop("C15", "Spawn locations are drawn in proportion to population and conflict",
     "New agents appear only at conflict settlements, each drawn with probability proportional to its current population times conflict intensity times decay for the age of the conflict, and the weights follow every change in population, conflict status and time. Non-conflict settlements have probability zero, and asking for zero agents always succeeds.",
     ["inputs", "histories", "configurations"],
     "every assignment of populations, intensities, ages and decay lists in the grid for up to three settlements, and every order of changes to a depth",
     "Tests check total counts; a draw distribution cannot be sampled reliably in a unit test.",
     ["flee/spawning.py", "flee/flee.py"],
     [("refresh_spawn_weights", "flee/spawning.py:45"), ("pick_spawn_locations", "flee/flee.py:1590")],
     "exact draw distribution over all outcomes of the real picker in every state of a BFS over status changes",
     STD,
     observe=["Ecosystem.pick_spawn_locations", "locations of spawned agents"])

prop("C16", "Taking agents from the population is exact",
     "With take-from-population enabled, each added agent lowers its settlement's resident population by one and the population never becomes negative; inserted agents and runs with the rule disabled leave populations untouched. Population plus agents added is constant at every settlement that has residents left.",
     ["histories", "configurations"],
     "every sequence to a depth of adding, inserting, stepping and removing agents with populations 0..3, rule on and off",
     "Tests look at one location after one spawning call.",
     ["flee/flee.py"],
     [("Ecosystem.addAgent", "flee/flee.py:1745")],
     "BFS over operation sequences with a population ledger",
     STD,
     observe=["Location.pop", "Location.numAgentsSpawned"])

prop("C17", "Daily arrivals follow the data, with decreases carried as debt",
     "In data-driven mode the number of new agents each day equals the day's change in the source data minus any debt outstanding, never negative; a net decrease is carried forward as debt until later increases repay it. The reported raw count equals the running total of the data, and with day-zero insertion the initial population is placed in camps rather than spawned; hence agents so far always equal the highest level the data has reached.",
     ["inputs", "histories"],
     "every camp-count series of length up to 4 over a value grid, with each combination of the day-zero and sum-from-camps settings",
     "Tests use one monotone data set, so debt is never exercised.",
     ["flee/spawning.py", "flee/datamanager/DataTable.py"],
     [("spawn_daily_displaced debt", "flee/spawning.py:300"), ("add_initial_refugees", "flee/spawning.py:190")],
     "exhaustive enumeration of data series, stepping the real spawner day by day against a debt ledger",
     STD,
     observe=["spawn_daily_displaced return value", "Ecosystem.numAgents()"])

prop("C18", "Conflict- and flood-driven spawning produces the configured numbers",
     "In conflict-driven mode each day every conflict settlement, and no other, spawns the configured number scaled by its intensity (constant), the configured fraction of its current population times intensity (ratio), or a Poisson draw with that mean; in flood-driven mode the flood level of the day selects the number, fraction or mean. Agents appear at that very settlement and the reported total equals the number added.",
     ["inputs", "configurations", "histories"],
     "every combination of mode, rate, intensity, population and flood level in the grid over several days, and every Poisson outcome up to a bound",
     "Tests run one mode with one conflict zone for a few steps.",
     ["flee/spawning.py"],
     [("spawn_daily_displaced conflict branch", "flee/spawning.py:225"), ("flood branch", "flee/spawning.py:260")],
     "exhaustive enumeration of configurations stepped day by day against a reference count",
     STD,
     observe=["Location.numAgents", "spawn_daily_displaced return value"])

prop("C19", "Spawned agents get demographics by the settlement's own distribution",
     "Every spawned agent receives exactly one value for each demographic attribute file present, drawn with probability proportional to the weights in its settlement's own column, or the default column when it has none. Without demographic files agents have no attributes.",
     ["inputs", "configurations"],
     "every small weight table (values x columns over a grid), one or two attributes, settlements with and without a column; distribution computed exactly",
     "Random draws cannot be settled by sampling; tests do not check which column is used.",
     ["flee/spawning.py"],
     [("draw_sample/draw_samples", "flee/spawning.py:120"), ("read_demographics", "flee/spawning.py:95")],
     "exact distribution of the real sampler for every small weight table",
     STD,
     observe=["Person.attributes of spawned agents"])

prop("C20", "Time series lookup: exact at data points, linear between, flat outside",
     "A registration count looked up on any day equals the data value on days with data, lies on the straight line (truncated to an integer) between neighbouring data points otherwise, and is held constant before the first and after the last point; without interpolation it is the latest earlier value. Daily differences add up exactly to the change in level over any period, and start-empty mode subtracts the day-zero level consistently.",
     ["inputs"],
     "every table of up to 4 data points over a day/value grid and every day in and around the range",
     "Tests check a few days of one file.",
     ["flee/datamanager/DataTable.py"],
     [("get_interpolated_data", "flee/datamanager/DataTable.py:395"), ("get_daily_difference", "flee/datamanager/DataTable.py:290")],
     "exhaustive enumeration of small tables written as CSV and read back by the real reader, day cursor stepped against a reference interpolant",
     STD,
     observe=["DataTable.get_field", "DataTable.get_daily_difference"])

prop("C21", "Merging several source files for one camp gives their sum on every day",
     "When a camp's data comes from several files, the merged series has every date of either file exactly once, in order, and its value there is the sum of the most recent values of the files (zero before a file's first date). The order in which the files are listed does not change dates covered by both.",
     ["inputs"],
     "every pair of series of up to 3 points over a day/value grid",
     "Tests never list two files for a camp.",
     ["flee/datamanager/DataTable.py"],
     [("AddCSVTables", "flee/datamanager/DataTable.py:120")],
     "exhaustive enumeration of pairs of small series against a reference merge",
     STD,
     observe=["DataTable.data_table", "get_field"])

prop("C22", "Registration corrections and maxima are computed correctly",
     "A level-1 correction on a date rescales exactly the data before that date so that the last earlier value matches the value on that date, leaves that date and later ones unchanged, and ignores dates before the simulation period or not in the data. The reported maximum over a period is the largest data value up to its end (the first data point after it may be included).",
     ["inputs"],
     "every series of up to 4 points over a value grid and every correction date / period length",
     "Tests check one correction date and one maximum.",
     ["flee/datamanager/handle_refugee_data.py"],
     [("correctLevel1Registrations", "flee/datamanager/handle_refugee_data.py:55"), ("getMaxFromData", "flee/datamanager/handle_refugee_data.py:95")],
     "exhaustive enumeration of small series and dates against a reference",
     STD,
     observe=["data_table", "get_field", "getMaxFromData"])

prop("C23", "The loaded network is exactly the one in the input files",
     "Each location row yields one location with that name, region, country, coordinates, type, population or capacity (scaled down as configured), foreign flag and extra attributes of its own; each route row yields exactly one road per direction with the given length, redirection flag (1 towards the first-named, 2 towards the second-named) and attributes, and none for a place that does not exist. Comment and empty lines are ignored, and major-route and agent files are loaded row by row likewise.",
     ["inputs"],
     "every combination of row kinds, optional columns, comments, blank fields and redirection values in the grid, in every row order",
     "Tests read one example directory and check a few fields.",
     ["flee/InputGeography.py", "flee/flee.py"],
     [("ReadLocationsFromCSV/ReadLinksFromCSV", "flee/InputGeography.py:140"), ("StoreInputGeographyInEcosystem", "flee/InputGeography.py:470"), ("ReadAgentsFromCSV", "flee/InputGeography.py:420")],
     "exhaustive enumeration of small input files; loaded ecosystem compared with a reference parse",
     STD,
     observe=["Ecosystem.locations", "Location.links", "Ecosystem.agents"])

prop("C24", "Every documented setting in the configuration file takes effect",
     "Reading a configuration sets each documented setting to the value given, or to its documented default when absent, independently of the other settings and of any configuration read earlier in the same process. Contradictory combinations that are documented as unsupported are refused.",
     ["configurations", "histories"],
     "every documented setting alone, every pair of documented settings, and every ordered pair of configuration files read in one process",
     "Tests read two or three configuration files and look at a few values.",
     ["flee/SimulationSettings.py"],
     [("ReadFromYML", "flee/SimulationSettings.py:95")],
     "exhaustive enumeration of single and pairwise settings and of read histories against the documented table",
     STD,
     observe=["SimulationSettings.move_rules/spawn_rules/log_levels/optimisations"])

prop("C25", "Camps as sinks deactivate with the given probability and keep totals",
     "With camps-are-sinks enabled each agent in a camp at the end of a step is deactivated with exactly the camp's deactivation probability and agents elsewhere never are. A deactivated agent is never moved, changed or logged again but keeps counting in the camp's and the overall totals; with the setting off nobody is deactivated.",
     ["inputs", "histories", "configurations"],
     "every deactivation probability given as number or text, camp and non-camp placements, every random outcome over several steps",
     "The one sink test uses probability 1 and a single camp.",
     ["flee/flee.py", "flee/pflee.py"],
     [("Ecosystem.evolve sink branch", "flee/flee.py:1690")],
     "exact outcome distribution of the real time step over all random draws, with history exploration of deactivated agents",
     STD,
     observe=["Person.location", "Location.numAgents", "agents.out.0"])

prop("C26", "Agent and link logs record the true state of every step",
     "At the logging levels that enable them, each step writes one line per active agent with its current place, position, travel state and distances, plus one line per place passed through that day at higher levels, and one line per open road with the cumulative number of agents that ever entered it (also per attribute value). Region granularity replaces place names by their region and blanks coordinates; a run with no agents produces an empty log.",
     ["histories", "configurations"],
     "every history to a depth on small graphs at every log level and granularity, with and without agents at start",
     "No test reads a log file.",
     ["flee/Diagnostics.py", "flee/flee.py"],
     [("write_agents_par/write_links_par", "flee/Diagnostics.py:50"), ("Link.IncrementNumAgents", "flee/flee.py:700")],
     "exhaustive exploration of small histories; log files of the real run compared line by line with a monitor's ledger",
     STD,
     observe=["agents.out.<rank>", "links.out.<rank>"])

prop("C27", "Arrival statistics count each camp arrival once with its journey time",
     "With camp logging enabled, every step records the number of agents that arrived in camps in that step and the average number of days since their departure, zero when there were none; each arrival is counted once in the step it happens (in a parallel run, by the process that holds the agent).",
     ["histories"],
     "every history to a depth of agents added on different days travelling chains into camps, over all random outcomes",
     "No test inspects the arrival statistics.",
     ["flee/flee.py"],
     [("_aggregate_arrivals", "flee/flee.py:880"), ("finish_travel arrival record", "flee/flee.py:275")],
     "exhaustive exploration of arrival histories with an arrival monitor",
     STD,
     observe=["Ecosystem.num_arrivals", "Ecosystem.travel_durations"])

prop("C28", "Parallel runs partition the agents and agree on global counts",
     "In a parallel run with any number of processes every added agent lives on exactly one process, loads differ by at most one as agents are added, and after each step all processes agree on the occupancy of every settlement and open road, equal to the sum of the agents actually there on all processes. Time steps do not change the global total and the counts are the same in either latency mode.",
     ["schedules", "inputs", "histories"],
     "1..3 processes, every placement of up to 4 agents, every per-process random outcome over 1..3 steps, both latency modes and both parallel modes",
     "The parallel tests run one process under MPI with one seed.",
     ["flee/pflee.py"],
     [("addAgent/insertAgent round robin", "flee/pflee.py:605"), ("updateNumAgents", "flee/pflee.py:490")],
     "all ranks of the real parallel code executed in one process over a simulated MPI, all per-rank random outcomes enumerated",
     STD + "MPI itself is replaced by an exact in-process stand-in for Allreduce/Allgatherv/bcast.",
     observe=["Ecosystem.agents per rank", "Location.numAgents per rank"])

prop("C29", "Parallel scores, routes and spawning agree with the sequential code",
     "After each step all processes hold the same attractiveness for every settlement, equal to the value the sequential code computes for the same state, for any number of settlements and processes. The set of possible single-agent moves and their probabilities, and (with fixed routes) the routes held, are those of the sequential code.",
     ["schedules", "inputs", "configurations"],
     "1..4 processes, 1..5 settlements, all settlement kinds, status changes between steps, with and without fixed routes, both parallel modes",
     "No test compares parallel and sequential results beyond totals.",
     ["flee/pflee.py", "flee/scoring.py", "flee/crawling.py"],
     [("synchronize_locations", "flee/pflee.py:775"), ("Ecosystem.evolve loc-par", "flee/pflee.py:850")],
     "differential exhaustive exploration: simulated-MPI ranks of the real parallel code against the real sequential code in every state",
     STD,
     observe=["Location.getScore", "Location.routes", "distribution of moves"])

prop("C30", "File coupling never loses, duplicates or half-reads an exchange",
     "When two or more coupled simulations exchange agents through files, each exchange step makes every reader obtain exactly the complete numbers written by its partner instances for that step, whatever the relative timing of writers and readers. A reader never acts on an absent, empty or partially written message.",
     ["schedules", "crash_points"],
     "every interleaving of the file-system operations (create, partial write, flush, rename, poll, read) of one reader and one or two writers over one or two exchange steps",
     "A test runs both sides sequentially; the race between creating and filling the file needs schedule exploration.",
     ["flee/coupling.py"],
     [("writeOutputToFile", "flee/coupling.py:440"), ("waitForInputFiles/readInputFromFile", "flee/coupling.py:470")],
     "stateless exploration of all interleavings of the real writer's and reader's file operations under a controlled scheduler",
     STD + "File operations are atomic at the granularity open/write-chunk/close/rename/exists/read.",
     observe=["readInputFromFile result", "Couple()"])

prop("C31", "Coupled exchanges move exactly the announced agents",
     "At a coupling step each model announces the occupancy of its outgoing coupled locations, clears its coupled locations, and inserts at each incoming coupled location exactly the number received (the rounded mean over partner instances), leaving all other locations untouched. Two models that exchange in both directions therefore swap their coupled populations and conserve the overall total; a name a partner does not report counts as no agents rather than an error.",
     ["histories", "inputs", "configurations"],
     "every assignment of small occupancies, directions and instance counts, over several exchange steps",
     "No stable test exercises coupling.",
     ["flee/coupling.py", "flee/flee.py"],
     [("Couple", "flee/coupling.py:205"), ("extractNewAgentsFromCSVString", "flee/coupling.py:400"), ("clearLocationsFromAgents", "flee/flee.py:1815")],
     "exhaustive enumeration of exchange histories of real coupled ecosystems against an accounting model",
     STD,
     observe=["Location.numAgents", "Ecosystem.agents", "coupling log"])

prop("C32", "Simulations do not leak state into one another or between places",
     "Setting an attribute on one location, road or agent never changes any other object, and a simulation started after another in the same process behaves exactly as if it were the first. Building the same network twice gives identical results.",
     ["histories", "inputs"],
     "every pair of attribute assignments over the objects of a small network, and every ordered pair of small simulations in one process",
     "Tests run in one process but never compare a second run with a first.",
     ["flee/flee.py", "flee/spawning.py", "flee/InputGeography.py"],
     [("mutable default attributes", "flee/flee.py:320"), ("module-level counters", "flee/spawning.py:15")],
     "exhaustive enumeration of assignment pairs and of ordered simulation pairs, compared with isolated runs",
     STD,
     observe=["attributes", "spawn_daily_displaced results"])

prop("C33", "Distances and error measures satisfy their defining formulas",
     "The distance between two locations is the great-circle distance: symmetric, zero for equal positions, half the circumference for opposite points, and independent of full turns in longitude. The relative and absolute errors, their array forms and the scaled error (mean absolute error over all days divided by the mean absolute error of the naive model after its training period) equal their textbook definitions, with zero reported for a relative error against an absent count; the per-camp and summed validation errors computed from an output table are those of its columns.",
     ["inputs"],
     "every pair of coordinates on a grid including poles and the date line; every small array of counts in the grid",
     "Tests check one distance and a couple of errors.",
     ["flee/flee.py", "flee/postprocessing/analysis.py", "flee/postprocessing/plot_flee_output.py"],
     [("calculateDistance", "flee/flee.py:395"), ("rel_error/abs_error/calculate_MASE", "flee/postprocessing/analysis.py:25")],
     "exhaustive enumeration of a grid against independent formulas",
     STD,
     observe=["return values"])

prop("C34", "The run scripts report the true state of every simulated day",
     "The sequential and the parallel run script write exactly one table to standard output: a header and one row per simulated day (the requested duration, or the length of the simulation period when that is 0), with the calendar date, the people in every camp at the end of that day, the registered people and the relative error, the total error, the registered and simulated totals, the raw count, the debt and, if asked for, the internally displaced people. On every day new conflict zones take effect first, then people are spawned, then closures are applied, and then people move. Nothing else is written there, and with any number of processes every row appears once.",
     ["inputs", "configurations", "histories"],
     "every instance of a grid of input directories, settings, durations and process counts, with every random outcome",
     "No stable test runs the run scripts; the column contents depend on data, debt and random routes.",
     ["runscripts/run.py", "runscripts/run_par.py", "flee/InputGeography.py", "flee/spawning.py"],
     [("run.py", "runscripts/run.py:13"), ("run_par.py", "runscripts/run_par.py:13")],
     "stateless exploration of all random outcomes of the real scripts (parallel ones on simulated processes) against an independent day-by-day model",
     STD,
     observe=["standard output of run.py and run_par.py"])

prop("C35", "Exchange logs and combined outputs of coupled instances are exact",
     "With exchange logging on, every coupling exchange adds one record of the total number of agents and one of the occupancy announced for each outgoing coupled location, and the saved log files hold exactly these records and the logged new arrivals, one row per exchange, which read back as the same days and columns for every instance. The combined output of several instances has one row per day holding the mean over the instances, rounded to whole numbers for everything but the errors, in whichever order and however late the instances' outputs arrive.",
     ["histories", "inputs", "configurations"],
     "every history of exchanges with agents added, removed or moving in between, direction assignment, interval and instance count, and every set of small instance outputs",
     "No test touches the exchange logs or the combination of outputs; the combined output held only the last instance.",
     ["flee/coupling.py"],
     [("saveExchangeDataToFile", "flee/coupling.py:537"), ("logExchangeData", "flee/coupling.py:620"), ("sumOutputCSVFiles", "flee/coupling.py:646"), ("readCSVLogFiles", "flee/coupling.py:880")],
     "exhaustive enumeration of exchange histories of real coupled ecosystems and of small instance outputs against an exact model",
     STD,
     observe=["exchange log files", "out.csv"])

prop("C36", "Type-checking mode accepts every valid simulation and changes nothing",
     "With run-time type checking enabled (environment variable FLEE_TYPE_CHECK=true, the mode the continuous integration uses) every simulation, input file, schedule, coupling exchange and error measure that is valid without it is accepted and gives the same possible results with the same probabilities, sequentially and in parallel.",
     ["configurations", "inputs", "histories"],
     "every scenario (history, input, random outcome) of the other checks' quick tiers, with type checking on",
     "The test suite exercises a few fixed simulations in this mode; a value of an undeclared type appears only on particular rules, inputs or histories.",
     ["flee/flee.py", "flee/pflee.py", "flee/moving.py", "flee/postprocessing/analysis.py"],
     [("check_args_type", "flee/flee.py:18"), ("getEndPointScore", "flee/moving.py:18"), ("mean_abs_diffs", "flee/postprocessing/analysis.py:74")],
     "the exhaustive scenario batteries of the other checks re-executed on the real code with type checking on, their verdicts compared with the run without it",
     STD + "Bounds: the quick tiers of 26 checks (all in thorough). Type checking itself inspects one element of a list at random, so lists of mixed types are outside.",
     observe=["everything the other checks observe"])
