TESTS = "The repository's stable tests only touch curve segments; the other unit tests, where they exist, execute a handful of fixed sequences"

# ---------------------------------------------------------------- editor
p("S01", "Scenario objects follow the lifecycle and fire once per pass",
  "While a scenario plays forward, every event goes NONE, PENDING, then exactly one of HAPPENED or DISPOSED, at most once per start, and its status callback fires exactly once per change; an interval is started only after its start event happened and is stopped exactly when its end event happens or is disposed. An event whose incoming intervals cannot bring it to happen is disposed, and nothing that is disposed ever starts anything.",
  "histories inputs schedules",
  "every scenario graph (series, parallel, branching and converging intervals), every min/max/nominal duration, every split of time into ticks, every trigger and condition outcome",
  TESTS + "; interleavings of triggers, minimum/maximum durations and tick boundaries are combinatorial.",
  "src/ossia/editor/scenario/detail/scenario_execution.cpp src/ossia/editor/scenario/detail/scenario_sync_execution.cpp src/ossia/editor/scenario/time_event.cpp src/ossia/editor/scenario/time_interval.cpp src/ossia/editor/scenario/time_sync.cpp",
  [("scenario::process_this, make_happen, make_dispose", "src/ossia/editor/scenario/detail/scenario_sync_execution.cpp"),
   ("scenario::state_impl", "src/ossia/editor/scenario/detail/scenario_execution.cpp")],
  ["time_event::get_status and status callback", "time_interval::running/get_date", "scenario::state_impl"])
p("S02", "Intervals conserve time: dates, min/max clamping, no lost or doubled ticks",
  "In forward play at speed 1, the date of a running interval advances by exactly the part of each tick that falls after its start, and never beyond its maximum duration; when it ends at its maximum the remaining part of the tick is handed to what follows it, within the same tick. An interval with a fixed duration lasts exactly that duration whatever the tick sizes are, so the sum of the time played along any chain equals the time given to the scenario; where several intervals end in one sync, what follows gets the remainder left by the one that reached its maximum first.",
  "histories inputs",
  "every interval duration, every tick length (smaller, equal, larger than the remaining duration, spanning several intervals), every graph",
  TESTS + "; exactness at tick boundaries depends on the relation of every duration with every tick length.",
  "src/ossia/editor/scenario/time_interval.cpp src/ossia/editor/scenario/detail/scenario_execution.cpp src/ossia/editor/scenario/detail/scenario_sync_execution.cpp",
  [("scenario::run_interval, m_overticks", "src/ossia/editor/scenario/detail/scenario_execution.cpp"), ("time_interval::tick_impl", "src/ossia/editor/scenario/time_interval.cpp")],
  ["time_interval::get_date", "the token_request each time process receives"])
p("S03", "Triggers: a sync waits for its minimum, its expression, or its maximum",
  "A sync point whose trigger is active and has no quantization rate never happens before every running interval leading to it has reached its minimum duration, happens in the first tick in which its expression is true after that, and happens on its own at the maximum duration of an interval leading to it. Its evaluation callbacks come in the order entered-evaluation, (left-evaluation or triggered), finished-evaluation, and the flag given with the last one tells whether the maximum forced it.",
  "histories inputs schedules",
  "every placement of min/max, every instant at which the trigger expression becomes true relative to the ticks, every number of converging intervals",
  TESTS + "; the outcome depends on the order of trigger time, min, max and tick boundaries.",
  "src/ossia/editor/scenario/time_sync.cpp src/ossia/editor/scenario/detail/scenario_sync_execution.cpp",
  [("scenario::process_this", "src/ossia/editor/scenario/detail/scenario_sync_execution.cpp"), ("time_sync::set_is_being_triggered, trigger_request", "src/ossia/editor/scenario/time_sync.cpp")],
  ["time_sync callbacks", "time_event::get_status"])
p("T01", "Time arithmetic is exact and infinity is absorbing",
  "Time values add, subtract, negate and compare exactly as integers as long as the operands are finite; infinity plus or minus anything finite is infinity, infinity is greater than every finite value, and a finite result is never turned into infinity by signs. The six comparison operators are mutually consistent for all values, infinite ones included.",
  "inputs", "every pair of time values around zero, negative values, large flick counts and the infinity sentinel",
  TESTS + "; the property quantifies over pairs of 64-bit values including sentinels.",
  "src/ossia/editor/scenario/time_value.hpp",
  [("time_value operators, add_is_infinite", "src/ossia/editor/scenario/time_value.hpp")],
  ["results of the operators"])
p("T02", "Token requests: loops, offsets and quantization cut a tick without gaps",
  "Splitting a tick with the loop helper yields sub-requests that are contiguous, stay inside one loop period each, and together cover exactly the tick once. A quantization date, when reported, lies inside the tick and is the first multiple of the requested musical division in it.",
  "inputs", "every (previous date, date, offset, loop duration, start offset), every bar position and division",
  TESTS + "; boundary relations between tick, loop length and offset are combinatorial.",
  "src/ossia/dataflow/token_request.hpp",
  [("token_request::loop, get_quantification_date", "src/ossia/dataflow/token_request.hpp")],
  ["the sub-requests passed to the callbacks", "returned dates"])

p("T03", "Musical time: signature, tempo, bars and buffer positions of every tick",
  "At every tick an interval tells its processes the signature in force, the tempo, the positions in quarter notes at its start and end, the bars these are in and the last signature change: from its own signature map and tempo curve if it has them, else from the interval around it, through any nesting. Without a tempo curve it advances by its speed times its parent's; with one by its own speed times tempo/120, whatever the parent's speed. Each tick starts, in musical positions too, where the last one ended. The buffer positions of a token (start, samples to read and write, the sample of a date and back) agree with its dates, offset, speed and the sample ratio.",
  "histories inputs", "every signature map, tempo curve, nesting and speed, every sequence of ticks; every token, ratio and buffer",
  TESTS + "; positions depend on where ticks fall relative to signature changes and curve points, at every level of nesting.",
  "src/ossia/editor/scenario/time_interval.cpp src/ossia/dataflow/token_request.hpp src/ossia/editor/scenario/detail/scenario_execution.cpp",
  [("time_interval::tick_impl, signature, tempo", "src/ossia/editor/scenario/time_interval.cpp"), ("token_request: physical_start, physical_read_duration, physical_write_duration, to_physical_time_in_tick", "src/ossia/dataflow/token_request.hpp")],
  ["the token requests the processes receive", "positions computed from tokens"])

# ---------------------------------------------------------------- dataflow
p("G01", "Every enabled node runs once per token, in dependency order",
  "In each tick of an acyclic graph every node with a token request that is not muted and not held back by a strict connection (immediate strict: the other side does not run; delayed strict: nothing left to read) runs, once per request, and never before a node it depends on through an edge - between ports or pure dependency -, whatever the order in which nodes and edges were added, removed, connected or disconnected. The others do not run. After the tick no node is enabled or marked executed. Holds for every scheduler, with one thread or several.",
  "histories configurations",
  "every sequence of add/remove node, connect/disconnect, enable/disable and ticks, in every graph update policy (topological sort, breadth first, transitive closure)",
  TESTS + "; the order is derived from the whole edition history.",
  "src/ossia/dataflow/graph/graph.hpp src/ossia/dataflow/graph/graph_static.hpp src/ossia/dataflow/graph/graph_utils.hpp src/ossia/dataflow/graph/transitive_closure.hpp src/ossia/dataflow/graph/breadth_first_search.hpp src/ossia/dataflow/graph/node_executors.hpp",
  [("graph_static::state, sort_all_nodes", "src/ossia/dataflow/graph/graph_static.hpp"), ("static_exec executors", "src/ossia/dataflow/graph/node_executors.hpp")],
  ["the sequence of graph_node::run calls"])
p("G02", "Edges deliver every value exactly once, to the connected inlet, in order",
  "What a node writes on an outlet in a tick is read, complete and in the order written, by every running node connected to it by an immediate edge in the same tick; a delayed edge is a queue of what the writer wrote in each of its ticks, of which the reader takes the next one in each of its ticks. A glutton edge whose other side does not run falls back on the environment: an outlet sends its values to its address, an inlet reads its address (what earlier nodes sent there in this tick, else the current value). Audio inlets get the sum of their sources. Nothing is read twice, nothing leaks between unconnected ports, and after a tick the ports are empty again.",
  "histories configurations",
  "every small graph with immediate (strict or glutton) and delayed (strict or glutton) edges, every sequence of writes and enable/disable",
  TESTS + "; duplication or loss only shows for specific fan-in/fan-out and enable histories.",
  "src/ossia/dataflow/graph_edge.hpp src/ossia/dataflow/graph/graph_utils.hpp src/ossia/dataflow/data_copy.hpp src/ossia/dataflow/graph_edge_helpers.hpp src/ossia/dataflow/value_port.hpp",
  [("init_node/teardown_node, copy_from_local, pull_from_parameter, move_from_local", "src/ossia/dataflow/graph/graph_utils.hpp")],
  ["values seen by nodes on their inlets"])
p("E01", "Execution state: what a tick writes is committed once, by the chosen policy",
  "Values, states and audio written during a tick (by value, by port, by an outlet with local scope) stay out of the parameters until the commit, then reach them exactly once, and nothing is left over for the next commit. Plain, ordered and priorized commits send every value of a parameter in insertion order (a port that replaces overwrites the value of equal timestamp); the merged commit sends one value per parameter, the one that applying all of them in order would leave, components set by index included. The ordered commit sends parameters by latest timestamp then latest insertion; the priorized one by priority first. Audio written on a parameter is summed, then added to its buffer. Until the commit, inlets with local scope read what was written in the tick, in order; if nothing was, or with global scope only, the parameter's own value.",
  "histories inputs",
  "every sequence of insertions on several parameters (scalar, vector by component, audio) with repeated and out-of-order timestamps, priorities, scopes and readings, for every commit policy",
  TESTS + "; ordering and loss depend on the whole insertion sequence.",
  "src/ossia/dataflow/execution_state.cpp src/ossia/dataflow/execution_state.hpp src/ossia/dataflow/port.cpp src/ossia/editor/state/detail/state_flatten_visitor.hpp src/ossia/editor/state/flat_vec_state.hpp",
  [("execution_state::insert, commit, commit_merged, commit_ordered, commit_priorized", "src/ossia/dataflow/execution_state.cpp"), ("outlet::write", "src/ossia/dataflow/port.cpp")],
  ["values pushed to the protocol", "parameter values and audio buffers after each call", "values read by inlets"])
p("E02", "Registered parameters deliver each received value once per tick",
  "Between registration and unregistration of an inlet's parameter, every value the parameter receives is available to the nodes of the next tick exactly once and in order of arrival (also when its device leaves when that tick begins), and none is before or after; registrations are counted, so the queue stays attached until the last of them is removed. Devices join and leave only when a tick begins.",
  "histories", "every interleaving of register/unregister (several inlets and path inlets on one parameter), device addition/removal, incoming values, commits and ticks",
  TESTS + "; reference counting faults need specific register/unregister histories.",
  "src/ossia/dataflow/execution_state.cpp src/ossia/network/base/message_queue.hpp",
  [("execution_state::register_parameter/unregister_parameter, begin_tick", "src/ossia/dataflow/execution_state.cpp"), ("message_queue::reg/unreg", "src/ossia/network/base/message_queue.hpp")],
  ["values found by find_and_copy / in inlets"])

# ---------------------------------------------------------------- network
p("N01", "Device tree: sibling names are unique, valid and resolvable",
  "After any sequence of creating, adding, renaming, removing and clearing nodes, sibling names are pairwise distinct and made of legal characters only, a requested legal name that is free is used unchanged, and a name that is taken gets a fresh instance suffix. Looking a node up by its address returns exactly that node, and the address cached by each node is always the path made of its current ancestors' names.",
  "histories inputs", "every sequence of tree edits, including names with illegal characters, instance suffixes and renamings of inner nodes",
  TESTS + "; collisions depend on the history of names.",
  "src/ossia/network/base/node.cpp src/ossia/network/base/name_validation.cpp src/ossia/network/generic/generic_node.cpp src/ossia/network/base/node_functions.cpp src/ossia/network/base/osc_address.cpp",
  [("sanitize_name, create_child, add_child, set_name", "src/ossia/network/base/node.cpp"), ("find_node, create_node, find_or_create_node", "src/ossia/network/base/node_functions.cpp")],
  ["node names, osc_address(), find_node results"])
p("N02", "Device tree notifications mirror the tree exactly",
  "An observer that only listens to a device's creation, renaming and removal notifications for nodes and parameters can reconstruct the tree: each node and parameter that comes into existence through the device's operations is announced exactly once after it exists, each one removed is announced exactly once while it is still alive, children before parents, and a renaming carries the old name.",
  "histories", "every sequence of tree and parameter edits",
  TESTS + "; double or missing notifications only show on particular edit sequences.",
  "src/ossia/network/base/node.cpp src/ossia/network/generic/generic_node.cpp src/ossia/network/base/device.hpp",
  [("node_base::create_child/remove_child/clear_children", "src/ossia/network/base/node.cpp"), ("generic_node::create_parameter/remove_parameter/set_parameter", "src/ossia/network/generic/generic_node.cpp")],
  ["device_base signals"])
p("N03", "Address patterns select exactly the matching nodes",
  "For any tree and any address pattern made of names, ?, *, character classes, alternatives, .. and //, looking up the pattern returns exactly the nodes whose path matches it, each once, and testing one node against the pattern agrees with membership in that result. A pattern without special characters finds at most the one node with that address, and creating nodes from a brace expansion creates exactly one node per expansion.",
  "inputs histories", "every small tree and every pattern over a small alphabet",
  TESTS + "; patterns times trees is a product space.",
  "src/ossia/network/common/path.cpp src/ossia/network/base/node_functions.cpp",
  [("traversal::make_path/apply/match", "src/ossia/network/common/path.cpp"), ("find_nodes, create_nodes", "src/ossia/network/base/node_functions.cpp")],
  ["result of find_nodes / create_nodes / match"])
p("V01", "Parameters: set and push update, notify and transmit exactly once",
  "Setting a parameter stores the value converted to the parameter's current type and calls each registered callback once with the stored value; pushing does the same and hands that value to the protocol once; a quiet set stores it and calls nobody; an invalid value changes and sends nothing. Changing the type, unit, domain, access, bounding or another attribute notifies the device of that attribute and keeps the value of the parameter's type.",
  "histories inputs", "every sequence of set, push, quiet set, type and attribute changes, callback additions and removals, over all value types",
  TESTS + "; notification counts and stale values depend on sequences.",
  "src/ossia/network/generic/generic_parameter.cpp src/ossia/network/base/parameter.cpp src/ossia/network/base/device.cpp",
  [("generic_parameter::set_value, push_value, set_value_type", "src/ossia/network/generic/generic_parameter.cpp")],
  ["parameter value, callbacks, protocol push"])
p("V02", "Domains bound values: inside the bounds, idempotent, identity when inside",
  "Applying a domain with a clipping, wrapping or folding bounding mode gives a value inside the domain, applying it again changes nothing, and a value already inside is returned unchanged; clipping returns the nearest bound (with a single bound, it is the only mode that acts), wrapping and folding the periodic and mirrored images (wrapping is over [min, max[: the maximum is the image of the minimum). With a value set the result is a member of the set or no value at all, lists and vectors are bounded component by component, and free bounding or an empty domain leaves every value untouched.",
  "inputs", "every value, bound pair (one-sided and missing bounds included), value set and bounding mode, for scalar and list types",
  TESTS + "; the property is over all values and bounds.",
  "src/ossia/network/domain/domain.hpp src/ossia/network/domain/detail/domain_impl.cpp src/ossia/network/domain/detail/clamp_visitors.hpp src/ossia/network/domain/clamp.cpp src/ossia/network/domain/wrap.cpp src/ossia/network/domain/fold.cpp src/ossia/math/math_expression.cpp",
  [("apply_domain, bound_value", "src/ossia/network/domain/detail/domain_impl.cpp")],
  ["bounded value"])
p("V03", "Value conversions keep what the target type can represent",
  "Converting a value to its own type is the identity, converting between numeric types truncates toward zero, any number converts to true exactly when it is non-zero, lists and vectors convert element by element, and a value converted to a type that can represent it and back is unchanged. Equality and ordering of values agree with these conversions and ordering is consistent: never both less and greater.",
  "inputs", "every pair of value types and representative values",
  TESTS + "; conversions form a full matrix of types.",
  "src/ossia/network/value/value_conversion.hpp src/ossia/network/value/detail/value_conversion_impl.hpp src/ossia/network/value/value_comparison.hpp src/ossia/network/value/value.cpp",
  [("ossia::convert, value comparison", "src/ossia/network/value/value.cpp")],
  ["converted value and its type", "comparison results"])
p("C01", "Callback lists: each live callback runs once per send, handles stay valid",
  "Sending calls every registered and not disabled callback exactly once, most recently added first, with the arguments given; adding, replacing, removing, disabling and re-enabling one callback never affects the others or invalidates their handles. The first-callback notification comes exactly when the list becomes non-empty and the last-callback notification exactly when it becomes empty.",
  "histories", "every sequence of add, replace, remove, clear, temporary disable and send",
  TESTS + "; handle validity and notification balance are history properties.",
  "src/ossia/detail/callback_container.hpp",
  [("callback_container", "src/ossia/detail/callback_container.hpp")],
  ["order of callback invocations", "on_first/on_removing_last notifications"])
p("X01", "Expressions evaluate to their boolean meaning and follow their inputs",
  "An expression made of constants, atoms comparing values, parameters and components of parameters, pulses, negation, conjunction, disjunction and exclusive or evaluates to the truth value given by its structure and the current parameter values; a pulse is true exactly if its parameter was set since the expression was made or last updated. Updating pulls every parameter the expression compares and resets every pulse. While somebody listens to an expression, each use of a parameter that is set reports once and the last report is the new truth value; when the last listener leaves, or the expression is destroyed, it listens to nothing any more. Two expressions compare equal exactly if they have the same structure and operands.",
  "inputs histories", "every expression tree up to a bounded size and every history of parameter changes, updates, listeners and remote values",
  TESTS + "; trees times histories.",
  "src/ossia/editor/expression/expression.cpp src/ossia/editor/expression/expression_atom.cpp src/ossia/editor/expression/expression_composition.cpp src/ossia/editor/expression/expression_not.cpp src/ossia/editor/expression/expression_pulse.cpp src/ossia/editor/expression/expression_bool.cpp",
  [("expressions::evaluate/update/add_callback", "src/ossia/editor/expression/expression.cpp")],
  ["evaluate() result, reports to callbacks, callback counts of the parameters, comparison of expressions"])
p("M01", "States: merging changes how writes are stored, never what launching them leaves",
  "Whatever is added to, flattened into or merged into a state (whole values, values at an index of a list or of a vector, piecewise lists and vectors, nested states, copied or moved), launching the state leaves every parameter with the value that launching the same elements one after the other would leave, every time it is launched. A state made by merging writes each of its parameters exactly once per launch and has one element per parameter; a state elements are only added to launches them all in order. Removing an element takes out the elements equal to it and nothing else. Components past the end of a vector change nothing.",
  "histories inputs", "every sequence of adds, flattenings, merges (copy and move), removals and launches, over every kind of element and parameter",
  TESTS + "; merge rules combine element kinds pairwise, the existing tests check six sequences without launching.",
  "src/ossia/editor/state/state.cpp src/ossia/editor/state/message.cpp src/ossia/editor/state/detail/state_flatten_visitor.hpp src/ossia/editor/state/state_element.cpp src/ossia/network/value/value_algorithms.hpp",
  [("flatten_and_filter, merge_flatten_and_filter", "src/ossia/editor/state/state.cpp"), ("state_flatten_visitor_merger, vec_merger", "src/ossia/editor/state/detail/state_flatten_visitor.hpp"), ("message::launch, piecewise_message::launch, piecewise_vec_message::launch", "src/ossia/editor/state/message.cpp")],
  ["writes reported by the parameters' callbacks during launch", "parameter values after launch", "size and comparison of states"])
p("R01", "Presets save and restore the values of a device exactly",
  "A preset made from a node lists exactly the readable and writable, non-impulse parameters below that node with their relative address and current value, nodes of higher priority first and then by name. Writing a preset to text and reading it back gives the same addresses and values of the same types; the JSON document and the JSON by node do too, except that in JSON a char is a one-character string and a vector within a list is a list. Putting a preset back from text or JSON writes exactly the saved parameters that exist below the given node, each converted to its parameter's type as the value conversions define it, skips the recall-safe nodes (with JSON everything below them, too), and creates nothing. Putting it back in memory from the root creates what is missing only if asked to, lets x.0 stand for an existing x, and otherwise stops with an error at the first entry that has no place. Text that is not JSON raises an error and changes nothing.",
  "inputs histories", "every tree with instances and nested parameters, every assignment of values of all types, every sequence of changes, saves and restores",
  TESTS + "; the guarantee quantifies over all trees, values and the tree's changes between save and restore; existing tests restore a handful of numbers.",
  "src/ossia/preset/preset.cpp src/ossia/preset/preset.hpp src/ossia/network/value/detail/value_parse_impl.hpp src/ossia/network/value/format_value.hpp",
  [("make_preset, apply_preset, write_json, read_json, make_json_preset, apply_json", "src/ossia/preset/preset.cpp"), ("value grammar", "src/ossia/network/value/detail/value_parse_impl.hpp"), ("value_prettyprint_visitor", "src/ossia/network/value/format_value.hpp")],
  ["parameter values and writes after each restore", "nodes created", "preset contents"])

# ---------------------------------------------------------------- protocols
p("F01", "Stream framing recovers exactly the messages sent",
  "Whatever messages are framed by the SLIP or the size-prefixed encoder, and however the byte stream is cut into pieces on the way, the decoder delivers exactly those messages, in order and byte for byte, and nothing else. Bytes between frames and incomplete frames never deliver a message.",
  "inputs schedules", "every sequence of messages (every special byte included) and every segmentation of the stream",
  TESTS + "; segmentation times content is unbounded.",
  "src/ossia/network/sockets/slip_framing.hpp src/ossia/network/sockets/size_prefix_framing.hpp src/ossia/network/sockets/no_framing.hpp",
  [("slip_decoder/encoder", "src/ossia/network/sockets/slip_framing.hpp"), ("size_prefix_decoder/encoder", "src/ossia/network/sockets/size_prefix_framing.hpp")],
  ["messages given to the decoder callback"])
p("O01", "OSC: values sent to a parameter arrive unchanged at the mirrored address",
  "A value pushed on a parameter of an OSC device (on its own, as raw data, or in a bundle) leaves, once bounded by its domain and unless it is filtered, in one packet, and arrives at the parameter with the same address on the receiving device with the same value and type, for every type the OSC version can carry; a parameter of another type keeps its own type and takes the converted value. A message to an unknown address changes nothing and is reported unhandled, a message with a pattern reaches exactly the matching parameters, one to an address a node no longer has does not reach it, and a device that learns creates the parameter instead. Whether a parameter has listeners does not change what it receives. A bundle (nested ones included) delivers each of its messages once, in order, and malformed packets change nothing.",
  "inputs histories", "every value type and nesting, every sequence of pushes, bundles and malformed packets",
  TESTS + "; the value space and packet space are unbounded.",
  "src/ossia/network/osc/osc.cpp src/ossia/network/osc/detail/osc.hpp src/ossia/network/osc/detail/osc_messages.cpp src/ossia/network/osc/detail/osc_receive.hpp src/ossia/network/osc/detail/sender.hpp src/ossia/network/osc/detail/receiver.hpp src/ossia/protocols/osc/osc_factory.cpp",
  [("osc_write_visitor, osc_inbound_visitor, on_input_message", "src/ossia/network/osc/detail/osc.hpp")],
  ["parameter value on the receiving device", "unhandled-message signal"])
p("K01", "Minuit: requests are answered and a mirror ends with the server's tree",
  "Every get and namespace request sent to a Minuit device about an existing node is answered once, to the peer it answers to, with the current value, attribute or children of that node; a request about a node that does not exist changes nothing. A set message changes exactly the parameter or attribute it names. A mirror that asks for the namespace of a server and follows the answers ends, once every datagram is delivered, with the server's nodes, and with their parameters' types, values, access, range, bounding, unit, priority, description and repetition filter as far as the protocol can tell them; nodes the server no longer has are gone after an update. A request stays pending only while it or its answer is under way.",
  "histories inputs", "every sequence of tree edits, attribute edits, values, requests, updates and deliveries of datagrams over small trees",
  TESTS + "; request/answer interleavings and trees are unbounded.",
  "src/ossia/network/minuit/minuit.cpp src/ossia/network/minuit/detail/minuit_parser.hpp src/ossia/network/minuit/detail/minuit_common.hpp src/ossia/network/minuit/detail/minuit_impl.cpp src/ossia/network/minuit/detail/minuit_name_table.hpp",
  [("minuit_behavior, handle_minuit", "src/ossia/network/minuit/detail/minuit_parser.hpp"), ("minuit_protocol", "src/ossia/network/minuit/minuit.cpp")],
  ["datagrams sent", "mirror's tree, values and attributes", "pending requests"])
p("Q01", "An OSCQuery mirror and its server describe the same tree",
  "A device that connects to an OSCQuery server and reads its namespace rebuilds the same tree: same names, types, values, access, bounding, ranges, units, tags and other attributes. From then on every node added or renamed on the server and every attribute changed there reaches each connected mirror, in order for what concerns the paths, so that once the messages are delivered every mirror agrees with the server again, and asking again for the whole namespace changes nothing. A value pushed on either side reaches every other participant once (over the websocket for a critical parameter, over OSC for the others), under the address the parameter has there, and never comes back to its sender, and a query for the value or one attribute of a node gives the current one of that node.",
  "inputs histories", "every small tree with all value types and attributes, every sequence of tree edits, attribute edits, values and queries, every delivery order between participants",
  TESTS + "; depends on the tree, on the history of edits and on when messages are delivered.",
  "src/ossia/network/oscquery/oscquery_server.cpp src/ossia/network/oscquery/oscquery_mirror.cpp src/ossia/network/oscquery/detail/json_writer_detail.cpp src/ossia/network/oscquery/detail/json_reader_detail.cpp src/ossia/network/oscquery/detail/json_parser.cpp src/ossia/network/oscquery/detail/query_parser.cpp src/ossia/network/oscquery/detail/attributes.cpp src/ossia/network/oscquery/detail/typetag.cpp",
  [("json_writer, json_parser", "src/ossia/network/oscquery/detail/json_reader_detail.cpp"), ("query_answerer", "src/ossia/network/oscquery/detail/query_parser.hpp"), ("oscquery_server_protocol", "src/ossia/network/oscquery/oscquery_server.cpp"), ("oscquery_mirror_protocol", "src/ossia/network/oscquery/oscquery_mirror.cpp")],
  ["trees of server and mirrors", "messages under way", "listening state per client"])
p("U01", "A multiplexing device gives every value once to each exposed protocol",
  "Every push, raw push, observation change and echoed message on a local device reaches each protocol exposed at that moment exactly once, and none that was removed; a protocol exposed late learns every parameter that already has listeners. An incoming message is echoed to the protocols only when echo is on and never changes the value that was received.",
  "histories configurations", "every sequence of exposing, removing protocols, pushes, observations and incoming messages",
  TESTS + "; depends on the history of exposures.",
  "src/ossia/network/local/local.cpp src/ossia/network/base/device.cpp",
  [("multiplex_protocol", "src/ossia/network/local/local.cpp"), ("device_base::apply_incoming_message", "src/ossia/network/base/device.cpp")],
  ["calls received by the exposed protocols"])
p("W01", "Rate limiting never loses the latest value nor invents one",
  "Behind a rate limiter every parameter's last pushed value is eventually sent, the values sent for one parameter are a subsequence of those pushed, none is sent twice for one push; what was pushed on a parameter that is removed is forgotten and never sent after its removal; every other operation (pulling, requesting, observing, raw pushes, echoes, updates, connection, start, stop, logger) is passed on at once with its arguments and its answer comes back.",
  "schedules histories", "every interleaving of pushes by user threads with the limiter's flush",
  TESTS + "; it is a property of thread interleavings.",
  "src/ossia/network/rate_limiting_protocol.cpp src/ossia/network/rate_limiting_protocol.hpp",
  [("rate_limiter::operator()", "src/ossia/network/rate_limiting_protocol.cpp")],
  ["values the wrapped protocol is asked to push"])
p("D01", "MIDI: messages and tree values map one to one",
  "Each MIDI channel message received updates exactly the listened parameters that stand for it (all notes, controls or programs of the channel, and the one transmitted) with the transmitted data, tells each of their callbacks once, and leaves parameters that are removed or no longer listened to alone; asking for a value gives the last one received. A value pushed on a parameter of an output emits exactly the corresponding channel message, the two directions being inverse of each other for every channel, note, controller and value. While learning, messages only create the nodes that stand for them, and only nodes for existing channels and numbers can be created.",
  "inputs histories", "every message kind, channel, note/controller number and value",
  TESTS + "; the message space is large and stateful.",
  "src/ossia/protocols/midi/midi_protocol.cpp src/ossia/protocols/midi/midi_device.cpp src/ossia/protocols/midi/midi_node.cpp src/ossia/protocols/midi/midi_parameter.cpp",
  [("midi_protocol::push, midi_callback", "src/ossia/protocols/midi/midi_protocol.cpp")],
  ["MIDI bytes emitted, parameter values"])
