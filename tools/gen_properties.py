#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here, one call per property)."""
import json, os
P = []
CORE = "knp/core-library/impl/"
COREI = "knp/core-library/include/knp/core/"
POOL = "knp/backends/cpu/thread_pool/"
CPU = "knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/"
MT = "knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp"
ST = "knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp"
FW = "knp/base-framework/impl/"
FWI = "knp/base-framework/include/knp/framework/"

def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Every routed message reaches each matching subscription exactly once",
  "On the in-process message bus, a message sent through any endpoint is, after routing and receiving, present exactly "
  "once and unchanged in every subscription (on any endpoint) whose message type matches and whose sender list contains "
  "the message's sender, and in no other subscription. Routing reports how many messages it routed, receiving reports "
  "how many it took, and unloading hands every received message out exactly once.",
  ["histories", "fault_sequences"],
  "every finite history of endpoint creation and destruction, subscribe, send, route, receive and unload over any number "
  "of endpoints, senders, receivers and both message types, with allocation failures while sending or subscribing (if "
  "memory runs out while routing or receiving, the fate of the messages in transit is open, but the bus stays usable)",
  "The unit tests send one or two messages between one or two endpoints with a single route/receive cycle; they never mix "
  "types, share senders between subscriptions, let receivers lag or endpoints come and go.",
  [CORE + "message_bus.cpp", CORE + "message_bus_cpu_impl/message_bus_cpu_impl.cpp",
   CORE + "message_bus_cpu_impl/message_endpoint_cpu_impl.h", CORE + "message_endpoint.cpp", COREI + "subscription.h"],
  [("collect-then-deliver routing cycle", CORE + "message_bus_cpu_impl/message_bus_cpu_impl.cpp update()/step()"),
   ("type and sender filtering on receipt", CORE + "message_endpoint.cpp receive_message()")],
  [("per-endpoint send and receive queues", "messages not yet routed / routed and not yet received",
    CORE + "message_bus_cpu_impl/message_endpoint_cpu_impl.h")],
  ["MessageEndpoint::unload_messages", "MessageBus::route_messages return value"])

p("C02", "Messages of one sender arrive in the order they were sent",
  "For any two messages of the same type and sender sent through the same endpoint, every subscription that gets both "
  "gets them in sending order, however many messages and routing cycles lie between sending and receiving.",
  ["histories", "schedules"],
  "every history of send, route and receive in which receivers may lag behind any number of routing cycles",
  "Tests receive after every single route, so at most one batch is ever in flight.",
  [CORE + "message_bus_cpu_impl/message_bus_cpu_impl.cpp", CORE + "message_bus_cpu_impl/message_endpoint_cpu_impl.h",
   CORE + "message_endpoint.cpp", FW + "output_channel.cpp"],
  [("queue discipline of send, route and receive containers", CORE + "message_bus_cpu_impl/")],
  observe=["MessageEndpoint::unload_messages order"])

p("C03", "Ending a subscription stops its delivery and disturbs nothing else",
  "After a receiver unsubscribes from a message type, or is removed, or a sender is removed from its list, messages routed "
  "later are not delivered to it, while every other subscription keeps receiving exactly what it would have received. "
  "Removing a receiver removes all and only its own subscriptions, unsubscribing reports whether a subscription existed, "
  "and an in-process bus endpoint whose remaining subscriptions never listed a sender takes no messages of that sender.",
  ["histories"],
  "every history interleaving subscribe, unsubscribe, receiver removal and sender removal with sends, routes and receives",
  "Tests unsubscribe once with nothing else on the endpoint and never remove receivers with several subscriptions.",
  [CORE + "message_endpoint.cpp", COREI + "message_endpoint.h", COREI + "subscription.h"],
  [("subscription map and the endpoint's combined sender set", CORE + "message_endpoint.cpp")],
  [("combined sender set", "union of sender lists the bus consults to deliver to an endpoint", COREI + "message_endpoint.h")],
  ["MessageEndpoint::receive_message return value", "unload_messages", "get_endpoint_subscriptions"])

p("C04", "Concurrent sending, receiving and routing loses and tears nothing",
  "When different threads send through endpoints of one in-process bus, receive on their own endpoints, route, and create or "
  "destroy other endpoints at the same time, every message sent is delivered exactly once, unchanged, to each standing "
  "subscription that matches it once routing has caught up. No interleaving deadlocks or contains a data race.",
  ["schedules"],
  "every interleaving of sender threads (also several on one endpoint), one receiver thread per receiving endpoint, router "
  "threads and an endpoint-creating thread, with subscriptions of live traffic set up beforehand",
  "All bus tests are single-threaded; the locking in the bus and endpoints is never exercised by a second thread.",
  [CORE + "message_bus_cpu_impl/message_bus_cpu_impl.cpp", CORE + "message_bus_cpu_impl/message_bus_cpu_impl.h",
   CORE + "message_bus_cpu_impl/message_endpoint_cpu_impl.h"],
  [("bus and endpoint mutexes", CORE + "message_bus_cpu_impl/")],
  observe=["unload_messages after quiescence"])

p("C05", "The ZeroMQ bus delivers like the in-process bus despite socket back-pressure",
  "With the ZeroMQ bus, every message sent before a routing cycle is delivered by that cycle exactly once, unchanged and in "
  "order to every endpoint with a matching subscription, whatever transient 'try again' results the sockets return and however "
  "many messages are queued between routing cycles. Sending, routing and receiving always return.",
  ["histories", "fault_sequences"],
  "every history of send/route/receive with any backlog and any finite sequence of would-block results at socket sends, "
  "receives and polls",
  "Tests pass a handful of messages through real sockets, which never report would-block at that load.",
  [CORE + "message_bus_zmq_impl/message_bus_zmq_impl.cpp", CORE + "message_bus_zmq_impl/message_endpoint_zmq_impl.cpp",
   CORE + "message_bus_zmq_impl/message_endpoint_zmq_impl.h", CORE + "messaging/message_envelope.cpp"],
  [("retry loops around non-blocking socket calls", CORE + "message_bus_zmq_impl/"),
   ("identity-frame filtering", CORE + "message_bus_zmq_impl/message_bus_zmq_impl.h isit_id()")],
  observe=["unload_messages", "route_messages return value"])

p("C06", "Every task posted to the thread pool runs exactly once before join returns",
  "For any number of worker threads (including none beyond the joining thread) and any posting pattern, including tasks that "
  "post further tasks, each posted task runs exactly once with the arguments it was given, and join returns only after all of "
  "them have finished and always returns. What tasks wrote is visible to the joining thread, and the pool can be reused for any "
  "number of post/join rounds and then destroyed.",
  ["schedules", "configurations", "fault_sequences"],
  "every interleaving of the workers, the posting and joining thread and nested posts, every wake-up order and spurious "
  "wake-up, thread counts 0..8",
  "The pool has no tests of its own; backend tests use it under whatever schedule the machine happens to produce.",
  [POOL + "impl/thread_pool_context.cpp", POOL + "include/knp/backends/thread_pool/thread_pool.h",
   POOL + "include/knp/backends/thread_pool/thread_pool_executor.h"],
  [("shared task queue, outstanding-task counter and condition variable", POOL + "impl/thread_pool_context.cpp")],
  [("outstanding task count", "tasks posted and not finished", POOL + "include/knp/backends/thread_pool/thread_pool_executor.h")],
  ["effects of tasks after ThreadPool::join"])

p("C07", "A failing task reaches the waiter as an exception and harms nothing else",
  "If a task running in the thread pool throws, the process survives, every other posted task still runs exactly once, and the "
  "join that waits for it throws that (or another failed task's) exception only after no task of the round is still running. "
  "Afterwards the pool accepts new rounds, which are not affected, and can be destroyed without hanging.",
  ["schedules", "fault_sequences"],
  "every interleaving, with any subset of tasks throwing, on worker threads or on the joining thread, and nested posts",
  "No test makes a pooled task throw; whether it terminates the process depends on which thread happens to run it.",
  [POOL + "impl/thread_pool_context.cpp", POOL + "include/knp/backends/thread_pool/thread_pool_executor.h", MT],
  [("exception path of task execution", POOL + "impl/thread_pool_context.cpp execute()")],
  observe=["exceptions out of ThreadPool::join"])

p("C08", "Multi-threaded and single-threaded backends compute the same network",
  "Given the same network and inputs, the multi-threaded backend emits in every step the same spikes from every population and "
  "the same synaptic impacts from every projection as the single-threaded backend, and leaves the same neuron states and "
  "synapse weights, whenever the arithmetic is exact. This holds for every thread schedule, thread count and work-chunk size.",
  ["schedules", "configurations", "inputs"],
  "every interleaving of workers, thread counts 0..6, population and projection part sizes from 1 up, networks of supported "
  "neuron and synapse types with shared inputs, several senders per projection, delays, all output types and learning",
  "The two backends are tested separately on tiny networks with the default chunk size (so one chunk) and natural schedules.",
  [MT, ST, CPU + "populations.h", CPU + "projections.h", CPU + "impl/projections/delta/delta_impl.h", POOL],
  [("chunked tasks joined between phases", MT), ("merging of chunk results under a mutex", MT)],
  observe=["spike and impact messages seen by another endpoint of the bus", "network copy of the backend"])

p("C09", "Multi-threaded runs are reproducible bit for bit",
  "Two runs of the multi-threaded backend on the same network, inputs, thread count and chunk sizes produce identical messages "
  "(content and order of entries), identical neuron states and identical weights, whatever the thread schedule.",
  ["schedules"],
  "every pair of interleavings of the same run, with weights whose floating-point sums are order-sensitive and with "
  "order-sensitive impact types",
  "A test run samples one or two schedules of a network too small to be split into chunks.",
  [MT, CPU + "impl/projections/delta/delta_impl.h"],
  [("order in which chunk results are merged", MT)],
  observe=["spike and impact messages", "network copy of the backend"])

p("C10", "Parallel steps of the multi-threaded backend are free of data races",
  "While the multi-threaded backend executes steps, no two threads access the same memory without ordering when one of them "
  "writes, for any supported network, thread count and chunk size, including learning and locked projections.",
  ["schedules", "configurations"],
  "every interleaving and every pair of conflicting accesses in the step, judged by happens-before",
  "Ordinary tests do not observe memory accesses; a race corrupts results only under rare timing.",
  [MT, POOL, CPU + "populations.h", CPU + "impl/projections/delta/delta_impl.h", COREI + "projection.h", COREI + "population.h"],
  [("disjoint chunks per phase and mutex around merged results", MT)],
  observe=["instrumented memory accesses"])

p("C11", "Every spike causes exactly one impact per synapse, exactly at its delay",
  "When a spike reaches a projection, each synapse leaving the spiking neuron acts on its target exactly once, exactly the "
  "synapse's delay later, with the synapse's current weight, output type and endpoints, and no other impact ever occurs. "
  "This holds on both CPU backends, for several senders spiking in the same step, and when the run is stopped and continued "
  "while impacts are in flight.",
  ["histories", "schedules", "crash_points"],
  "every spike history, delay distribution, sender set and sequence of stop/continue points, on both backends and every "
  "schedule of the multi-threaded one",
  "Tests use single synapses with delay 1..6 and check a few steps; queues holding many overlapping deliveries over restarts "
  "are not reached.",
  [CPU + "impl/projections/delta/delta_impl.h", CPU + "projections.h", CPU + "impl/projections/message_queue.h", MT, ST],
  [("future message queue keyed by delivery step", CPU + "impl/projections/message_queue.h")],
  [("future message queue", "impacts scheduled for later steps", "ProjectionWrapper::messages_")],
  ["impact messages on the bus with the step they appear in"])

p("C12", "Stopping halts the run after the current step and status stays truthful",
  "A stop requested while a backend runs, from a callback or from another thread, makes the start call return after at most the "
  "step in progress; the step counter then equals the number of completed steps. The backend reports running while and only "
  "while a start call executes its loop, and can be started again.",
  ["schedules", "histories"],
  "every interleaving of the running thread with threads calling stop and querying status, every way a run can end "
  "(predicate, pre- or post-step callback, stop, exception) and every sequence of runs",
  "Tests end runs with a step predicate only and never call stop from another thread or look at the status afterwards.",
  [CORE + "backend.cpp", COREI + "backend.h", FW + "model_executor.cpp"],
  [("atomic started flag checked each loop iteration", CORE + "backend.cpp start()")],
  [("started flag", "a run is in progress", COREI + "backend.h"), ("step counter", "completed steps", COREI + "backend.h")],
  ["Backend::running", "Backend::get_step", "return of start"])

p("C13", "A run cut into pieces equals one uninterrupted run",
  "Stopping a backend at any step boundaries and starting it again, in any sequence of segments, yields the same spikes, impacts, "
  "states and weights at the same step numbers as a single uninterrupted run with the same inputs.",
  ["crash_points", "histories", "schedules"],
  "every set of stop/restart points over a run, on both backends, through the backend and the model executor interface",
  "Tests start a backend once and never continue it.",
  [CORE + "backend.cpp", ST, MT, CPU + "init.h", FW + "model_executor.cpp"],
  [("one-time initialisation and persistent step counter", CORE + "backend.cpp pre_start()")],
  observe=["messages on the bus", "network copy"])

p("C14", "A failure inside a run surfaces to the caller and leaves the engine usable",
  "If a callback, input generator, message handler, observer, or the computation of a step itself fails with an exception at any "
  "point of a run, the start call throws that exception on every schedule, the backend is no longer running, steps completed "
  "before it are intact and counted, and a later start continues from there. A failure in a callback before or after the step "
  "loses and repeats nothing the backend had computed.",
  ["fault_sequences", "schedules", "crash_points"],
  "every failure point in predicates, generators, handlers, observers, tasks and step-time allocations, on both backends, "
  "under every schedule",
  "Tests never make a callback or a step throw; a throw on a worker thread behaves differently from one on the caller.",
  [CORE + "backend.cpp", MT, POOL + "impl/thread_pool_context.cpp", FW + "model_executor.cpp"],
  [("catch-and-clear around the run loop", CORE + "backend.cpp start()"), ("task exception path", POOL)],
  observe=["exceptions from start", "running", "get_step", "messages on the bus"])

p("C15", "Locked learning leaves every weight untouched",
  "While learning is switched off, globally or for one projection, no step changes any weight or synaptic resource of the affected "
  "synapses, and projections that are not locked keep learning exactly as they would otherwise. Switching learning back on "
  "resumes it.",
  ["histories", "schedules"],
  "every history of lock/unlock switches between steps of a learning network, on both backends",
  "Tests lock a projection once and check one weight once.",
  [ST, MT, CPU + "populations_old.h", COREI + "projection.h", COREI + "backend.h"],
  [("lock flag consulted when selecting projections to train", MT + " / populations_old.h")],
  observe=["network copy after every step"])

p("C16", "Resource-based learning conserves synaptic resource",
  "Under resource-based plasticity, a neuron's free resource plus the resource of all its learning synapses stays constant, up to "
  "rounding, through every step in which nothing is drained by configuration, and each trained weight stays within the "
  "synapse's configured minimum and maximum and matches its resource. No activity history produces a non-finite value.",
  ["histories", "schedules"],
  "every history of spikes, forcing and dopamine signals over networks with several learning projections per population, both "
  "backends",
  "Tests check single hand-computed updates, not invariants over long activity histories.",
  [CPU + "impl/populations/training/stdp.h", CPU + "impl/populations/blifat/blifat_stdp.h",
   CPU + "impl/populations/altai/altai_stdp.h"],
  [("paired updates of free and synaptic resource", CPU + "impl/populations/blifat/blifat_stdp.h"),
   ("weight recalculation", CPU + "impl/populations/training/stdp.h")],
  observe=["network copy after every step"])

p("C17", "A network copy is a faithful, independent snapshot",
  "Copying the network out of a backend at any step boundary gives every loaded population and projection with the same "
  "identity, tags, connections, states and weights the backend has at that moment; running on does not change the copy, changing "
  "the copy does not change the backend, and a fresh backend loaded with the copy continues exactly like the original when no "
  "impacts were in flight.",
  ["crash_points", "histories"],
  "every copy point in a run of either backend, learning or not, with the original discarded (as after a crash) and the run "
  "continued from the copy",
  "The synchronisation test copies a small network once and compares sizes.",
  [FW + "synchronization.cpp", "knp/backends/cpu/cpu-single-threaded-backend/impl/get_network.cpp",
   "knp/backends/cpu/cpu-multi-threaded-backend/impl/get_network.cpp", COREI + "backend.h"],
  [("value iterators over backend data", "get_network.cpp")],
  observe=["get_network_copy", "get_network_data"])

p("C18", "Each input channel feeds exactly its own projections, once per step",
  "In every step each input channel's generator is asked exactly once for that step's data, and the spikes it returns are "
  "processed in that same step by all the projections connected to that channel and by no others. This holds for any number of "
  "channels, projections shared by channels, identifiers of any value and stopped and continued runs.",
  ["histories", "inputs", "configurations"],
  "every assignment of channels to projections, every identifier value (also colliding in hash containers) and every "
  "generator output history",
  "Tests use one or two channels with random identifiers, so unlucky identifier combinations are seen once in many runs if at all.",
  [FW + "model_loader.cpp", FW + "model_executor.cpp", FWI + "io/input_channel.h", FW + "model.cpp"],
  [("channel construction from the model's channel map", FW + "model_loader.cpp init_channels()")],
  observe=["impact messages of projections", "generator call log"])

p("C19", "Output channels hold every connected spike once and ranges read exactly",
  "An output channel collects every spike message of exactly its connected populations, once, in step order, however seldom it is "
  "updated. Reading a step range returns exactly the messages of those steps, in order, and removes exactly them, for any range.",
  ["histories", "inputs"],
  "every history of runs, updates and range reads, any channel-to-population assignment and identifier values, and updates "
  "lagging by any number of steps",
  "Tests read the whole range once after updates in every step.",
  [FW + "output_channel.cpp", FWI + "io/output_channel.h", FW + "model_loader.cpp", FW + "model_executor.cpp"],
  [("sorted message buffer with binary search", FW + "output_channel.cpp")],
  observe=["OutputChannel::read_some_from_buffer", "update"])

p("C20", "Observers and handlers see every message once, and handler output arrives",
  "Each observer and each message handler is invoked exactly once per completed step, in the order added, and over a run is given "
  "every message of its senders exactly once, in order. What a handler returns is delivered in the next step to exactly its "
  "receivers, and an empty result sends nothing.",
  ["histories", "schedules"],
  "every combination of observers, handlers, sender and receiver lists and activity histories, on both backends, including "
  "stopped and continued runs",
  "Tests attach one observer or handler to a tiny network for a few steps.",
  [FW + "model_executor.cpp", FWI + "monitoring/observer.h", FW + "message_handlers.cpp"],
  [("post-step update of channels, handlers, observers", FW + "model_executor.cpp")],
  observe=["arguments of callbacks", "messages on the bus"])

p("C21", "Stream inputs deliver what the stream held and nothing after it failed",
  "Input generators that read spikes from a stream return, step by step, exactly the data in the stream however it is split into "
  "reads; once the stream ends or fails they return no spikes, and a failure never makes them invent, repeat or reorder spikes.",
  ["fault_sequences", "inputs"],
  "every well-formed stream content (lines of delimited neuron indexes, or values separated by white space, with values the "
  "stream rejects), every chunking of reads, and end-of-file or a device error at any byte",
  "Tests read short healthy in-memory strings that never end early.",
  [FW + "input_converter.cpp", FWI + "io/in_converters/index_converter.h", FWI + "io/in_converters/sequence_converter.h"],
  [("line and value parsing from std::istream", FW + "input_converter.cpp")],
  observe=["SpikeData returned per step"])

p("C22", "Logging writes exactly what happened and never disturbs the run",
  "Spike, aggregated-spike, weight and status loggers write a complete and correct account of the observed messages and weights "
  "for every step they cover. If their output stream fails at any byte, what was written is a prefix of that account and the "
  "simulated network behaves exactly as it would without loggers.",
  ["fault_sequences", "histories"],
  "every activity history and logging period, and an output device failing or filling up at any byte",
  "Tests write to healthy string streams and look at one line.",
  [FW + "monitoring/model.cpp", FWI + "monitoring/model.h", FW + "model_executor.cpp"],
  [("observer functions writing to std::ostream", FW + "monitoring/model.cpp")],
  observe=["bytes accepted by the stream", "messages on the bus"])

p("C23", "Datasets read from faulty streams hold only complete, correctly labelled frames",
  "Loading a labelled image dataset yields, in order, exactly the frames for which both a complete image and a label line could be "
  "read, up to the requested maximum, however the streams are chunked and wherever one of them ends or fails; no partial, repeated "
  "or mislabelled frame appears. A split that asks for more frames than there are is refused. The spike generators then present "
  "exactly the frames of their part, step by step, looping over them.",
  ["fault_sequences", "inputs"],
  "every image and label stream content and chunking with end-of-file or device error at any byte, any split and step",
  "Tests load one healthy in-memory dataset.",
  [FW + "data_processing/classification/image.cpp", FW + "data_processing/classification/dataset.cpp",
   FWI + "data_processing/classification/image.h"],
  [("paired reads of image bytes and label lines", FW + "data_processing/classification/image.cpp")],
  observe=["get_data_for_training/inference", "generated spikes"])

p("C24", "Synapse lookup always agrees with the projection's synapses",
  "After any sequence of adding, removing, clearing, copying and looking up synapses through the projection's own operations, "
  "including look-ups made by a generator or predicate in the middle of an edit and operations that fail part-way because a "
  "generator, predicate or allocation fails, looking up synapses by presynaptic or postsynaptic neuron returns exactly the "
  "current synapses of that neuron, and size, iteration and removal counts agree.",
  ["histories", "fault_sequences"],
  "every edit/lookup history with failures injected in generators, predicates and allocation",
  "Tests do one edit and one lookup; lookups interleaved with edits and failures are not covered.",
  [CORE + "projection.cpp", COREI + "projection.h"],
  [("lazily rebuilt index guarded by an up-to-date flag", CORE + "projection.cpp reindex()")],
  [("index_ / is_index_updated_", "cached lookup index and its validity", COREI + "projection.h")],
  ["find_synapses", "size", "begin/end"])

p("C25", "Identifiers are unique across threads, schedules and entropy supply",
  "Identifiers created by any number of threads at the same time are pairwise different, valid and never empty, as long as the "
  "entropy source returns distinct data, in whatever portions or with whatever interruptions it does so. Counter-based identifiers "
  "never repeat between resets on any schedule.",
  ["schedules", "fault_sequences"],
  "every interleaving of creating threads, short and interrupted reads from the entropy source",
  "Tests create identifiers on one thread with a healthy entropy source.",
  [COREI + "uid.h", CORE + "uid.cpp"],
  [("random generator or atomic counter", CORE + "uid.cpp")],
  observe=["UID values"])

p("C26", "Population edits keep exactly the intended neurons",
  "After any sequence of adding neurons, removing single neurons or sets of them given in any order, replacing one or all neurons "
  "and copying, including operations that fail part-way in a generator or allocation, a population holds exactly the neurons that "
  "were added or set and not removed, in order, and its size agrees with iteration.",
  ["histories", "fault_sequences"],
  "every edit history with failures injected in generators and allocation",
  "Tests do one addition and one removal on a healthy path.",
  [COREI + "population.h", CORE + "population.cpp"],
  [("vector of neuron parameters edited in place", COREI + "population.h")],
  observe=["size", "iteration", "return values"])

p("C27", "Winner-take-all handlers emit only received spikes and at most K winners",
  "For every outcome of their random choices and every history of incoming messages, winner-take-all handlers attached to a run "
  "emit only spikes they received in that step, without duplicates, and never more winners than configured (in total or per group); "
  "when no more candidates than winners exist, all of them win.",
  ["histories", "schedules"],
  "every random outcome, group layout, winner count and incoming spike history",
  "Tests check sizes for one or two seeds and inputs.",
  [FW + "message_handlers.cpp", FWI + "message_handlers.h"],
  [("random selection without replacement", FW + "message_handlers.cpp select_random_n()")],
  observe=["handler output", "messages on the bus"])

# Stated, not claimed (see MANIFEST not_applicable).
p("C28", "Messages survive packing and writing to text",
  "Packing any message into an envelope and unpacking it yields an equal message, in every field and bit of its values, in any number of threads "
  "at once; the message itself stays as it was. Writing messages one after another to a text stream with enough precision and reading them back "
  "yields equal messages in the same order, also into message objects that held other data before, whatever pieces the device delivers. When the "
  "device is full, fails or ends inside a message, the stream's state tells so and no message is invented; when memory runs out the operation "
  "fails and later ones work.",
  ["inputs", "schedules", "fault_sequences"],
  "every sequence of messages of any content, every interleaving of threads that pack and unpack, every point where a device ends or fails and every allocation failure",
  "Tests round-trip a few fixed messages through fresh objects and healthy string streams.",
  [CORE + "messaging/message_envelope.cpp", CORE + "messaging/spike_message.cpp", CORE + "messaging/synaptic_impact_message.cpp", CORE + "message_header.cpp", COREI + "uid.h"],
  [("flatbuffers envelope", CORE + "messaging/message_envelope.cpp pack_to_envelope(), extract_from_envelope()"),
   ("text operators", CORE + "messaging/spike_message.cpp, synaptic_impact_message.cpp operator<<, operator>>")],
  observe=["pack_to_envelope", "extract_from_envelope", "stream operators of messages"])
p("C29", "Saved networks load back equal",
  "Saving a network to disk and loading it back yields the same populations and projections, also when the disk fails part-way: "
  "then the save reports failure and a previous complete save stays readable.",
  ["crash_points", "fault_sequences"], "every network and every crash or disk error during saving",
  "Tests save and load one healthy network.",
  [FW + "sonata/save_network.cpp", FW + "sonata/load_network.cpp"], [("HDF5 files written through HighFive", FW + "sonata/")])
p("C30", "Builders of connections and populations make exactly what they promise",
  "A projection built all-to-all, exclusive, one-to-one, aligned, by an index rule, from a container or map, by cloning another projection or between "
  "two populations connects exactly the pairs of existing neurons its documentation names, for all sizes (aligned: one synapse per neuron of the "
  "larger population, shared out in order and evenly among the smaller one), between the named populations. Every synapse has the parameters its "
  "generator gave for its own indexes (or the default or copied ones), and the generator is asked once for each. Adding built synapses to a "
  "projection keeps its earlier ones. A population made by default, by cloning a neuron or from a container has exactly these neurons. What is built "
  "from stays unchanged. Building fails exactly when a generator or memory fails; what then was added is part of what was promised.",
  ["inputs", "fault_sequences"],
  "every sequence of builds of any sizes and parameters, every call at which a generator fails and every allocation failure",
  "Tests build one projection of each kind with sizes that divide each other and generators that do not fail.",
  [FWI + "projection/creators.h", FWI + "projection/synapse_generators.h", FWI + "projection/connectors.h", FWI + "projection/synapse_parameters_generators.h",
   FWI + "population/creators.h", FWI + "population/neuron_parameters_generators.h", COREI + "projection.h"],
  [("synapse generators", FWI + "projection/synapse_generators.h"), ("projection creators", FWI + "projection/creators.h"), ("population creators", FWI + "population/creators.h")],
  observe=["all_to_all", "aligned", "exclusive", "one_to_one", "from_container", "from_map", "index_based", "clone_projection", "connect_populations", "make_default", "make_clone"])
p("C31", "In every step every neuron does what its model says",
  "On both CPU backends, under every thread schedule, each neuron's state and spikes after a step follow from its state before the step and the impacts its "
  "population received for the step, whatever order these arrive in. BLIFAT: potential, dynamic threshold, trace and conductance decay; a burst adds the reflexive "
  "weight once, bursting_period steps after a spike; currents add to the potential unless the neuron is blocked (a negative blocking period counts up, a positive "
  "one down, the last blocking impact sets it); conductance pulls to the reversal potential; it spikes when rested longer than its refractory period and at or above the sum of its "
  "thresholds, then resets, and never falls below its minimum. LIF: leaks, adds, spikes above its threshold, and is deaf and silent while refractory. AltAI: "
  "rounding or restart, leak, activity timer, difference or reset at the threshold, and saturation, reset or difference at the negative threshold. Learning variants do the "
  "same and know the step's dopamine and forcing. Everything else in the neuron stays; each spiking neuron is reported once.",
  ["schedules", "inputs", "histories"],
  "every network of all neuron types, input, schedule and partitioning, over whole runs",
  "Tests follow one neuron through a few steps with hand-computed values; comparing the two backends cannot see a mistake they share.",
  [CPU + "impl/populations/blifat/blifat_impl.h", CPU + "impl/populations/altai/altai_impl.h", CPU + "impl/populations/lif/lif_impl.h", CPU + "populations.h", CPU + "populations_old.h",
   "knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp", "knp/neuron-traits-library/include/knp/neuron-traits"],
  [("per-neuron update functions", CPU + "impl/populations/"), ("population steps", CPU + "populations_old.h, cpu-multi-threaded-backend/impl/backend.cpp")],
  observe=["calculate_pre_impact_single_neuron_state", "impact_neuron", "calculate_post_impact_single_neuron_state"])
p("C32", "The CUDA backend agrees with the CPU backends",
  "The CUDA backend computes the same spikes and states as the CPU backends.",
  ["schedules", "inputs"], "every network and kernel schedule", "CUDA tests need a GPU and are not built.",
  ["knp/backends/gpu/cuda-backend"], [("CUDA kernels", "knp/backends/gpu/cuda-backend/impl")])
p("C33", "Python programs get the outcomes of C++ programs and never touch what is gone",
  "For any sequence of operations in Python, each one ends as the same operation does in C++: same values, same messages, same errors. "
  "What an operation does not accept (an index outside, an object of another type, a generator answering nonsense) is an error and "
  "never a wrong value. An exception raised in a Python callback reaches whoever called the operation and leaves the engine able to go on. "
  "Callbacks are called with the same arguments in the same order and are let go with what they were given to. Neurons, synapses, networks, "
  "channels, endpoints and executors a program still refers to stay valid in whatever order it drops what they came from.",
  ["histories", "fault_sequences"],
  "every history of operations of the bindings, order of dropping objects, and place where a callback raises, stops the run or answers nonsense "
  "or native code runs out of memory",
  "The Python tests run a few straight-line scripts whose callbacks behave.",
  ["knp/python-framework/impl/core/cpp", "knp/python-framework/impl/base_framework/cpp", "knp/python-framework/impl/neuron_traits/cpp",
   "knp/python-framework/impl/synapse_traits/cpp"],
  [("Boost.Python wrappers around generators, predicates and observers", "knp/python-framework/impl"),
   ("references into objects owned by others", "knp/python-framework/impl/base_framework/cpp/model.cpp")],
  observe=["every value, exception and callback call the bindings offer"])

p("C34", "Inference evaluation counts every presented frame once, by its own spikes",
  "When the inference part of a dataset has been presented to a network, evaluating what the output population sent counts every "
  "presented frame exactly once, under its own label, as won, lost or unanswered according to the spikes sent during the steps in "
  "which that frame was presented, whatever the backend, its schedule and the way the run was cut into pieces. The report gives "
  "those counts; if the stream it is written to fails, what was written is its beginning.",
  ["schedules", "histories", "fault_sequences"],
  "every dataset, network, backend schedule, segmentation of the run and place where the report stream fails",
  "The test evaluates four hand-written messages.",
  [FW + "inference_evaluation/classification/processor.cpp", FWI + "inference_evaluation/classification/result.h",
   FW + "data_processing/classification/image.cpp"],
  [("votes collected per window of steps", FW + "inference_evaluation/classification/processor.cpp process_spikes()")],
  observe=["get_inference_results", "CSV report"])

p("C35", "Networks and models hold exactly what was added and not removed",
  "After any history of adding populations and projections through any overload, connecting populations, removing, editing through "
  "references, copying the network and connecting channels, a network holds exactly the entities that were added and not removed, "
  "with the neurons, synapses, ends, lock state and tags they were given or last edited to; counts, iteration, existence queries and "
  "look-ups agree with that, a model lists exactly the channels that were connected, and copies are independent. A call that is "
  "refused (an identifier that is unknown or taken) and an addition that fails (memory, a synapse generator that throws) change nothing.",
  ["histories", "fault_sequences"],
  "every history of network and model edits over every population and projection type, every place where an allocation or a generator fails",
  "Tests add a handful of entities in one order and never fail in the middle.",
  [FW + "network.cpp", FW + "model.cpp", FWI + "network.h", FWI + "model.h"],
  [("entities in vectors searched by identifier", FW + "network.cpp"), ("channel maps", FW + "model.cpp")],
  observe=["get_populations", "get_projections", "is_population_exists", "get_input_channels"])

p("C36", "Long runs need bounded memory and what is destroyed releases all of it",
  "While consumers keep up, the memory a backend, its message bus, its thread pool and a model executor with channels, handlers and "
  "observers hold does not grow with the number of steps executed, of runs they are cut into, or of endpoints opened and closed; "
  "and destroying backends, executors, networks, buses and endpoints returns exactly the memory they took, also after runs that "
  "failed for lack of memory.",
  ["schedules", "histories", "fault_sequences"],
  "every network, periodic input, schedule, way to cut a run, bus history, and place where an allocation fails",
  "Tests run for a few dozen steps and do not measure memory; leak checkers see neither growth that is released at the end nor the paths after a failure.",
  [CORE + "message_bus_cpu_impl/message_bus_cpu_impl.cpp", CORE + "message_bus_zmq_impl/message_bus_zmq_impl.cpp", CORE + "message_endpoint.cpp",
   CPU + "projections.h", MT, ST, FW + "model_executor.cpp", FW + "output_channel.cpp"],
  [("impact queues are erased when sent", CPU + "projections.h calculate_projection()"), ("data of destroyed endpoints is dropped when routing", CORE + "message_bus_cpu_impl/message_bus_cpu_impl.cpp update()"),
   ("subscriptions are emptied when unloaded", COREI + "message_endpoint.h unload_messages()")],
  observe=["live heap blocks and bytes"])

p("C37", "Validation reports exactly what every validator says about every entity",
  "Validating a network asks every added validator exactly once about every entity it is for (population validators about every "
  "population, projection validators about every projection, network validators about the network) and returns one report for each "
  "such question, under the validator's identifier and name, holding exactly the issues it reported; a validator that throws makes the "
  "validation fail, and the next one works. The connectivity validator reports exactly the populations no projection starts or "
  "ends at, and the projections connected to nothing.",
  ["histories", "fault_sequences"],
  "every network, set of validators and history of validations, every place where a validator throws or an allocation fails",
  "Tests run one or two validators over one network.",
  [FW + "network_validation/executor.cpp", FW + "network_validation/validators/connectivity.cpp", FWI + "network_validation/executor.h"],
  [("validators in maps by identifier", FW + "network_validation/executor.cpp run_validators()")],
  observe=["run_validators"])

p("C38", "Loading a backend gives a fresh backend of that library or an error",
  "Loading a backend from a plugin library returns a new backend that the library's creator made, owned by the caller alone, or throws; "
  "it throws when the library is missing, has no creator, or its creator fails or makes nothing. Checking a library tells whether it "
  "has a creator. Whatever failed before (the dynamic linker, the creator, an allocation), whichever loaders were copied or "
  "destroyed, a library that is in order loads once the failure is over. A library is not unloaded while a backend it made, or an "
  "endpoint taken from such a backend, is alive, in whatever order loaders, backends and endpoints are destroyed.",
  ["histories", "fault_sequences"],
  "every history of loading, checking, copying and destroying loaders, backends and endpoints, every place where the dynamic linker or an allocation fails",
  "Tests load a correct library once and a missing one once.",
  [FW + "backend_loader.cpp", FWI + "backend_loader.h"],
  [("creators are cached by path", FW + "backend_loader.cpp make_creator()")],
  observe=["load", "is_backend"])

p("C39", "Devices keep their identity and exactly the requested ones are selected",
  "A backend lists the same devices, under the same identifiers and names, every time it is asked, whoever asks; moving a device object "
  "keeps its identifier, name, number and tags. Selecting a set of listed identifiers makes exactly these devices current, replacing an "
  "earlier selection; selecting an identifier that is not listed is refused; a selection that is refused or fails changes nothing. "
  "Selecting a device object makes it the only current one.",
  ["histories", "fault_sequences", "schedules"],
  "every history of listing, selecting and moving devices on every backend, listings by several threads at once, every place where listing or an allocation fails",
  "The tests only select a device that does not exist; what is listed is never selected or compared.",
  ["knp/core-library/impl/backend.cpp", "knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp", MT, ST],
  [("name-based identifiers", "knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp CPU()"), ("selection by identifier", "knp/core-library/impl/backend.cpp select_devices()")],
  observe=["get_devices", "get_current_devices", "select_devices"])

p("C40", "Random builders keep their promise whatever is drawn",
  "A projection built with a fixed connection probability connects only existing neurons, each pair at most once, each with the given "
  "probability: none at 0, all at 1; a probability outside [0, 1] is refused. A projection built with a fixed number of synapses per "
  "presynaptic (or per postsynaptic) neuron gives every such neuron exactly that many, their other ends drawn uniformly from the existing "
  "neurons. Every synapse carries the parameters its generator returned for that pair of neurons, and the generator is asked once for it. "
  "Adding randomly drawn synapses to a projection leaves its earlier synapses alone. Building fails only when the random source, the "
  "generator or memory fails; the builders draw anew each time.",
  ["inputs", "fault_sequences"],
  "every outcome of the random source, every size and every place where the random source, a generator or an allocation fails",
  "Tests build one projection of each kind and look at its size.",
  [FWI + "projection/creators.h", FWI + "projection/synapse_generators.h", FWI + "population/creators.h", FWI + "population/neuron_parameters_generators.h"],
  [("random draws", FWI + "projection/synapse_generators.h FixedProbability, FixedNumberPost, FixedNumberPre")],
  observe=["fixed_probability", "fixed_number_post", "fixed_number_pre"])

p("C41", "Normalization changes the chosen value of every element once and nothing else",
  "Normalizing neurons or synapses of a population, projection or network asks the corrector once for each element with the element's present value "
  "and stores its answer there; every other parameter, identifier, tag, connection and element stays as it is. The copying form leaves the original "
  "network unchanged and returns a copy that differs in these values only, also when the corrector throws or memory runs out: then the original is "
  "unchanged and the failure reaches the caller. An in-place normalization whose corrector throws leaves each element as it was or corrected. A "
  "rescaler maps its input interval linearly onto its output interval.",
  ["inputs", "fault_sequences"],
  "every network of any types, every corrector and accessor, every call at which the corrector fails and every allocation failure",
  "Tests normalize one projection and one population and look at the range of the values.",
  [FWI + "normalization/synapse_normalizer.h", FWI + "normalization/neuron_normalizer.h", FWI + "normalization/synapse_accessors.h", FWI + "normalization/neuron_accessors.h",
   FWI + "normalization/normalizers.h"],
  [("walk over elements", FWI + "normalization/synapse_normalizer.h normalize_synapses(), neuron_normalizer.h normalize_neurons()"), ("rescaling", FWI + "normalization/normalizers.h Rescaler")],
  observe=["normalize_synapses", "normalize_neurons", "Rescaler"])

p("C42", "Resource learning changes neurons and synapses by its rule only",
  "On both CPU backends, in every step every neuron with the synaptic resource rule and every unlocked synapse to it change as the rule says. A spike marks the synapses "
  "whose last impact arrived within their plasticity period as contributing (within a spiking period marks are only added), starts or continues the spiking period "
  "(spikes closer than isi_max continue it; a forced spike is outside of any; dopamine ends it), lowers stability when a period starts, moves d_h, scaled by 2^-stability up "
  "to 1, once per period from the neuron's free resource to each contributing synapse, and sets the additional threshold from the sum of positive weights. Dopamine of the step moves "
  "resource to or from contributing synapses within the neuron's plasticity time and changes stability: down by punishment and by reward when forced, else by the distance of the "
  "period's length from isi_max. Free resource at or beyond its threshold is shared among synapses and drain once the period is over. A synapse's last spike is the last "
  "step at which its presynaptic neuron's spike reached the projection. Weights follow resource; nothing else changes.",
  ["schedules", "inputs", "histories"],
  "every learning network, input, forcing, dopamine, locking history, schedule and partitioning, over whole runs",
  "Tests train two neurons for twenty steps and compare final weights with numbers computed once.",
  [CPU + "impl/populations/training/stdp.h", CPU + "impl/populations/blifat/blifat_stdp.h", CPU + "impl/populations/altai/altai_stdp.h",
   CPU + "impl/projections/training/stdp/synaptic_resource_stdp.h", CPU + "impl/projections/delta/delta_impl.h", CPU + "populations_old.h",
   "knp/neuron-traits-library/include/knp/neuron-traits/stdp_synaptic_resource_rule.h"],
  [("learning of a population", CPU + "impl/populations/training/stdp.h, blifat/blifat_stdp.h, altai/altai_stdp.h"), ("arrival of spikes", CPU + "impl/projections/")],
  observe=["train_population", "update_isi", "renormalize_resource"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
