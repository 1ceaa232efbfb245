#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the jsonl is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "Every observation sent is delivered exactly once, in order, to every handler",
 "Whatever the interleaving of sending threads and processing calls, every observation that was enqueued on a transmitter (or any of its clones) reaches each cockpit and handler registered at that point of the message stream exactly once, unchanged, and observations sent by one thread reach them in the order they were sent. "
 "Registrations and removals sent through a transmitter take effect at their own position in that same order. "
 "Observations sent before the last transmitter was dropped are still delivered.",
 ["schedules", "histories"],
 "All interleavings of any number of transmitter clones on any threads with the processing side, all positions of registrations in the stream, all moments at which transmitters are dropped.",
 "The unit tests send at most a handful of messages from one thread and process them with one call; they cannot vary the interleaving, batch boundaries or the moment of disconnect.",
 ["src/lib.rs", "src/processor.rs", "src/driver.rs", "src/attached_mount.rs"],
 [("one channel per processor, drained in order", "src/processor.rs TelemetryProcessor::process"),
  ("TelemetryTransmitter::send", "src/lib.rs"), ("disconnect handling", "src/processor.rs is_disconnected")],
 ["a user-written handler registered in a processor", "snapshots"])

prop("C02", "Bounded queues never exceed capacity and drop or block as configured",
 "With a bounded queue, at most the configured number of messages waits in the queue; in the non-blocking mode a message that finds the queue full is discarded without any other effect and the sender never waits, and in the blocking mode the sender waits until there is room and nothing is lost. "
 "The reported queue size, capacity and full/empty indications always agree with the messages actually waiting. "
 "Sending never panics or hangs once the receiving side is gone.",
 ["schedules", "configurations", "histories"],
 "All capacities (also 0 and unbounded), both overflow modes, all interleavings of sends with processing, and sends after the receiver was dropped.",
 "No unit test creates a bounded queue, fills one, or sends after the processor was dropped.",
 ["src/lib.rs", "src/processor.rs"],
 [("use_send decides send/try_send", "src/lib.rs TelemetryTransmitter::send"), ("channel::bounded", "src/processor.rs TelemetryProcessor::create"),
  ("queue_size/queue_capacity/is_queue_full/is_queue_empty", "src/lib.rs")],
 ["TelemetryTransmitter queue queries", "return of the send call", "handlers"])

prop("C03", "A processing call consumes at most its limit and reports exactly what it did",
 "One processing call takes at most the given number of messages from the queue, and takes all of them if there are no more than that, returning promptly when the queue is empty. "
 "Its outcome reports exactly the number of messages processed, the number of observations dropped, the sum of what the handlers reported as updated instruments, and the number of messages still waiting afterwards; an aggregate reports the sum over its parts and applies the limit to each part.",
 ["histories", "inputs"],
 "All queue contents, limits from 0 to the largest integer, processing strategies, component trees and numbers of calls.",
 "The tests never compare an outcome with the content of the queue, and never process with a limit below the queue length.",
 ["src/processor.rs", "src/attached_mount.rs", "src/driver.rs"],
 [("process loop and ProcessingOutcome", "src/processor.rs TelemetryProcessor::process"), ("combine_with", "src/processor.rs ProcessingOutcome")],
 ["ProcessingOutcome"])

prop("C04", "Only observations the processing strategy rejects are dropped",
 "With the process-everything strategy nothing is dropped; with the drop-everything strategy every observation is dropped; with an age limit an observation is dropped exactly if it is older than the limit at the time of processing and it is not a delta that the strategy protects. "
 "A dropped observation changes no instrument, while registrations and removals are applied under every strategy.",
 ["histories", "inputs"],
 "All strategies, age limits (zero up to the largest duration), observation timestamps in past and future, delta and absolute values, and message orders.",
 "The unit tests cover no strategy besides the default one with fresh observations.",
 ["src/processor.rs", "src/observation.rs", "src/driver.rs"],
 [("ProcessingDecider::should_be_processed", "src/processor.rs"), ("is_delta", "src/observation.rs")],
 ["ProcessingOutcome", "instrument values in snapshots"])

prop("C05", "Observations reach exactly the components whose label filters accept them",
 "An observation updates exactly those components for which every label filter on the path from the processor down to the component accepts its label; no other component changes. "
 "Each filter form accepts exactly the labels it describes, a filter extended by a further label accepts that label in addition to what it accepted before, and value modifiers change only what their own component sees.",
 ["configurations", "inputs"],
 "All component trees (cockpits, nested panels, instruments with filters of their own, handlers), all filter forms and all labels.",
 "The label filter tests exercise single filters with a few labels; nested routing and modifiers with filters are not tested.",
 ["src/instruments/label_filter.rs", "src/instruments/panel.rs", "src/cockpit.rs", "src/instruments/instrument_adapter.rs", "src/instruments/gauge/gauge_adapter.rs"],
 [("LabelFilter::accepts / add_label", "src/instruments/label_filter.rs"), ("Panel::handle_observation", "src/instruments/panel.rs"), ("InstrumentAdapter::handle_observation", "src/instruments/instrument_adapter.rs")],
 ["snapshots", "number of updated instruments"])

prop("C06", "Counting instruments report exactly the number of occurrences observed",
 "The count shown by a counter and by a meter equals the sum of the occurrence counts of all observations it handled (a single observation counts as one, a plain repeated observation as its count), and the count of a value meter equals the sum of the non-negative integer values it handled. "
 "Counts never decrease and are independent of timing.",
 ["histories", "inputs"],
 "All sequences of observation kinds, counts and values, with any passing of time in between.",
 "The tests use one or two fixed updates; they cannot cover mixed kinds, large counts or interleaved time.",
 ["src/instruments/counter.rs", "src/instruments/meter.rs", "src/instruments/other_instruments/value_meter.rs", "src/instruments/fundamentals/metrics_meter.rs"],
 [("Counter::update", "src/instruments/counter.rs"), ("StdMeter::mark", "src/instruments/fundamentals/metrics_meter.rs")],
 ["snapshots"])

prop("C07", "A gauge shows the last absolute value plus all deltas since",
 "After any sequence of observations a gauge shows the most recent absolute value adjusted by every increment and decrement handled since (starting from zero if no absolute value was seen), and shows nothing before the first update. "
 "Durations are shown in the configured unit, and label-driven increments and decrements change the value by exactly one per configured label.",
 ["histories", "inputs"],
 "All sequences of absolute values, deltas, durations and non-convertible values, all display units, and all adapter modes.",
 "Unit tests cover a few fixed sequences for one display unit.",
 ["src/instruments/gauge/mod.rs", "src/instruments/gauge/gauge_adapter.rs", "src/observation.rs"],
 [("Gauge::update", "src/instruments/gauge/mod.rs"), ("GaugeAdapter strategies", "src/instruments/gauge/gauge_adapter.rs")],
 ["snapshots"])

prop("C08", "Gauge statistics cover exactly the values seen in the tracking window",
 "With tracking enabled for N seconds a gauge's peak and bottom are the largest and smallest values set during the last N one-second slots, its average is the mean of those values, and the averages and extremes of the per-second peaks and bottoms are taken over the seconds in which a value was set. "
 "Values that left the window no longer contribute, and when the window holds no value all statistics equal the current value.",
 ["histories", "inputs"],
 "All window lengths, values, and timings of updates and snapshots including long gaps and exact second boundaries.",
 "Tests cannot control the clock inside the gauge through its public interface, and cover a few hand-picked bucket sequences only.",
 ["src/instruments/gauge/tracking.rs", "src/instruments/fundamentals/buckets.rs", "src/instruments/gauge/mod.rs"],
 [("Bucket rotation", "src/instruments/fundamentals/buckets.rs"), ("statistics over buckets", "src/instruments/gauge/tracking.rs")],
 ["snapshots"])

prop("C09", "Meter rates are the exponentially weighted averages over their window",
 "At any time a meter's one, five and fifteen minute rates are the exponentially weighted moving averages, updated every five seconds, of the occurrences marked per five-second interval, no matter when and how often the meter is updated or looked at in between. "
 "Exactly the enabled rates are shown; a rate that fell below the cutoff is shown as zero.",
 ["histories", "configurations"],
 "All sequences of marks and snapshots with arbitrary time steps, all combinations of enabled rates.",
 "The tests run a meter against a manual clock for one or two fixed schedules only and not through the instrument.",
 ["src/instruments/meter.rs", "src/instruments/other_instruments/value_meter.rs", "src/instruments/fundamentals/metrics_meter.rs"],
 [("tick/EWMA", "src/instruments/fundamentals/metrics_meter.rs"), ("put_snapshot", "src/instruments/meter.rs")],
 ["snapshots"])

prop("C10", "Histogram summaries describe the values handled",
 "A histogram reports the exact number of values it handled since it was created or last reset; minimum, maximum, mean and quantiles lie within the values handled, with quantiles in order, and while no more than a thousand values were handled, all within the same second, they are the exact minimum, maximum, mean and order statistics. "
 "A histogram that resets on inactivity starts over after exactly the configured idle time and reports itself as inactive meanwhile.",
 ["histories", "inputs"],
 "All value sequences (integers, durations in all units, non-convertible values), timings and idle periods.",
 "Unit tests only check that a histogram can be updated and shown.",
 ["src/instruments/histogram.rs"],
 [("Histogram::update/put_snapshot", "src/instruments/histogram.rs"), ("reservoir", "exponential-decay-histogram")],
 ["snapshots"])

prop("C11", "Switches and displays show the state implied by update history and time",
 "At every moment each switch and display shows exactly the state its documentation derives from the handled updates and the time elapsed since (on for the configured time after a trigger, occurred or not occurred within a period, last value with optional reset, seconds since the last occurrence). "
 "An inverted value shown next to the original is always its exact opposite within one snapshot.",
 ["histories", "configurations", "inputs"],
 "All update/time sequences including exact period boundaries and clock progress while a snapshot is taken; all period lengths and inversion options.",
 "The tests sleep for real time with one schedule each; boundaries and long periods are never reached.",
 ["src/instruments/switches/flag.rs", "src/instruments/switches/staircase_timer.rs", "src/instruments/switches/occurrence_indicator.rs", "src/instruments/switches/non_occurrence_indicator.rs", "src/instruments/other_instruments/display.rs", "src/instruments/other_instruments/last_occurrence_tracker.rs"],
 [("state()/put_snapshot of each switch", "src/instruments/switches"), ("display reset", "src/instruments/other_instruments/display.rs")],
 ["snapshots"])

prop("C12", "Idle components hide and every accepted update brings them back",
 "A component with an inactivity limit is hidden from snapshots (except for its activity indication and description) exactly while more than the limit has passed since its last accepted update, or since its creation if it had none, and reappears with its values with the next accepted update. "
 "For processors and mounts, taking any message from a queue counts as activity. "
 "Whether the activity indication itself is displayed never changes whether the values are.",
 ["histories", "configurations"],
 "All component kinds that have a limit, all limits, update/time sequences, and both settings of the indication.",
 "No unit test touches inactivity; it needs control over time.",
 ["src/instruments/panel.rs", "src/cockpit.rs", "src/processor.rs"],
 [("inactivity check", "put_values_into_snapshot of Panel, Cockpit, TelemetryProcessor, ProcessorMount"), ("last activity", "handle_observation / process")],
 ["snapshots"])

prop("C13", "A snapshot shows every component once, under its name, without side effects",
 "A snapshot contains the values of every registered component exactly once, grouped under the component's name or, for unnamed components, in the enclosing group, and contains titles and descriptions exactly for the components that have them and only if a descriptive snapshot was asked for. "
 "Taking a snapshot never changes what later snapshots show.",
 ["configurations", "histories"],
 "All component trees with all combinations of names, titles and descriptions, any number of snapshots.",
 "The tests look at a few fixed trees.",
 ["src/processor.rs", "src/cockpit.rs", "src/instruments/panel.rs", "src/attached_mount.rs", "src/driver.rs", "src/util.rs", "src/instruments"],
 [("put_snapshot of every component", "src"), ("put_default_descriptives / put_postfixed_descriptives", "src/util.rs")],
 ["snapshots"])

prop("C14", "Path lookup and JSON rendering are faithful to the snapshot",
 "Looking up a path in a snapshot follows the path's segments from group to group, taking the first item of each name, ignores empty segments, ends at the first item that is not a group, and reports if there is none; typed access to the found item returns its exact value. "
 "The JSON rendering contains every item of the snapshot with its nesting, names and exact values (of several items with one name in one group the last), and is valid JSON for any names and values.",
 ["inputs"],
 "All snapshot trees, names and values (including extreme and non-finite numbers) and all paths.",
 "The tests check a few paths in one fixed snapshot.",
 ["src/snapshot.rs"],
 [("Snapshot::find, FindItem", "src/snapshot.rs"), ("Snapshot::to_json", "src/snapshot.rs")],
 ["return values"])

prop("C15", "Registration keeps names unique and affects only the named component",
 "Adding a named cockpit to a processor, or a named panel to a cockpit, that already has one of this name leaves everything as it was; unnamed ones are always added. "
 "Removing by name removes exactly the component of that name and leaves all others with their values, and operations that name a missing component have no effect; the outcome is the same whether done directly or through a transmitter.",
 ["histories", "configurations"],
 "All sequences of additions and removals with colliding, missing and unnamed names, interleaved with observations.",
 "Tests only add one cockpit or panel; collisions and removals are never exercised.",
 ["src/processor.rs", "src/cockpit.rs", "src/lib.rs"],
 [("add_cockpit/remove_cockpit", "src/processor.rs"), ("add_panel/remove_panel", "src/cockpit.rs"), ("TransmitsTelemetryData", "src/lib.rs")],
 ["snapshots"])

prop("C16", "Pausing, resuming and strategy changes apply in order and lose nothing",
 "While a driver is paused no observation is processed, and none is lost: all of them are processed once it is resumed. "
 "Commands given to a driver through its handle (attach, pause, resume, change of strategy, snapshot) are applied one after the other in the order given, and a change of strategy governs every observation that the driver processes after it was applied.",
 ["schedules", "histories"],
 "All interleavings of commands from any threads with the driver's own activity and with senders.",
 "No unit test pauses a driver or changes its strategy.",
 ["src/driver.rs"],
 [("telemetry_loop message handling", "src/driver.rs"), ("PauseState", "src/driver.rs")],
 ["handlers", "snapshots"])

prop("C17", "Every driver snapshot request is answered with a consistent snapshot",
 "Every request for a snapshot from a driver, synchronous or asynchronous, is answered as long as the driver exists (also when paused or busy) with the state of all components at one moment between request and answer, including everything that was attached to the driver itself before the request. "
 "It shows no partially applied observation, and successive snapshots of one requester never go back in time.",
 ["schedules", "histories"],
 "All interleavings of requests with attachments, senders, pausing and processing.",
 "Tests ask for one snapshot from an idle driver.",
 ["src/driver.rs"],
 [("GetSnapshotSync/GetSnapshotAsync handling", "src/driver.rs telemetry_loop"), ("TelemetryDriver::snapshot/snapshot_async", "src/driver.rs")],
 ["snapshots"])

prop("C18", "A driver lives exactly as long as somebody holds a handle to it",
 "A driver keeps working while at least one clone of its handle exists, no matter which clones are dropped in which order, and independent of whether the transmitters of its processors still exist. "
 "After the last handle is dropped it stops, also when paused, and releases everything attached to it; pending asynchronous snapshot requests then resolve to an answer or an error and never hang.",
 ["schedules", "histories"],
 "All orders of cloning and dropping handles and transmitters on any threads, in every driver state.",
 "Tests never clone or drop a driver handle.",
 ["src/driver.rs"],
 [("DropGuard", "src/driver.rs"), ("is_running check", "src/driver.rs telemetry_loop")],
 ["release of attached components", "snapshot answers"])

prop("C19", "Everything attached anywhere in a hierarchy is processed and shown",
 "A processor or value provider attached to a mount, to an attached mount or to a driver, directly or at any depth and at any time, is processed and shown like one attached at the root: each exactly once per pass, in the group of its parent; what is handed to an attached mount takes its place with the next processing pass of the mount's parent. "
 "What was handed over to an attached mount before its last handle disappeared is still attached.",
 ["configurations", "histories", "schedules"],
 "All nestings of processors, mounts, attached mounts and drivers and all attachment times.",
 "Tests have no nested mounts besides one simple case.",
 ["src/processor.rs", "src/attached_mount.rs", "src/driver.rs"],
 [("ProcessorMount", "src/processor.rs"), ("InternalAttachedMount", "src/attached_mount.rs"), ("AggregatesProcessors for TelemetryDriver", "src/driver.rs")],
 ["snapshots", "ProcessingOutcome"])

prop("C20", "No observed value can crash or corrupt telemetry",
 "No sequence of observations, whatever their values, counts, durations and timestamps, panics in the sending thread or in the component that processes or shows it, nor stops a driver. "
 "Sums, counts and conversions that exceed what can be represented stay at the nearest representable value instead of wrapping around or changing sign.",
 ["inputs", "histories"],
 "All observation kinds with all value types and extreme values, all instruments and display units, and all configured durations.",
 "Tests use small values only.",
 ["src/observation.rs", "src/instruments", "src/util.rs", "src/processor.rs"],
 [("ObservedValue conversions", "src/observation.rs"), ("arithmetic in instruments", "src/instruments"), ("deadline computation", "src/processor.rs ProcessingStrategy::decider")],
 ["snapshots", "absence of panics"])

prop("C21", "A driver's own metrics report what it really did",
 "With driver metrics enabled, the totals the driver shows about itself (passes made, observations processed, observations dropped, instruments updated, snapshots taken) equal what it really did, its queue gauge the messages left waiting by the last pass, and its drop and inactivity alarms are on exactly when observations were dropped, or nothing arrived, within the last minute. "
 "A driver without own metrics shows none.",
 ["histories", "schedules"],
 "All sequences of passes with processed and dropped observations, snapshots and idle times.",
 "No test looks at the driver metrics.",
 ["src/driver.rs"],
 [("DriverMetrics / DriverInstruments", "src/driver.rs")],
 ["snapshots"])

prop("C22", "Convenience calls and value conversions transmit exactly what was given",
 "Each way of transmitting an observation (one, many, with value, with duration, now or with a timestamp, measured time) results in exactly one observation with the given label, count, value and time. "
 "Value conversions preserve the value exactly whenever the target can represent it, rounding fractions to the nearest whole number and durations down to whole units; values above the target's range and of kinds that cannot be converted give no value, fractional numbers below the range the smallest representable one.",
 ["inputs"],
 "All transmit methods, all value types, all units and all values.",
 "Tests cover a few conversions of small values.",
 ["src/lib.rs", "src/observation.rs", "src/util.rs"],
 [("TransmitsTelemetryData default methods", "src/lib.rs"), ("ObservedValue::convert_to_*", "src/observation.rs")],
 ["a user-written handler"])

prop("C23", "A component is what it was configured to be, and tells what it shows",
 "Whichever constructor, builder method or setter a component's settings are given through (name, title, description, limits, units, rates, inversion, label filters and so on), in whatever order, the last value given governs what it does and what snapshots show, and settings not given have their documented defaults. "
 "What a component's own getters return (name, value, state, settings, parts) agrees at every moment with what a snapshot taken then shows.",
 ["inputs", "histories"],
 "All components, all ways of configuring them, all settings, any history of updates before asking.",
 "Tests use one way to configure each instrument and hardly any getter.",
 ["src/instruments/mod.rs", "src/instruments/switches/staircase_timer.rs", "src/instruments/other_instruments/display.rs", "src/cockpit.rs", "src/processor.rs"],
 [("setters, builder methods, getters of every instrument", "src/instruments"), ("Panel / Cockpit / TelemetryProcessor / ProcessorMount setters and getters", "src/cockpit.rs")],
 ["an application that configures its metrics"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
