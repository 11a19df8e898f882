#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the list, kept readable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(quant.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

p("P01", "A started client's file shows exactly what is registered",
  """After a client has been started, its file, decoded by the MMV format, holds exactly the instance domains,
  instances and metrics registered with it, each once, with the identifier, name, type, semantics, unit,
  descriptions, instance domain and current values it has in the program, and nothing else. What the program later does
  with a list or a map it gave to a call, or got from one, has no effect on it.
  The header holds the client's flags, process id and cluster identifier.""",
  ["inputs", "histories"], """every set of metrics and instance domains, of every kind, type, value, name length and
  description, registered in every order, through every way of registering, also after earlier starts and stops""",
  """The tests decode files of a few fixed registries through the writer's own internal offsets; combinations of kinds,
  descriptions, format versions, empty and shared instance domains and restarts are not sampled.""",
  ["client.go", "registry.go", "metrics.go", "instance_domain.go"],
  [("start, writeHeaderBlock", "client.go"), ("writeInstanceDomain, writeInstance", "client.go"),
   ("writeSingletonMetric, writeInstanceMetric, writeMetricDesc, writeValue", "client.go"), ("counts", "registry.go: addMetric, addInstanceDomain")],
  observe=["the file at the client's location"])

p("P02", "A published file is well-formed",
  """In every published file the table of contents and every reference lead to an item of the right kind inside the
  file, no two items overlap, and the header, the table of contents and the items together cover the file exactly,
  whose size is the length the client reports. Every byte no item uses is zero.""",
  ["inputs", "histories"], "every registry content, including none, empty instance domains, strings and descriptions, in format 1 and 2",
  """The tests check lengths and table-of-contents counts for a handful of registries; an overlap or a gap needs a
  combination of counts they do not have.""",
  ["client.go", "registry.go"],
  [("Length, tocCount", "client.go"), ("offset channels", "client.go: start"), ("StringCount, ValuesCount, InstanceCount", "registry.go")],
  observe=["the file at the client's location", "PCPClient.Length"])

p("P03", "No reader ever takes an incomplete file for a complete one",
  """At every moment of a start, whatever the order of its steps, and also when the process dies there, a reader of the
  file either sees that it is not complete (no tag, or two different generation numbers) or sees the complete content.
  A start that comes after an earlier run or a crash replaces whatever was left at the location.""",
  ["schedules", "crash_points", "histories"], "every point between two stores of a start, every order in which its parts run, every earlier content of the location",
  "The tests look at a file only after the start has returned; they never read or kill in the middle of one.",
  ["client.go", "bytewriter/memorymappedwriter.go"],
  [("second generation number last", "client.go: start"), ("tag after the first generation number", "client.go: writeHeaderBlock"), ("fresh zeroed file", "bytewriter/memorymappedwriter.go: NewMemoryMappedWriter")],
  observe=["every intermediate image of the file"], hook="a call before each store in a buffer (build tag verif)")

p("P04", "An update reaches its own place in the file and no other",
  """When an update of a metric of a started client has returned, another reader of the file finds the new value, as
  written, in the place of that metric and instance, and every other byte of the file is as it was. A rejected update,
  and an update of a metric whose client is not started, change no byte of any file.""",
  ["histories", "inputs"], "every sequence of updates of every kind of metric, type, value and instance, interleaved with starts and stops",
  "The tests update one metric and look at one value; they do not look at the rest of the file or at later updates of neighbours.",
  ["metrics.go", "client.go"],
  [("update closures", "metrics.go: newupdateClosure, set, setInstance"), ("binding of closures", "client.go: writeValue")],
  observe=["the file, read separately, after every call"])

p("P05", "A value is stored exactly, in the metric's type, or rejected",
  """A metric accepts a value exactly when its type can hold it: integers in the range of the type, floats of the type's
  width or float64 values in its range, strings that fit; it is then stored as that type with that value. Any other
  value, of whatever Go type, is rejected with an error, at construction as well as at an update, and changes nothing.""",
  ["inputs"], "every pair of metric type and Go value, including limits of the ranges, infinities, NaN and unsupported Go types",
  "The tests sample a few values per type; the limits of the ranges and every pair of type and Go type are not covered.",
  ["metrics.go"],
  [("IsCompatible, resolve", "metrics.go"), ("checks at construction and update", "metrics.go: newpcpSingletonMetric, set, newpcpInstanceMetric, setInstance")],
  observe=["results of calls", "values read back", "the file"])

p("P06", "A counter never goes backwards",
  """The value of a counter, and of each instance of a counter vector, as read from the metric or from the file, never
  decreases: a call that would decrease it or overflow it returns an error and changes nothing, every other call sets
  exactly the requested sum or value.""",
  ["histories", "inputs", "schedules"], "every sequence of sets and increments with every amount, from any number of goroutines",
  "The tests try one smaller value and one negative increment; overflow, extremes and concurrent sets are not sampled.",
  ["metrics.go"],
  [("PCPCounter.Set, Inc", "metrics.go"), ("PCPCounterVector.Set, Inc, SetAll, IncAll", "metrics.go")],
  observe=["values read back", "the file"])

p("P07", "Concurrent operations on metrics behave as if done one at a time",
  """Operations on a metric from any number of goroutines return results, and leave values in the metric and in the file,
  as if they had been done one after another in an order that respects which ended before another began; no update is lost.""",
  ["schedules"], "every interleaving of operations on a metric of every kind, with the client started or not",
  "The tests update metrics from one goroutine; no schedule in which two updates overlap is forced.",
  ["metrics.go"],
  [("a mutex per metric", "metrics.go")],
  observe=["call and return of each operation with its result", "final values and file"], hook="delays between reading and writing (build tag verif)")

p("P08", "A registry holds each name once and a rejected registration leaves no trace",
  """In a registry no two metrics and no two instance domains have the same name, its counts are those of what was
  accepted, and a metric is accepted with an instance domain of a registered name only if that has the same instances.
  A registration that returns an error changes nothing. Both hold also when registrations are made concurrently.""",
  ["histories", "inputs", "schedules"], "every sequence of registrations by object, by name and by string, valid or not, also concurrent ones",
  "The tests register a few distinct names; the state after a failed registration and concurrent registrations are not examined.",
  ["registry.go", "instance_domain.go"],
  [("AddMetric, AddInstanceDomain", "registry.go"), ("AddMetricByString", "registry.go"), ("MatchInstances", "instance_domain.go")],
  observe=["results", "counts and membership", "the file at the next start"])

p("P09", "A client can be started and stopped any number of times",
  """While a client is started, changing its registrations or flags is rejected, and it becomes possible again after a
  stop; stopping a client that is not started is an error. Starting again, also after a failed start, publishes what is
  registered by then with current values. A stop releases the mapping and the file handle, and removes the file if and
  only if that was asked for; values stay readable and settable without touching the file.""",
  ["histories", "fault_sequences"], "every sequence of starts, stops, registrations, updates and flag changes, with starts that fail",
  "The tests start and stop each client once; restarts, failing starts and calls in the wrong state are not sampled.",
  ["client.go", "bytewriter/memorymappedwriter.go", "registry.go"],
  [("Start, Stop, SetFlag", "client.go"), ("mapped mark", "registry.go"), ("Unmap", "bytewriter/memorymappedwriter.go")],
  observe=["results", "file", "/proc/self/maps, /proc/self/fd"])

p("P10", "Updates and registrations that race with start and stop are not lost",
  """Whatever the timing of updates, registrations, starts and stops on a client, no call crashes or hangs; once they have
  returned and the client is started, the file shows the latest value of every metric, and every registration that was
  accepted is in the file, while a rejected one is not in the registry.""",
  ["schedules"], "every interleaving of starts and stops with updates and registrations from other goroutines",
  "The tests never update or register while a start or stop is running.",
  ["client.go", "registry.go", "metrics.go"],
  [("metric locks held while a metric is written", "client.go: writeMetrics"), ("detaching metrics on stop", "client.go: Stop"), ("mapped mark set before layout", "client.go: Start")],
  observe=["values and file after the calls", "crashes, hangs"], hook="delays before stores of a start (build tag verif)")

p("P11", "A registration string means what the grammar says",
  """A string names dot-separated identifiers of letters, digits and underscores, with at most one bracketed, comma-separated
  list of instances after one of them: the metric's name is the string without the brackets, the instance domain's name the
  part before them, the instances those in the list; without brackets it is a single-valued metric of that name.
  Every other string is rejected.""",
  ["inputs"], "every string, over letters of any script, digits, underscores, separators, blanks and other characters",
  "The tests try about twenty strings.",
  ["registry.go"], [("parseString", "registry.go"), ("addInstanceMetricByString, addSingletonMetricByString", "registry.go")],
  observe=["results of registering by string", "names and instances of the metric"])

p("P12", "Names and texts are never truncated, and choose the right format version",
  """Names of metrics and instances of up to 63 bytes are published in MMV format 1, and as soon as a registered name is
  longer the whole file is in format 2; in both every name, string value and description of up to 256 bytes is complete
  in the file. A longer one is rejected with an error when it is given.""",
  ["inputs", "histories"], "every combination of name, text and value lengths around 0, 63, 64, 255, 256 and above, in every order of registration",
  "The tests use one long metric name and one long instance name.",
  ["registry.go", "client.go", "metrics.go", "instance_domain.go"],
  [("version2", "registry.go: addMetric, addInstanceDomain"), ("length limits", "metrics.go: newpcpMetricDesc, IsCompatible; instance_domain.go")],
  observe=["results", "the file"])

p("P13", "The dump of a well-formed file shows exactly its contents",
  """For every well-formed MMV file of format 1 or 2, whoever wrote it, reading it with the dump package returns every item
  of the file at its offset with its stored fields and no other, typed values are those stored, and the printed form
  lists each item once with these contents; an error of the writer it goes to is returned. Several files can be read
  and printed at the same time.""",
  ["inputs"], "every well-formed file, with every number of items, order of sections, type of value and optional text",
  "The tests dump five recorded files.",
  ["mmvdump/mmvdump.go", "mmvdump/writer.go", "mmvdump/pcp.go"],
  [("Dump, readComponents, readItems", "mmvdump/mmvdump.go"), ("Write", "mmvdump/writer.go"), ("FixedVal", "mmvdump/mmvdump.go"), ("Unit.String", "mmvdump/pcp.go")],
  observe=["results of Dump, FixedVal and Write"])

p("P14", "The dump survives any bytes",
  """For any sequence of bytes, reading it with the dump package returns a result or an error in bounded time, and printing
  what it returned also does: no panic, no hang, no read outside of the bytes. A file that is cut short, has a bad tag, an
  unknown version, different generation numbers, or a section that does not fit in the file is an error.""",
  ["inputs", "fault_sequences"], "every byte sequence, in particular every truncation, field change and random damage of well-formed files",
  "The tests read only intact files and one or two damaged headers.",
  ["mmvdump/mmvdump.go", "mmvdump/writer.go"],
  [("bounds and count checks", "mmvdump/mmvdump.go"), ("lookups of references", "mmvdump/writer.go")],
  observe=["results of Dump and Write, time, panics"])

p("P15", "A timer accumulates exactly the time between its starts and stops",
  """A timer's total is the sum of the times between each start and the stop that follows, in the timer's unit, and the stop
  returns it and publishes it. Starting a started timer, stopping a stopped one and resetting a started one are errors that
  change nothing; a reset sets the total to zero.""",
  ["histories", "inputs"], "every sequence of starts, stops and resets, for every time unit",
  "The tests measure one or two intervals of one timer and one unit.",
  ["metrics.go"], [("PCPTimer.Start, Stop, Reset", "metrics.go")],
  observe=["results", "the file", "the clock around the calls"])

p("P16", "A histogram's statistics are those of what was recorded",
  """After any accepted recordings, the minimum, maximum, mean, variance, standard deviation and percentiles a histogram
  reports, and publishes as its instances, are those of all values recorded, within the precision it was made with, and
  the bounds it reports are those it was made with, limited to 0 to 3600000000 (a lower bound of 0 counts as 1). Every value within its bounds is accepted, a negative value and a negative count are
  rejected and change nothing.""",
  ["inputs", "histories"], "every bounds and precision, every sequence of recordings, single or many at a time, whose sum fits 64 bits",
  "The tests record a few values with one set of bounds.",
  ["metrics.go"], [("NewPCPHistogram, normalize", "metrics.go"), ("Record, RecordN, update", "metrics.go"), ("High, Low, Percentile, Buckets", "metrics.go")],
  observe=["results", "the file"])

p("P17", "Units are encoded with the requested scales and dimensions",
  """The 32-bit form of a unit holds, in the positions the PCP interface gives them, exactly the scale and the dimension
  from -8 to 7 last requested for space, time and count, and zero for those never requested, however it was composed;
  a dimension out of range, or a second unit of the same kind on a simple unit, is refused. Decoding that form gives the same scales and dimensions.""",
  ["inputs", "histories"], "every sequence of compositions of space, time and count units with every dimension",
  "The tests compose a few units with dimension 1 or -1.",
  ["metrics.go", "mmvdump/pcp.go"], [("metricUnit.Space, Time, Count", "metrics.go"), ("SpaceUnit, TimeUnit, CountUnit", "metrics.go"), ("Unit accessors", "mmvdump/pcp.go")],
  observe=["PMAPI", "unit field in the file", "mmvdump.Unit"])

p("P18", "Identifiers depend on the name only and fit their PCP field",
  """The identifier of a client's cluster, of an instance domain, of an instance and of a metric is a fixed function of its
  name (the FNV-1a hash cut to 12, 22, 32 and 10 bits), the same in every process, and it is the one in the file.
  Two metrics, or two instances of an instance domain, in a file do not have the same identifier.""",
  ["inputs"], "every name", "The tests do not compare identifiers with an independent definition or look for equal ones.",
  ["speed.go", "metrics.go", "instance.go", "instance_domain.go", "client.go"], [("hash", "speed.go")],
  observe=["ID of metrics and instance domains", "the file"])

p("P19", "The file is where the PCP configuration says, and nowhere else",
  """A client's file is named like the client and lies in the mmv directory of the temporary directory that the configuration
  (the file named by PCP_CONF, or etc/pcp.conf under PCP_DIR) sets for PCP under PCP_DIR, or of the system's temporary directory if it sets
  none. A name that would lead elsewhere is rejected, and starting and stopping a client touches no other file.""",
  ["configurations", "inputs"], "every environment, configuration file content and client name",
  "The tests use one configuration and a name with a separator.",
  ["config.go", "client.go", "speed.go"], [("initConfig", "config.go"), ("mmvFileLocation", "client.go")],
  observe=["files created, changed and removed below a scratch directory"])

p("P20", "A reader never sees a half-written number",
  """A process that reads the file while a numeric value is being updated always reads the value before or after some
  update, never a mixture of the bytes of two.""",
  ["schedules"], "every moment at which a reader can look, every 4- and 8-byte type of value",
  "The tests do not read while writing.",
  ["bytewriter/bytewriter.go", "metrics.go"], [("stores of whole values", "bytewriter/bytewriter.go: Write"), ("alignment of value slots", "client.go")],
  observe=["the mapped file, read continuously from another mapping"])

p("P21", "A buffer write stores exactly the given bytes or nothing",
  """Writing to a buffer at an offset stores the value's bytes, integers and floats in little-endian order, at exactly that
  offset and returns the offset after them, if and only if they fit; otherwise it returns an error, or panics in the
  variant that has no error result, and changes nothing. Writes to separate places can be made concurrently,
  and those to a mapped buffer appear in its file, which has the requested size.""",
  ["inputs", "histories", "schedules"], "every buffer size, offset (negative and huge ones too), value and type, every order and overlap in time",
  "The tests write a few values at valid offsets.",
  ["bytewriter/bytewriter.go", "bytewriter/memorymappedwriter.go"], [("Write, WriteVal, WriteString", "bytewriter/bytewriter.go"), ("NewMemoryMappedWriter, Unmap", "bytewriter/memorymappedwriter.go")],
  observe=["results", "buffer", "file"])

p("P22", "Metric operations do what they say, on the instance they name",
  """Setting, incrementing and decrementing a gauge or an instance gives the value set, the sum or the difference, for that
  metric and instance only, and the variants for all instances do so for each; reading returns the last value set.
  An operation on an unknown instance is an error, and a variant that cannot return an error panics exactly when the other one would return one.""",
  ["histories", "inputs"], "every sequence of operations on every kind of metric, with known and unknown instances",
  "The tests do one or two operations per method and do not look at the other instances.",
  ["metrics.go", "instance_domain.go"], [("PCPGauge, PCPGaugeVector, PCPCounterVector, PCPInstanceMetric, PCPSingletonMetric", "metrics.go")],
  observe=["results", "values read back"])

p("P23", "Clients do not disturb each other",
  """Any number of clients with their own registries can be active in one process at the same time, also when they use the same
  instance domain object or histograms, and are started at the same time: what happens to one changes neither the file nor the values of
  another, and each file is as it would be with that client alone.""",
  ["histories", "schedules"], "every interleaving of calls on several clients, sequential or concurrent",
  "The tests use one client at a time.",
  ["client.go", "speed.go", "instance.go"], [("layout lock", "client.go: start"), ("shared histogram instance domain", "speed.go"), ("global configuration", "config.go")],
  observe=["files and values of all clients after each call"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
