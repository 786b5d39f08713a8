SCHED = """One seeded run is one exactly repeatable execution at statement and atomic-operation granularity;
sampling, not enumeration. Trusts the instrumenter, the simulated sync primitives and the reference model."""
PROPS = [
 dict(id='P01', title='A parameter value is a lock-free atomic register that stays in [0,1]',
  statement="""Concurrent reads and writes of one parameter's value behave like a single atomic register: every read returns
  the default or the latest completed or an overlapping write, never a torn or invented value. The normalized value is always a number in
  [0,1] whatever is written (out of range, infinite, not-a-number, normalized or plain scale), and the plain value read back is the value's
  image in the parameter's range. Every operation finishes in a bounded number of its own steps even if another thread is suspended for ever inside one.""",
  over=['schedules', 'inputs', 'histories'], qtext='every interleaving of any number of reading and writing threads, every float64 written, every suspension point',
  why='The tests write and read from one goroutine with a few values; no test interleaves readers with writers or suspends one.',
  files=['pkg/framework/param/parameter.go'], mech=[('atomic bits', 'parameter.go SetValue/GetValue'), ('clamp', 'parameter.go SetValue, Normalize')],
  observe=['Parameter.GetValue', 'Parameter.GetPlainValue'],
  tech='seeded schedules with suspended threads over the parameter accessors; linearizability of the history against a register model; happens-before race build',
  note=SCHED),
 dict(id='P02', title='The parameter registry is linearizable and the first registration wins',
  statement="""The parameter registry behaves, under any concurrent registration and lookup, like one ordered list in which the first
  registration of an ID wins and later ones are ignored. Lookups by ID and by index, the count, and the full listing agree with that list in
  registration order, and a listing handed out earlier never changes afterwards. No interleaving loses a parameter, lists one twice or deadlocks.""",
  over=['schedules', 'histories', 'inputs'], qtext='every interleaving of registrations (batches, colliding IDs) and lookups',
  why='The tests register and look up sequentially; the race detector sees no concurrent access there.',
  files=['pkg/framework/param/registry.go'], mech=[('RWMutex', 'registry.go'), ('ordered list', 'registry.go Add/All/GetByIndex')],
  observe=['Registry.Get', 'Registry.GetByIndex', 'Registry.Count', 'Registry.All'],
  tech='seeded schedules over the registry; linearizability against an ordered first-wins map; deadlock detection; race build', note=SCHED),
 dict(id='P03', title='Automatic parameter IDs are unique, unreserved and resolvable by name',
  statement="""A parameter registered without an ID gets one that no other parameter uses and that lies in no range reserved so far, whatever
  explicit IDs and reservations came before, after or meanwhile. Reserved ranges never overlap each other or an ID in use, and a name resolves to
  the parameter registered under it. Registration, reservation and lookup are linearizable under any interleaving.""",
  over=['schedules', 'histories', 'inputs'], qtext='every order and interleaving of automatic and explicit registrations, range reservations and name lookups',
  why='The tests assign IDs sequentially, without mixing explicit IDs, reservations and threads.',
  files=['pkg/framework/param/registry_auto.go'], mech=[('next-ID counter and used-ID check', 'registry_auto.go'), ('name index', 'registry_auto.go')],
  observe=['AutoRegistry.Register', 'AutoRegistry.ReserveIDRange', 'AutoRegistry.GetByName'],
  tech='seeded schedules over the automatic registry; linearizability against a nondeterministic model (any free unreserved ID is legal); race build', note=SCHED),
 dict(id='P04', title='Saved plugin state restores every parameter exactly, also while in use',
  statement="""Saving a plugin's state and loading it restores every parameter's value bit for bit, together with the plugin's custom
  section, whatever the values, IDs, registration order and stream fragmentation. Parameters the stream knows but the plugin lacks are skipped
  and parameters the stream lacks keep their value. A save that overlaps automation or registration by other threads is still a well-formed state whose every value the parameter
  held at some moment of the save.""",
  over=['inputs', 'schedules', 'configurations', 'histories'], qtext='every parameter set and value, every legal read fragmentation, every interleaving of a save with automation and registration',
  why='The tests round-trip a few values through a bytes.Buffer, single-threaded.',
  files=['pkg/framework/state/manager.go'], mech=[('Save/Load', 'manager.go'), ('binary layout VST3GO v1', 'manager.go')],
  observe=['Manager.Save', 'Manager.Load', 'Registry.Get'],
  tech='saves under seeded schedules with automating threads, compared with an independent encoder/decoder and reloaded through fragmenting readers', note=SCHED),
 dict(id='P05', title='A damaged or failing state stream is refused and changes nothing',
  statement="""Loading a truncated, corrupt, alien, too-new or failing stream returns an error, leaves every parameter exactly as it was, and neither panics,
  hangs nor allocates out of proportion to the data. A save whose writer fails anywhere, tears included, reports the error; a load succeeds only if the complete state was read. Whatever
  a stream contains, parameter values afterwards lie in [0,1].""",
  over=['fault_sequences', 'inputs', 'crash_points'], qtext='every truncation point, read/write error point, bit flip and splice of every valid state, and arbitrary bytes',
  why='The tests try a handful of invalid headers; they inject no I/O error and no mid-record truncation.',
  files=['pkg/framework/state/manager.go'], mech=[('header, version and count validation', 'manager.go Load'), ('error propagation', 'manager.go Save/Load')],
  observe=['Manager.Load', 'Manager.Save', 'Registry.Get'],
  tech='seeded stream faults at every byte (error, truncation, flip, splice, torn write) with an independent decoder deciding the legal outcome',
  note='Fault positions and damage are sampled by seed; trusts the independent decoder of the version-1 layout.'),
 dict(id='P06', title='The MIDI event queue delivers every event once, in stable time order',
  statement="""Under any concurrent use the MIDI event queue behaves like one list kept in sample-offset order with equal offsets in
  arrival order: an event stays until a clear, or a removal of everything up to its sample, takes it; a range query returns exactly the events inside its half-open range; shifting or clearing affects all events or none.
  Query results are private copies, and the input and output halves of an event buffer never mix.""",
  over=['schedules', 'histories', 'inputs'], qtext='every interleaving of producers, queries, drains, shifts and clears with any offsets and event kinds',
  why='The concurrency test only counts events; ordering, ranges and drains are tested sequentially.',
  files=['pkg/midi/queue.go', 'pkg/midi/events.go'], mech=[('RWMutex and lazy stable sort', 'queue.go'), ('EventBuffer', 'queue.go')],
  observe=['EventQueue.GetEventsInRange', 'EventQueue.GetAndClear', 'EventBuffer'],
  tech='seeded schedules over the queue; linearizability against a stable time-ordered list; race build', note=SCHED),
 dict(id='P07', title='A block delivers its automation and events exactly once, in time order',
  statement="""In every processing block the automation points and events the host delivered are seen exactly once, in sample-offset order with
  equal offsets in delivery order, however many there are and however the block is divided while walking it, and nothing of an earlier block remains. Applying a point makes the parameter read back its value for the rest of the block. The context's channel helpers
  visit exactly the samples and channels both sides have, leave inputs and surplus outputs untouched, and its work buffers cover exactly the block and never overlap.""",
  over=['histories', 'inputs', 'configurations', 'schedules'], qtext='every session of blocks of any size up to the maximum, channel layout, automation and event timing, and sub-block division',
  why='The tests use one block with a few points; session histories, equal offsets and overflow are not covered.',
  files=['pkg/framework/process/context.go', 'pkg/midi/queue.go'], mech=[('parameter change list', 'context.go AddParameterChange/SortParameterChanges'), ('event buffer', 'context.go'), ('channel helpers', 'context.go, helpers.go')],
  observe=['Context.GetParameterChanges', 'Context.GetInputEvents', 'Context.ProcessEvents', 'Context.Param'],
  tech='a simulated host runs seeded multi-block sessions with overflow faults against a per-block reference model',
  note='Host behaviour is simulated; sampled sessions.'),
]
