NOTE = """Sampled sessions and seeds. The VST3 C header of the repository is a missing submodule: the wrapper is built against the stand-in in /verif/abi. Trusts the oracle stated in DESIGN.md."""
W = ['pkg/plugin/component.go', 'pkg/plugin/wrapper.go', 'pkg/plugin/wrapper_audio.go', 'pkg/plugin/wrapper_controller.go', 'pkg/plugin/helpers.go', 'bridge/bridge.c', 'bridge/component.c']
PROPS = [
 dict(id='P26', title='A block the host processes is exactly the block the plugin hears',
  statement="""Across the plugin interface every sample of every input channel of every bus reaches the plugin once, in order, and every output sample the plugin writes reaches the host's buffer of the same channel and position, whatever the bus layout, block length and automation.
  A block with automation is divided so that each chunk begins at a change, sees exactly the parameter values in force at its first sample, exactly the note events that fall into it with offsets relative to it, and the block's transport and sample rate; nothing of an earlier block remains.
  After the block each automated parameter has its last value. A panic of the plugin fails that call only and the next block is complete again. Nothing outside the host's buffers is written, and other host threads (editor, reconfiguration) never overlap a block or tear it.""",
  over=['inputs', 'histories', 'schedules', 'configurations', 'fault_sequences'], qtext='every sequence of blocks, layout, automation queue, event list and transport, every interleaving of editor and setup calls with blocks, every call of the plugin that may panic',
  why='The wrapper is not built by the tests at all (missing header); they check the process context with a few changes.',
  files=W + ['pkg/framework/process/context.go'],
  mech=[('chunked processing', 'component.go processSampleAccurate'), ('event and change collection', 'component.go Process, processInputEvents, deliverEvents'), ('block lock', 'component.go mu')],
  observe=['IAudioProcessor.process results and buffers', 'what ProcessAudio is given', 'parameter values after the block'],
  tech='a simulated host drives the real C bridge and Go wrapper through vtables with seeded blocks, automation, events, transport, scripted query errors and plugin panics, alone and against editor threads under a seeded scheduler; each block is compared with a sample-level reference model',
  note=NOTE),
 dict(id='P27', title='State survives any host stream, and a failing stream is reported',
  statement="""What the host saves through its stream and later loads restores every parameter and the plugin's own section exactly, however the stream divides the transfer, wherever in the stream it starts, with or without seek.
  If a read, write or seek fails, nothing more is accepted, the stream is full or the data ends early, the call fails; it never reports success for a state that is not completely stored or restored, never crashes, never reads or writes outside the stream's data, and a failed call leaves the instance usable.
  The typed stream helpers return exactly what was written or an error. Saving, loading and automation may overlap on different threads: no value that was never set appears.""",
  over=['fault_sequences', 'inputs', 'histories', 'schedules'], qtext='every state, every fragmentation, every position of a failing, short or empty transfer, every damaged state, every interleaving of save, load and automation',
  why='The tests use in-memory buffers that never fail, fragment or end early.',
  files=['pkg/vst3/stream.go', 'pkg/plugin/wrapper.go', 'pkg/plugin/component.go', 'pkg/framework/state/manager.go', 'bridge/bridge.c'],
  mech=[('read and write loops', 'pkg/vst3/stream.go'), ('state transfer', 'wrapper.go GoComponentSetState, GoComponentGetState')],
  observe=['IComponent and IEditController getState/setState results and stream contents', 'parameter values and custom state after loading'],
  tech='seeded save/load histories over simulated IBStream objects with injected errors, short and empty transfers, full streams and truncated or damaged data at any call; a model of both instances decides what a successful or failed call must leave behind; concurrent save, load and automation under a seeded scheduler',
  note=NOTE),
 dict(id='P28', title='Instances are isolated, counted exactly, and failures leak nothing',
  statement="""The factory creates independent instances: each has its own processor, parameters and life cycle, and every interface of an instance (component, audio processor, edit controller) reaches that one and shares one reference count. queryInterface and createInstance hand out exactly the interfaces that exist and clear the result otherwise.
  The last release, and only that, frees the instance and lets its processor be collected, on whatever threads references are taken and released. Life cycle calls reach the plugin once with the host's arguments; an error or panic of the plugin or running out of memory at any allocation makes the call fail, without a crash, a leak or a half-made instance.
  Class, factory and bus descriptions equal what the plugin declares, cut to the host's fields, whatever the host asks or announces; what the plugin cannot do (64-bit samples, an own view) is refused.""",
  over=['histories', 'schedules', 'fault_sequences', 'configurations'], qtext='every order of create, query, reference, use and release on any number of instances and threads, every failing allocation, error or panic',
  why='The wrapper is not built by the tests; reference counts, failing allocations and concurrent releases never occur in them.',
  files=W + ['pkg/plugin/plugin.go', 'pkg/framework/bus/bus.go'],
  mech=[('reference counts', 'bridge/component.c, bridge/bridge.c'), ('component table', 'pkg/plugin/wrapper.go'), ('panic recovery', 'pkg/plugin/wrapper.go recoverPanic')],
  observe=['result codes and out pointers of factory and interface calls', 'live C allocations', 'collection of released processors', 'calls that reach the plugin'],
  tech='seeded factory and instance histories on up to three simulated host threads over the real bridge with a simulated C allocator (guards, quarantine, failure of the n-th allocation) and plugin errors and panics; results are compared with a reference-count and life-cycle model',
  note=NOTE),
 dict(id='P29', title='The host editor shows, reads and sets the plugin\'s true parameters',
  statement="""The parameter list the host reads (count, IDs, titles, units, steps, defaults, flags) is the list the plugin declares. A value the host sets is clamped to 0..1 and then is what the host reads, what the plugin hears and what the state carries; a set value is not echoed back.
  The text shown for a value is the plugin's text for it, cut at a character boundary to the host's field; typing the shown text gives the value back within the display's resolution for every standard parameter kind, the positions of a choice carry its names in order, and text that means nothing is refused.
  Conversions between normalized and plain values are inverse within the range and never leave 0..1. Unknown IDs and indices, malformed text and panics of the plugin's formatters make the call fail and change nothing. Editor threads and the audio thread never disturb each other's parameters.""",
  over=['inputs', 'histories', 'schedules', 'configurations', 'fault_sequences'], qtext='every set of parameters, every value and text, every interleaving of editor calls and automation',
  why='The tests format and parse a handful of values of some builders; the controller interface is never built or called.',
  files=['pkg/plugin/wrapper_controller.go', 'pkg/plugin/helpers.go', 'pkg/plugin/component.go', 'pkg/framework/param/builders.go', 'pkg/framework/param/formatters.go', 'pkg/framework/param/filter_types.go', 'pkg/framework/param/parameter.go'],
  mech=[('value conversion and clamping', 'parameter.go'), ('UTF-16 conversion', 'pkg/plugin/helpers.go'), ('formatters and parsers', 'builders.go, formatters.go, filter_types.go')],
  observe=['IEditController results', 'parameter values the plugin reads', 'standard output'],
  tech='seeded editor sessions over 28 parameter kinds through the real controller interface, on one to three simulated threads with automation in blocks, with injected formatter panics, extreme values and malformed text; results are compared with a model of the declared parameters',
  note=NOTE),
]
