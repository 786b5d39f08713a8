NOTE = """Sampled sessions and seeds, not enumeration; sessions of a few thousand frames or a few hundred calls. Trusts the reference models stated in DESIGN.md."""
PROPS = [
 dict(id='P31', title='Filters have the response of their design, at every setting and after every move',
  statement="""Each biquad design (low, high, band, notch, all-pass, peak, both shelves) with given frequency, Q and gain, the state-variable filter with its mode mix, and the DC blockers compute on every channel the difference equation of their design, also when settings change between any two samples: state is kept over
  changes, cleared by Reset, and channels stay apart. A settled DC blocker removes a constant offset and passes the signal.""",
  over=['histories', 'inputs', 'configurations'], qtext='every frequency below half the sample rate, every Q and gain, every automation sequence and input, every channel count',
  why='The tests compare a few gains of a fixed low-pass with loose bounds and look for finite output.',
  files=['pkg/dsp/filter/biquad.go', 'pkg/dsp/filter/svf.go', 'pkg/dsp/utility/dcblocker.go'],
  mech=[('coefficient design', 'biquad.go'), ('trapezoidal integrators', 'svf.go'), ('difference equation', 'dcblocker.go')],
  observe=['every output sample of every channel'],
  tech='seeded automation sessions on several channels; a double-precision filter built from the analogue prototype runs alongside, the tolerance coming from the rounding seen in single-precision shadows', note=NOTE),
 dict(id='P32', title='Distortions apply their documented curve, rate and mix to every sample',
  statement="""Waveshaper curves, tube, tape and bitcrusher apply, at every sample and under automation of every control, the curve documented for their drive, bias, asymmetry, saturation, bit depth and sample-rate factor, then the mix with the dry signal; the pure curves are the published functions. Each stereo channel has its own
  state; quantisation has the number of levels asked for, rate reduction holds each sample as long as asked, dither stays within its size.""",
  over=['histories', 'inputs', 'configurations'], qtext='every input, every automation sequence, every draw of the dither and flutter noise, mono and stereo',
  why='The tests check that output differs from input and is bounded for a few settings.',
  files=['pkg/dsp/distortion/waveshaper.go', 'pkg/dsp/distortion/tube.go', 'pkg/dsp/distortion/tape.go', 'pkg/dsp/distortion/bitcrusher.go'],
  mech=[('transfer curves', 'waveshaper.go'), ('bias and hysteresis state', 'tube.go, tape.go'), ('sample and hold, quantiser', 'bitcrusher.go')],
  observe=['every output sample'],
  tech='seeded automation sessions with the random source behind a seam; reference models in double precision are compared at every sample, as an interval where noise is drawn', note=NOTE),
 dict(id='P33', title='Bus layouts and multi-bus routing are exactly as configured',
  statement="""A bus configuration built from any template or builder calls lists its buses in order with their direction, media, type, channels, name and initial activity; counts, look-ups and activation agree with that list for every index, present or not, and touch no other bus or configuration. A multi-bus context hands out the buffers of the bus
  asked for, copies or clears exactly the frames of the block over the channels both sides have, and finds the side-chain.""",
  over=['histories', 'inputs', 'configurations'], qtext='every template and builder sequence, every sequence of queries, activations and routing calls with valid or invalid indices, every channel count',
  why='The tests look at one or two fixed layouts with valid indices.',
  files=['pkg/framework/bus', 'pkg/framework/process/multibus.go'],
  mech=[('bus list and builder', 'pkg/framework/bus'), ('multi-bus context', 'pkg/framework/process/multibus.go')],
  observe=['return values of every query', 'buffers after routing'],
  tech='seeded host sessions (queries, activation, routing with missing channels and uneven layouts) against a list-of-buses model', note=NOTE),
 dict(id='P34', title='Musical time seen by the plugin agrees with the host timeline',
  statement="""For every transport state, pre-roll and meter changes included, bars and beats split the musical position exactly (whole bars, then a non-negative remainder shorter than a bar), beat phase lies in [0,1), beat detection is true exactly within its threshold of a beat on either side, and samples per beat is what tempo and
  sample rate give; fields the host left invalid give the documented defaults.""",
  over=['histories', 'inputs', 'configurations'], qtext='every position, meter, tempo and validity combination along any timeline with loops and jumps',
  why='The tests ask at two or three positive positions in 4/4.',
  files=['pkg/framework/process/context.go'],
  mech=[('bar/beat arithmetic', 'pkg/framework/process/context.go')],
  observe=['GetBarsBeats, GetBeatPosition, IsOnBeat, GetSamplesPerBeat at each block'],
  tech='a simulated sequencer plays seeded timelines block by block (clock jumps, loops, meter changes, missing fields); the timeline itself is the reference', note=NOTE),
 dict(id='P35', title='A chain is its processors in order, a parallel chain the sum of its branches',
  statement="""However mono, stereo, parallel and nested chains are built (constructors, Add, Insert, Remove, builders, adapters), a block comes out as if each processor had been applied once, in list order, to the output of the one before; a parallel chain gives the sum of its branches, each fed the same input, with its gains. Bypass
  passes the block bit for bit and reaches no processor; Reset reaches every one once; what one caller adds never shows up in another chain.""",
  over=['histories', 'inputs', 'configurations'], qtext='every sequence of building, editing, bypassing, resetting and processing, every nesting and block size',
  why='The tests build one or two chains of gains, where order and state cannot be seen.',
  files=['pkg/framework/dsp/chain.go', 'pkg/framework/dsp/adapters.go'],
  mech=[('chain list and bypass', 'pkg/framework/dsp/chain.go'), ('adapters', 'pkg/framework/dsp/adapters.go')],
  observe=['every output sample', 'calls reaching each processor'],
  tech='seeded edit-and-process sessions with processors that remember and do not commute; a list model is evaluated next to the real chain', note=NOTE),
 dict(id='P36', title='Gains, mixes, pans and interpolators follow their law and touch nothing else',
  statement="""Buffer utilities, gains in linear and dB, fades, clips, dry/wet mixes, crossfades, sums, pan laws, width, balance, auto-pan, interpolators, resamplers and parameter smoothing or scaling helpers give, for every input, the published law to single precision: exact end points, constant power where promised, nothing above the
  limit after a clip. They work on the frames all their buffers have and change no sample outside them nor in any source.""",
  over=['histories', 'inputs', 'configurations'], qtext='every gain, position, mix and dB value, every buffer content, all combinations of short and long buffers, in place or not, every automation of the stateful ones',
  why='The tests check three or four settings on equal-length buffers with loose bounds.',
  files=['pkg/dsp/buffer.go', 'pkg/dsp/gain', 'pkg/dsp/mix', 'pkg/dsp/pan', 'pkg/dsp/interpolation', 'pkg/dsp/utility/parameter.go'],
  mech=[('laws', 'pkg/dsp/gain, pkg/dsp/mix, pkg/dsp/pan'), ('interpolation kernels', 'pkg/dsp/interpolation')],
  observe=['every sample of every buffer and of the guards around it'],
  tech='a simulated console with stalled and uneven channels runs seeded sessions; every buffer lies between guards and is compared with the law in double precision', note=NOTE),
 dict(id='P37', title='Dynamics gain and detected level move exactly by attack, release, hold, curve',
  statement="""At every sample, for every signal and automation of every control, compressor, limiter, expander and gate apply the gain their documented detector, static curve (threshold, ratio, knee, range, make-up), state machine (hysteresis, hold) and smoothing call for, delayed by the look-ahead; the level detector (peak, RMS, peak-hold;
  linear, logarithmic, analogue) shows the level its times call for. Meters, gate state and level getters agree with what was applied; buffer, stereo-linked and side-chain calls do the same per sample.""",
  over=['histories', 'inputs', 'configurations'], qtext='every input, level jump and automation sequence in and out of range, every call form and block size, Reset anywhere',
  why='The tests look at settled levels of a constant tone with bounds of a dB or more.',
  files=['pkg/dsp/dynamics', 'pkg/dsp/envelope/detector.go'],
  mech=[('detector and static curve', 'compressor.go, limiter.go, expander.go'), ('gate state machine', 'gate.go'), ('modes and types', 'detector.go')],
  observe=['every output sample', 'GetGainReduction, GetState, IsOpen, GetEnvelope'],
  tech='seeded sessions of level jumps, automation and resets in all call forms; a double-precision state machine runs alongside, a run ends where rounding could decide a switch', note=NOTE),
 dict(id='P38', title='Buffer diagnostics report exactly the defects a buffer has',
  statement="""For every buffer, analysis reports the peak, RMS, offset, zero crossings, silence and the exact numbers of NaN and clipped samples; a sanity check lists exactly the defects present; a comparison of two buffers counts the samples further apart than the tolerance, one-sided NaN and infinities included, and names the largest;
  dumps and pictures show the samples as they are. What is logged is those findings, each line once, at the level set. No diagnosis changes a buffer or another thread's result.""",
  over=['inputs', 'schedules'], qtext='every buffer with any combination of NaN, infinities, overloads, offsets, drop-outs and denormals, every pair and tolerance, every number of threads diagnosing at once',
  why='The tests use one buffer per defect and look for a word in the text; none puts NaN into a comparison or uses two threads.',
  files=['pkg/framework/debug/audio.go'],
  mech=[('Analyze, CheckBuffer, CompareBuffers, DumpBuffer, PrintBuffer', 'audio.go'), ('shared default analyser and logger', 'audio.go, logger.go')],
  observe=['results and texts returned', 'lines in the log'],
  tech='seeded threads under the simulated scheduler diagnose buffers with injected faults; every figure is recounted over the buffer and the log compared as a multiset', note=NOTE),
 dict(id='P39', title='A spectrum is the transform of the windowed frame, whatever came before',
  statement="""For every power-of-two size, window and frame, shorter or longer ones included, the forward transforms give the discrete Fourier transform of the frame under the published window (zero-padded or cut), the inverse undoes it, decibel, power and frequency values follow from the magnitudes, and cross-correlation gives the sum of
  products at every lag. A result depends only on its own frame: never on what the same transform object, or a frame of NaN, left behind.""",
  over=['inputs', 'histories'], qtext='every frame, size, window and order of forward, inverse, correlation and query calls on one object, with non-finite frames in between',
  why='The tests look for the peak of one sine and one round trip on fresh objects; their correlation test accepts a peak ten lags off.',
  files=['pkg/dsp/analysis/fft.go'],
  mech=[('windows, radix-2 transform, inverse', 'fft.go'), ('cross-correlation', 'fft.go')],
  observe=['every bin, sample and lag returned'],
  tech='seeded sessions reuse transform objects over damaged and undamaged frames; every result is compared with a direct Fourier sum', note=NOTE),
 dict(id='P40', title='Notes, frequencies, names and event descriptions agree with each other',
  statement="""For every MIDI note and tuning, the note's frequency is the one of equal temperament around A4, the frequency (detuned by less than half a semitone, too) leads back to that note, and the name is the note's, with C4 at 60, wherever it is shown; every spelling of a name (flats, B#3 for C4) is read as its note; a tuning of zero means 440 Hz. A frequency outside the MIDI range gives the nearest note in it, one that is
  not positive gives note 0, never a value above 127. Every event reports its own kind, channel and time, and its text names the data it carries.""",
  over=['inputs', 'schedules'], qtext='every note, detuning, tuning and event value, from any number of threads at once',
  why='The tests check four notes at one tuning, exactly on pitch.',
  files=['pkg/midi/events.go', 'pkg/framework/param/formatters.go'],
  mech=[('note and frequency conversion', 'events.go'), ('event types and texts', 'events.go')],
  observe=['values returned', 'event type, channel, offset and text'],
  tech='seeded threads (instrument, tuner with detuning and invalid-frequency faults, monitor) against equal temperament in double precision', note=NOTE),
 dict(id='P41', title='A plugin from the base classes is told what the host did, and keeps its identity',
  statement="""Through any order of initialisation, activation, re-initialisation and processing, a plugin made from the base classes has exactly the callbacks then installed called, once per host call, with the host's values, a reset before each deactivation; the host gets the callback's error. Sample rate, buses and parameters are what that
  instance was given, and two instances share nothing. The identity of a plugin depends on its ID alone, never changes, differs for different IDs, and only an empty ID is refused.""",
  over=['histories', 'inputs'], qtext='every sequence of host calls, callback installations and callback failures on any number of instances; every plugin ID and descriptive data',
  why='No test drives the base classes; the identity is checked for two IDs.',
  files=['pkg/framework/plugin/base.go', 'pkg/framework/plugin/processor.go', 'pkg/framework/plugin/info.go'],
  mech=[('callbacks', 'base.go, processor.go'), ('identity', 'info.go')],
  observe=['log of callbacks', 'errors returned', 'identities'],
  tech='seeded host sessions with failing, replaced and missing callbacks; a call log is the model of the life cycle, the published derivation that of the identity', note=NOTE),
 dict(id='P42', title='The Go view of a host block is the host\'s own memory and transport, uncopied',
  statement="""For any block a host hands over, the process-data wrapper gives exactly the buses, channels and frames of the block: each channel is the host's memory itself, neither copied nor longer than the block, and what the host left out (bus or channel tables, single channels, transport) or never had is nil, never a crash or someone else's
  buffer. Every transport field and every flag query equals what the host wrote. Blocks handled at the same time on several threads do not mix.""",
  over=['inputs', 'schedules', 'configurations'], qtext='every bus layout, block size, combination of left-out parts and transport flags and values, on any number of threads',
  why='The package needs the VST3 header and is not built by the tests.',
  files=['pkg/vst3/buffers.go', 'pkg/vst3/types.go'],
  mech=[('bus and channel views', 'buffers.go NewProcessDataWrapper, NewAudioBuffer'), ('transport', 'buffers.go NewProcessContext')],
  observe=['slices and fields returned', 'host memory and the guards around it'],
  tech='simulated host threads hand over seeded blocks with parts left out, in guarded memory; every answer is compared with that memory', note=NOTE),
]
