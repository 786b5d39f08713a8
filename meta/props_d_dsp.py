NOTE = """Sampled sessions and seeds, not enumeration; sessions of a few thousand frames. Trusts the oracle stated in DESIGN.md."""
DSPF = ['pkg/dsp/delay/delay.go', 'pkg/dsp/filter/biquad.go', 'pkg/dsp/filter/svf.go', 'pkg/dsp/dynamics/compressor.go', 'pkg/dsp/dynamics/limiter.go', 'pkg/dsp/dynamics/gate.go',
        'pkg/dsp/envelope/envelope.go', 'pkg/dsp/modulation/lfo.go', 'pkg/dsp/modulation/chorus.go', 'pkg/dsp/distortion/tape.go', 'pkg/dsp/reverb/fdn.go', 'pkg/dsp/reverb/freeverb.go',
        'pkg/dsp/utility/noise.go', 'pkg/framework/dsp/chain.go']
PROPS = [
 dict(id='P15', title='Block boundaries and buffer sharing are invisible in the audio',
  statement="""Every signal processor (delays, filters, oscillators, envelopes, dynamics, modulation effects, distortions, reverbs, noise, DC blockers, panners, chains of processors) produces the same output
  however the host divides the stream into blocks (single samples, odd sizes, empty blocks), in place or from one buffer to another, through its per-sample, buffer or multi-channel calls. A chain equals its members
  run one after the other (parallel chains: the weighted sum of their members on copies of the input). Processing writes its output buffers and nothing else.""",
  over=['schedules', 'inputs', 'histories'], qtext='every division of a session into blocks, every interleaving of automation, triggers and resets with blocks, every input',
  why='The tests process one buffer of one size; they do not divide the same stream in another way and compare.',
  files=DSPF, mech=[('state carried between calls', 'Process/ProcessBuffer/ProcessStereo of every processor'), ('chain loops', 'pkg/framework/dsp/chain.go')],
  observe=['output buffers of every processing call'],
  tech='seeded host sessions on about 90 processor forms, played frame by frame, in the host blocks and in blocks cut again; the three recordings are compared, guard values surround every buffer',
  note=NOTE),
 dict(id='P16', title='Reset makes a processor like new, whatever it went through',
  statement="""After Reset a processor with a Reset method sounds exactly like a newly created one with the same settings: no tail, phase, envelope, counter or gain survives, even after non-finite samples
  (NaN, infinities), denormals or in the middle of a note, and the settings themselves survive the Reset.""",
  over=['histories', 'fault_sequences', 'inputs'], qtext='every session before the reset (automation, triggers, poisoned samples), every session after it',
  why='The tests reset after a short ordinary signal and look at single values.',
  files=DSPF, mech=[('Reset', 'Reset method of every processor')],
  observe=['output after Reset against a new instance'],
  tech='seeded host sessions with injected non-finite samples, Reset, second session; the recording is compared with that of a new instance given the same settings',
  note=NOTE),
 dict(id='P17', title='Processor instances on different threads never influence each other',
  statement="""Any number of signal processors, of one kind or mixed, may run on different threads at the same time, one thread per instance: each produces exactly the output it would produce alone, and no memory is
  shared between instances without synchronisation.""",
  over=['schedules', 'configurations', 'histories'], qtext='every interleaving, at statement granularity, of any number of instances with sessions of their own',
  why='The tests use one instance on one goroutine; shared package state and data races between instances never show.',
  files=DSPF, mech=[('no package-level mutable state', 'pkg/dsp'), ('random state per instance', 'pkg/dsp/modulation/lfo.go, pkg/dsp/utility/noise.go')],
  observe=['output buffers of every instance', 'race detector reports'],
  tech='two to four instances on simulated threads, preempted before any statement by a seeded scheduler; recordings must equal those played alone, bit by bit; happens-before race build over the same schedules',
  note='Sampled interleavings.'),
 dict(id='P18', title='Finite input gives finite, bounded audio; every call returns',
  statement="""For finite input at any sample rate and under any automation, including setter values outside the documented range, every processor's output stays finite and within the gain bound of its settings (tube and tape, whose curves are polynomials: for input up to twice full scale): nothing
  blows up, oscillates or runs away. For any input at all, NaN, infinities and huge values included, every call returns in a bounded number of steps and does not panic.""",
  over=['inputs', 'histories', 'configurations', 'fault_sequences'], qtext='every input signal, every automation sequence, every sample rate, every draw of the random generators',
  why='The tests use ordinary signals with constant settings at 44.1 or 48 kHz.',
  files=DSPF, mech=[('clamps in setters', 'Set* of every processor'), ('feedback limits', 'pkg/dsp/delay, pkg/dsp/reverb, pkg/dsp/modulation')],
  observe=['every output sample', 'termination of every call'],
  tech='seeded automation storms, extreme signals, sample rates from 8 to 192 kHz, extreme random draws and injected non-finite samples; every output sample is checked against the bound of the processor, a step budget detects calls that do not end',
  note=NOTE + ' Biquad coefficients change only at rest.'),
 dict(id='P19', title='Envelopes pass their stages in order, never jump, always arrive',
  statement="""ADSR and AR envelopes stay in [0,1], rise only in attack, fall only in decay and release, pass their stages in order, move no faster than their times allow, and whatever automation, retriggers, releases and
  resets come at whatever moment they arrive: at the peak, at the sustain level as set, at silence. Followers and detectors stay within what they have heard, follow attack, hold and release in the bounds of their times, and forget non-negligible history (RMS: exactly the window) in the time they promise.""",
  over=['histories', 'inputs', 'configurations'], qtext='every sequence of triggers, releases, resets and control changes at any sample, every input envelope',
  why='The tests run one note through with constant settings.',
  files=['pkg/dsp/envelope/envelope.go', 'pkg/dsp/envelope/detector.go'],
  mech=[('stage machine', 'envelope.go ADSR.Next'), ('smoothing', 'detector.go')],
  observe=['Next/Process/Detect results', 'stage getters'],
  tech='seeded event sequences (retrigger and automation in any stage) on a simulated sample clock; every sample is checked against the law of its stage, arrival as liveness within the bound computed from the times',
  note=NOTE),
 dict(id='P20', title='Dynamics processors keep ceiling, curve, hold and linking',
  statement="""No sample leaves the limiter above its ceiling. Compressor and expander never boost (without makeup), reach their static curve at a steady level, and return to unity gain within the bound of their release; the gain they report is the gain they apply.
  A gate opens within its attack, holds for its hold time, closes to its range and not further, and between its two thresholds keeps its state. Linked stereo applies one gain to both channels. All under automation of every control at any moment.""",
  over=['histories', 'inputs', 'configurations'], qtext='every input signal and every automation sequence',
  why='The tests feed constant levels with constant settings and look at the final gain.',
  files=['pkg/dsp/dynamics/limiter.go', 'pkg/dsp/dynamics/compressor.go', 'pkg/dsp/dynamics/expander.go', 'pkg/dsp/dynamics/gate.go'],
  mech=[('gain computer', 'compressor.go, expander.go'), ('state machine', 'gate.go'), ('lookahead peak', 'limiter.go')],
  observe=['output samples', 'GetGainReduction', 'gate state'],
  tech='seeded signals and automation; per-sample safety checks (ceiling, no boost, metered equals applied gain, linking, hold, hysteresis) and progress checks (steady curve, return to unity) against independent formulas',
  note=NOTE),
 dict(id='P21', title='Audio channels never leak into each other',
  statement="""In every processor that keeps state per channel, a channel's output depends on that channel's input only: whatever the other channel carries (another signal, silence, NaN, infinities) changes nothing, to the last bit. The same input on both channels
  of a processor that treats channels alike gives the same output on both, also when the channels are linked by a common gain.""",
  over=['inputs', 'histories', 'configurations'], qtext='every pair of channel inputs, every division into blocks and automation sequence',
  why='The tests process one channel, or the same signal on both.',
  files=['pkg/dsp/filter/biquad.go', 'pkg/dsp/filter/svf.go', 'pkg/dsp/distortion/bitcrusher.go', 'pkg/dsp/distortion/tape.go', 'pkg/dsp/distortion/tube.go', 'pkg/dsp/utility/dcblocker.go', 'pkg/dsp/modulation/phaser.go', 'pkg/framework/dsp/chain.go'],
  mech=[('state per channel', 'x1/x2/y1/y2 slices of the filters, per-channel state of the distortions')],
  observe=['output of the undisturbed channel'],
  tech='each seeded session is played twice with a fault injected on one channel only; the other channel must not change by one bit; then with the same input on both',
  note=NOTE),
 dict(id='P25', title='Processing audio never allocates memory',
  statement="""No processing call of any signal processor or processor chain allocates heap memory, in any state and for any block size, so the audio thread never waits for the allocator or the collector.""",
  over=['histories', 'configurations', 'inputs'], qtext='every processor, every block size and every session before the call',
  why='The benchmarks report allocations of a few calls with constant settings and decide nothing.',
  files=DSPF, mech=[('preallocated buffers', 'constructors and setters of every processor')],
  observe=['heap allocation counter around each processing call'],
  tech='seeded host sessions over all processor forms with the allocation counter read around each call',
  note=NOTE + ' Blocks up to 1024 frames.'),
]
