NOTE = """Sampled sessions and seeds, not enumeration; sessions of a few thousand frames. Trusts the reference models stated in DESIGN.md."""
PROPS = [
 dict(id='P22', title='A delay line gives back exactly what was written that long ago',
  statement="""Delay lines return the sample written the requested number of samples ago, exactly for whole delays and interpolated between the two neighbours for fractional ones, up to the longest delay and however often the ring wraps. Multi-tap, comb, all-pass and modulated
  delays are the difference equations of that line with the gains as set, when delay, feedback and mix move at any sample; silence reads as zero after Reset.""",
  over=['histories', 'inputs', 'configurations'], qtext='every sequence of writes, reads, processing calls and control changes, every delay from one sample to the longest, every line length',
  why='The tests write an impulse and read a few whole delays back, without wrapping the ring under moving controls.',
  files=['pkg/dsp/delay/delay.go'],
  mech=[('ring buffer indices', 'pkg/dsp/delay'), ('interpolation', 'pkg/dsp/delay')],
  observe=['Read/Process results at every sample'],
  tech='seeded histories of writes, reads and control changes on a simulated sample clock; an unbounded history list is the reference model, compared at every sample', note=NOTE),
 dict(id='P23', title='Reverbs are the networks they claim to be, and their tails die away',
  statement="""Freeverb, Schroeder and FDN reverbs compute, at every sample and under automation of every control, the comb, all-pass and feedback networks documented for their settings (room size, damping, decay, wet, dry, width, pre-delay, presets). With wet at zero only the scaled dry signal
  passes. When the input stops the tail falls and, unless frozen, dies away; a longer decay never makes the tail shorter; full damping silences.""",
  over=['histories', 'inputs', 'configurations'], qtext='every input, every automation sequence, several sample rates and line counts',
  why='The tests look for a non-zero tail and for bounds after an impulse; a wrong line length, gain or routing still passes.',
  files=['pkg/dsp/reverb/freeverb.go', 'pkg/dsp/reverb/schroeder.go', 'pkg/dsp/reverb/fdn.go'],
  mech=[('comb and all-pass tuning', 'freeverb.go, schroeder.go'), ('feedback matrix', 'fdn.go')],
  observe=['both output channels at every sample', 'tail energy after the input stops'],
  tech='seeded sessions with automation; a double-precision network model runs alongside and is compared at every sample; tail decay is checked as bounded progress after the input stops', note=NOTE),
 dict(id='P24', title='Oscillators and noise play the frequency, waveform and colour asked for',
  statement="""Oscillators advance exactly by frequency over sample rate and produce the named waveform at that phase, without drift, when frequency, phase or pulse width move at any sample. Band-limited generators have one period per 1/f, zero mean and only the harmonics below half the sample rate, with the
  amplitudes of their waveform. Noise generators have the level, distribution and spectral colour of their name, and equal seeds and histories give equal noise.""",
  over=['histories', 'inputs', 'configurations'], qtext='every sequence of frequency, phase, waveform and width changes, every frequency up to half the sample rate, every draw of the random generator',
  why='The tests look at a few samples of fixed low frequencies and at loose bounds of a noise burst.',
  files=['pkg/dsp/oscillator/oscillator.go', 'pkg/dsp/utility/noise.go'],
  mech=[('phase accumulator', 'oscillator.go'), ('impulse train and integrator', 'oscillator.go'), ('colour filters', 'noise.go')],
  observe=['every output sample', 'spectrum over whole periods', 'statistics of long noise runs'],
  tech='seeded sessions with the random source behind a seam; exact phase bookkeeping as reference model, harmonic sums for the band-limited generators, colour filters applied to the white noise of the same seed', note=NOTE),
 dict(id='P30', title='LFO and modulation effects do at every sample what their controls say',
  statement="""At every sample an LFO gives the named waveform at the phase its rate, syncs and resets lead to, scaled and shifted as set, random values held for one period. Ring modulator, tremolo, chorus, flanger and phaser equal their documented difference equations (voices, delays, depth, feedback, spread, stages, mix),
  in mono and stereo, while any control moves at any sample; both channels get their share of the effect.""",
  over=['histories', 'inputs', 'configurations'], qtext='every automation sequence, mono and stereo, sample and buffer calls, several sample rates',
  why='The tests check that the output differs from the input and stays in bounds.',
  files=['pkg/dsp/modulation/lfo.go', 'pkg/dsp/modulation/ringmod.go', 'pkg/dsp/modulation/tremolo.go', 'pkg/dsp/modulation/chorus.go', 'pkg/dsp/modulation/flanger.go', 'pkg/dsp/modulation/phaser.go'],
  mech=[('phase accumulator', 'lfo.go'), ('modulated delay', 'chorus.go, flanger.go'), ('all-pass chain', 'phaser.go')],
  observe=['every output sample'],
  tech='seeded automation sessions; a reference model of each effect in double precision is compared at every sample; held random values are checked against the seeded random source', note=NOTE),
]
