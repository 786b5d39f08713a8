PROPS = [
 dict(id='P09', title='A smoothed parameter moves steadily to its target, arrives and stays',
  statement="""Whatever target, rate and enable changes interrupt it, a smoothed value moves only towards its current target, never overshoots, never
  jumps further per sample than its rate allows, and reaches the target (within the smoother's threshold) within the number of samples its rate implies, after which it reports that it is no
  longer smoothing and stays there. With smoothing off the plain value is read at once, and re-enabling starts from the current value. Smoothed parameters in a group do not influence each other.""",
  over=['histories', 'inputs', 'configurations'], qtext='every sequence of target, rate, reset, enable and sample-rate changes at any sample positions, for linear, exponential and logarithmic smoothing',
  why='The tests run one uninterrupted ramp per type; interruptions, zero rates, returns to the current value and toggling are not reached.',
  files=['pkg/framework/param/smoother.go', 'pkg/dsp/utility/parameter.go'], mech=[('SetTarget/Next', 'smoother.go'), ('SmoothedParameter', 'smoother.go'), ('SmoothParameter', 'utility/parameter.go')],
  observe=['Smoother.Next', 'Smoother.IsSmoothing', 'SmoothedParameter.GetSmoothedValue', 'ParameterSmoother.GetSmoothed', 'SmoothParameter.Process'],
  tech='seeded host sessions on a simulated sample clock interrupt the ramps; per-sample invariants and bounded liveness once changes stop',
  note='Sampled sessions; the time bound is derived independently from the documented meaning of the rate. One thread drives a smoother.'),
 dict(id='P10', title='Voices sound exactly for the keys held and never hang',
  statement="""A note-on always sounds on a voice within the voice limit (unless stealing is off and all are busy), re-using its own voice if already held, a free voice if there is one, and otherwise the victim
  the stealing mode prescribes. A held note is silenced only by its own note-off, by stealing, or by a reset, mode or limit change; the sustain pedal defers releases, and raising it releases exactly the notes whose keys are up. Once all keys and the pedal are up no voice is
  held, whatever voices fell silent by themselves on the way.""",
  over=['histories', 'inputs', 'configurations', 'fault_sequences'], qtext='every sequence of key, pedal, mode, limit and reset events and every moment at which voices fall silent by themselves',
  why='The tests play short fixed sequences with voices that never end by themselves.',
  files=['pkg/framework/voice/allocator.go'], mech=[('noteToVoice mapping', 'allocator.go'), ('sustained notes', 'allocator.go SetSustainPedal'), ('stealVoice', 'allocator.go')],
  observe=['calls on the Voice interface', 'Allocator.GetActiveVoiceCount'],
  tech='seeded keyboard sessions against simulated voices that die at seeded moments; every call is judged against keys and pedal, with no-hanging-note liveness at the end',
  note='Sampled sessions. One known finding: in legato mode the voice is not told the new pitch. One thread drives the allocator.'),
]
