PROPS = [
 dict(id='P11', title='Meters and analysers read true at one moment of the stream',
  statement="""Peak, RMS, LUFS, correlation, balance, width, phase-scope and spectrum readings depend on the stream (and, where a meter averages per call, on the calls) exactly as documented: windows cover
  the last N samples, holds last their hold time, decays follow their rate, loudness gating and weighting follow BS.1770, spectra appear at every hop. LUFS, RMS, scope points and spectra do not depend on how the stream is cut into blocks. Any thread may read at any
  time and sees one moment between blocks, never a mixture. Reset makes a meter like new; non-finite samples never leave it stuck.""",
  over=['schedules', 'histories', 'inputs', 'configurations'], qtext='every stream, every division into blocks, every sequence of settings and resets, every interleaving of the audio thread with reading threads',
  why='The tests feed one block from one thread and look once; block divisions, loud-then-quiet histories, concurrent readers and recovery are not reached.',
  files=['pkg/dsp/analysis/meters.go', 'pkg/dsp/analysis/correlation.go', 'pkg/dsp/analysis/phasescope.go', 'pkg/dsp/analysis/spectrum.go'],
  mech=[('per-meter mutex', 'meters.go'), ('running sums and ring buffers', 'meters.go RMSMeter'), ('100 ms blocks, gating', 'meters.go LUFSMeter'), ('hop and averaging', 'spectrum.go Process')],
  observe=['PeakMeter/RMSMeter/LUFSMeter getters', 'CorrelationMeter getters', 'StereoFieldAnalyzer.GetAnalysis', 'PhaseScope.GetPoints/GetPolarData/GetStatistics', 'SpectrumAnalyzer getters'],
  tech='a simulated audio thread feeds seeded blocks (with NaN bursts and resets) while UI threads read under a seeded scheduler; every reading must equal an independent stream model at one moment of the call; race build',
  note='Sampled schedules and streams. The FFT and window functions are taken as given. Streams are short (seconds).'),
 dict(id='P12', title='Profiler statistics are exact, steady-clocked and self-consistent',
  statement="""Every timed section (also nested, or left by a panic) that began while profiling was on is counted exactly once, with a duration taken from the monotonic clock that lies between its inner and outer duration and is never
  negative, however the wall clock jumps. Every report, taken at any time from any thread, is consistent in itself (count, total, average, min, max, last), a returned measurement never changes afterwards, percentiles rise with p from the smallest to the largest recent duration, and Reset
  leaves nothing behind.""",
  over=['schedules', 'histories', 'fault_sequences', 'configurations'], qtext='every interleaving of sections, reads and resets on several threads, every clock behaviour, every window size',
  why='The tests time a few sections on one thread with the real clock.',
  files=['pkg/framework/debug/profiler.go'], mech=[('record under lock', 'profiler.go'), ('copy on read', 'profiler.go GetMeasurement'), ('sample ring', 'profiler.go Percentile')],
  observe=['Profiler.Report', 'Profiler.GetMeasurement', 'Measurement.Average', 'Measurement.Percentile', 'AudioProcessProfiler.GetCPULoad'],
  tech='several simulated threads time sections on a simulated clock whose wall side jumps; counts checked for linearizability (porcupine), times against clock readings around each section, snapshots for immutability; race build',
  note='Sampled schedules.'),
 dict(id='P13', title='Each enabled log message is written once, whole, in order',
  statement="""A message at or above the level of an enabled logger is handed to the output exactly once, in one Write call, as one line rendered with one configuration (time, level, prefix, the caller's file and line), inside the call that logged it; others are not written.
  Messages of one thread keep their order and writes never overlap. A failing, short-writing or panicking output, an argument that itself logs, or concurrent reconfiguration neither blocks the logger nor affects other messages. Fatal panics with the message after writing it. A log file keeps what it held and what was logged before a crash; a path that cannot be logged to is an error.""",
  over=['schedules', 'fault_sequences', 'configurations', 'inputs'], qtext='every interleaving of logging and reconfiguring threads, every failure of the output, every argument',
  why='The tests log from one thread into a buffer that never fails.',
  files=['pkg/framework/debug/logger.go'], mech=[('one Write per message under lock', 'logger.go log'), ('level and enable filter', 'logger.go log'), ('caller lookup', 'logger.go log')],
  observe=['the io.Writer given to the logger', 'panics of Fatal'],
  tech='several simulated threads log and reconfigure under a seeded scheduler against a slow, failing and panicking output on a simulated clock; recorded lines checked for linearizability against the configurations; race build',
  note='Sampled schedules. File loggers write real scratch files.'),
 dict(id='P14', title='Debug buffers have one holder, and allocation statistics are exact',
  statement="""The debug buffer pool hands a buffer to one holder at a time, of the right size, rejects buffers of a wrong size, and its allocated and in-use counts are exact. The allocation tracker counts every checked buffer exactly once with its size, per buffer, per frame and in
  total; frame counts and reports are read, started and reset as a whole whatever other threads do; nil and empty buffers and reallocated buffers are caught.""",
  over=['schedules', 'histories'], qtext='every interleaving of pool users, checked buffers, frames, reports and resets on several threads',
  why='The tests use pool and tracker from one thread.',
  files=['pkg/dsp/debug/buffer_debug.go'], mech=[('sync.Pool and counters', 'buffer_debug.go BufferPool'), ('tracker lock', 'buffer_debug.go trackAllocation')],
  observe=['BufferPool.Get/Put/Stats', 'EndFrame', 'GetAllocationReport', 'panics of CheckAllocation and VerifyBufferReuse'],
  tech='several simulated threads over a seeded sync.Pool; ownership marks, exact counters at rest, tracker statistics checked for linearizability (porcupine); race build',
  note='Sampled schedules; built with the debug tag. DetectAllocation (it reads the Go heap) is not simulated.'),
]
