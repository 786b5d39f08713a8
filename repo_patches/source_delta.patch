From a8a87855d60d352613b5db0592ebf436f5f20237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 01/90] fix: parameter values stay in 0-1 when NaN is written
 or normalized

---
 pkg/framework/param/parameter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/param/parameter.go b/pkg/framework/param/parameter.go
index 8922c92..335aead 100644
--- a/pkg/framework/param/parameter.go
+++ b/pkg/framework/param/parameter.go
@@ -48,8 +48,8 @@ func (p *Parameter) GetValue() float64 {
 
 // SetValue sets the normalized value (0-1)
 func (p *Parameter) SetValue(value float64) {
-	// Clamp to 0-1
-	if value < 0 {
+	// Clamp to 0-1; the negated comparison also catches NaN
+	if !(value >= 0) {
 		value = 0
 	} else if value > 1 {
 		value = 1
@@ -120,7 +120,7 @@ func (p *Parameter) Normalize(plain float64) float64 {
 		return 0
 	}
 	normalized := (plain - p.Min) / (p.Max - p.Min)
-	if normalized < 0 {
+	if !(normalized >= 0) { // also catches NaN
 		return 0
 	}
 	if normalized > 1 {
-- 
2.43.0


From 0e3805e78262522629eab93a8eb8786408006a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 02/90] fix: automatic parameter IDs stay clear of explicit IDs
 and reserved ranges

---
 pkg/framework/param/registry_auto.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index 5a9a8a4..b0909dc 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -53,6 +53,11 @@ func (r *AutoRegistry) Register(params ...*Parameter) error {
 			return fmt.Errorf("parameter ID %d already exists", p.ID)
 		}
 		
+		// Keep automatic IDs clear of explicitly chosen ones
+		if p.ID >= r.nextID.Load() {
+			r.nextID.Store(p.ID + 1)
+		}
+		
 		// Register the parameter
 		r.params[p.ID] = p
 		r.order = append(r.order, p.ID)
@@ -123,6 +128,9 @@ func (r *AutoRegistry) Clear() {
 
 // Reserve reserves a range of IDs for manual assignment
 func (r *AutoRegistry) Reserve(count uint32) uint32 {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	
 	return r.nextID.Add(count) - count
 }
 
-- 
2.43.0


From 3b74b6e09b3af97b9ecd32cce552fd752c88898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 03/90] fix: saved parameter count matches the parameters
 written when one is registered meanwhile

---
 pkg/framework/state/manager.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/state/manager.go b/pkg/framework/state/manager.go
index 7b3eacf..1eec8a9 100644
--- a/pkg/framework/state/manager.go
+++ b/pkg/framework/state/manager.go
@@ -58,14 +58,15 @@ func (m *Manager) Save(w io.Writer) error {
 		return err
 	}
 
-	// Write parameter count
-	paramCount := m.registry.Count()
+	// Write parameter count, taken from the same snapshot as the parameters
+	params := m.registry.All()
+	paramCount := int32(len(params))
 	if err := binary.Write(w, binary.LittleEndian, paramCount); err != nil {
 		return err
 	}
 
 	// Write each parameter
-	for _, param := range m.registry.All() {
+	for _, param := range params {
 		// Write ID
 		if err := binary.Write(w, binary.LittleEndian, param.ID); err != nil {
 			return err
-- 
2.43.0


From 28604011c07e625f649195e793b91e84cb358afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 04/90] fix: a state load that fails leaves the parameters as
 they were

---
 pkg/framework/state/manager.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pkg/framework/state/manager.go b/pkg/framework/state/manager.go
index 1eec8a9..85ea314 100644
--- a/pkg/framework/state/manager.go
+++ b/pkg/framework/state/manager.go
@@ -120,7 +120,17 @@ func (m *Manager) Load(r io.Reader) error {
 		return err
 	}
 
-	// Read each parameter
+	if paramCount < 0 {
+		return fmt.Errorf("invalid parameter count %d", paramCount)
+	}
+
+	// Read each parameter; nothing is applied until the section is complete,
+	// so that a truncated or failing stream leaves the plugin as it was
+	type storedValue struct {
+		id    uint32
+		value float64
+	}
+	var stored []storedValue
 	for i := int32(0); i < paramCount; i++ {
 		var id uint32
 		if err := binary.Read(r, binary.LittleEndian, &id); err != nil {
@@ -132,11 +142,7 @@ func (m *Manager) Load(r io.Reader) error {
 			return err
 		}
 
-		// Set parameter value if it exists
-		if param := m.registry.Get(id); param != nil {
-			param.SetValue(value)
-		}
-		// Ignore unknown parameters for forward compatibility
+		stored = append(stored, storedValue{id: id, value: value})
 	}
 
 	// Check for custom data
@@ -145,6 +151,14 @@ func (m *Manager) Load(r io.Reader) error {
 		return err
 	}
 
+	for _, s := range stored {
+		// Set parameter value if it exists
+		if param := m.registry.Get(s.id); param != nil {
+			param.SetValue(s.value)
+		}
+		// Ignore unknown parameters for forward compatibility
+	}
+
 	if hasCustom != 0 {
 		if m.customLoad != nil {
 			return m.customLoad(r)
-- 
2.43.0


From dabab8e663a7eafbebe1596759f7cdd3f78efe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 05/90] fix: event queries see a sorted queue while events are
 added concurrently

---
 pkg/midi/queue.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/pkg/midi/queue.go b/pkg/midi/queue.go
index 44b1bcb..86409f8 100644
--- a/pkg/midi/queue.go
+++ b/pkg/midi/queue.go
@@ -39,15 +39,13 @@ func (q *EventQueue) AddMultiple(events []Event) {
 }
 
 func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {
-	q.mu.RLock()
-	defer q.mu.RUnlock()
+	// Sorting and reading happen under one lock: an event added in between
+	// would leave the queue unsorted while it is searched or copied
+	q.mu.Lock()
+	defer q.mu.Unlock()
 
 	if !q.sorted {
-		q.mu.RUnlock()
-		q.mu.Lock()
 		q.sortEvents()
-		q.mu.Unlock()
-		q.mu.RLock()
 	}
 
 	if len(q.events) == 0 {
@@ -80,15 +78,13 @@ func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {
 }
 
 func (q *EventQueue) GetAllEvents() []Event {
-	q.mu.RLock()
-	defer q.mu.RUnlock()
+	// Sorting and reading happen under one lock: an event added in between
+	// would leave the queue unsorted while it is searched or copied
+	q.mu.Lock()
+	defer q.mu.Unlock()
 
 	if !q.sorted {
-		q.mu.RUnlock()
-		q.mu.Lock()
 		q.sortEvents()
-		q.mu.Unlock()
-		q.mu.RLock()
 	}
 
 	result := make([]Event, len(q.events))
-- 
2.43.0


From 689bc4840e149b24c55acf98cc9d49ce7ec59851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 06/90] fix: automation points at the same sample offset keep
 the order the host sent them in

---
 pkg/framework/process/context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 2671989..bbc5ba2 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -248,7 +248,8 @@ func (c *Context) ResetParameterChanges() {
 func (c *Context) SortParameterChanges() {
 	if c.changeCount > 1 {
 		// Sort only the active portion of the slice
-		sort.Slice(c.paramChanges[:c.changeCount], func(i, j int) bool {
+		// and keep the host's order for changes at the same offset
+		sort.SliceStable(c.paramChanges[:c.changeCount], func(i, j int) bool {
 			return c.paramChanges[i].SampleOffset < c.paramChanges[j].SampleOffset
 		})
 	}
-- 
2.43.0


From 749323258428269b825e03cc867601be85fe4477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 07/90] fix: linear and logarithmic smoothing always reach
 their target

---
 pkg/framework/param/smoother.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index a903d0b..bb0ecfe 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -59,6 +59,8 @@ func (s *Smoother) SetTarget(target float64) {
 		// Calculate step size for linear smoothing
 		if s.rate > 0 {
 			s.step = (target - s.current) / s.rate
+		} else {
+			s.step = target - s.current
 		}
 		
 	case LogarithmicSmoothing:
@@ -79,6 +81,8 @@ func (s *Smoother) SetTarget(target float64) {
 		
 		if s.rate > 0 {
 			s.logStep = (s.logTarget - s.logCurrent) / s.rate
+		} else {
+			s.logStep = s.logTarget - s.logCurrent
 		}
 	}
 }
@@ -102,20 +106,22 @@ func (s *Smoother) Next() float64 {
 		
 	case LinearSmoothing:
 		// Linear interpolation
+		previous := s.current
 		s.current += s.step
 		
-		// Check if we've reached or passed the target
-		if (s.step > 0 && s.current >= s.target) || (s.step < 0 && s.current <= s.target) {
+		// Check if we've reached or passed the target, or can't get any closer
+		if s.current == previous || (s.step > 0 && s.current >= s.target) || (s.step < 0 && s.current <= s.target) {
 			s.current = s.target
 			s.isSmoothing = false
 		}
 		
 	case LogarithmicSmoothing:
 		// Interpolate in log space
+		previous := s.logCurrent
 		s.logCurrent += s.logStep
 		
-		// Check if we've reached the target
-		if (s.logStep > 0 && s.logCurrent >= s.logTarget) || (s.logStep < 0 && s.logCurrent <= s.logTarget) {
+		// Check if we've reached the target, or can't get any closer
+		if s.logCurrent == previous || (s.logStep > 0 && s.logCurrent >= s.logTarget) || (s.logStep < 0 && s.logCurrent <= s.logTarget) {
 			s.current = s.target
 			s.isSmoothing = false
 		} else {
-- 
2.43.0


From 69bbea07b63bccf009affcc39abccc04e21af17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 08/90] fix: smoothed parameters follow plain-value writes and
 changes made while smoothing was off

---
 pkg/framework/param/smoother.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index bb0ecfe..4baba16 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -194,6 +194,11 @@ func (sp *SmoothedParameter) SetValue(value float64) {
 	}
 }
 
+// SetPlainValue sets the plain parameter value and updates the smoother target.
+func (sp *SmoothedParameter) SetPlainValue(plain float64) {
+	sp.SetValue(sp.Normalize(plain))
+}
+
 // GetSmoothedValue returns the current smoothed value.
 func (sp *SmoothedParameter) GetSmoothedValue() float64 {
 	if sp.enabled {
@@ -204,10 +209,11 @@ func (sp *SmoothedParameter) GetSmoothedValue() float64 {
 
 // SetSmoothing enables or disables smoothing.
 func (sp *SmoothedParameter) SetSmoothing(enabled bool) {
-	sp.enabled = enabled
-	if !enabled {
+	// The smoother isn't fed while disabled, so it also starts afresh when re-enabled
+	if !enabled || !sp.enabled {
 		sp.smoother.Reset(sp.GetPlainValue())
 	}
+	sp.enabled = enabled
 }
 
 // SetSmoothingRate updates the smoothing rate.
-- 
2.43.0


From 4a334fd8cef30b66335e6add75d794391180f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 09/90] fix: UpdateSampleRate also sets the ramp time of
 logarithmic smoothing

---
 pkg/framework/param/smoother.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index 4baba16..f3d2afe 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -224,7 +224,7 @@ func (sp *SmoothedParameter) SetSmoothingRate(rate float64) {
 
 // Update smoothing rate based on sample rate for time-based smoothing.
 func (sp *SmoothedParameter) UpdateSampleRate(sampleRate float64, targetTimeMs float64) {
-	if sp.smoother.smoothingType == LinearSmoothing {
+	if sp.smoother.smoothingType == LinearSmoothing || sp.smoother.smoothingType == LogarithmicSmoothing {
 		// Convert time to samples
 		samples := sampleRate * targetTimeMs / 1000.0
 		sp.SetSmoothingRate(samples)
-- 
2.43.0


From af8f34278f52df95fc01ff87d9e2b194bedece10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 10/90] fix: a note-off no longer releases another note's voice
 after the note's own voice fell silent

---
 pkg/framework/voice/allocator.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 07871fa..79e7fbd 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -234,11 +234,27 @@ func (a *Allocator) noteOnPoly(note uint8, velocity uint8) {
 		}
 	}
 
-	// Allocate the voice
+	// Allocate the voice; a note it played until it fell silent no longer owns it
+	a.forgetVoice(voiceIdx)
 	a.voices[voiceIdx].TriggerNote(note, velocity)
 	a.noteToVoice[note] = []int{voiceIdx}
 }
 
+// forgetVoice removes a voice from the note mapping
+func (a *Allocator) forgetVoice(voiceIdx int) {
+	for note, voices := range a.noteToVoice {
+		for i, idx := range voices {
+			if idx == voiceIdx {
+				a.noteToVoice[note] = append(voices[:i], voices[i+1:]...)
+				break
+			}
+		}
+		if len(a.noteToVoice[note]) == 0 {
+			delete(a.noteToVoice, note)
+		}
+	}
+}
+
 // noteOffPoly handles poly mode note off
 func (a *Allocator) noteOffPoly(note uint8, velocity uint8) {
 	if voices, exists := a.noteToVoice[note]; exists {
-- 
2.43.0


From 78c80b3fa6a5cb03e7611266560528367f871b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 11/90] fix: raising the sustain pedal keeps notes that were
 struck again and are still held

---
 pkg/framework/voice/allocator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 79e7fbd..07df5af 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -145,6 +145,9 @@ func (a *Allocator) ProcessEvent(event midi.Event) {
 
 // NoteOn handles a note on event
 func (a *Allocator) NoteOn(note uint8, velocity uint8) {
+	// The key is down again, so the pedal no longer holds its note
+	delete(a.sustainedNotes, note)
+
 	switch a.mode {
 	case ModePoly:
 		a.noteOnPoly(note, velocity)
-- 
2.43.0


From 02ea7ac7df096e1804f69884e27b5298540941cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 12/90] fix: lowering the voice limit stops the voices beyond
 it

---
 pkg/framework/voice/allocator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 07df5af..7741a9d 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -111,6 +111,11 @@ func (a *Allocator) SetMaxVoices(max int) {
 	if max < 1 {
 		max = 1
 	}
+	// Voices beyond the new limit would never be released or counted again
+	for idx := max; idx < a.maxVoices; idx++ {
+		a.voices[idx].Stop()
+		a.forgetVoice(idx)
+	}
 	a.maxVoices = max
 }
 
-- 
2.43.0


From 023ccffd5689a6278d950d177febf465e8cf2e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 13/90] fix: a legato note after a voice that fell silent, or
 after note 0, behaves like any other

---
 pkg/framework/voice/allocator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 7741a9d..29a5c5e 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -290,8 +290,8 @@ func (a *Allocator) noteOnMono(note uint8, velocity uint8) {
 
 // noteOnLegato handles legato mode note on
 func (a *Allocator) noteOnLegato(note uint8, velocity uint8) {
-	if a.currentNote == 0 {
-		// First note, trigger normally
+	if len(a.noteToVoice) == 0 || !a.voices[0].IsActive() {
+		// First note, or the voice fell silent by itself: trigger normally
 		a.noteOnMono(note, velocity)
 	} else {
 		// Legato transition - change pitch without retriggering
-- 
2.43.0


From f8048f1d8c10b62106f424a26c6c9ca27e6de27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:54 +0000
Subject: [PATCH 14/90] fix: profiler snapshots do not change after they were
 taken, and percentiles come from sorted samples

---
 pkg/framework/debug/profiler.go | 43 +++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/pkg/framework/debug/profiler.go b/pkg/framework/debug/profiler.go
index c85f486..d26571e 100644
--- a/pkg/framework/debug/profiler.go
+++ b/pkg/framework/debug/profiler.go
@@ -3,6 +3,7 @@ package debug
 
 import (
 	"fmt"
+	"sort"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -33,6 +34,9 @@ var DefaultProfiler = NewProfiler(1000)
 
 // NewProfiler creates a new profiler with the specified sample buffer size.
 func NewProfiler(maxSamples int) *Profiler {
+	if maxSamples < 1 {
+		maxSamples = 1
+	}
 	p := &Profiler{
 		measurements: make(map[string]*Measurement),
 		maxSamples:   maxSamples,
@@ -116,8 +120,7 @@ func (p *Profiler) GetMeasurement(name string) (*Measurement, bool) {
 	}
 	
 	// Return a copy to avoid race conditions
-	copy := *m
-	return &copy, true
+	return m.clone(), true
 }
 
 // GetAllMeasurements returns all measurements.
@@ -127,8 +130,7 @@ func (p *Profiler) GetAllMeasurements() map[string]*Measurement {
 	
 	result := make(map[string]*Measurement)
 	for k, v := range p.measurements {
-		copy := *v
-		result[k] = &copy
+		result[k] = v.clone()
 	}
 	return result
 }
@@ -173,6 +175,13 @@ func (p *Profiler) Report() string {
 
 // Measurement methods
 
+// clone returns a copy that shares no memory with m.
+func (m *Measurement) clone() *Measurement {
+	c := *m
+	c.samples = append([]time.Duration(nil), m.samples...)
+	return &c
+}
+
 // Average returns the average time for this measurement.
 func (m *Measurement) Average() time.Duration {
 	if m.count == 0 {
@@ -187,21 +196,23 @@ func (m *Measurement) Percentile(p float64) time.Duration {
 		return 0
 	}
 	
-	// Collect valid samples
-	validSamples := make([]time.Duration, 0, len(m.samples))
-	for i := 0; i < len(m.samples) && i < int(m.count); i++ {
-		if m.samples[i] > 0 {
-			validSamples = append(validSamples, m.samples[i])
-		}
+	// Collect the recorded samples in ascending order
+	n := len(m.samples)
+	if m.count < uint64(n) {
+		n = int(m.count)
 	}
-	
-	if len(validSamples) == 0 {
+	if n == 0 {
 		return 0
 	}
-	
-	// Simple percentile calculation (not fully accurate but fast)
-	index := int(float64(len(validSamples)-1) * p / 100.0)
-	return validSamples[index]
+	recorded := append([]time.Duration(nil), m.samples[:n]...)
+	sort.Slice(recorded, func(i, j int) bool { return recorded[i] < recorded[j] })
+
+	if p < 0 {
+		p = 0
+	} else if p > 100 {
+		p = 100
+	}
+	return recorded[int(float64(n-1)*p/100.0)]
 }
 
 // Global profiling functions
-- 
2.43.0


From e3a40a8ce16a1f6fd92c7e1bf8418e217d0704a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:54 +0000
Subject: [PATCH 15/90] fix: allocation statistics of a debug frame are read
 and cleared as a whole

---
 pkg/dsp/debug/buffer_debug.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/dsp/debug/buffer_debug.go b/pkg/dsp/debug/buffer_debug.go
index f707296..002a754 100644
--- a/pkg/dsp/debug/buffer_debug.go
+++ b/pkg/dsp/debug/buffer_debug.go
@@ -131,12 +131,18 @@ func trackAllocation(name string, size, capacity int) {
 
 // StartFrame marks the beginning of a new audio processing frame
 func StartFrame() {
+	globalTracker.mu.Lock()
+	defer globalTracker.mu.Unlock()
+
 	globalTracker.frameAllocs.Store(0)
 	globalTracker.frameBytes.Store(0)
 }
 
 // EndFrame marks the end of an audio processing frame and returns allocation stats
 func EndFrame() (allocations uint64, bytes uint64) {
+	globalTracker.mu.RLock()
+	defer globalTracker.mu.RUnlock()
+
 	return globalTracker.frameAllocs.Load(), globalTracker.frameBytes.Load()
 }
 
-- 
2.43.0


From d0b4b36a70f7901c579ece6a34d00a25ceeb378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 16/90] fix: package-level log functions report their caller's
 file and line

---
 pkg/framework/debug/logger.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/framework/debug/logger.go b/pkg/framework/debug/logger.go
index b6223d2..4f53e1d 100644
--- a/pkg/framework/debug/logger.go
+++ b/pkg/framework/debug/logger.go
@@ -269,27 +269,28 @@ func SetEnabled(enabled bool) {
 
 // Debug logs a debug message using the default logger.
 func Debug(format string, args ...interface{}) {
-	defaultLogger.Debug(format, args...)
+	defaultLogger.log(LogLevelDebug, format, args...)
 }
 
 // Info logs an informational message using the default logger.
 func Info(format string, args ...interface{}) {
-	defaultLogger.Info(format, args...)
+	defaultLogger.log(LogLevelInfo, format, args...)
 }
 
 // Warn logs a warning message using the default logger.
 func Warn(format string, args ...interface{}) {
-	defaultLogger.Warn(format, args...)
+	defaultLogger.log(LogLevelWarn, format, args...)
 }
 
 // Error logs an error message using the default logger.
 func Error(format string, args ...interface{}) {
-	defaultLogger.Error(format, args...)
+	defaultLogger.log(LogLevelError, format, args...)
 }
 
 // Fatal logs a fatal error message using the default logger and panics.
 func Fatal(format string, args ...interface{}) {
-	defaultLogger.Fatal(format, args...)
+	defaultLogger.log(LogLevelFatal, format, args...)
+	panic(fmt.Sprintf(format, args...))
 }
 
 // Conditional logging helpers
@@ -297,20 +298,20 @@ func Fatal(format string, args ...interface{}) {
 // DebugIf logs a debug message if the condition is true.
 func DebugIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Debug(format, args...)
+		defaultLogger.log(LogLevelDebug, format, args...)
 	}
 }
 
 // WarnIf logs a warning message if the condition is true.
 func WarnIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Warn(format, args...)
+		defaultLogger.log(LogLevelWarn, format, args...)
 	}
 }
 
 // ErrorIf logs an error message if the condition is true.
 func ErrorIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Error(format, args...)
+		defaultLogger.log(LogLevelError, format, args...)
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 0a133a141f0c1920b85024afd2e3401189a54323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 17/90] fix: a log argument that itself logs no longer
 deadlocks the logger

---
 pkg/framework/debug/logger.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/debug/logger.go b/pkg/framework/debug/logger.go
index 4f53e1d..1598943 100644
--- a/pkg/framework/debug/logger.go
+++ b/pkg/framework/debug/logger.go
@@ -158,15 +158,30 @@ func (l *Logger) IsEnabled() bool {
 	return l.enabled
 }
 
+// wants returns whether messages of the specified level are written.
+func (l *Logger) wants(level LogLevel) bool {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	return l.enabled && level >= l.level
+}
+
 // log writes a log message at the specified level.
 func (l *Logger) log(level LogLevel, format string, args ...interface{}) {
+	if !l.wants(level) {
+		return
+	}
+
+	// Format the message before taking the lock: an argument's String or
+	// Error method may itself log.
+	msg := fmt.Sprintf(format, args...)
+
 	l.mu.Lock()
 	defer l.mu.Unlock()
-	
+
 	if !l.enabled || level < l.level {
 		return
 	}
-	
+
 	// Build the log message
 	var sb strings.Builder
 	
@@ -197,7 +212,6 @@ func (l *Logger) log(level LogLevel, format string, args ...interface{}) {
 	}
 	
 	// Add the actual message
-	msg := fmt.Sprintf(format, args...)
 	sb.WriteString(msg)
 	
 	// Ensure newline
-- 
2.43.0


From e48e434d820e4d73640a01b3d4f9d000bf6d131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:19 +0000
Subject: [PATCH 18/90] fix: the RMS meter does not drift to NaN and recovers
 from non-finite samples

---
 pkg/dsp/analysis/meters.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index b8ccad2..b1488f8 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -156,6 +156,15 @@ func (rm *RMSMeter) Process(samples []float64) {
 		if rm.count < rm.windowSize {
 			rm.count++
 		}
+
+		// Once per window, sum up afresh so that rounding errors and
+		// non-finite samples do not stay in the running sum for ever
+		if rm.writePos == 0 {
+			rm.sum = 0
+			for _, v := range rm.buffer {
+				rm.sum += v * v
+			}
+		}
 	}
 }
 
@@ -168,6 +177,11 @@ func (rm *RMSMeter) GetRMS() float64 {
 		return 0
 	}
 	
+	// Rounding may leave the running sum just below zero
+	if rm.sum < 0 {
+		return 0
+	}
+
 	return math.Sqrt(rm.sum / float64(rm.count))
 }
 
-- 
2.43.0


From ae7db03d277def94b2eb6f7128f2f4d15e4b67b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 19/90] fix: a stereo field analysis describes one moment of
 the stream

---
 pkg/dsp/analysis/correlation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index 2755f56..ed710b0 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -235,6 +235,7 @@ type StereoFieldAnalyzer struct {
 	balanceMeter   *BalanceMeter
 	widthMeter     *StereoWidthMeter
 	sampleRate     float64
+	mu             sync.Mutex // makes Process and GetAnalysis whole
 }
 
 // NewStereoFieldAnalyzer creates a comprehensive stereo analyzer
@@ -249,6 +250,9 @@ func NewStereoFieldAnalyzer(windowSize int, sampleRate float64) *StereoFieldAnal
 
 // Process analyzes stereo samples
 func (sfa *StereoFieldAnalyzer) Process(samplesL, samplesR []float64) {
+	sfa.mu.Lock()
+	defer sfa.mu.Unlock()
+
 	sfa.correlation.Process(samplesL, samplesR)
 	sfa.balanceMeter.Process(samplesL, samplesR)
 	sfa.widthMeter.Process(samplesL, samplesR)
@@ -256,6 +260,9 @@ func (sfa *StereoFieldAnalyzer) Process(samplesL, samplesR []float64) {
 
 // GetAnalysis returns comprehensive stereo field analysis
 func (sfa *StereoFieldAnalyzer) GetAnalysis() StereoFieldAnalysis {
+	sfa.mu.Lock()
+	defer sfa.mu.Unlock()
+
 	return StereoFieldAnalysis{
 		Correlation:      sfa.correlation.GetCorrelation(),
 		PhaseStatus:      sfa.correlation.GetPhaseStatus(),
-- 
2.43.0


From 855e250cb91b73ae39a6eb32417113a98b37702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:19 +0000
Subject: [PATCH 20/90] fix: integrated loudness does not depend on how the
 stream is divided into calls and weights the channels

---
 pkg/dsp/analysis/meters.go | 72 +++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index b1488f8..0784bab 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -236,6 +236,8 @@ type LUFSIntegrated struct {
 	blocks       []float64
 	absoluteGate float64
 	relativeGate float64
+	power        []float64 // per channel, of the 100ms block being filled
+	frames       int       // frames in that block
 }
 
 // BiquadFilter for K-weighting
@@ -296,6 +298,7 @@ func NewLUFSMeter(sampleRate float64, channels int) *LUFSMeter {
 		blocks:       make([]float64, 0, 1000), // Pre-allocate for efficiency
 		absoluteGate: -70.0,                    // LUFS
 		relativeGate: -10.0,                    // dB below ungated loudness
+		power:        make([]float64, channels),
 	}
 	
 	return lm
@@ -376,28 +379,47 @@ func (lm *LUFSMeter) Process(samples []float64) {
 	lm.updateBlock(lm.momentary, filtered)
 	lm.updateBlock(lm.shortTerm, filtered)
 	
-	// Update integrated measurement (every 100ms of new data)
-	samplesFor100ms := int(0.1 * lm.sampleRate * float64(lm.channels))
-	if len(filtered) >= samplesFor100ms {
-		// Calculate mean square for this block
-		meanSquare := 0.0
-		for ch := 0; ch < lm.channels; ch++ {
-			chPower := 0.0
-			count := 0
-			for i := ch; i < len(filtered); i += lm.channels {
-				chPower += filtered[i] * filtered[i]
-				count++
+	// Update integrated measurement (every 100ms of new data, however the
+	// stream is divided into calls)
+	framesFor100ms := int(0.1 * lm.sampleRate)
+	for i := 0; i < len(filtered); i += lm.channels {
+		for ch := 0; ch < lm.channels && i+ch < len(filtered); ch++ {
+			lm.integrated.power[ch] += filtered[i+ch] * filtered[i+ch]
+		}
+		lm.integrated.frames++
+
+		if lm.integrated.frames >= framesFor100ms {
+			// Calculate mean square for this block
+			meanSquare := 0.0
+			for ch, power := range lm.integrated.power {
+				meanSquare += lm.channelWeight(ch) * power / float64(lm.integrated.frames)
+				lm.integrated.power[ch] = 0
 			}
-			if count > 0 {
-				meanSquare += chPower / float64(count)
+			lm.integrated.frames = 0
+
+			if meanSquare > 0 {
+				loudness := -0.691 + 10.0*math.Log10(meanSquare)
+				lm.integrated.blocks = append(lm.integrated.blocks, loudness)
 			}
 		}
-		
-		if meanSquare > 0 {
-			loudness := -0.691 + 10.0*math.Log10(meanSquare)
-			lm.integrated.blocks = append(lm.integrated.blocks, loudness)
+	}
+}
+
+// channelWeight returns the channel weighting of ITU-R BS.1770-4: 1.0 for
+// front channels, 1.41 for surround channels, 0 for LFE. Five channels are
+// L, R, C, Ls, Rs; six and more start with L, R, C, LFE, Ls, Rs.
+func (lm *LUFSMeter) channelWeight(ch int) float64 {
+	firstSurround := 3
+	if lm.channels > 5 {
+		if ch == 3 {
+			return 0.0
 		}
+		firstSurround = 4
+	}
+	if lm.channels > 2 && ch >= firstSurround && ch <= firstSurround+1 {
+		return 1.41
 	}
+	return 1.0
 }
 
 // updateBlock updates a loudness measurement block
@@ -507,17 +529,7 @@ func (lm *LUFSMeter) calculateBlockLoudness(block *LUFSBlock) float64 {
 	for _, powers := range block.blocks {
 		blockPower := 0.0
 		for ch, power := range powers {
-			// Apply channel weighting (ITU-R BS.1770-4)
-			// For stereo: both channels have weight 1.0
-			// For 5.1: L/R = 1.0, C = 1.0, Ls/Rs = 1.41, LFE = 0
-			weight := 1.0
-			if lm.channels > 2 && ch >= 3 && ch <= 4 {
-				weight = 1.41 // Surround channels
-			} else if lm.channels > 5 && ch == 3 {
-				weight = 0.0 // LFE
-			}
-			
-			blockPower += weight * power
+			blockPower += lm.channelWeight(ch) * power
 		}
 		
 		if blockPower > 0 {
@@ -608,6 +620,10 @@ func (lm *LUFSMeter) Reset() {
 	
 	// Clear integrated
 	lm.integrated.blocks = lm.integrated.blocks[:0]
+	for ch := range lm.integrated.power {
+		lm.integrated.power[ch] = 0
+	}
+	lm.integrated.frames = 0
 	
 	// Reset filters
 	for ch := range lm.preFilter {
-- 
2.43.0


From c3fd6d2deb0a389fe567a130641a35ab179c2958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:19 +0000
Subject: [PATCH 21/90] fix: a non-finite sample does not leave the stereo
 meters at NaN for ever

---
 pkg/dsp/analysis/correlation.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index ed710b0..bdc5531 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -77,7 +77,10 @@ func (cm *CorrelationMeter) Process(samplesL, samplesR []float64) {
 	// Calculate correlation after processing all samples if buffer is full
 	if cm.count == cm.windowSize {
 		corr := cm.calculateCorrelation()
-		
+		if math.IsNaN(corr) {
+			return // non-finite samples in the window; do not average them in
+		}
+
 		// Apply exponential averaging
 		cm.correlation = cm.correlation*cm.averaging + corr*(1-cm.averaging)
 		
@@ -229,6 +232,11 @@ func (cm *CorrelationMeter) Reset() {
 	cm.peakHoldCount = 0
 }
 
+// isFinite returns whether x is neither NaN nor infinite.
+func isFinite(x float64) bool {
+	return !math.IsNaN(x) && !math.IsInf(x, 0)
+}
+
 // StereoFieldAnalyzer provides detailed stereo field analysis
 type StereoFieldAnalyzer struct {
 	correlation    *CorrelationMeter
@@ -315,6 +323,10 @@ func (bm *BalanceMeter) Process(samplesL, samplesR []float64) {
 		sumR += samplesR[i] * samplesR[i]
 	}
 	
+	if !isFinite(sumL) || !isFinite(sumR) {
+		return // do not average non-finite samples in
+	}
+
 	count := float64(len(samplesL))
 	if count > 0 {
 		powerL := sumL / count
@@ -387,6 +399,10 @@ func (swm *StereoWidthMeter) Process(samplesL, samplesR []float64) {
 		sumSide += side * side
 	}
 	
+	if !isFinite(sumMid) || !isFinite(sumSide) {
+		return // do not average non-finite samples in
+	}
+
 	count := float64(len(samplesL))
 	if count > 0 {
 		midPower := sumMid / count
-- 
2.43.0


From dc75d429c8e13413ff1f171f6c331d084433d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:50 +0000
Subject: [PATCH 22/90] fix: short-term loudness covers the last 3 seconds, not
 the last 6

---
 pkg/dsp/analysis/meters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index 0784bab..7b09447 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -285,7 +285,7 @@ func NewLUFSMeter(sampleRate float64, channels int) *LUFSMeter {
 	lm.shortTerm = &LUFSBlock{
 		blockSize:    shortTermSize,
 		overlap:      shortTermOverlap,
-		blocks:       make([][]float64, 30), // Store 30 blocks for 3s
+		blocks:       make([][]float64, 1),
 		buffer:       make([]float64, shortTermSize*channels),
 		gatingThresh: -math.Inf(1), // No gating for short-term
 	}
-- 
2.43.0


From 32cc826e5c607999efeb2acad701c8a07272c959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:33 +0000
Subject: [PATCH 23/90] fix: resetting the correlation meter restores its
 initial peak hold

---
 pkg/dsp/analysis/correlation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index bdc5531..71e1b6f 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -228,7 +228,7 @@ func (cm *CorrelationMeter) Reset() {
 	cm.writePos = 0
 	cm.count = 0
 	cm.correlation = 0
-	cm.peakHold = 0
+	cm.peakHold = 1.0
 	cm.peakHoldCount = 0
 }
 
-- 
2.43.0


From 662b9f85c81e6a75a25ea0b6d4434381a4e5f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:49 +0000
Subject: [PATCH 24/90] fix: each LFO has its own random state; instances on
 different threads raced on and coupled through a shared one

---
 pkg/dsp/modulation/lfo.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/dsp/modulation/lfo.go b/pkg/dsp/modulation/lfo.go
index c1845a1..6d78253 100644
--- a/pkg/dsp/modulation/lfo.go
+++ b/pkg/dsp/modulation/lfo.go
@@ -3,6 +3,7 @@ package modulation
 
 import (
 	"math"
+	"math/rand"
 )
 
 // Waveform represents the LFO waveform shape
@@ -43,6 +44,7 @@ type LFO struct {
 	currentRandom float64
 	randomCounter int
 	randomPeriod  int
+	randState     uint32 // State of this LFO's random number generator
 }
 
 // NewLFO creates a new LFO
@@ -54,6 +56,7 @@ func NewLFO(sampleRate float64) *LFO {
 		depth:      1.0,
 		offset:     0.0,
 		phase:      0.0,
+		randState:  rand.Uint32(),
 	}
 
 	lfo.updatePhaseIncrement()
@@ -72,7 +75,7 @@ func (l *LFO) SetWaveform(waveform Waveform) {
 	if waveform == WaveformRandom {
 		l.updateRandomPeriod()
 		// Generate initial random value
-		l.currentRandom = 2.0*randFloat() - 1.0
+		l.currentRandom = 2.0*l.randFloat() - 1.0
 		l.randomCounter = 0
 	}
 }
@@ -148,7 +151,7 @@ func (l *LFO) generateWaveform() float64 {
 		if l.randomCounter >= l.randomPeriod {
 			l.randomCounter = 0
 			// Generate new random value between -1 and 1
-			l.currentRandom = 2.0*randFloat() - 1.0
+			l.currentRandom = 2.0*l.randFloat() - 1.0
 		}
 		l.randomCounter++
 		return l.currentRandom
@@ -195,11 +198,10 @@ func (l *LFO) Reset() {
 	l.currentRandom = 0.0
 }
 
-// Simple random number generator (can be replaced with better RNG)
-var randState uint32 = 1
-
-func randFloat() float64 {
+// randFloat is a simple random number generator (can be replaced with better
+// RNG). Its state belongs to the LFO: instances run on different threads.
+func (l *LFO) randFloat() float64 {
 	// Simple linear congruential generator
-	randState = randState*1664525 + 1013904223
-	return float64(randState) / float64(1<<32)
+	l.randState = l.randState*1664525 + 1013904223
+	return float64(l.randState) / float64(1<<32)
 }
-- 
2.43.0


From a53866ea2050b28680aeb432a0e472e133c79e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:38 +0000
Subject: [PATCH 25/90] fix: bitcrusher dither is a uniform noise of one step
 of its own, not arbitrary bit patterns (NaN, infinity) from a shared
 generator

---
 pkg/dsp/distortion/bitcrusher.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 140f56c..a8a4bf3 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -33,8 +33,12 @@ type Bitcrusher struct {
 
 	// Dithering state
 	ditherState float64
+	randomState uint64
 }
 
+// ditherSeed is the initial state of the dither noise generator
+const ditherSeed = 7
+
 func NewBitcrusher(sampleRate float64) *Bitcrusher {
 	return &Bitcrusher{
 		bitDepth:           16.0,
@@ -44,6 +48,7 @@ func NewBitcrusher(sampleRate float64) *Bitcrusher {
 		mix:                1.0,
 		output:             1.0,
 		originalSampleRate: sampleRate,
+		randomState:        ditherSeed,
 	}
 }
 
@@ -166,16 +171,18 @@ func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
 }
 
 func (b *Bitcrusher) generateDither() float64 {
+	lsb := 2.0 / math.Pow(2.0, b.bitDepth) // One quantization step of [-1, 1]
+
 	switch b.dither {
 	case DitherWhite:
 		// White noise dither
-		return (math.Float64frombits(randomBits()) - 0.5) * 2.0 / math.Pow(2.0, b.bitDepth)
+		return (b.random() - 0.5) * 2.0 * lsb
 
 	case DitherTriangular:
 		// Triangular dither (sum of two uniform random values)
-		r1 := math.Float64frombits(randomBits()) - 0.5
-		r2 := math.Float64frombits(randomBits()) - 0.5
-		return (r1 + r2) / math.Pow(2.0, b.bitDepth)
+		r1 := b.random() - 0.5
+		r2 := b.random() - 0.5
+		return (r1 + r2) * lsb
 
 	default:
 		return 0.0
@@ -188,15 +195,15 @@ func (b *Bitcrusher) Reset() {
 	b.filterState[0] = 0.0
 	b.filterState[1] = 0.0
 	b.ditherState = 0.0
+	b.randomState = ditherSeed
 }
 
-// Simple random number generator for dithering
-var randomState uint64 = 1
-
-func randomBits() uint64 {
+// random is a simple random number generator for dithering; it returns values
+// in [0, 1).
+func (b *Bitcrusher) random() float64 {
 	// Simple linear congruential generator
-	randomState = randomState*6364136223846793005 + 1442695040888963407
-	return randomState
+	b.randomState = b.randomState*6364136223846793005 + 1442695040888963407
+	return float64(b.randomState>>11) / (1 << 53)
 }
 
 // Utility functions for specific bit-crushing effects
-- 
2.43.0


From d81dad52f3340d2255a2156f86b628d95fd760c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:38 +0000
Subject: [PATCH 26/90] fix: the bitcrusher's anti-aliasing filter stays stable
 for sample rate reductions below 1.8

---
 pkg/dsp/distortion/bitcrusher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index a8a4bf3..d9b73f2 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -165,6 +165,11 @@ func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
 	omega := 2.0 * math.Pi * cutoffFreq / b.originalSampleRate
 	alpha := math.Sin(omega) / (math.Sin(omega) + math.Cos(omega))
 
+	// Near Nyquist the coefficient leaves the stable range: pass the signal through
+	if alpha < 0.0 || alpha > 1.0 {
+		alpha = 1.0
+	}
+
 	// Apply filter
 	b.filterState[channel] = b.filterState[channel] + alpha*(x-b.filterState[channel])
 	return b.filterState[channel]
-- 
2.43.0


From 190f3015ae93fcf002a4d0cbade0a303cda18935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:38 +0000
Subject: [PATCH 27/90] fix: the bitcrusher holds a sample per channel; in
 stereo the right channel repeated the left's

---
 pkg/dsp/distortion/bitcrusher.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index d9b73f2..59bd1ec 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -25,8 +25,8 @@ type Bitcrusher struct {
 	originalSampleRate float64
 
 	// Sample rate reduction state
-	sampleHoldCounter float64
-	lastSample        float64
+	sampleHoldCounter [2]float64 // Stereo
+	lastSample        [2]float64
 
 	// Anti-aliasing filter state (simple one-pole)
 	filterState [2]float64 // Stereo
@@ -89,7 +89,7 @@ func (b *Bitcrusher) processChannel(input float64, channel int) float64 {
 	}
 
 	// Sample rate reduction
-	processed = b.applySampleRateReduction(processed)
+	processed = b.applySampleRateReduction(processed, channel)
 
 	// Bit depth reduction
 	processed = b.applyBitReduction(processed)
@@ -134,25 +134,25 @@ func (b *Bitcrusher) applyBitReduction(x float64) float64 {
 	return math.Max(-1.0, math.Min(1.0, quantized))
 }
 
-func (b *Bitcrusher) applySampleRateReduction(x float64) float64 {
+func (b *Bitcrusher) applySampleRateReduction(x float64, channel int) float64 {
 	if b.sampleRateReduce <= 1.0 {
 		return x
 	}
 
 	// Check if we should update the held sample
-	if b.sampleHoldCounter == 0.0 {
-		b.lastSample = x
+	if b.sampleHoldCounter[channel] == 0.0 {
+		b.lastSample[channel] = x
 	}
 
 	// Increment counter
-	b.sampleHoldCounter += 1.0
+	b.sampleHoldCounter[channel] += 1.0
 
 	// Reset counter when we reach the reduction factor
-	if b.sampleHoldCounter >= b.sampleRateReduce {
-		b.sampleHoldCounter = 0.0
+	if b.sampleHoldCounter[channel] >= b.sampleRateReduce {
+		b.sampleHoldCounter[channel] = 0.0
 	}
 
-	return b.lastSample
+	return b.lastSample[channel]
 }
 
 func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
@@ -195,8 +195,8 @@ func (b *Bitcrusher) generateDither() float64 {
 }
 
 func (b *Bitcrusher) Reset() {
-	b.sampleHoldCounter = 0.0
-	b.lastSample = 0.0
+	b.sampleHoldCounter = [2]float64{}
+	b.lastSample = [2]float64{}
 	b.filterState[0] = 0.0
 	b.filterState[1] = 0.0
 	b.ditherState = 0.0
-- 
2.43.0


From 49ba0245af1206bd7b5e8cb68b6e5614d5154d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 28/90] fix: tube saturation keeps its state per channel; in
 stereo the channels ran through one filter

---
 pkg/dsp/distortion/tube.go | 54 ++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/pkg/dsp/distortion/tube.go b/pkg/dsp/distortion/tube.go
index 192fd7a..c1135f1 100644
--- a/pkg/dsp/distortion/tube.go
+++ b/pkg/dsp/distortion/tube.go
@@ -13,12 +13,12 @@ type TubeSaturation struct {
 	output     float64
 
 	// Internal state for hysteresis
-	prevInput  float64
-	prevOutput float64
+	prevInput  [2]float64 // Stereo
+	prevOutput [2]float64
 
 	// Pre-emphasis/de-emphasis filters for warmth
-	preEmphasisState float64
-	deEmphasisState  float64
+	preEmphasisState [2]float64
+	deEmphasisState  [2]float64
 }
 
 func NewTubeSaturation() *TubeSaturation {
@@ -57,20 +57,24 @@ func (t *TubeSaturation) SetOutput(output float64) {
 }
 
 func (t *TubeSaturation) Process(input float64) float64 {
+	return t.processChannel(input, 0)
+}
+
+func (t *TubeSaturation) processChannel(input float64, channel int) float64 {
 	// Pre-emphasis for warmth (boost highs before saturation)
-	emphasized := t.preEmphasis(input)
+	emphasized := t.preEmphasis(input, channel)
 
 	// Apply tube bias
 	biased := emphasized + t.bias*0.1
 
 	// Apply hysteresis (magnetic-like behavior)
-	withHysteresis := t.applyHysteresis(biased)
+	withHysteresis := t.applyHysteresis(biased, channel)
 
 	// Tube saturation with harmonic generation
 	saturated := t.tubeSaturate(withHysteresis)
 
 	// De-emphasis (reduce highs after saturation for warmth)
-	deEmphasized := t.deEmphasis(saturated)
+	deEmphasized := t.deEmphasis(saturated, channel)
 
 	// Mix with dry signal
 	mixed := deEmphasized*t.mix + input*(1.0-t.mix)
@@ -86,8 +90,8 @@ func (t *TubeSaturation) ProcessBlock(input, output []float64) {
 
 func (t *TubeSaturation) ProcessStereo(inputL, inputR, outputL, outputR []float64) {
 	for i := range inputL {
-		outputL[i] = t.Process(inputL[i])
-		outputR[i] = t.Process(inputR[i])
+		outputL[i] = t.processChannel(inputL[i], 0)
+		outputR[i] = t.processChannel(inputR[i], 1)
 	}
 }
 
@@ -148,47 +152,47 @@ func (t *TubeSaturation) tubeCompressionCurve(x float64) float64 {
 	return math.Copysign(compressed, x)
 }
 
-func (t *TubeSaturation) applyHysteresis(x float64) float64 {
+func (t *TubeSaturation) applyHysteresis(x float64, channel int) float64 {
 	// Simple hysteresis model
-	diff := x - t.prevInput
+	diff := x - t.prevInput[channel]
 
 	// Hysteresis effect based on input change direction
 	if diff > 0 {
 		// Rising input
-		t.prevOutput = t.prevOutput + (x-t.prevOutput)*(1.0-t.hysteresis*0.3)
+		t.prevOutput[channel] = t.prevOutput[channel] + (x-t.prevOutput[channel])*(1.0-t.hysteresis*0.3)
 	} else {
 		// Falling input
-		t.prevOutput = t.prevOutput + (x-t.prevOutput)*(1.0-t.hysteresis*0.5)
+		t.prevOutput[channel] = t.prevOutput[channel] + (x-t.prevOutput[channel])*(1.0-t.hysteresis*0.5)
 	}
 
-	t.prevInput = x
-	return t.prevOutput
+	t.prevInput[channel] = x
+	return t.prevOutput[channel]
 }
 
-func (t *TubeSaturation) preEmphasis(x float64) float64 {
+func (t *TubeSaturation) preEmphasis(x float64, channel int) float64 {
 	// Simple high-frequency boost before saturation
 	// First-order high-pass filter
 	cutoff := 0.1 + t.warmth*0.4 // Higher warmth = higher cutoff = more pre-emphasis
 
-	output := x - t.preEmphasisState
-	t.preEmphasisState += output * cutoff
+	output := x - t.preEmphasisState[channel]
+	t.preEmphasisState[channel] += output * cutoff
 
 	// Mix between filtered and original based on warmth
 	return x + output*t.warmth*0.5
 }
 
-func (t *TubeSaturation) deEmphasis(x float64) float64 {
+func (t *TubeSaturation) deEmphasis(x float64, channel int) float64 {
 	// Simple high-frequency cut after saturation
 	// First-order low-pass filter
 	cutoff := 0.9 - t.warmth*0.6 // Higher warmth = lower cutoff = more de-emphasis
 
-	t.deEmphasisState += (x - t.deEmphasisState) * cutoff
-	return t.deEmphasisState
+	t.deEmphasisState[channel] += (x - t.deEmphasisState[channel]) * cutoff
+	return t.deEmphasisState[channel]
 }
 
 func (t *TubeSaturation) Reset() {
-	t.prevInput = 0.0
-	t.prevOutput = 0.0
-	t.preEmphasisState = 0.0
-	t.deEmphasisState = 0.0
+	t.prevInput = [2]float64{}
+	t.prevOutput = [2]float64{}
+	t.preEmphasisState = [2]float64{}
+	t.deEmphasisState = [2]float64{}
 }
-- 
2.43.0


From 5f02d09262243771fc0bbcc8baf68ae60bb564dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 29/90] fix: tape saturation keeps its compressor and flutter
 delay per channel; in stereo the channels were mixed

---
 pkg/dsp/distortion/tape.go | 60 ++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/pkg/dsp/distortion/tape.go b/pkg/dsp/distortion/tape.go
index 53056fb..55ac9fd 100644
--- a/pkg/dsp/distortion/tape.go
+++ b/pkg/dsp/distortion/tape.go
@@ -22,16 +22,16 @@ type TapeSaturation struct {
 	deEmphasisState  [2]float64
 
 	// Flutter LFO
-	flutterPhase float64
+	flutterPhase [2]float64
 	flutterRate  float64
 
 	// Delay buffer for flutter effect
-	delayBuffer     []float64
+	delayBuffer     [2][]float64
 	delayBufferSize int
-	delayWritePos   int
+	delayWritePos   [2]int
 
 	// Compression state
-	envelope float64
+	envelope [2]float64
 
 	// Noise generator for tape hiss
 	noiseLevel float64
@@ -48,7 +48,7 @@ func NewTapeSaturation(sampleRate float64) *TapeSaturation {
 		mix:             1.0,
 		output:          1.0,
 		sampleRate:      sampleRate,
-		delayBuffer:     make([]float64, bufferSize),
+		delayBuffer:     [2][]float64{make([]float64, bufferSize), make([]float64, bufferSize)},
 		delayBufferSize: bufferSize,
 		flutterRate:     0.3 + rand.Float64()*0.2, // 0.3-0.5 Hz
 		noiseLevel:      0.0001,
@@ -88,13 +88,13 @@ func (t *TapeSaturation) processChannel(input float64, channel int) float64 {
 	emphasized := t.preEmphasis(input, channel)
 
 	// Apply tape compression
-	compressed := t.tapeCompress(emphasized)
+	compressed := t.tapeCompress(emphasized, channel)
 
 	// Apply tape saturation
 	saturated := t.tapeSaturate(compressed)
 
 	// Apply flutter (pitch modulation)
-	fluttered := t.applyFlutter(saturated)
+	fluttered := t.applyFlutter(saturated, channel)
 
 	// Add subtle tape noise
 	withNoise := fluttered + (rand.Float64()*2.0-1.0)*t.noiseLevel*t.saturation
@@ -138,7 +138,7 @@ func (t *TapeSaturation) tapeSaturate(x float64) float64 {
 	return saturated*0.8 + third*0.2*t.saturation
 }
 
-func (t *TapeSaturation) tapeCompress(x float64) float64 {
+func (t *TapeSaturation) tapeCompress(x float64, channel int) float64 {
 	// Tape-style compression (program-dependent)
 
 	// Update envelope follower
@@ -146,21 +146,21 @@ func (t *TapeSaturation) tapeCompress(x float64) float64 {
 	attack := 0.01
 	release := 0.1
 
-	if absX > t.envelope {
-		t.envelope += (absX - t.envelope) * attack
+	if absX > t.envelope[channel] {
+		t.envelope[channel] += (absX - t.envelope[channel]) * attack
 	} else {
-		t.envelope += (absX - t.envelope) * release
+		t.envelope[channel] += (absX - t.envelope[channel]) * release
 	}
 
 	// Calculate compression
 	threshold := 0.5
 	ratio := 2.0 + t.compression*3.0 // 2:1 to 5:1
 
-	if t.envelope > threshold {
+	if t.envelope[channel] > threshold {
 		// Calculate gain reduction
-		excess := t.envelope - threshold
+		excess := t.envelope[channel] - threshold
 		compressedExcess := excess / ratio
-		gainReduction := (threshold + compressedExcess) / t.envelope
+		gainReduction := (threshold + compressedExcess) / t.envelope[channel]
 
 		// Apply compression
 		return x * gainReduction
@@ -169,19 +169,19 @@ func (t *TapeSaturation) tapeCompress(x float64) float64 {
 	return x
 }
 
-func (t *TapeSaturation) applyFlutter(x float64) float64 {
+func (t *TapeSaturation) applyFlutter(x float64, channel int) float64 {
 	if t.flutter < 0.01 {
 		return x
 	}
 
 	// Write to delay buffer
-	t.delayBuffer[t.delayWritePos] = x
-	t.delayWritePos = (t.delayWritePos + 1) % t.delayBufferSize
+	t.delayBuffer[channel][t.delayWritePos[channel]] = x
+	t.delayWritePos[channel] = (t.delayWritePos[channel] + 1) % t.delayBufferSize
 
 	// Calculate flutter modulation
-	t.flutterPhase += 2.0 * math.Pi * t.flutterRate / t.sampleRate
-	if t.flutterPhase > 2.0*math.Pi {
-		t.flutterPhase -= 2.0 * math.Pi
+	t.flutterPhase[channel] += 2.0 * math.Pi * t.flutterRate / t.sampleRate
+	if t.flutterPhase[channel] > 2.0*math.Pi {
+		t.flutterPhase[channel] -= 2.0 * math.Pi
 		// Occasionally change flutter rate slightly
 		if rand.Float64() < 0.1 {
 			t.flutterRate = 0.3 + rand.Float64()*0.2
@@ -190,7 +190,7 @@ func (t *TapeSaturation) applyFlutter(x float64) float64 {
 
 	// Flutter modulation depth in samples
 	modDepth := t.flutter * 3.0 // Max 3 samples
-	modulation := math.Sin(t.flutterPhase) * modDepth
+	modulation := math.Sin(t.flutterPhase[channel]) * modDepth
 
 	// Add some randomness for more realistic flutter
 	modulation += (rand.Float64()*2.0 - 1.0) * modDepth * 0.3
@@ -203,11 +203,11 @@ func (t *TapeSaturation) applyFlutter(x float64) float64 {
 	delayFrac := delaySamples - float64(delayInt)
 
 	// Read from delay buffer with interpolation
-	readPos1 := (t.delayWritePos - delayInt + t.delayBufferSize) % t.delayBufferSize
+	readPos1 := (t.delayWritePos[channel] - delayInt + t.delayBufferSize) % t.delayBufferSize
 	readPos2 := (readPos1 - 1 + t.delayBufferSize) % t.delayBufferSize
 
-	sample1 := t.delayBuffer[readPos1]
-	sample2 := t.delayBuffer[readPos2]
+	sample1 := t.delayBuffer[channel][readPos1]
+	sample2 := t.delayBuffer[channel][readPos2]
 
 	return sample1*(1.0-delayFrac) + sample2*delayFrac
 }
@@ -241,12 +241,14 @@ func (t *TapeSaturation) Reset() {
 	t.preEmphasisState[1] = 0.0
 	t.deEmphasisState[0] = 0.0
 	t.deEmphasisState[1] = 0.0
-	t.envelope = 0.0
-	t.flutterPhase = 0.0
-	t.delayWritePos = 0
+	t.envelope = [2]float64{}
+	t.flutterPhase = [2]float64{}
+	t.delayWritePos = [2]int{}
 
 	// Clear delay buffer
-	for i := range t.delayBuffer {
-		t.delayBuffer[i] = 0.0
+	for channel := range t.delayBuffer {
+		for i := range t.delayBuffer[channel] {
+			t.delayBuffer[channel][i] = 0.0
+		}
 	}
 }
-- 
2.43.0


From e4fe5b9355c2e23dc2bc5d22d9b697e530d64762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 30/90] fix: foldback ends for infinite and very large samples
 and for a zero threshold; it looped for ever on the audio thread

---
 pkg/dsp/distortion/bitcrusher.go | 25 ++++++++++++++++++-------
 pkg/dsp/distortion/waveshaper.go | 10 +---------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 59bd1ec..b7fb75d 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -228,14 +228,25 @@ func QuantizeToSteps(x float64, steps int) float64 {
 
 func FoldbackDistortion(x float64, threshold float64) float64 {
 	// Similar to waveshaper foldback but specific to bit-crushing context
-	for x > threshold || x < -threshold {
-		if x > threshold {
-			x = 2*threshold - x
-		} else if x < -threshold {
-			x = -2*threshold - x
-		}
+	if threshold <= 0 {
+		return 0.0
 	}
-	return x
+	if !(x > threshold || x < -threshold) {
+		return x
+	}
+	if math.IsInf(x, 0) {
+		return math.Copysign(threshold, x)
+	}
+	// Reflecting at both thresholds repeats every four thresholds. Reflecting
+	// step by step would not end for very large samples.
+	folded := math.Mod(x+threshold, 4*threshold)
+	if folded < 0 {
+		folded += 4 * threshold
+	}
+	if folded > 2*threshold {
+		folded = 4*threshold - folded
+	}
+	return math.Max(-threshold, math.Min(threshold, folded-threshold))
 }
 
 func GateEffect(x, threshold float64) float64 {
diff --git a/pkg/dsp/distortion/waveshaper.go b/pkg/dsp/distortion/waveshaper.go
index 836515b..c9cfe38 100644
--- a/pkg/dsp/distortion/waveshaper.go
+++ b/pkg/dsp/distortion/waveshaper.go
@@ -114,15 +114,7 @@ func (w *Waveshaper) saturate(x float64) float64 {
 
 func (w *Waveshaper) foldback(x float64) float64 {
 	// Foldback distortion - wraps signal back when it exceeds threshold
-	threshold := 1.0
-	for x > threshold || x < -threshold {
-		if x > threshold {
-			x = 2*threshold - x
-		} else if x < -threshold {
-			x = -2*threshold - x
-		}
-	}
-	return x
+	return FoldbackDistortion(x, 1.0)
 }
 
 func (w *Waveshaper) asymmetric(x float64) float64 {
-- 
2.43.0


From 3b5dd7c38bbc773d81f5440c8a8f33b61885d0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 31/90] fix: no sample leaves the brick-wall limiter above its
 ceiling

---
 pkg/dsp/dynamics/limiter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/dsp/dynamics/limiter.go b/pkg/dsp/dynamics/limiter.go
index e93ed4a..f72af28 100644
--- a/pkg/dsp/dynamics/limiter.go
+++ b/pkg/dsp/dynamics/limiter.go
@@ -146,6 +146,9 @@ func (l *Limiter) Process(input float32) float32 {
 	// Get envelope
 	envelope := l.detector.Detect(detectionSignal)
 
+	// The envelope lags behind fast peaks, which must not pass the ceiling
+	envelope = float32(math.Max(float64(envelope), math.Abs(float64(processSignal))))
+
 	// Convert to dB
 	inputDB := float64(-96.0)
 	if envelope > 0 {
@@ -201,6 +204,10 @@ func (l *Limiter) ProcessStereo(inputL, inputR, outputL, outputR []float32) {
 		// Detect from combined peak
 		envelope := l.detector.Detect(maxPeak)
 
+		// The envelope lags behind fast peaks, which must not pass the ceiling
+		envelope = float32(math.Max(float64(envelope),
+			math.Max(math.Abs(float64(processL)), math.Abs(float64(processR)))))
+
 		// Calculate limiting
 		inputDB := float64(-96.0)
 		if envelope > 0 {
-- 
2.43.0


From 23e4bf0afe2be60376f3f6d12e67d0877b41d254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 32/90] fix: the soft knees of compressor and expander never
 boost, and the expander's respects its range

---
 pkg/dsp/dynamics/compressor.go | 2 +-
 pkg/dsp/dynamics/expander.go   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/dynamics/compressor.go b/pkg/dsp/dynamics/compressor.go
index 8597208..09e5faa 100644
--- a/pkg/dsp/dynamics/compressor.go
+++ b/pkg/dsp/dynamics/compressor.go
@@ -141,7 +141,7 @@ func (c *Compressor) computeGain(inputDB float64) float64 {
 		// At kneePos=0: no compression
 		// At kneePos=1: full compression at this level
 		compressionRatio := 1.0 - 1.0/c.ratio
-		overshoot := inputDB - c.threshold
+		overshoot := math.Max(0.0, inputDB-c.threshold) // Below the threshold: no boost
 
 		// Smooth transition using squared interpolation
 		kneeGain := kneePos * kneePos * overshoot * compressionRatio
diff --git a/pkg/dsp/dynamics/expander.go b/pkg/dsp/dynamics/expander.go
index 119d0f6..7fd4c64 100644
--- a/pkg/dsp/dynamics/expander.go
+++ b/pkg/dsp/dynamics/expander.go
@@ -137,8 +137,9 @@ func (e *Expander) computeGain(inputDB float64) float64 {
 		// Calculate full expansion at this level
 		fullGain := (inputDB - e.threshold) * (e.ratio - 1.0)
 
-		// Quadratic interpolation
-		return kneePos * kneePos * fullGain
+		// Quadratic interpolation: no boost above the threshold, limited to range
+		gain := math.Min(0.0, kneePos*kneePos*fullGain)
+		return math.Max(e.range_, gain)
 	}
 
 	return 0.0
-- 
2.43.0


From 7b01c0f0ce5e7d275da333e1fdadf5e1722299ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:47 +0000
Subject: [PATCH 33/90] fix: resetting the chorus keeps its voices apart; all
 LFOs fell into the same phase

---
 pkg/dsp/modulation/chorus.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/modulation/chorus.go b/pkg/dsp/modulation/chorus.go
index f6d7b64..4e3a5e4 100644
--- a/pkg/dsp/modulation/chorus.go
+++ b/pkg/dsp/modulation/chorus.go
@@ -236,8 +236,9 @@ func (c *Chorus) Reset() {
 	}
 
 	// Reset LFOs
-	for _, lfo := range c.lfos {
+	for i, lfo := range c.lfos {
 		lfo.Reset()
+		lfo.SetPhase(float64(i) / float64(c.voices))
 	}
 
 	c.delayIndex = 0
-- 
2.43.0


From 5e16918eb5822ea6a363131198f1b8181cbc8740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:48 +0000
Subject: [PATCH 34/90] fix: a delay line reads within its buffer for
 fractional delays at a wrap and for delays beyond its length; it panicked

---
 pkg/dsp/delay/delay.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/dsp/delay/delay.go b/pkg/dsp/delay/delay.go
index 5824f83..e90d795 100644
--- a/pkg/dsp/delay/delay.go
+++ b/pkg/dsp/delay/delay.go
@@ -42,6 +42,9 @@ func (d *Line) Write(sample float32) {
 // Read gets a delayed sample (delay in samples)
 func (d *Line) Read(delaySamples float64) float32 {
 	// Calculate read position
+	if delaySamples > float64(d.bufferSize) {
+		delaySamples = float64(d.bufferSize) // Longest delay the buffer holds
+	}
 	readPos := float64(d.writePos) - delaySamples
 	if readPos < 0 {
 		readPos += float64(d.bufferSize)
@@ -49,6 +52,11 @@ func (d *Line) Read(delaySamples float64) float32 {
 
 	// Linear interpolation
 	readPosInt := int(readPos)
+	if readPosInt >= d.bufferSize {
+		// Adding the buffer size can round up to the end of the buffer
+		readPosInt = 0
+		readPos = 0
+	}
 	frac := float32(readPos - float64(readPosInt))
 
 	// Get two samples for interpolation
-- 
2.43.0


From 21a5d1a5e4d87691b4495123bfeee752faf313ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:48 +0000
Subject: [PATCH 35/90] fix: resetting a comb or modulated delay clears its
 damping filter and LFO phase too

---
 pkg/dsp/delay/delay.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/dsp/delay/delay.go b/pkg/dsp/delay/delay.go
index e90d795..aeaf163 100644
--- a/pkg/dsp/delay/delay.go
+++ b/pkg/dsp/delay/delay.go
@@ -162,6 +162,12 @@ func NewComb(maxDelaySeconds, sampleRate float64) *CombDelay {
 	}
 }
 
+// Reset clears the delay buffer and the damping filter
+func (c *CombDelay) Reset() {
+	c.Line.Reset()
+	c.dampVal = 0
+}
+
 // SetFeedback sets the comb feedback
 func (c *CombDelay) SetFeedback(feedback float32) {
 	c.feedback = feedback
@@ -261,6 +267,12 @@ func NewModulated(maxDelaySeconds, sampleRate float64) *ModulatedDelay {
 	}
 }
 
+// Reset clears the delay buffer and restarts the modulation
+func (m *ModulatedDelay) Reset() {
+	m.Line.Reset()
+	m.lfoPhase = 0
+}
+
 // SetLFO configures the modulation
 func (m *ModulatedDelay) SetLFO(rateHz, depthMs float64) {
 	m.lfoRate = rateHz
-- 
2.43.0


From 4e9b27289f3ea6fca58dfde49bdb4d50073cd6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:48 +0000
Subject: [PATCH 36/90] fix: the RMS detector does not turn into NaN when its
 running sum rounds below zero

---
 pkg/dsp/envelope/detector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/envelope/detector.go b/pkg/dsp/envelope/detector.go
index 3d62dcf..c67ace0 100644
--- a/pkg/dsp/envelope/detector.go
+++ b/pkg/dsp/envelope/detector.go
@@ -177,7 +177,7 @@ func (d *Detector) Detect(input float32) float32 {
 
 		// Calculate RMS
 		meanSquare := d.rmsSum / float64(d.rmsWindowLen)
-		inputLevel = math.Sqrt(meanSquare)
+		inputLevel = math.Sqrt(math.Max(0.0, meanSquare)) // The running sum can round below zero
 	}
 
 	// Apply envelope detection based on type
-- 
2.43.0


From a603daf71e8b1fa1b50569498928fac66770b62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:49 +0000
Subject: [PATCH 37/90] fix: an ADSR envelope whose sustain is lowered during
 the decay reaches it; it stayed in decay for ever

---
 pkg/dsp/envelope/envelope.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dsp/envelope/envelope.go b/pkg/dsp/envelope/envelope.go
index 1541dfd..5267dc7 100644
--- a/pkg/dsp/envelope/envelope.go
+++ b/pkg/dsp/envelope/envelope.go
@@ -148,6 +148,7 @@ func (e *ADSR) Next() float32 {
 		}
 
 	case StageDecay:
+		e.target = e.sustain // The sustain level may have been changed since
 		e.value = e.target + (e.value-e.target)*e.decayCoef
 		if e.value <= e.sustain+0.001 {
 			e.value = e.sustain
-- 
2.43.0


From 067004bc2620f803e0ff58fb7ae4ac5f7b5b6eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:49 +0000
Subject: [PATCH 38/90] fix: FDN damping is not inverted; without damping the
 reverb was silent

---
 pkg/dsp/reverb/fdn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 28950dc..680e02e 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -62,7 +62,7 @@ func NewDampingFilter() *DampingFilter {
 func (d *DampingFilter) SetDamping(damping float64) {
 	// Convert damping to lowpass coefficient
 	// Higher damping = lower cutoff frequency
-	d.coeff = 1.0 - math.Max(0.0, math.Min(1.0, damping))
+	d.coeff = math.Max(0.0, math.Min(1.0, damping))
 }
 
 // Process applies the damping filter
-- 
2.43.0


From c144294bd4426e93e568cee055d222bad0b681c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:59 +0000
Subject: [PATCH 39/90] fix: FDN stereo processing does not panic whenever a
 write index wraps

---
 pkg/dsp/reverb/fdn.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 680e02e..a63884e 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -375,15 +375,9 @@ func (f *FDN) ProcessStereo(inputL, inputR float32) (outputL, outputR float32) {
 	// Add some stereo width by phase inverting some of the signal
 	if f.numDelays >= 2 {
 		// Get two delay outputs for stereo decorrelation
-		delay1 := f.delayLines[0][f.writeIndices[0]-1]
-		if f.writeIndices[0]-1 < 0 {
-			delay1 = f.delayLines[0][len(f.delayLines[0])-1]
-		}
-
-		delay2 := f.delayLines[1][f.writeIndices[1]-1]
-		if f.writeIndices[1]-1 < 0 {
-			delay2 = f.delayLines[1][len(f.delayLines[1])-1]
-		}
+		n1, n2 := len(f.delayLines[0]), len(f.delayLines[1])
+		delay1 := f.delayLines[0][(f.writeIndices[0]-1+n1)%n1]
+		delay2 := f.delayLines[1][(f.writeIndices[1]-1+n2)%n2]
 
 		// Add decorrelated signals to create width
 		spread := float32(0.3)
-- 
2.43.0


From d132ca602aac30b1d621079386e830dfdb9e1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:13 +0000
Subject: [PATCH 40/90] fix: the 8-line FDN uses an orthogonal matrix; the one
 it had amplified and the reverb blew up

---
 pkg/dsp/reverb/fdn.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index a63884e..e9da7e0 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -2,6 +2,7 @@ package reverb
 
 import (
 	"math"
+	"math/bits"
 	"math/rand"
 )
 
@@ -156,12 +157,11 @@ func (f *FDN) createHadamardMatrix() {
 			}
 		}
 	} else if n == 8 {
-		// 8x8 Hadamard matrix (simplified)
+		// 8x8 Hadamard matrix
 		scale := 1.0 / math.Sqrt(8.0)
 		for i := 0; i < 8; i++ {
 			for j := 0; j < 8; j++ {
-				// Create a pattern that provides good diffusion
-				if (i+j)%2 == 0 {
+				if bits.OnesCount(uint(i&j))%2 == 0 {
 					f.feedbackMatrix[i][j] = scale
 				} else {
 					f.feedbackMatrix[i][j] = -scale
-- 
2.43.0


From 310365d7c1afbb124de6aaa19893190fe2d2386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 41/90] fix: pink noise starts with rows that agree with their
 running sum; it had a random DC offset and ignored SetSeed

---
 pkg/dsp/utility/noise.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index 677d9d2..2eaca99 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -50,11 +50,6 @@ func NewNoiseGenerator(noiseType NoiseType) *NoiseGenerator {
 		pinkScalar: 1.0 / 20.0, // Normalization for pink noise
 	}
 	
-	// Initialize pink noise rows
-	for i := range gen.pinkRows {
-		gen.pinkRows[i] = gen.randomFloat()
-	}
-	
 	return gen
 }
 
@@ -107,7 +102,7 @@ func (n *NoiseGenerator) Reset() {
 	n.pinkIndex = 0
 	n.pinkRunningSum = 0
 	for i := range n.pinkRows {
-		n.pinkRows[i] = n.randomFloat()
+		n.pinkRows[i] = 0 // The running sum is the sum of the rows
 	}
 }
 
-- 
2.43.0


From 1ae6acc2d25157e8460e461fc4c4c6abb644f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 42/90] fix: violet noise differentiates blue noise instead of
 overwriting its state

---
 pkg/dsp/utility/noise.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index 2eaca99..286ad19 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -36,7 +36,8 @@ type NoiseGenerator struct {
 	brownState float32
 	
 	// Blue/Violet noise state  
-	blueState float32
+	blueState   float32
+	violetState float32
 	
 	// Random source
 	rand *rand.Rand
@@ -99,6 +100,7 @@ func (n *NoiseGenerator) GenerateAdd(buffer []float32, gain float32) {
 func (n *NoiseGenerator) Reset() {
 	n.brownState = 0
 	n.blueState = 0
+	n.violetState = 0
 	n.pinkIndex = 0
 	n.pinkRunningSum = 0
 	for i := range n.pinkRows {
@@ -186,8 +188,8 @@ func (n *NoiseGenerator) generateBlue() float32 {
 func (n *NoiseGenerator) generateViolet() float32 {
 	// Violet noise has even more high frequency content
 	blue := n.generateBlue()
-	output := blue - n.blueState
-	n.blueState = blue
+	output := blue - n.violetState
+	n.violetState = blue
 	
 	// Scale to maintain amplitude
 	return output * 0.25
-- 
2.43.0


From 6338cdc2061cf9a1fc2f5ac3b3f6698a45b3e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 43/90] fix: Gaussian noise is finite when the random source
 returns 0

---
 pkg/dsp/utility/noise.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index 286ad19..f36c122 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -233,7 +233,7 @@ func (g *GaussianNoise) Next() float32 {
 	g.hasSpare = true
 	
 	// Box-Muller transform
-	u1 := g.rand.Float64()
+	u1 := 1.0 - g.rand.Float64() // In (0, 1]: the logarithm of 0 is infinite
 	u2 := g.rand.Float64()
 	
 	mag := float32(math.Sqrt(-2.0 * math.Log(u1)))
-- 
2.43.0


From 6a87954f9de8a0d74df9f6cbedf05ca38dabd939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:48 +0000
Subject: [PATCH 44/90] fix: the flanger does not panic with short delays at
 low sample rates

---
 pkg/dsp/modulation/flanger.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dsp/modulation/flanger.go b/pkg/dsp/modulation/flanger.go
index 94040ad..1534fea 100644
--- a/pkg/dsp/modulation/flanger.go
+++ b/pkg/dsp/modulation/flanger.go
@@ -102,6 +102,9 @@ func (f *Flanger) updateDelayLine() {
 	f.maxDelaySamples = int(float64(f.maxDelaySamples) * 1.2)
 
 	// Create new delay line
+	if f.maxDelaySamples < 2 {
+		f.maxDelaySamples = 2 // Short delays at low sample rates
+	}
 	f.delayLine = make([]float32, f.maxDelaySamples)
 	f.delayIndex = 0
 	f.feedbackSample = 0
-- 
2.43.0


From df4faeccbf144135f30c94437d381d73a0c2c07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 45/90] fix: an oscillator with a negative frequency
 (through-zero FM) wraps its phase; it ran away from [-1, 1]

---
 pkg/dsp/oscillator/oscillator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/oscillator/oscillator.go b/pkg/dsp/oscillator/oscillator.go
index 99ee311..2cd47b8 100644
--- a/pkg/dsp/oscillator/oscillator.go
+++ b/pkg/dsp/oscillator/oscillator.go
@@ -40,7 +40,7 @@ func (o *Oscillator) Reset() {
 // updatePhase advances the phase and wraps it
 func (o *Oscillator) updatePhase() {
 	o.phase += o.phaseInc
-	if o.phase >= 1.0 {
+	if o.phase >= 1.0 || o.phase < 0.0 {
 		o.phase -= math.Floor(o.phase)
 	}
 }
-- 
2.43.0


From 48ee4a465e90d1ecf57a00605c3934fac39c82c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 46/90] fix: a ring modulator whose LFO is switched off returns
 to its carrier frequency

---
 pkg/dsp/modulation/ringmod.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/dsp/modulation/ringmod.go b/pkg/dsp/modulation/ringmod.go
index 493a34e..e9cd752 100644
--- a/pkg/dsp/modulation/ringmod.go
+++ b/pkg/dsp/modulation/ringmod.go
@@ -65,6 +65,10 @@ func (rm *RingModulator) SetWaveform(waveform Waveform) {
 // EnableLFO enables/disables LFO modulation of carrier frequency
 func (rm *RingModulator) EnableLFO(enabled bool) {
 	rm.lfoEnabled = enabled
+	if !enabled {
+		// The last modulated increment would stay otherwise
+		rm.updatePhaseIncrement()
+	}
 }
 
 // SetLFORate sets the LFO modulation rate in Hz
-- 
2.43.0


From b7752ad18cb05ddd36dc13aa8ab1b1324ef01718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 47/90] fix: changing a parameter of an FDN reverb does not
 replace its random feedback matrix

---
 pkg/dsp/reverb/fdn.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index e9da7e0..59e2847 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -21,6 +21,9 @@ type FDN struct {
 	// Feedback matrix (Hadamard matrix for good diffusion)
 	feedbackMatrix [][]float64
 
+	// Unit vector of the Householder matrix, chosen once
+	householder []float64
+
 	// Input and output gains
 	inputGains  []float64
 	outputGains []float64
@@ -178,19 +181,24 @@ func (f *FDN) createHadamardMatrix() {
 func (f *FDN) createHouseholderMatrix() {
 	n := f.numDelays
 
-	// Create a random unit vector
-	v := make([]float64, n)
-	sum := 0.0
-	for i := 0; i < n; i++ {
-		v[i] = rand.Float64() - 0.5
-		sum += v[i] * v[i]
-	}
+	// Create a random unit vector; it is kept so that parameter changes do not
+	// replace the matrix of a sounding reverb by another one
+	if f.householder == nil {
+		v := make([]float64, n)
+		sum := 0.0
+		for i := 0; i < n; i++ {
+			v[i] = rand.Float64() - 0.5
+			sum += v[i] * v[i]
+		}
 
-	// Normalize
-	norm := math.Sqrt(sum)
-	for i := 0; i < n; i++ {
-		v[i] /= norm
+		// Normalize
+		norm := math.Sqrt(sum)
+		for i := 0; i < n; i++ {
+			v[i] /= norm
+		}
+		f.householder = v
 	}
+	v := f.householder
 
 	// Create Householder matrix: H = I - 2*v*v^T
 	for i := 0; i < n; i++ {
-- 
2.43.0


From c99e211cb02e5810654c11dbd3d9de7aef77a061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:18 +0000
Subject: [PATCH 48/90] fix: a gate whose range changes while it closes closes
 to the new range

---
 pkg/dsp/dynamics/gate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dsp/dynamics/gate.go b/pkg/dsp/dynamics/gate.go
index 314d691..a1428d4 100644
--- a/pkg/dsp/dynamics/gate.go
+++ b/pkg/dsp/dynamics/gate.go
@@ -122,6 +122,9 @@ func (g *Gate) SetRange(dB float64) {
 		g.currentGain = math.Pow(10.0, g.range_/20.0)
 		g.targetGain = g.currentGain
 		g.gainReduction = g.range_
+	} else if g.state == gateStateRelease {
+		// A closing gate heads for the new range
+		g.targetGain = math.Pow(10.0, g.range_/20.0)
 	}
 }
 
-- 
2.43.0


From 96c74cb0fc2ffccdeaff6baa6eada1bb913931c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:43 +0000
Subject: [PATCH 49/90] fix: FDN reverb processing does not allocate on the
 audio thread

---
 pkg/dsp/reverb/fdn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 59e2847..d8ae1c8 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -45,6 +45,10 @@ type FDN struct {
 	modDepth  float64
 	modRate   float64
 
+	// Scratch space for Process, which must not allocate
+	delayOutputs   []float32
+	feedbackInputs []float32
+
 	sampleRate float64
 }
 
@@ -93,6 +97,8 @@ func NewFDN(numDelays int, sampleRate float64) *FDN {
 		dampingFilters: make([]*DampingFilter, numDelays),
 		modLFOs:        make([]float64, numDelays),
 		modPhases:      make([]float64, numDelays),
+		delayOutputs:   make([]float32, numDelays),
+		feedbackInputs: make([]float32, numDelays),
 		decay:          0.5,
 		damping:        0.5,
 		diffusion:      0.5,
@@ -283,7 +289,7 @@ func (f *FDN) updateInternalParameters() {
 // Process processes a mono input sample
 func (f *FDN) Process(input float32) float32 {
 	// Read outputs from all delay lines
-	delayOutputs := make([]float32, f.numDelays)
+	delayOutputs := f.delayOutputs
 
 	for i := 0; i < f.numDelays; i++ {
 		// Calculate modulated read position
@@ -319,7 +325,7 @@ func (f *FDN) Process(input float32) float32 {
 	}
 
 	// Apply feedback matrix to create new inputs
-	feedbackInputs := make([]float32, f.numDelays)
+	feedbackInputs := f.feedbackInputs
 	decayScale := float32(0.4 + f.decay*0.58)
 
 	for i := 0; i < f.numDelays; i++ {
-- 
2.43.0


From 72eeee89248d7e4e8c68e186fed44cb6ea78aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:02 +0000
Subject: [PATCH 50/90] fix: a parallel chain does not allocate buffers on the
 audio thread

---
 pkg/framework/dsp/chain.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/pkg/framework/dsp/chain.go b/pkg/framework/dsp/chain.go
index 4fc898b..ddb29c2 100644
--- a/pkg/framework/dsp/chain.go
+++ b/pkg/framework/dsp/chain.go
@@ -170,14 +170,24 @@ type ParallelChain struct {
 	gains  []float32
 	name   string
 	bypass bool
+
+	// Scratch buffers, so that Process does not allocate.
+	input []float32
+	work  []float32
 }
 
+// parallelScratchSize is the block size ParallelChain is prepared for; a larger
+// block makes it grow its scratch buffers once.
+const parallelScratchSize = 8192
+
 // NewParallelChain creates a new parallel chain.
 func NewParallelChain(name string) *ParallelChain {
 	return &ParallelChain{
 		name:   name,
 		chains: make([]Processor, 0),
 		gains:  make([]float32, 0),
+		input:  make([]float32, parallelScratchSize),
+		work:   make([]float32, parallelScratchSize),
 	}
 }
 
@@ -194,23 +204,24 @@ func (p *ParallelChain) Process(buffer []float32) {
 		return
 	}
 	
-	// Create temporary buffers for each chain
-	tempBuffers := make([][]float32, len(p.chains))
-	for i := range tempBuffers {
-		tempBuffers[i] = make([]float32, len(buffer))
-		copy(tempBuffers[i], buffer)
-	}
-	
-	// Process each chain
-	for i, chain := range p.chains {
-		chain.Process(tempBuffers[i])
+	if len(buffer) > len(p.input) {
+		p.input = make([]float32, len(buffer))
+		p.work = make([]float32, len(buffer))
 	}
+	input := p.input[:len(buffer)]
+	work := p.work[:len(buffer)]
+	copy(input, buffer)
 	
-	// Mix results
 	for i := range buffer {
 		buffer[i] = 0
-		for j, temp := range tempBuffers {
-			buffer[i] += temp[i] * p.gains[j]
+	}
+	
+	// Process each chain on its own copy of the input and mix
+	for j, chain := range p.chains {
+		copy(work, input)
+		chain.Process(work)
+		for i := range buffer {
+			buffer[i] += work[i] * p.gains[j]
 		}
 	}
 }
-- 
2.43.0


From d758f6fb3154270a81ad95e1f3bf89ad8352d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:59 +0000
Subject: [PATCH 51/90] fix: a block with several buses or more than 16
 channels reaches the plugin instead of panicking

---
 pkg/plugin/component.go     | 18 ++++++++++--------
 pkg/plugin/wrapper_audio.go |  4 ++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index b634180..2ecd903 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -270,11 +270,12 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 
 	// Map input buffers
 	if processData.numInputs > 0 && processData.inputs != nil {
-		inputBuses := (*[1]C.struct_Steinberg_Vst_AudioBusBuffers)(unsafe.Pointer(processData.inputs))[:processData.numInputs:processData.numInputs]
-		for _, bus := range inputBuses {
-			channelBuffers32 := getChannelBuffers32(&bus)
+		inputBuses := unsafe.Slice(processData.inputs, int(processData.numInputs))
+		for i := range inputBuses {
+			bus := &inputBuses[i]
+			channelBuffers32 := getChannelBuffers32(bus)
 			if bus.numChannels > 0 && channelBuffers32 != nil {
-				channels := (*[16]*float32)(unsafe.Pointer(channelBuffers32))[:bus.numChannels:bus.numChannels]
+				channels := unsafe.Slice((**float32)(unsafe.Pointer(channelBuffers32)), int(bus.numChannels))
 				for _, channel := range channels {
 					if channel != nil {
 						// Create slice from pointer without allocation
@@ -288,11 +289,12 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 
 	// Map output buffers
 	if processData.numOutputs > 0 && processData.outputs != nil {
-		outputBuses := (*[1]C.struct_Steinberg_Vst_AudioBusBuffers)(unsafe.Pointer(processData.outputs))[:processData.numOutputs:processData.numOutputs]
-		for _, bus := range outputBuses {
-			channelBuffers32 := getChannelBuffers32(&bus)
+		outputBuses := unsafe.Slice(processData.outputs, int(processData.numOutputs))
+		for i := range outputBuses {
+			bus := &outputBuses[i]
+			channelBuffers32 := getChannelBuffers32(bus)
 			if bus.numChannels > 0 && channelBuffers32 != nil {
-				channels := (*[16]*float32)(unsafe.Pointer(channelBuffers32))[:bus.numChannels:bus.numChannels]
+				channels := unsafe.Slice((**float32)(unsafe.Pointer(channelBuffers32)), int(bus.numChannels))
 				for _, channel := range channels {
 					if channel != nil {
 						// Create slice from pointer without allocation
diff --git a/pkg/plugin/wrapper_audio.go b/pkg/plugin/wrapper_audio.go
index 7ac10ed..23d8beb 100644
--- a/pkg/plugin/wrapper_audio.go
+++ b/pkg/plugin/wrapper_audio.go
@@ -21,12 +21,12 @@ func GoAudioSetBusArrangements(componentPtr unsafe.Pointer, inputs unsafe.Pointe
 	// Convert arrangements
 	var inputArrs []int64
 	if numIns > 0 && inputs != nil {
-		inputArrs = (*[16]int64)(inputs)[:numIns:numIns]
+		inputArrs = unsafe.Slice((*int64)(inputs), int(numIns))
 	}
 
 	var outputArrs []int64
 	if numOuts > 0 && outputs != nil {
-		outputArrs = (*[16]int64)(outputs)[:numOuts:numOuts]
+		outputArrs = unsafe.Slice((*int64)(outputs), int(numOuts))
 	}
 
 	err := wrapper.component.SetBusArrangements(inputArrs, outputArrs)
-- 
2.43.0


From a197b44f2f98a764aac8f3af53b875dd026d9309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:46 +0000
Subject: [PATCH 52/90] fix: a chunk of a block sees its own events and
 parameter changes, once, at offsets relative to the chunk

---
 pkg/plugin/component.go | 173 +++++++++++++++++++++-------------------
 1 file changed, 90 insertions(+), 83 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 2ecd903..1f2787e 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -27,6 +27,21 @@ type componentImpl struct {
 	processing   bool
 	mu           sync.RWMutex
 	wrapper      *componentWrapper // Reference to wrapper for notifications
+
+	// Input events, parameter changes and sub-slices of the current block (reused)
+	blockEvents  []noteEvent
+	blockChanges []process.ParameterChange
+	chunkInput   [][]float32
+	chunkOutput  [][]float32
+}
+
+// noteEvent is a note on or note off event of the current block
+type noteEvent struct {
+	on       bool
+	channel  uint8
+	note     uint8
+	velocity uint8
+	offset   int32
 }
 
 // newComponent creates a new component implementation
@@ -309,7 +324,9 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 	// Reset parameter changes for this processing block
 	c.processCtx.ResetParameterChanges()
 
-	// Process input events (MIDI)
+	// Collect input events (MIDI); events of earlier blocks are over
+	c.processCtx.ClearAllEvents()
+	c.blockEvents = c.blockEvents[:0]
 	if processData.inputEvents != nil {
 		c.processInputEvents(processData.inputEvents)
 	}
@@ -351,9 +368,10 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 		c.processCtx.SortParameterChanges()
 
 		// Process audio in chunks between parameter changes
-		c.processSampleAccurate()
+		c.processSampleAccurate(numSamples)
 	} else {
 		// No parameter changes - process entire block
+		c.deliverEvents(0, numSamples, numSamples)
 		c.processor.ProcessAudio(c.processCtx)
 	}
 
@@ -394,31 +412,51 @@ func (c *componentImpl) processSingleEvent(event *C.struct_Steinberg_Vst_Event)
 	case C.Steinberg_Vst_Event_EventTypes_kNoteOnEvent:
 		// Note On event - use helper to get the event data
 		noteOn := C.getNoteOnEvent(event)
-		c.processCtx.AddInputEvent(midi.NoteOnEvent{
-			BaseEvent: midi.BaseEvent{
-				EventChannel: uint8(noteOn.channel),
-				Offset:       int32(event.sampleOffset),
-			},
-			NoteNumber: uint8(noteOn.pitch),
-			Velocity:   uint8(noteOn.velocity * 127), // VST3 uses 0-1, MIDI uses 0-127
+		c.blockEvents = append(c.blockEvents, noteEvent{
+			on:       true,
+			channel:  uint8(noteOn.channel),
+			note:     uint8(noteOn.pitch),
+			velocity: uint8(noteOn.velocity * 127), // VST3 uses 0-1, MIDI uses 0-127
+			offset:   int32(event.sampleOffset),
 		})
 
 	case C.Steinberg_Vst_Event_EventTypes_kNoteOffEvent:
 		// Note Off event - use helper to get the event data
 		noteOff := C.getNoteOffEvent(event)
-		c.processCtx.AddInputEvent(midi.NoteOffEvent{
-			BaseEvent: midi.BaseEvent{
-				EventChannel: uint8(noteOff.channel),
-				Offset:       int32(event.sampleOffset),
-			},
-			NoteNumber: uint8(noteOff.pitch),
-			Velocity:   uint8(noteOff.velocity * 127),
+		c.blockEvents = append(c.blockEvents, noteEvent{
+			channel:  uint8(noteOff.channel),
+			note:     uint8(noteOff.pitch),
+			velocity: uint8(noteOff.velocity * 127),
+			offset:   int32(event.sampleOffset),
 		})
 
 	// Add more event types as needed
 	}
 }
 
+// deliverEvents queues the block's events that fall into the chunk [start, end),
+// with offsets relative to the chunk. Offsets outside the block count as its
+// first or last sample.
+func (c *componentImpl) deliverEvents(start, end, numSamples int) {
+	c.processCtx.ClearInputEvents()
+	for i := range c.blockEvents {
+		event := &c.blockEvents[i]
+		offset := max(min(int(event.offset), numSamples-1), 0)
+		if offset < start || offset >= end {
+			continue
+		}
+		base := midi.BaseEvent{
+			EventChannel: event.channel,
+			Offset:       int32(offset - start),
+		}
+		if event.on {
+			c.processCtx.AddInputEvent(midi.NoteOnEvent{BaseEvent: base, NoteNumber: event.note, Velocity: event.velocity})
+		} else {
+			c.processCtx.AddInputEvent(midi.NoteOffEvent{BaseEvent: base, NoteNumber: event.note, Velocity: event.velocity})
+		}
+	}
+}
+
 // IEditController implementation
 func (c *componentImpl) SetComponentState(state []byte) error {
 	return nil
@@ -523,86 +561,55 @@ func (c *componentImpl) SetParamNormalizedWithNotification(id uint32, value floa
 	return vst3.ErrInvalidArgument
 }
 
-// processSampleAccurate processes audio with sample-accurate parameter automation
-func (c *componentImpl) processSampleAccurate() {
-	changes := c.processCtx.GetParameterChanges()
-	numSamples := c.processCtx.NumSamples()
-	lastOffset := 0
+// processSampleAccurate processes audio with sample-accurate parameter automation.
+// The plugin sees one chunk at a time: the chunk's samples, the changes that take
+// effect at its first sample and its events, all with offsets relative to the chunk.
+func (c *componentImpl) processSampleAccurate(numSamples int) {
+	// ResetParameterChanges is called per chunk, so keep the block's changes aside
+	c.blockChanges = append(c.blockChanges[:0], c.processCtx.GetParameterChanges()...)
 
 	// Store original buffers
 	origInput := c.processCtx.Input
 	origOutput := c.processCtx.Output
 
-	// Process each chunk between parameter changes
-	for _, change := range changes {
-		if change.SampleOffset > lastOffset {
-			// Process chunk from lastOffset to change.SampleOffset
-			chunkSize := change.SampleOffset - lastOffset
-
-			// Temporarily update context buffers to point to sub-slices (no allocation)
-			c.processCtx.Input = nil
-			c.processCtx.Output = nil
-
-			// Set up input sub-slices
-			for ch := 0; ch < len(origInput); ch++ {
-				if lastOffset < len(origInput[ch]) {
-					endOffset := lastOffset + chunkSize
-					if endOffset > len(origInput[ch]) {
-						endOffset = len(origInput[ch])
-					}
-					c.processCtx.Input = append(c.processCtx.Input, origInput[ch][lastOffset:endOffset])
-				}
-			}
-
-			// Set up output sub-slices
-			for ch := 0; ch < len(origOutput); ch++ {
-				if lastOffset < len(origOutput[ch]) {
-					endOffset := lastOffset + chunkSize
-					if endOffset > len(origOutput[ch]) {
-						endOffset = len(origOutput[ch])
-					}
-					c.processCtx.Output = append(c.processCtx.Output, origOutput[ch][lastOffset:endOffset])
-				}
-			}
-
-			// Process this chunk
-			c.processor.ProcessAudio(c.processCtx)
-
-			lastOffset = change.SampleOffset
+	next := 0
+	for start := 0; start < numSamples; {
+		// Apply the changes that take effect at the start of this chunk
+		c.processCtx.ResetParameterChanges()
+		for next < len(c.blockChanges) && c.blockChanges[next].SampleOffset <= start {
+			change := c.blockChanges[next]
+			c.processCtx.ApplyParameterChange(change)
+			c.processCtx.AddParameterChange(change.ParamID, change.Value, 0)
+			next++
 		}
 
-		// Apply the parameter change
-		c.processCtx.ApplyParameterChange(change)
-
-		// Debug output
-		if p := c.processor.GetParameters().Get(change.ParamID); p != nil {
-			fmt.Printf("[SAMPLE_ACCURATE] Applied param %d change at sample %d: value=%.6f, plain=%.1f\n",
-				change.ParamID, change.SampleOffset, change.Value, p.GetPlainValue())
+		// The chunk ends at the next change
+		end := numSamples
+		if next < len(c.blockChanges) && c.blockChanges[next].SampleOffset < end {
+			end = c.blockChanges[next].SampleOffset
 		}
-	}
 
-	// Process final chunk if there are samples remaining
-	if lastOffset < numSamples {
-		// Temporarily update context buffers for final chunk
-		c.processCtx.Input = nil
-		c.processCtx.Output = nil
-
-		// Set up input sub-slices for final chunk
-		for ch := 0; ch < len(origInput); ch++ {
-			if lastOffset < len(origInput[ch]) {
-				c.processCtx.Input = append(c.processCtx.Input, origInput[ch][lastOffset:])
-			}
+		// Point the context at the chunk (sub-slices of the block's buffers)
+		c.chunkInput = c.chunkInput[:0]
+		for _, samples := range origInput {
+			c.chunkInput = append(c.chunkInput, samples[start:end])
 		}
-
-		// Set up output sub-slices for final chunk
-		for ch := 0; ch < len(origOutput); ch++ {
-			if lastOffset < len(origOutput[ch]) {
-				c.processCtx.Output = append(c.processCtx.Output, origOutput[ch][lastOffset:])
-			}
+		c.chunkOutput = c.chunkOutput[:0]
+		for _, samples := range origOutput {
+			c.chunkOutput = append(c.chunkOutput, samples[start:end])
 		}
+		c.processCtx.Input = c.chunkInput
+		c.processCtx.Output = c.chunkOutput
+		c.deliverEvents(start, end, numSamples)
 
-		// Process final chunk
 		c.processor.ProcessAudio(c.processCtx)
+
+		start = end
+	}
+
+	// Changes at or after the end of the block (or in a block without samples)
+	for ; next < len(c.blockChanges); next++ {
+		c.processCtx.ApplyParameterChange(c.blockChanges[next])
 	}
 
 	// Restore original buffers
-- 
2.43.0


From 565643d396d165a31b3f9b78d7cb088875417e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:09 +0000
Subject: [PATCH 53/90] fix: a block with more than 128 automation points
 applies every one of them

---
 pkg/framework/process/context.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index bbc5ba2..5476c04 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -228,15 +228,17 @@ func (c *Context) SetParameterAtOffset(paramID uint32, value float64, sampleOffs
 // AddParameterChange adds a parameter change for sample-accurate processing
 // This method is used during the parameter change collection phase
 func (c *Context) AddParameterChange(paramID uint32, value float64, sampleOffset int) {
-	// Ensure we don't exceed pre-allocated space
-	if c.changeCount < len(c.paramChanges) {
-		c.paramChanges[c.changeCount] = ParameterChange{
-			ParamID:      paramID,
-			Value:        value,
-			SampleOffset: sampleOffset,
-		}
-		c.changeCount++
+	// Grow when the host sends more points than were pre-allocated: dropping
+	// one would leave the parameter at a wrong value
+	if c.changeCount == len(c.paramChanges) {
+		c.paramChanges = append(c.paramChanges, make([]ParameterChange, len(c.paramChanges)+1)...)
+	}
+	c.paramChanges[c.changeCount] = ParameterChange{
+		ParamID:      paramID,
+		Value:        value,
+		SampleOffset: sampleOffset,
 	}
+	c.changeCount++
 }
 
 // ResetParameterChanges clears the parameter change list for the next processing block
-- 
2.43.0


From 17f223a489476523f7cd9404278ad2e7c63fcb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:12 +0000
Subject: [PATCH 54/90] fix: transport information of an earlier block does not
 remain when the host provides none

---
 pkg/plugin/component.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 1f2787e..409d271 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -224,10 +224,12 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 	// Update context with current buffers
 	c.processCtx.SampleRate = c.sampleRate
 
-	// Update transport information if available
+	// Update transport information if available; nothing of an earlier block
+	// remains when the host leaves out the context or marks a field as invalid
+	transport := c.processCtx.Transport
+	*transport = process.TransportInfo{}
 	if processData.processContext != nil {
 		ctx := processData.processContext
-		transport := c.processCtx.Transport
 
 		// Transport state
 		transport.IsPlaying = (ctx.state & C.Steinberg_Vst_ProcessContext_StatesAndFlags_kPlaying) != 0
-- 
2.43.0


From b697d4e905edba161237267a5ced3e863ba6c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:15 +0000
Subject: [PATCH 55/90] fix: a note's velocity is rounded to the nearest MIDI
 velocity and never wraps around

---
 pkg/plugin/component.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 409d271..90cb250 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -7,6 +7,7 @@ import "C"
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"sync"
 	"unsafe"
 
@@ -418,7 +419,7 @@ func (c *componentImpl) processSingleEvent(event *C.struct_Steinberg_Vst_Event)
 			on:       true,
 			channel:  uint8(noteOn.channel),
 			note:     uint8(noteOn.pitch),
-			velocity: uint8(noteOn.velocity * 127), // VST3 uses 0-1, MIDI uses 0-127
+			velocity: midiVelocity(float64(noteOn.velocity)),
 			offset:   int32(event.sampleOffset),
 		})
 
@@ -428,7 +429,7 @@ func (c *componentImpl) processSingleEvent(event *C.struct_Steinberg_Vst_Event)
 		c.blockEvents = append(c.blockEvents, noteEvent{
 			channel:  uint8(noteOff.channel),
 			note:     uint8(noteOff.pitch),
-			velocity: uint8(noteOff.velocity * 127),
+			velocity: midiVelocity(float64(noteOff.velocity)),
 			offset:   int32(event.sampleOffset),
 		})
 
@@ -436,6 +437,14 @@ func (c *componentImpl) processSingleEvent(event *C.struct_Steinberg_Vst_Event)
 	}
 }
 
+// midiVelocity converts a VST3 velocity (0-1) to a MIDI velocity (0-127)
+func midiVelocity(velocity float64) uint8 {
+	if !(velocity > 0) { // also NaN
+		return 0
+	}
+	return uint8(math.Round(min(velocity, 1) * 127))
+}
+
 // deliverEvents queues the block's events that fall into the chunk [start, end),
 // with offsets relative to the chunk. Offsets outside the block count as its
 // first or last sample.
-- 
2.43.0


From b1328caf2314159c697dbe29cb6a38cf94f69333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:17 +0000
Subject: [PATCH 56/90] fix: setting a parameter does not write to the host's
 standard output

---
 pkg/plugin/component.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 90cb250..f586068 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -536,9 +536,6 @@ func (c *componentImpl) GetParamNormalized(id uint32) float64 {
 
 func (c *componentImpl) SetParamNormalized(id uint32, value float64) error {
 	if p := c.processor.GetParameters().Get(id); p != nil {
-		// Debug parameter changes
-		fmt.Printf("[PARAM_CHANGE] SetParamNormalized: id=%d, value=%.3f, plain=%.1f\n",
-			id, value, p.Min+value*(p.Max-p.Min))
 		p.SetValue(value)
 		return nil
 	}
-- 
2.43.0


From 88d10da62687788e092f5797512af4ce5c210da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:38 +0000
Subject: [PATCH 57/90] fix: a plain value outside a parameter's range converts
 to a normalized value within 0 and 1

---
 pkg/plugin/component.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index f586068..3d875fd 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -520,9 +520,7 @@ func (c *componentImpl) NormalizedParamToPlain(id uint32, normalized float64) fl
 
 func (c *componentImpl) PlainParamToNormalized(id uint32, plain float64) float64 {
 	if p := c.processor.GetParameters().Get(id); p != nil {
-		if p.Max > p.Min {
-			return (plain - p.Min) / (p.Max - p.Min)
-		}
+		return p.Normalize(plain)
 	}
 	return plain
 }
-- 
2.43.0


From b07262e4de1665ecdce52939c8c7247b04f9e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 58/90] fix: a panic in plugin code fails the host's call
 instead of crashing the host or reporting success

---
 pkg/plugin/wrapper.go            | 48 ++++++++++++++++++++++++--------
 pkg/plugin/wrapper_audio.go      | 28 ++++++++++++++-----
 pkg/plugin/wrapper_controller.go | 24 +++++++++++++---
 3 files changed, 77 insertions(+), 23 deletions(-)

diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index dc100d9..e071670 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -85,11 +85,15 @@ func SetFactoryInfo(info FactoryInfo) {
 	globalFactoryInfo = info
 }
 
-// recoverPanic is a helper to recover from panics in callbacks
-func recoverPanic(operation string) {
+// recoverPanic is a helper to recover from panics in callbacks. A callback that
+// has a result code reports failure to the host.
+func recoverPanic(operation string, result *C.Steinberg_tresult) {
 	if r := recover(); r != nil {
 		// Log the panic but don't propagate it to C code
 		_ = r
+		if result != nil {
+			*result = C.Steinberg_tresult(vst3.ResultFalse)
+		}
 	}
 }
 
@@ -188,6 +192,8 @@ func GoCountClasses() C.int32_t {
 
 //export GoGetClassInfo
 func GoGetClassInfo(index C.int32_t, cid *C.char, cardinality *C.int32_t, category, name *C.char) {
+	defer recoverPanic("GoGetClassInfo", nil)
+
 	if globalPlugin == nil || index != 0 {
 		return
 	}
@@ -208,6 +214,8 @@ func GoGetClassInfo(index C.int32_t, cid *C.char, cardinality *C.int32_t, catego
 
 //export GoCreateInstance
 func GoCreateInstance(cid *C.char, iid *C.char) unsafe.Pointer {
+	defer recoverPanic("GoCreateInstance", nil)
+
 	if globalPlugin == nil {
 		return nil
 	}
@@ -268,8 +276,8 @@ func GoReleaseComponent(componentPtr unsafe.Pointer) {
 // All the IComponent callbacks
 //
 //export GoComponentInitialize
-func GoComponentInitialize(componentPtr unsafe.Pointer, context unsafe.Pointer) C.Steinberg_tresult {
-	defer recoverPanic("GoComponentInitialize")
+func GoComponentInitialize(componentPtr unsafe.Pointer, context unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentInitialize", &result)
 
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
@@ -284,8 +292,8 @@ func GoComponentInitialize(componentPtr unsafe.Pointer, context unsafe.Pointer)
 }
 
 //export GoComponentTerminate
-func GoComponentTerminate(componentPtr unsafe.Pointer) C.Steinberg_tresult {
-	defer recoverPanic("GoComponentTerminate")
+func GoComponentTerminate(componentPtr unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentTerminate", &result)
 
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
@@ -301,6 +309,8 @@ func GoComponentTerminate(componentPtr unsafe.Pointer) C.Steinberg_tresult {
 
 //export GoComponentGetControllerClassId
 func GoComponentGetControllerClassId(componentPtr unsafe.Pointer, classId *C.char) {
+	defer recoverPanic("GoComponentGetControllerClassId", nil)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return
@@ -311,7 +321,9 @@ func GoComponentGetControllerClassId(componentPtr unsafe.Pointer, classId *C.cha
 }
 
 //export GoComponentSetIoMode
-func GoComponentSetIoMode(componentPtr unsafe.Pointer, mode C.int32_t) C.Steinberg_tresult {
+func GoComponentSetIoMode(componentPtr unsafe.Pointer, mode C.int32_t) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentSetIoMode", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -326,6 +338,8 @@ func GoComponentSetIoMode(componentPtr unsafe.Pointer, mode C.int32_t) C.Steinbe
 
 //export GoComponentGetBusCount
 func GoComponentGetBusCount(componentPtr unsafe.Pointer, mediaType, dir C.int32_t) C.int32_t {
+	defer recoverPanic("GoComponentGetBusCount", nil)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return 0
@@ -335,7 +349,9 @@ func GoComponentGetBusCount(componentPtr unsafe.Pointer, mediaType, dir C.int32_
 }
 
 //export GoComponentGetBusInfo
-func GoComponentGetBusInfo(componentPtr unsafe.Pointer, mediaType, dir, index C.int32_t, bus unsafe.Pointer) C.Steinberg_tresult {
+func GoComponentGetBusInfo(componentPtr unsafe.Pointer, mediaType, dir, index C.int32_t, bus unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentGetBusInfo", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -369,7 +385,9 @@ func GoComponentGetBusInfo(componentPtr unsafe.Pointer, mediaType, dir, index C.
 }
 
 //export GoComponentActivateBus
-func GoComponentActivateBus(componentPtr unsafe.Pointer, mediaType, dir, index, state C.int32_t) C.Steinberg_tresult {
+func GoComponentActivateBus(componentPtr unsafe.Pointer, mediaType, dir, index, state C.int32_t) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentActivateBus", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -383,7 +401,9 @@ func GoComponentActivateBus(componentPtr unsafe.Pointer, mediaType, dir, index,
 }
 
 //export GoComponentSetActive
-func GoComponentSetActive(componentPtr unsafe.Pointer, state C.int32_t) C.Steinberg_tresult {
+func GoComponentSetActive(componentPtr unsafe.Pointer, state C.int32_t) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentSetActive", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -397,7 +417,9 @@ func GoComponentSetActive(componentPtr unsafe.Pointer, state C.int32_t) C.Steinb
 }
 
 //export GoComponentSetState
-func GoComponentSetState(componentPtr unsafe.Pointer, state unsafe.Pointer) C.Steinberg_tresult {
+func GoComponentSetState(componentPtr unsafe.Pointer, state unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentSetState", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -423,7 +445,9 @@ func GoComponentSetState(componentPtr unsafe.Pointer, state unsafe.Pointer) C.St
 }
 
 //export GoComponentGetState
-func GoComponentGetState(componentPtr unsafe.Pointer, state unsafe.Pointer) C.Steinberg_tresult {
+func GoComponentGetState(componentPtr unsafe.Pointer, state unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoComponentGetState", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
diff --git a/pkg/plugin/wrapper_audio.go b/pkg/plugin/wrapper_audio.go
index 23d8beb..ec1a721 100644
--- a/pkg/plugin/wrapper_audio.go
+++ b/pkg/plugin/wrapper_audio.go
@@ -12,7 +12,9 @@ import (
 // IAudioProcessor callbacks
 //
 //export GoAudioSetBusArrangements
-func GoAudioSetBusArrangements(componentPtr unsafe.Pointer, inputs unsafe.Pointer, numIns C.int32_t, outputs unsafe.Pointer, numOuts C.int32_t) C.Steinberg_tresult {
+func GoAudioSetBusArrangements(componentPtr unsafe.Pointer, inputs unsafe.Pointer, numIns C.int32_t, outputs unsafe.Pointer, numOuts C.int32_t) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoAudioSetBusArrangements", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -37,7 +39,9 @@ func GoAudioSetBusArrangements(componentPtr unsafe.Pointer, inputs unsafe.Pointe
 }
 
 //export GoAudioGetBusArrangement
-func GoAudioGetBusArrangement(componentPtr unsafe.Pointer, dir, index C.int32_t, arr unsafe.Pointer) C.Steinberg_tresult {
+func GoAudioGetBusArrangement(componentPtr unsafe.Pointer, dir, index C.int32_t, arr unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoAudioGetBusArrangement", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -53,7 +57,9 @@ func GoAudioGetBusArrangement(componentPtr unsafe.Pointer, dir, index C.int32_t,
 }
 
 //export GoAudioCanProcessSampleSize
-func GoAudioCanProcessSampleSize(componentPtr unsafe.Pointer, symbolicSampleSize C.int32_t) C.Steinberg_tresult {
+func GoAudioCanProcessSampleSize(componentPtr unsafe.Pointer, symbolicSampleSize C.int32_t) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoAudioCanProcessSampleSize", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -68,6 +74,8 @@ func GoAudioCanProcessSampleSize(componentPtr unsafe.Pointer, symbolicSampleSize
 
 //export GoAudioGetLatencySamples
 func GoAudioGetLatencySamples(componentPtr unsafe.Pointer) C.uint32_t {
+	defer recoverPanic("GoAudioGetLatencySamples", nil)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return 0
@@ -77,7 +85,9 @@ func GoAudioGetLatencySamples(componentPtr unsafe.Pointer) C.uint32_t {
 }
 
 //export GoAudioSetupProcessing
-func GoAudioSetupProcessing(componentPtr unsafe.Pointer, setup unsafe.Pointer) C.Steinberg_tresult {
+func GoAudioSetupProcessing(componentPtr unsafe.Pointer, setup unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoAudioSetupProcessing", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -100,7 +110,9 @@ func GoAudioSetupProcessing(componentPtr unsafe.Pointer, setup unsafe.Pointer) C
 }
 
 //export GoAudioSetProcessing
-func GoAudioSetProcessing(componentPtr unsafe.Pointer, state C.int32_t) C.Steinberg_tresult {
+func GoAudioSetProcessing(componentPtr unsafe.Pointer, state C.int32_t) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoAudioSetProcessing", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -114,8 +126,8 @@ func GoAudioSetProcessing(componentPtr unsafe.Pointer, state C.int32_t) C.Steinb
 }
 
 //export GoAudioProcess
-func GoAudioProcess(componentPtr unsafe.Pointer, data unsafe.Pointer) C.Steinberg_tresult {
-	defer recoverPanic("GoAudioProcess")
+func GoAudioProcess(componentPtr unsafe.Pointer, data unsafe.Pointer) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoAudioProcess", &result)
 
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
@@ -131,6 +143,8 @@ func GoAudioProcess(componentPtr unsafe.Pointer, data unsafe.Pointer) C.Steinber
 
 //export GoAudioGetTailSamples
 func GoAudioGetTailSamples(componentPtr unsafe.Pointer) C.uint32_t {
+	defer recoverPanic("GoAudioGetTailSamples", nil)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return 0
diff --git a/pkg/plugin/wrapper_controller.go b/pkg/plugin/wrapper_controller.go
index 0f5f581..0008dd3 100644
--- a/pkg/plugin/wrapper_controller.go
+++ b/pkg/plugin/wrapper_controller.go
@@ -31,6 +31,8 @@ func GoEditControllerGetState(componentPtr unsafe.Pointer, state unsafe.Pointer)
 
 //export GoEditControllerGetParameterCount
 func GoEditControllerGetParameterCount(componentPtr unsafe.Pointer) C.int32_t {
+	defer recoverPanic("GoEditControllerGetParameterCount", nil)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return 0
@@ -40,7 +42,9 @@ func GoEditControllerGetParameterCount(componentPtr unsafe.Pointer) C.int32_t {
 }
 
 //export GoEditControllerGetParameterInfo
-func GoEditControllerGetParameterInfo(componentPtr unsafe.Pointer, paramIndex C.int32_t, info *C.struct_Steinberg_Vst_ParameterInfo) C.Steinberg_tresult {
+func GoEditControllerGetParameterInfo(componentPtr unsafe.Pointer, paramIndex C.int32_t, info *C.struct_Steinberg_Vst_ParameterInfo) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoEditControllerGetParameterInfo", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -97,7 +101,9 @@ func GoEditControllerGetParameterInfo(componentPtr unsafe.Pointer, paramIndex C.
 }
 
 //export GoEditControllerGetParamStringByValue
-func GoEditControllerGetParamStringByValue(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, valueNormalized C.Steinberg_Vst_ParamValue, string *C.Steinberg_Vst_TChar) C.Steinberg_tresult {
+func GoEditControllerGetParamStringByValue(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, valueNormalized C.Steinberg_Vst_ParamValue, string *C.Steinberg_Vst_TChar) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoEditControllerGetParamStringByValue", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -116,7 +122,9 @@ func GoEditControllerGetParamStringByValue(componentPtr unsafe.Pointer, id C.Ste
 }
 
 //export GoEditControllerGetParamValueByString
-func GoEditControllerGetParamValueByString(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, string *C.Steinberg_Vst_TChar, valueNormalized *C.Steinberg_Vst_ParamValue) C.Steinberg_tresult {
+func GoEditControllerGetParamValueByString(componentPtr unsafe.Pointer, id C.Steinberg_Vst_ParamID, string *C.Steinberg_Vst_TChar, valueNormalized *C.Steinberg_Vst_ParamValue) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoEditControllerGetParamValueByString", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
@@ -137,6 +145,8 @@ func GoEditControllerGetParamValueByString(componentPtr unsafe.Pointer, id C.Ste
 
 //export GoEditControllerNormalizedParamToPlain
 func GoEditControllerNormalizedParamToPlain(componentPtr unsafe.Pointer, id C.uint32_t, valueNormalized C.double) C.double {
+	defer recoverPanic("GoEditControllerNormalizedParamToPlain", nil)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return valueNormalized
@@ -147,6 +157,8 @@ func GoEditControllerNormalizedParamToPlain(componentPtr unsafe.Pointer, id C.ui
 
 //export GoEditControllerPlainParamToNormalized
 func GoEditControllerPlainParamToNormalized(componentPtr unsafe.Pointer, id C.uint32_t, plainValue C.double) C.double {
+	defer recoverPanic("GoEditControllerPlainParamToNormalized", nil)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return plainValue
@@ -157,6 +169,8 @@ func GoEditControllerPlainParamToNormalized(componentPtr unsafe.Pointer, id C.ui
 
 //export GoEditControllerGetParamNormalized
 func GoEditControllerGetParamNormalized(componentPtr unsafe.Pointer, id C.uint32_t) C.double {
+	defer recoverPanic("GoEditControllerGetParamNormalized", nil)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return 0
@@ -166,7 +180,9 @@ func GoEditControllerGetParamNormalized(componentPtr unsafe.Pointer, id C.uint32
 }
 
 //export GoEditControllerSetParamNormalized
-func GoEditControllerSetParamNormalized(componentPtr unsafe.Pointer, id C.uint32_t, value C.double) C.Steinberg_tresult {
+func GoEditControllerSetParamNormalized(componentPtr unsafe.Pointer, id C.uint32_t, value C.double) (result C.Steinberg_tresult) {
+	defer recoverPanic("GoEditControllerSetParamNormalized", &result)
+
 	wrapper := getComponent(uintptr(componentPtr))
 	if wrapper == nil {
 		return C.Steinberg_tresult(vst3.ResultFalse)
-- 
2.43.0


From 5eabf6c14453f884da19e87d00d810db031ef45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:54 +0000
Subject: [PATCH 59/90] fix: short reads and writes of a host stream do not
 truncate the plugin's state

---
 pkg/vst3/stream.go | 87 ++++++++++++++++++++++++++++------------------
 1 file changed, 53 insertions(+), 34 deletions(-)

diff --git a/pkg/vst3/stream.go b/pkg/vst3/stream.go
index 98ce451..1b07d44 100644
--- a/pkg/vst3/stream.go
+++ b/pkg/vst3/stream.go
@@ -22,9 +22,13 @@ package vst3
 import "C"
 import (
 	"encoding/binary"
+	"io"
 	"unsafe"
 )
 
+// maxReadSize is the most that one call asks the stream for
+const maxReadSize = 1 << 30
+
 // StreamWrapper wraps VST3 IBStream for Go usage
 type StreamWrapper struct {
 	stream *C.struct_Steinberg_IBStream
@@ -51,21 +55,45 @@ func (s *StreamWrapper) Read(buffer []byte) (int32, error) {
 	if result != 0 {
 		return 0, ErrNotImplemented
 	}
+	if numBytesRead < 0 || int(numBytesRead) > len(buffer) {
+		return 0, ErrInvalidArgument
+	}
 	return int32(numBytesRead), nil
 }
 
-// Write writes data to the stream
-func (s *StreamWrapper) Write(buffer []byte) (int32, error) {
-	if len(buffer) == 0 {
-		return 0, nil
+// readFull fills the buffer. The stream may deliver fewer bytes per call than
+// asked for; it is an error if it ends before the buffer is full.
+func (s *StreamWrapper) readFull(buffer []byte) error {
+	for len(buffer) > 0 {
+		n, err := s.Read(buffer)
+		if err != nil {
+			return err
+		}
+		if n == 0 {
+			return io.ErrUnexpectedEOF
+		}
+		buffer = buffer[n:]
 	}
+	return nil
+}
 
-	var numBytesWritten C.Steinberg_int32
-	result := C.stream_write(s.stream, unsafe.Pointer(&buffer[0]), C.Steinberg_int32(len(buffer)), &numBytesWritten)
-	if result != 0 {
-		return 0, ErrNotImplemented
+// Write writes data to the stream. The stream may accept fewer bytes per call
+// than offered; it is an error if it stops accepting any.
+func (s *StreamWrapper) Write(buffer []byte) (int32, error) {
+	var written int32
+	for int(written) < len(buffer) {
+		rest := buffer[written:]
+		var numBytesWritten C.Steinberg_int32
+		result := C.stream_write(s.stream, unsafe.Pointer(&rest[0]), C.Steinberg_int32(len(rest)), &numBytesWritten)
+		if result != 0 {
+			return written, ErrNotImplemented
+		}
+		if numBytesWritten <= 0 || int(numBytesWritten) > len(rest) {
+			return written, io.ErrShortWrite
+		}
+		written += int32(numBytesWritten)
 	}
-	return int32(numBytesWritten), nil
+	return written, nil
 }
 
 // WriteInt32 writes an int32 to the stream
@@ -79,13 +107,9 @@ func (s *StreamWrapper) WriteInt32(value int32) error {
 // ReadInt32 reads an int32 from the stream
 func (s *StreamWrapper) ReadInt32() (int32, error) {
 	buf := make([]byte, 4)
-	n, err := s.Read(buf)
-	if err != nil {
+	if err := s.readFull(buf); err != nil {
 		return 0, err
 	}
-	if n != 4 {
-		return 0, ErrNotImplemented
-	}
 	return int32(binary.LittleEndian.Uint32(buf)), nil
 }
 
@@ -100,13 +124,9 @@ func (s *StreamWrapper) WriteFloat64(value float64) error {
 // ReadFloat64 reads a float64 from the stream
 func (s *StreamWrapper) ReadFloat64() (float64, error) {
 	buf := make([]byte, 8)
-	n, err := s.Read(buf)
-	if err != nil {
+	if err := s.readFull(buf); err != nil {
 		return 0, err
 	}
-	if n != 8 {
-		return 0, ErrNotImplemented
-	}
 	bits := binary.LittleEndian.Uint64(buf)
 	return *(*float64)(unsafe.Pointer(&bits)), nil
 }
@@ -135,15 +155,14 @@ func (s *StreamWrapper) ReadString() (string, error) {
 	if length == 0 {
 		return "", nil
 	}
+	if length < 0 {
+		return "", ErrInvalidArgument
+	}
 	// Read string data
 	buf := make([]byte, length)
-	n, err := s.Read(buf)
-	if err != nil {
+	if err := s.readFull(buf); err != nil {
 		return "", err
 	}
-	if n != length {
-		return "", ErrNotImplemented
-	}
 	return string(buf), nil
 }
 
@@ -169,7 +188,7 @@ func (s *StreamWrapper) ReadAll() ([]byte, error) {
 	}
 
 	// Calculate remaining size
-	remaining := int32(endPos - currentPos)
+	remaining := int64(endPos - currentPos)
 	if remaining <= 0 {
 		return []byte{}, nil
 	}
@@ -178,17 +197,20 @@ func (s *StreamWrapper) ReadAll() ([]byte, error) {
 	var newPos C.int64_t
 	result = C.stream_seek(s.stream, currentPos, 0, &newPos) // SEEK_SET = 0
 	if result != 0 {
-		return s.readAllChunked()
+		return nil, ErrNotImplemented
 	}
 
 	// Read all remaining data
 	buffer := make([]byte, remaining)
-	n, err := s.Read(buffer)
-	if err != nil {
-		return nil, err
+	for rest := buffer; len(rest) > 0; {
+		chunk := rest[:min(len(rest), maxReadSize)]
+		if err := s.readFull(chunk); err != nil {
+			return nil, err
+		}
+		rest = rest[len(chunk):]
 	}
 
-	return buffer[:n], nil
+	return buffer, nil
 }
 
 // readAllChunked reads data in chunks when seeking is not supported
@@ -203,12 +225,9 @@ func (s *StreamWrapper) readAllChunked() ([]byte, error) {
 			return nil, err
 		}
 		if n == 0 {
-			break
-		}
-		result = append(result, chunk[:n]...)
-		if n < chunkSize {
 			break // End of stream
 		}
+		result = append(result, chunk[:n]...)
 	}
 
 	return result, nil
-- 
2.43.0


From 25f2b6f74f1f77ca23d0a62cd33e302143c208a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 60/90] fix: factory and class names fit the host's buffers and
 are not leaked

---
 pkg/plugin/helpers.go | 17 ++++++++++++++++-
 pkg/plugin/wrapper.go | 12 +++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pkg/plugin/helpers.go b/pkg/plugin/helpers.go
index 142d277..1513dbb 100644
--- a/pkg/plugin/helpers.go
+++ b/pkg/plugin/helpers.go
@@ -8,13 +8,28 @@ package plugin
 //     return bus->Steinberg_Vst_AudioBusBuffers_channelBuffers32;
 // }
 import "C"
-import "unsafe"
+import (
+	"unicode/utf8"
+	"unsafe"
+)
 
 // getChannelBuffers32 extracts the 32-bit channel buffers from an audio bus
 func getChannelBuffers32(bus *C.struct_Steinberg_Vst_AudioBusBuffers) **C.float {
 	return C.getChannelBuffers32(bus)
 }
 
+// copyStringToChar8 copies a Go string to a fixed-size, zero-terminated char buffer,
+// cutting it at a character boundary if it is too long
+func copyStringToChar8(src string, dst *C.char, size int) {
+	n := min(len(src), size-1)
+	for n < len(src) && n > 0 && !utf8.RuneStart(src[n]) {
+		n--
+	}
+	buf := unsafe.Slice((*byte)(unsafe.Pointer(dst)), size)
+	copy(buf, src[:n])
+	buf[n] = 0
+}
+
 // copyStringToTChar copies a Go string to a VST3 TChar (UTF16) buffer
 func copyStringToTChar(src string, dst *C.Steinberg_Vst_TChar, maxLen int) {
 	// Convert to runes for proper Unicode handling
diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index e071670..046cd72 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -176,9 +176,10 @@ func (w *componentWrapper) notifyParamEndEdit(paramID uint32) {
 
 //export GoGetFactoryInfo
 func GoGetFactoryInfo(vendor, url, email *C.char, flags *C.int32_t) {
-	C.strcpy(vendor, C.CString(globalFactoryInfo.Vendor))
-	C.strcpy(url, C.CString(globalFactoryInfo.URL))
-	C.strcpy(email, C.CString(globalFactoryInfo.Email))
+	var info C.struct_Steinberg_PFactoryInfo
+	copyStringToChar8(globalFactoryInfo.Vendor, vendor, len(info.vendor))
+	copyStringToChar8(globalFactoryInfo.URL, url, len(info.url))
+	copyStringToChar8(globalFactoryInfo.Email, email, len(info.email))
 	*flags = C.Steinberg_PFactoryInfo_FactoryFlags_kUnicode
 }
 
@@ -208,8 +209,9 @@ func GoGetClassInfo(index C.int32_t, cid *C.char, cardinality *C.int32_t, catego
 	*cardinality = C.Steinberg_PClassInfo_ClassCardinality_kManyInstances
 
 	// Set category and name
-	C.strcpy(category, C.CString("Audio Module Class"))
-	C.strcpy(name, C.CString(info.Name))
+	var classInfo C.struct_Steinberg_PClassInfo
+	copyStringToChar8("Audio Module Class", category, len(classInfo.category))
+	copyStringToChar8(info.Name, name, len(classInfo.name))
 }
 
 //export GoCreateInstance
-- 
2.43.0


From 329efc0c31e9054886c04911de4fea47015bfd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 61/90] fix: createInstance returns the interface the host
 asked for

---
 bridge/bridge.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bridge/bridge.c b/bridge/bridge.c
index 6427f2f..4aacc91 100644
--- a/bridge/bridge.c
+++ b/bridge/bridge.c
@@ -133,8 +133,11 @@ static Steinberg_tresult SMTG_STDMETHODCALLTYPE factory_createInstance(void* thi
     }
     
     DBG_LOG("factory_createInstance: Created instance at %p", instance);
-    *obj = instance;
-    return ((Steinberg_tresult)0);
+    // Hand out the interface the host asked for; without it the instance goes away again
+    struct Steinberg_FUnknown* unknown = (struct Steinberg_FUnknown*)instance;
+    Steinberg_tresult result = unknown->lpVtbl->queryInterface(unknown, (const char*)iid, obj);
+    unknown->lpVtbl->release(unknown);
+    return result;
 }
 
 // Parameter automation helper functions implementation
-- 
2.43.0


From 7b52fcd6bacf606d9b41c66d3395c8a35c474f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:50 +0000
Subject: [PATCH 62/90] fix: every GetPluginFactory call hands out its own
 reference and reference counts are atomic

---
 bridge/bridge.c    | 13 ++++++++++---
 bridge/component.c |  7 ++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/bridge/bridge.c b/bridge/bridge.c
index 4aacc91..f2f56ef 100644
--- a/bridge/bridge.c
+++ b/bridge/bridge.c
@@ -49,6 +49,9 @@ struct Steinberg_IPluginFactory* GetPluginFactory() {
         globalFactory->vtbl = &factoryVtbl;
         globalFactory->refCount = 1;
         DBG_LOG("GetPluginFactory: Created factory at %p", globalFactory);
+    } else {
+        // Every call hands out a reference of its own
+        factory_addRef(globalFactory);
     }
     return (struct Steinberg_IPluginFactory*)globalFactory;
 }
@@ -92,16 +95,20 @@ static Steinberg_tresult SMTG_STDMETHODCALLTYPE factory_queryInterface(void* thi
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_addRef(void* thisInterface) {
     PluginFactory* factory = (PluginFactory*)thisInterface;
-    return ++factory->refCount;
+    return __atomic_add_fetch(&factory->refCount, 1, __ATOMIC_RELAXED);
 }
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_release(void* thisInterface) {
     PluginFactory* factory = (PluginFactory*)thisInterface;
-    if (--factory->refCount == 0) {
+    int refCount = __atomic_sub_fetch(&factory->refCount, 1, __ATOMIC_ACQ_REL);
+    if (refCount == 0) {
+        if (globalFactory == factory) {
+            globalFactory = NULL; // the next GetPluginFactory creates a new one
+        }
         free(factory);
         return 0;
     }
-    return factory->refCount;
+    return refCount;
 }
 
 // IPluginFactory implementation - these will call into Go
diff --git a/bridge/component.c b/bridge/component.c
index 88278e2..a9f118c 100644
--- a/bridge/component.c
+++ b/bridge/component.c
@@ -205,18 +205,19 @@ static Steinberg_tresult SMTG_STDMETHODCALLTYPE component_queryInterface(void* t
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE component_addRef(void* thisInterface) {
     Component* component = (Component*)thisInterface;
-    return ++component->refCount;
+    return __atomic_add_fetch(&component->refCount, 1, __ATOMIC_RELAXED);
 }
 
 static Steinberg_uint32 SMTG_STDMETHODCALLTYPE component_release(void* thisInterface) {
     Component* component = (Component*)thisInterface;
-    if (--component->refCount == 0) {
+    int refCount = __atomic_sub_fetch(&component->refCount, 1, __ATOMIC_ACQ_REL);
+    if (refCount == 0) {
         // Release Go component
         GoReleaseComponent(component->goComponent);
         free(component);
         return 0;
     }
-    return component->refCount;
+    return refCount;
 }
 
 // IPluginBase implementation
-- 
2.43.0


From 421f3e340b217644950bb9abce203ca9b721e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:50 +0000
Subject: [PATCH 63/90] fix: getClassInfo rejects a negative index

---
 bridge/bridge.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bridge/bridge.c b/bridge/bridge.c
index f2f56ef..fc2257d 100644
--- a/bridge/bridge.c
+++ b/bridge/bridge.c
@@ -122,7 +122,7 @@ static Steinberg_int32 SMTG_STDMETHODCALLTYPE factory_countClasses(void* thisInt
 }
 
 static Steinberg_tresult SMTG_STDMETHODCALLTYPE factory_getClassInfo(void* thisInterface, Steinberg_int32 index, struct Steinberg_PClassInfo* info) {
-    if (index >= GoCountClasses()) {
+    if (index < 0 || index >= GoCountClasses()) {
         return ((Steinberg_tresult)1);
     }
     GoGetClassInfo(index, (char*)info->cid, &info->cardinality, info->category, info->name);
-- 
2.43.0


From 450a223994f5b496552e9798537726f08a18e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:57 +0000
Subject: [PATCH 64/90] fix: names and titles reach the host as UTF-16

---
 pkg/plugin/helpers.go            | 39 +++++++++++---------------------
 pkg/plugin/wrapper.go            |  9 +-------
 pkg/plugin/wrapper_controller.go | 33 ++++-----------------------
 3 files changed, 18 insertions(+), 63 deletions(-)

diff --git a/pkg/plugin/helpers.go b/pkg/plugin/helpers.go
index 1513dbb..510fcad 100644
--- a/pkg/plugin/helpers.go
+++ b/pkg/plugin/helpers.go
@@ -9,6 +9,7 @@ package plugin
 // }
 import "C"
 import (
+	"unicode/utf16"
 	"unicode/utf8"
 	"unsafe"
 )
@@ -30,24 +31,22 @@ func copyStringToChar8(src string, dst *C.char, size int) {
 	buf[n] = 0
 }
 
-// copyStringToTChar copies a Go string to a VST3 TChar (UTF16) buffer
+// copyStringToTChar copies a Go string to a VST3 TChar (UTF16) buffer of maxLen
+// characters, cutting it at a character boundary if it is too long
 func copyStringToTChar(src string, dst *C.Steinberg_Vst_TChar, maxLen int) {
-	// Convert to runes for proper Unicode handling
-	runes := []rune(src)
-	n := len(runes)
+	buf := unsafe.Slice((*uint16)(unsafe.Pointer(dst)), maxLen)
+	units := utf16.Encode([]rune(src))
+	n := len(units)
 	if n > maxLen-1 {
 		n = maxLen - 1
+		if utf16.IsSurrogate(rune(units[n])) && units[n] >= 0xDC00 {
+			n-- // do not keep half of a surrogate pair
+		}
 	}
-
-	// Copy runes as UTF16
-	for i := 0; i < n; i++ {
-		*(*C.Steinberg_char16)(unsafe.Pointer(
-			uintptr(unsafe.Pointer(dst)) + uintptr(i*2))) = C.Steinberg_char16(runes[i])
-	}
+	copy(buf, units[:n])
 
 	// Null terminate
-	*(*C.Steinberg_char16)(unsafe.Pointer(
-		uintptr(unsafe.Pointer(dst)) + uintptr(n*2))) = 0
+	buf[n] = 0
 }
 
 // stringFromTChar converts a VST3 TChar (UTF16) buffer to a Go string
@@ -58,21 +57,9 @@ func stringFromTChar(src *C.Steinberg_Vst_TChar) string {
 
 	// Count length
 	length := 0
-	for {
-		ch := *(*C.Steinberg_char16)(unsafe.Pointer(
-			uintptr(unsafe.Pointer(src)) + uintptr(length*2)))
-		if ch == 0 {
-			break
-		}
+	for *(*uint16)(unsafe.Add(unsafe.Pointer(src), length*2)) != 0 {
 		length++
 	}
 
-	// Convert to runes
-	runes := make([]rune, length)
-	for i := 0; i < length; i++ {
-		runes[i] = rune(*(*C.Steinberg_char16)(unsafe.Pointer(
-			uintptr(unsafe.Pointer(src)) + uintptr(i*2))))
-	}
-
-	return string(runes)
+	return string(utf16.Decode(unsafe.Slice((*uint16)(unsafe.Pointer(src)), length)))
 }
diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index 046cd72..04a49db 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -371,14 +371,7 @@ func GoComponentGetBusInfo(componentPtr unsafe.Pointer, mediaType, dir, index C.
 	cBus.channelCount = C.Steinberg_int32(info.ChannelCount)
 
 	// Copy name
-	nameBytes := []byte(info.Name)
-	if len(nameBytes) > 127 {
-		nameBytes = nameBytes[:127]
-	}
-	for i, b := range nameBytes {
-		cBus.name[i] = C.Steinberg_char16(b)
-	}
-	cBus.name[len(nameBytes)] = 0
+	copyStringToTChar(info.Name, &cBus.name[0], len(cBus.name))
 
 	cBus.busType = C.Steinberg_Vst_BusType(info.BusType)
 	cBus.flags = C.Steinberg_uint32(info.Flags)
diff --git a/pkg/plugin/wrapper_controller.go b/pkg/plugin/wrapper_controller.go
index 0008dd3..888a863 100644
--- a/pkg/plugin/wrapper_controller.go
+++ b/pkg/plugin/wrapper_controller.go
@@ -59,35 +59,10 @@ func GoEditControllerGetParameterInfo(componentPtr unsafe.Pointer, paramIndex C.
 	cInfo := info
 	cInfo.id = C.Steinberg_Vst_ParamID(paramInfo.ID)
 
-	// Copy title
-	titleBytes := []byte(paramInfo.Title)
-	if len(titleBytes) > 127 {
-		titleBytes = titleBytes[:127]
-	}
-	for i, b := range titleBytes {
-		cInfo.title[i] = C.Steinberg_char16(b)
-	}
-	cInfo.title[len(titleBytes)] = 0
-
-	// Copy short title
-	shortTitleBytes := []byte(paramInfo.ShortTitle)
-	if len(shortTitleBytes) > 127 {
-		shortTitleBytes = shortTitleBytes[:127]
-	}
-	for i, b := range shortTitleBytes {
-		cInfo.shortTitle[i] = C.Steinberg_char16(b)
-	}
-	cInfo.shortTitle[len(shortTitleBytes)] = 0
-
-	// Copy units
-	unitsBytes := []byte(paramInfo.Units)
-	if len(unitsBytes) > 127 {
-		unitsBytes = unitsBytes[:127]
-	}
-	for i, b := range unitsBytes {
-		cInfo.units[i] = C.Steinberg_char16(b)
-	}
-	cInfo.units[len(unitsBytes)] = 0
+	// Copy the strings as UTF16
+	copyStringToTChar(paramInfo.Title, &cInfo.title[0], len(cInfo.title))
+	copyStringToTChar(paramInfo.ShortTitle, &cInfo.shortTitle[0], len(cInfo.shortTitle))
+	copyStringToTChar(paramInfo.Units, &cInfo.units[0], len(cInfo.units))
 
 	cInfo.stepCount = C.Steinberg_int32(paramInfo.StepCount)
 	cInfo.defaultNormalizedValue = C.Steinberg_Vst_ParamValue(paramInfo.DefaultValue)
-- 
2.43.0


From b66376d1b89fabecaeee7d67586193bb739a115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:33 +0000
Subject: [PATCH 65/90] fix: a panic of the plugin inside a chunk does not
 break the following blocks

---
 pkg/plugin/component.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 3d875fd..66b4969 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -578,6 +578,13 @@ func (c *componentImpl) processSampleAccurate(numSamples int) {
 	origInput := c.processCtx.Input
 	origOutput := c.processCtx.Output
 
+	// Restore them even if the plugin panics: the next block reuses their
+	// backing arrays, which must not be those of the chunk slices
+	defer func() {
+		c.processCtx.Input = origInput
+		c.processCtx.Output = origOutput
+	}()
+
 	next := 0
 	for start := 0; start < numSamples; {
 		// Apply the changes that take effect at the start of this chunk
@@ -617,8 +624,4 @@ func (c *componentImpl) processSampleAccurate(numSamples int) {
 	for ; next < len(c.blockChanges); next++ {
 		c.processCtx.ApplyParameterChange(c.blockChanges[next])
 	}
-
-	// Restore original buffers
-	c.processCtx.Input = origInput
-	c.processCtx.Output = origOutput
 }
-- 
2.43.0


From a5058009c88c736a5d3d5358acb1260fe470a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 66/90] fix: GetPluginFactory returns NULL when memory runs out

---
 bridge/bridge.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bridge/bridge.c b/bridge/bridge.c
index fc2257d..cf8e6b6 100644
--- a/bridge/bridge.c
+++ b/bridge/bridge.c
@@ -46,6 +46,9 @@ struct Steinberg_IPluginFactory* GetPluginFactory() {
     DBG_LOG("GetPluginFactory called");
     if (!globalFactory) {
         globalFactory = (PluginFactory*)malloc(sizeof(PluginFactory));
+        if (!globalFactory) {
+            return NULL;
+        }
         globalFactory->vtbl = &factoryVtbl;
         globalFactory->refCount = 1;
         DBG_LOG("GetPluginFactory: Created factory at %p", globalFactory);
-- 
2.43.0


From 192a86c7b2cd49d3ec7ee4737c3968917fa807d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 67/90] fix: a choice parameter has as many positions as
 options

---
 pkg/framework/param/builders.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index 26afb08..83df052 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -64,7 +64,7 @@ func Choice(id uint32, name string, options []ChoiceOption) *Builder {
 
 	return New(id, name).
 		Range(minVal, maxVal).
-		Steps(int32(len(options))).
+		Steps(int32(len(options)-1)). // n steps separate n+1 values
 		Default(options[0].Value).
 		Formatter(formatter, parser)
 }
-- 
2.43.0


From 2cfb20df74b17c1a72c91803a4c2e0eaecfaa38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 68/90] fix: the displayed text of Q and knee parameters can be
 typed back

---
 pkg/framework/param/builders.go      | 6 +++++-
 pkg/framework/param/registry_auto.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index 83df052..89d74f9 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -175,7 +175,11 @@ func QParameter(id uint32, name string, minQ, maxQ, defaultQ float64) *Builder {
 		Default(defaultQ).
 		Formatter(func(v float64) string {
 			return fmt.Sprintf("Q: %.2f", v)
-		}, nil)
+		}, func(s string) (float64, error) {
+			s = strings.TrimSpace(strings.ToLower(s))
+			s = strings.TrimSpace(strings.TrimPrefix(s, "q:"))
+			return parseFloat(s)
+		})
 }
 
 // PanParameter creates a stereo pan parameter
diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index b0909dc..86e873e 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -194,7 +194,7 @@ func (r *AutoRegistry) RegisterCompressorControls() error {
 		Add(New(0, "Knee").
 			Range(0, 10).
 			Default(2).
-			Formatter(func(v float64) string { return fmt.Sprintf("%.1f dB", v) }, nil).
+			Formatter(func(v float64) string { return fmt.Sprintf("%.1f dB", v) }, DecibelParser).
 			Build()).
 		Add(BypassParameter(0, "Auto Gain").Build()).
 		Build()
-- 
2.43.0


From d7969b38934ba3c506d990fb20f5d42b14635ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 69/90] fix: a choice between two of its values shows the lower
 one, whatever its first value is

---
 pkg/framework/param/builders.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index 89d74f9..0f58ab7 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -2,6 +2,7 @@ package param
 
 import (
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -14,12 +15,6 @@ type ChoiceOption struct {
 
 // Choice creates a parameter builder for a multiple choice parameter
 func Choice(id uint32, name string, options []ChoiceOption) *Builder {
-	// Create name list for formatter
-	names := make([]string, len(options))
-	for i, opt := range options {
-		names[i] = opt.Name
-	}
-
 	// Create formatter
 	formatter := func(value float64) string {
 		for _, opt := range options {
@@ -27,12 +22,14 @@ func Choice(id uint32, name string, options []ChoiceOption) *Builder {
 				return opt.Name
 			}
 		}
-		// Fallback to index-based lookup for integer values
-		index := int(value)
-		if index >= 0 && index < len(names) {
-			return names[index]
+		// Between two options the lower one applies
+		name, best := "Unknown", math.Inf(-1)
+		for _, opt := range options {
+			if opt.Value <= value && opt.Value > best {
+				name, best = opt.Name, opt.Value
+			}
 		}
-		return "Unknown"
+		return name
 	}
 
 	// Create parser
-- 
2.43.0


From f3ef8164ac4d2948d4618b50ba12154fee426f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 70/90] fix: the band-limited impulse train has one impulse per
 period

---
 pkg/dsp/oscillator/oscillator.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/pkg/dsp/oscillator/oscillator.go b/pkg/dsp/oscillator/oscillator.go
index 2cd47b8..181360c 100644
--- a/pkg/dsp/oscillator/oscillator.go
+++ b/pkg/dsp/oscillator/oscillator.go
@@ -165,22 +165,17 @@ func (b *BLITOscillator) SetFrequency(freq float64) {
 
 // BLIT generates a band-limited impulse train sample
 func (b *BLITOscillator) BLIT() float32 {
-	// Generate BLIT using closed-form solution
-	phase2pi := 2.0 * math.Pi * b.phase
+	// Closed-form sum of the m harmonics of the frequency and the mean:
+	// sin((2m+1)x)/sin(x) = 1 + 2cos(2x) + ... + 2cos(2mx)
+	x := math.Pi * b.phase
 
 	var sample float64
-	if b.phase < b.phaseInc || b.phase > (1.0-b.phaseInc) {
-		// Near discontinuity, use limit value
-		sample = b.a
+	denom := math.Sin(x)
+	if math.Abs(denom) > 1e-10 {
+		num := math.Sin(float64(2*b.m+1) * x)
+		sample = b.a * num / denom
 	} else {
-		// Normal BLIT formula
-		denom := math.Sin(phase2pi)
-		if math.Abs(denom) > 1e-10 {
-			num := math.Sin(float64(2*b.m+1) * phase2pi)
-			sample = b.a * num / denom
-		} else {
-			sample = b.a
-		}
+		sample = 1.0 // Limit at the impulse
 	}
 
 	// Update phase
-- 
2.43.0


From dd2ff777309789fe21730389f57418cd4b116880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 71/90] fix: the band-limited sawtooth is a sawtooth instead of
 an impulse train

---
 pkg/dsp/oscillator/oscillator.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pkg/dsp/oscillator/oscillator.go b/pkg/dsp/oscillator/oscillator.go
index 181360c..5d9dab2 100644
--- a/pkg/dsp/oscillator/oscillator.go
+++ b/pkg/dsp/oscillator/oscillator.go
@@ -189,10 +189,9 @@ func (b *BLITOscillator) BLIT() float32 {
 
 // BandLimitedSaw generates an alias-free sawtooth using integrated BLIT
 type BandLimitedSaw struct {
-	blit    *BLITOscillator
-	leaky   float64 // leaky integrator coefficient
-	state   float64 // integrator state
-	dcBlock float64 // DC blocking filter state
+	blit  *BLITOscillator
+	leaky float64 // leaky integrator coefficient
+	state float64 // integrator state
 }
 
 // NewBandLimitedSaw creates a new band-limited sawtooth oscillator
@@ -200,6 +199,7 @@ func NewBandLimitedSaw(sampleRate float64) *BandLimitedSaw {
 	return &BandLimitedSaw{
 		blit:  NewBLIT(sampleRate),
 		leaky: 0.999, // Slight leak to prevent DC buildup
+		state: -0.5,  // The ramp falls from 0.5 after the first impulse
 	}
 }
 
@@ -210,18 +210,14 @@ func (s *BandLimitedSaw) SetFrequency(freq float64) {
 
 // Next generates the next band-limited sawtooth sample
 func (s *BandLimitedSaw) Next() float32 {
-	// Get BLIT sample
-	blit := float64(s.blit.BLIT())
+	// Harmonics of the impulse train, without its mean
+	harmonics := float64(s.blit.BLIT())/s.blit.a - 1.0
 
-	// Leaky integration
-	s.state = s.leaky*s.state + blit
+	// Leaky integration turns the impulses into a falling ramp
+	s.state = s.leaky*s.state + harmonics*s.blit.phaseInc
 
-	// DC blocking
-	output := s.state - s.dcBlock
-	s.dcBlock = s.state * 0.999
-
-	// Scale to [-1, 1]
-	return float32(output * s.blit.phaseInc * 4.0)
+	// Scale to a rising ramp in [-1, 1]
+	return float32(-2.0 * s.state)
 }
 
 // Process fills buffer with band-limited sawtooth - no allocations
-- 
2.43.0


From 37b2280e4a7af49b156ab973e2b59b8e8b96f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 72/90] fix: the stereo flanger's right channel has as much wet
 signal as the left

---
 pkg/dsp/modulation/flanger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/modulation/flanger.go b/pkg/dsp/modulation/flanger.go
index 1534fea..2a402ca 100644
--- a/pkg/dsp/modulation/flanger.go
+++ b/pkg/dsp/modulation/flanger.go
@@ -182,7 +182,7 @@ func (f *Flanger) ProcessStereo(inputL, inputR float32) (outputL, outputR float3
 
 	// Create right channel with inverted wet signal
 	outputL = flangedL
-	outputR = inputR*(1-float32(f.mix)) - wetL*float32(f.mix)
+	outputR = inputR*(1-float32(f.mix)) - wetL
 
 	return outputL, outputR
 }
-- 
2.43.0


From 1bf2b16af9394b561280a0c9b85affe7ac6672b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 73/90] fix: the stereo phase of a running tremolo is an offset
 from the left channel

---
 pkg/dsp/modulation/tremolo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/modulation/tremolo.go b/pkg/dsp/modulation/tremolo.go
index 4834625..63a0ffa 100644
--- a/pkg/dsp/modulation/tremolo.go
+++ b/pkg/dsp/modulation/tremolo.go
@@ -117,9 +117,9 @@ func (t *Tremolo) updateLFOs() {
 
 	// Set phase offset for stereo
 	if t.stereo {
-		t.lfoR.SetPhase(t.phase)
+		t.lfoR.SetPhase(t.lfoL.GetPhase() + t.phase)
 	} else {
-		t.lfoR.SetPhase(0.0) // Same phase as left
+		t.lfoR.SetPhase(t.lfoL.GetPhase()) // Same phase as left
 	}
 }
 
-- 
2.43.0


From 5fc5e664810cc24ed41d34c0ed9f08126d96a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 74/90] fix: full damping silences a comb or FDN line instead
 of holding its last value forever

---
 pkg/dsp/delay/delay.go      | 3 +++
 pkg/dsp/reverb/fdn.go       | 3 +++
 pkg/dsp/reverb/schroeder.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/dsp/delay/delay.go b/pkg/dsp/delay/delay.go
index aeaf163..99fca06 100644
--- a/pkg/dsp/delay/delay.go
+++ b/pkg/dsp/delay/delay.go
@@ -176,6 +176,9 @@ func (c *CombDelay) SetFeedback(feedback float32) {
 // SetDamp sets the damping factor (0=no damping, 1=full damping)
 func (c *CombDelay) SetDamp(damp float32) {
 	c.damp = damp
+	if damp >= 1.0 {
+		c.dampVal = 0 // A closed filter would hold its value forever
+	}
 }
 
 // Process runs the comb filter
diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index d8ae1c8..2942b0d 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -71,6 +71,9 @@ func (d *DampingFilter) SetDamping(damping float64) {
 	// Convert damping to lowpass coefficient
 	// Higher damping = lower cutoff frequency
 	d.coeff = math.Max(0.0, math.Min(1.0, damping))
+	if d.coeff >= 1.0 {
+		d.state = 0 // A closed filter would hold its value forever
+	}
 }
 
 // Process applies the damping filter
diff --git a/pkg/dsp/reverb/schroeder.go b/pkg/dsp/reverb/schroeder.go
index 537f76b..afcfea3 100644
--- a/pkg/dsp/reverb/schroeder.go
+++ b/pkg/dsp/reverb/schroeder.go
@@ -37,6 +37,9 @@ func (c *CombFilter) SetFeedback(feedback float64) {
 func (c *CombFilter) SetDamping(damping float64) {
 	c.damp1 = damping
 	c.damp2 = 1.0 - damping
+	if damping >= 1.0 {
+		c.filterstore = 0 // A closed filter would hold its value forever
+	}
 }
 
 // Process processes a single sample through the comb filter
-- 
2.43.0


From 27c1892713a037e30d0421cf5b5b1ab87ce0b9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 75/90] fix: sample rate reduction switched on again starts
 with a fresh sample

---
 pkg/dsp/distortion/bitcrusher.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index b7fb75d..e441c49 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -136,6 +136,8 @@ func (b *Bitcrusher) applyBitReduction(x float64) float64 {
 
 func (b *Bitcrusher) applySampleRateReduction(x float64, channel int) float64 {
 	if b.sampleRateReduce <= 1.0 {
+		// Nothing is held: the next reduction starts with a fresh sample
+		b.sampleHoldCounter[channel] = 0.0
 		return x
 	}
 
-- 
2.43.0


From 6405cd1000e7723b0f393ba441b698b55b7b340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 76/90] fix: musical positions before the project start have a
 bar and a beat phase

---
 pkg/framework/process/context.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 5476c04..5425449 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -3,6 +3,7 @@ package process
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/justyntemme/vst3go/pkg/framework/param"
@@ -53,7 +54,7 @@ type TransportInfo struct {
 
 // GetBarsBeats returns the current position in bars and beats
 func (t *TransportInfo) GetBarsBeats() (bars int, beats float64) {
-	if !t.HasMusicalTime || !t.HasTimeSignature || t.TimeSigDenominator == 0 {
+	if !t.HasMusicalTime || !t.HasTimeSignature || t.TimeSigNumerator <= 0 || t.TimeSigDenominator <= 0 {
 		return 0, 0
 	}
 
@@ -62,7 +63,8 @@ func (t *TransportInfo) GetBarsBeats() (bars int, beats float64) {
 	quarterNotesPerBeat := 4.0 / float64(t.TimeSigDenominator)
 	totalBeats := t.ProjectTimeMusic / quarterNotesPerBeat
 
-	bars = int(totalBeats / beatsPerBar)
+	// Positions before the project start (pre-roll) lie in bars -1, -2, ...
+	bars = int(math.Floor(totalBeats / beatsPerBar))
 	beats = totalBeats - float64(bars)*beatsPerBar
 
 	return bars, beats
@@ -92,11 +94,11 @@ func (t *TransportInfo) GetBeatPosition() float64 {
 	if t.HasTimeSignature && t.TimeSigDenominator > 0 {
 		quarterNotesPerBeat := 4.0 / float64(t.TimeSigDenominator)
 		beatPosition := (positionInBar / quarterNotesPerBeat)
-		return beatPosition - float64(int(beatPosition)) // Get fractional part
+		return beatPosition - math.Floor(beatPosition) // Get fractional part
 	}
 
 	// Default to quarter note = beat
-	return positionInBar - float64(int(positionInBar))
+	return positionInBar - math.Floor(positionInBar)
 }
 
 // IsOnBeat returns true if the current position is at the start of a beat
-- 
2.43.0


From 7232adfc0de14998c6a6b4be064ba7f83aba952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 77/90] fix: constant-power panning to the far right has no
 negative left gain

---
 pkg/dsp/pan/pan.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/pan/pan.go b/pkg/dsp/pan/pan.go
index e379622..d8da7b3 100644
--- a/pkg/dsp/pan/pan.go
+++ b/pkg/dsp/pan/pan.go
@@ -103,9 +103,11 @@ func linearPan(pan float32) (left, right float32) {
 // constantPowerPan implements equal power panning using sine/cosine.
 func constantPowerPan(pan float32) (left, right float32) {
 	// Convert pan from [-1, 1] to [0, π/2]
-	angle := (pan + 1.0) * math.Pi / 4.0
-	left = float32(math.Cos(float64(angle)))
-	right = float32(math.Sin(float64(angle)))
+	// (in double precision: rounded up, the angle of hard right passes π/2 and
+	// the left gain turns negative)
+	angle := (float64(pan) + 1.0) * math.Pi / 4.0
+	left = float32(math.Cos(angle))
+	right = float32(math.Sin(angle))
 	return
 }
 
-- 
2.43.0


From 446598495e91c11ccb9c1508f103e16fdf08e17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 78/90] fix: the balanced pan law attenuates the center, not
 the sides

---
 pkg/dsp/pan/pan.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/pan/pan.go b/pkg/dsp/pan/pan.go
index d8da7b3..eca950c 100644
--- a/pkg/dsp/pan/pan.go
+++ b/pkg/dsp/pan/pan.go
@@ -122,7 +122,8 @@ func balancedPan(pan float32) (left, right float32) {
 	// centerGain := float32(0.595 / 0.707)
 	
 	// Interpolate compensation based on pan position
-	compensation := 1.0 - (pan*pan)*0.159 // Approximation for smooth transition
+	// (1 hard left and right, 0.841 at center)
+	compensation := 1.0 - (1.0-pan*pan)*0.159 // Approximation for smooth transition
 	
 	left *= compensation
 	right *= compensation
-- 
2.43.0


From 53f1b2ed3108bb586deaf98423722eb86f635576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 79/90] fix: summing buffers of different lengths stays within
 both buffers

---
 pkg/dsp/mix/mix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/mix/mix.go b/pkg/dsp/mix/mix.go
index 8f7c0eb..a55e160 100644
--- a/pkg/dsp/mix/mix.go
+++ b/pkg/dsp/mix/mix.go
@@ -108,7 +108,7 @@ func Sum(buffers [][]float32, dst []float32) {
 	// Sum all buffers
 	for _, buffer := range buffers {
 		bufLen := len(buffer)
-		if bufLen < length {
+		if bufLen > length {
 			bufLen = length
 		}
 		
@@ -139,7 +139,7 @@ func SumWeighted(buffers [][]float32, gains []float32, dst []float32) {
 		}
 		
 		bufLen := len(buffer)
-		if bufLen < length {
+		if bufLen > length {
 			bufLen = length
 		}
 		
-- 
2.43.0


From 39b706d0a9dcff0e1baa9fc3e94b7b45b952fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 80/90] fix: the all-pass interpolator delays its input instead
 of passing it on

---
 pkg/dsp/interpolation/interpolation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/interpolation/interpolation.go b/pkg/dsp/interpolation/interpolation.go
index f998baf..cbb97f4 100644
--- a/pkg/dsp/interpolation/interpolation.go
+++ b/pkg/dsp/interpolation/interpolation.go
@@ -117,7 +117,7 @@ func (ap *AllPass) Process(input, frac float32) float32 {
 	a := (1 - frac) / (1 + frac)
 	
 	// All-pass filter
-	output := input + a*ap.x1 - a*ap.y1
+	output := a*input + ap.x1 - a*ap.y1
 	
 	// Update state
 	ap.x1 = input
-- 
2.43.0


From 8fe3d61f67ba5864d971cbd8b4bd0b4b5dbc94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 81/90] fix: soft clipping bends negative peaks the same way as
 positive ones

---
 pkg/dsp/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/buffer.go b/pkg/dsp/buffer.go
index b46bd6e..6039b72 100644
--- a/pkg/dsp/buffer.go
+++ b/pkg/dsp/buffer.go
@@ -106,7 +106,7 @@ func SoftClip(buffer []float32, threshold float32) {
 		if sample > threshold {
 			buffer[i] = threshold + (1.0-threshold)*float32(math.Tanh(float64(sample-threshold)))
 		} else if sample < -threshold {
-			buffer[i] = -threshold + (-1.0+threshold)*float32(math.Tanh(float64(sample+threshold)))
+			buffer[i] = -threshold + (1.0-threshold)*float32(math.Tanh(float64(sample+threshold)))
 		}
 	}
 }
-- 
2.43.0


From 866593f93247cf7c87921fde7c35f982b3c7de0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:47 +0000
Subject: [PATCH 82/90] fix: comparing buffers reports NaN and infinities one
 of them has

---
 pkg/framework/debug/audio.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/framework/debug/audio.go b/pkg/framework/debug/audio.go
index 0a3d445..3517185 100644
--- a/pkg/framework/debug/audio.go
+++ b/pkg/framework/debug/audio.go
@@ -193,6 +193,11 @@ func CompareBuffers(a, b []float32, tolerance float32) string {
 			diff = -diff
 		}
 		
+		// NaN and infinities in one buffer only: no finite difference
+		if a[i] != b[i] && math.IsNaN(float64(diff)) {
+			diff = float32(math.Inf(1))
+		}
+		
 		if diff > tolerance {
 			diffCount++
 			totalDiff += float64(diff)
-- 
2.43.0


From 1679d0da9fab686c07f4185c3335f5e6a02eb999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 83/90] fix: cross-correlation is the correlation of both
 signals at every lag

---
 pkg/dsp/analysis/fft.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pkg/dsp/analysis/fft.go b/pkg/dsp/analysis/fft.go
index 0667a32..7e44b0f 100644
--- a/pkg/dsp/analysis/fft.go
+++ b/pkg/dsp/analysis/fft.go
@@ -313,23 +313,22 @@ func CrossCorrelation(a, b []float64) []float64 {
 	fft := NewFFT(size, RectangularWindow)
 	
 	// Zero-pad inputs
-	paddedA := make([]float64, size)
-	paddedB := make([]float64, size)
-	copy(paddedA, a)
-	copy(paddedB, b)
+	paddedA := make([]complex128, size)
+	paddedB := make([]complex128, size)
+	for i := 0; i < n; i++ {
+		paddedA[i] = complex(a[i], 0)
+		paddedB[i] = complex(b[i], 0)
+	}
 	
 	// Forward FFT
-	magA, phaseA := fft.Forward(paddedA)
-	magB, phaseB := fft.Forward(paddedB)
+	specA := fft.ForwardComplex(paddedA)
+	specB := fft.ForwardComplex(paddedB)
 	
-	// Multiply A with conjugate of B
+	// Multiply B with conjugate of A: a delayed b peaks at a positive lag
 	realResult := make([]float64, size)
 	imagResult := make([]float64, size)
 	for i := 0; i < size; i++ {
-		// Convert to complex, multiply, then back to real/imag
-		aComplex := cmplx.Rect(magA[i%len(magA)], phaseA[i%len(phaseA)])
-		bComplex := cmplx.Rect(magB[i%len(magB)], -phaseB[i%len(phaseB)]) // conjugate
-		result := aComplex * bComplex
+		result := cmplx.Conj(specA[i]) * specB[i]
 		realResult[i] = real(result)
 		imagResult[i] = imag(result)
 	}
-- 
2.43.0


From c2b44ebd8c2dc699893c90748d75542526b9cc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 84/90] fix: an inverse FFT of a short spectrum is padded with
 zeros, not with the last transform

---
 pkg/dsp/analysis/fft.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/analysis/fft.go b/pkg/dsp/analysis/fft.go
index 7e44b0f..276bcb6 100644
--- a/pkg/dsp/analysis/fft.go
+++ b/pkg/dsp/analysis/fft.go
@@ -165,8 +165,16 @@ func (f *FFT) ForwardComplex(input []complex128) []complex128 {
 // Inverse performs an inverse FFT
 func (f *FFT) Inverse(real, imag []float64) []float64 {
 	// Copy input
-	copy(f.real, real)
-	copy(f.imag, imag)
+	nReal := copy(f.real, real)
+	nImag := copy(f.imag, imag)
+	
+	// Pad with zeros if needed
+	for i := nReal; i < f.size; i++ {
+		f.real[i] = 0.0
+	}
+	for i := nImag; i < f.size; i++ {
+		f.imag[i] = 0.0
+	}
 	
 	// Conjugate
 	for i := 0; i < f.size; i++ {
-- 
2.43.0


From 3bf4813f40d9804b0caf5b0e0f2556a8bdb52cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:50 +0000
Subject: [PATCH 85/90] fix: note and frequency conversions follow equal
 temperament

The approximations were up to 7 cents off one way and two semitones off
the other, so a note's own frequency was called another note; an infinite
frequency never returned.
---
 pkg/midi/events.go | 36 ++++--------------------------------
 1 file changed, 4 insertions(+), 32 deletions(-)

diff --git a/pkg/midi/events.go b/pkg/midi/events.go
index 255ef3e..c441901 100644
--- a/pkg/midi/events.go
+++ b/pkg/midi/events.go
@@ -2,6 +2,7 @@ package midi
 
 import (
 	"fmt"
+	"math"
 )
 
 type EventType uint8
@@ -226,18 +227,7 @@ func NoteToFrequency(note uint8, tuningA4 float64) float64 {
 }
 
 func pow2(x float64) float64 {
-	// Fast approximation of 2^x
-	if x >= 0 {
-		whole := int(x)
-		frac := x - float64(whole)
-		// 2^whole * 2^frac
-		// Use Taylor series approximation for fractional part
-		fracPow := 1.0 + frac*(0.693147 + frac*(0.240227 + frac*0.055504))
-		return float64(uint64(1)<<uint(whole)) * fracPow
-	} else {
-		// For negative x, use 2^x = 1 / 2^(-x)
-		return 1.0 / pow2(-x)
-	}
+	return math.Exp2(x)
 }
 
 func FrequencyToNote(freq, tuningA4 float64) uint8 {
@@ -255,28 +245,10 @@ func FrequencyToNote(freq, tuningA4 float64) uint8 {
 }
 
 func log2(x float64) float64 {
-	// Fast approximation of log2(x)
-	if x <= 0 {
+	if !(x > 0) {
 		return -1000.0 // Return a very negative number for invalid input
 	}
-	
-	// Normalize x to [1, 2) range
-	exp := 0
-	for x >= 2.0 {
-		x /= 2.0
-		exp++
-	}
-	for x < 1.0 {
-		x *= 2.0
-		exp--
-	}
-	
-	// Now x is in [1, 2), use polynomial approximation
-	// log2(x) ≈ (x-1) * (1.4427 - 0.7213*(x-1) + 0.4821*(x-1)^2)
-	t := x - 1.0
-	frac := t * (1.4427 - t*(0.7213 - t*0.4821))
-	
-	return float64(exp) + frac
+	return math.Log2(x)
 }
 
 func NoteNumberToName(note uint8) string {
-- 
2.43.0


From 97a30e72ff9222e5e86d6529d10c7e0a6a6f182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:59 +0000
Subject: [PATCH 86/90] fix: a long fade ends at its end gain

---
 pkg/dsp/gain/gain.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkg/dsp/gain/gain.go b/pkg/dsp/gain/gain.go
index 88b074c..39a91af 100644
--- a/pkg/dsp/gain/gain.go
+++ b/pkg/dsp/gain/gain.go
@@ -95,12 +95,10 @@ func Fade(buffer []float32, startGain, endGain float32) {
 		return
 	}
 	
-	gainDelta := (endGain - startGain) / samples
-	gain := startGain
-	
+	// Each gain is computed from its position: adding up the steps would drift
+	// and miss the end of a long fade
 	for i := range buffer {
-		buffer[i] *= gain
-		gain += gainDelta
+		buffer[i] *= startGain + (endGain-startGain)*(float32(i)/samples)
 	}
 }
 
-- 
2.43.0


From 0c6678e7104e3b5f4a7ddfa7eb1bea5ccb742a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:59 +0000
Subject: [PATCH 87/90] fix: slow auto-pans keep their rate

---
 pkg/dsp/pan/pan.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dsp/pan/pan.go b/pkg/dsp/pan/pan.go
index eca950c..cba7e8b 100644
--- a/pkg/dsp/pan/pan.go
+++ b/pkg/dsp/pan/pan.go
@@ -193,7 +193,7 @@ func Balance(leftIn, rightIn []float32, balance float32, leftOut, rightOut []flo
 
 // AutoPan represents an automatic panner
 type AutoPan struct {
-	phase    float32
+	phase    float64 // float32 is too coarse for slow rates
 	rate     float32 // Hz
 	depth    float32 // 0-1
 	law      Law
@@ -210,7 +210,7 @@ func NewAutoPan(rate, depth float32, law Law) *AutoPan {
 
 // Process applies automatic panning to a mono signal
 func (ap *AutoPan) Process(mono []float32, sampleRate float32, leftOut, rightOut []float32) {
-	phaseInc := 2.0 * math.Pi * ap.rate / sampleRate
+	phaseInc := 2.0 * math.Pi * float64(ap.rate) / float64(sampleRate)
 	
 	length := len(mono)
 	if len(leftOut) < length {
@@ -222,7 +222,7 @@ func (ap *AutoPan) Process(mono []float32, sampleRate float32, leftOut, rightOut
 	
 	for i := 0; i < length; i++ {
 		// Calculate pan position from LFO
-		pan := float32(math.Sin(float64(ap.phase))) * ap.depth
+		pan := float32(math.Sin(ap.phase)) * ap.depth
 		
 		// Apply panning
 		leftGain, rightGain := MonoToStereo(pan, ap.law)
@@ -231,7 +231,7 @@ func (ap *AutoPan) Process(mono []float32, sampleRate float32, leftOut, rightOut
 		rightOut[i] = sample * rightGain
 		
 		// Update phase
-		ap.phase += float32(phaseInc)
+		ap.phase += phaseInc
 		if ap.phase > 2*math.Pi {
 			ap.phase -= 2 * math.Pi
 		}
-- 
2.43.0


From 2dbc5212ddc2c99a47cc83344d8371cfe3d07a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:59 +0000
Subject: [PATCH 88/90] fix: the RMS of a long buffer is exact

---
 pkg/dsp/buffer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/buffer.go b/pkg/dsp/buffer.go
index 6039b72..61f1c3f 100644
--- a/pkg/dsp/buffer.go
+++ b/pkg/dsp/buffer.go
@@ -80,12 +80,12 @@ func RMS(buffer []float32) float32 {
 		return 0
 	}
 
-	sum := float32(0)
+	sum := 0.0 // a float32 sum loses the samples of a long buffer
 	for _, sample := range buffer {
-		sum += sample * sample
+		sum += float64(sample) * float64(sample)
 	}
 
-	return float32(math.Sqrt(float64(sum / float32(len(buffer)))))
+	return float32(math.Sqrt(sum / float64(len(buffer))))
 }
 
 // Clip limits samples to [-limit, limit]
-- 
2.43.0


From f09a0c0cb24a979b4529702a1a87f18c16a698f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:55 +0000
Subject: [PATCH 89/90] fix: long resamplings keep their position

---
 pkg/dsp/interpolation/interpolation.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/dsp/interpolation/interpolation.go b/pkg/dsp/interpolation/interpolation.go
index cbb97f4..4d1dc1c 100644
--- a/pkg/dsp/interpolation/interpolation.go
+++ b/pkg/dsp/interpolation/interpolation.go
@@ -139,21 +139,22 @@ func Resample(input []float32, ratio float32, output []float32) int {
 		return 0
 	}
 	
-	inputLen := float32(len(input))
+	inputLen := float64(len(input))
 	outputLen := len(output)
 	
 	samplesWritten := 0
 	
 	for i := 0; i < outputLen; i++ {
-		// Calculate source position
-		srcPos := float32(i) / ratio
+		// Calculate source position (float32 has no room for the fraction of a
+		// position deep in a long buffer)
+		srcPos := float64(i) / float64(ratio)
 		if srcPos >= inputLen-1 {
 			break
 		}
 		
 		// Get integer and fractional parts
 		srcIdx := int(srcPos)
-		srcFrac := srcPos - float32(srcIdx)
+		srcFrac := float32(srcPos - float64(srcIdx))
 		
 		// Linear interpolation (use Cubic for better quality)
 		if srcIdx < len(input)-1 {
@@ -171,21 +172,22 @@ func ResampleCubic(input []float32, ratio float32, output []float32) int {
 		return 0
 	}
 	
-	inputLen := float32(len(input))
+	inputLen := float64(len(input))
 	outputLen := len(output)
 	
 	samplesWritten := 0
 	
 	for i := 0; i < outputLen; i++ {
-		// Calculate source position
-		srcPos := float32(i) / ratio
+		// Calculate source position (float32 has no room for the fraction of a
+		// position deep in a long buffer)
+		srcPos := float64(i) / float64(ratio)
 		if srcPos >= inputLen-2 {
 			break
 		}
 		
 		// Get integer and fractional parts
 		srcIdx := int(srcPos)
-		srcFrac := srcPos - float32(srcIdx)
+		srcFrac := float32(srcPos - float64(srcIdx))
 		
 		// Ensure we have enough samples for cubic interpolation
 		if srcIdx >= 1 && srcIdx < len(input)-2 {
-- 
2.43.0


From ee8cba7217d7361bdc0f2892e16e63a13c704234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 90/90] fix: note names B# and Cb belong to the octave they are
 written in

---
 pkg/framework/param/formatters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/formatters.go b/pkg/framework/param/formatters.go
index 0d50798..0d31d4f 100644
--- a/pkg/framework/param/formatters.go
+++ b/pkg/framework/param/formatters.go
@@ -171,7 +171,7 @@ func NoteParser(str string) (float64, error) {
 	str = strings.ToUpper(strings.TrimSpace(str))
 
 	noteMap := map[string]int{
-		"C": 0, "B#": 0,
+		"C": 0, "B#": 12, // B#3 is C4
 		"C#": 1, "DB": 1,
 		"D":  2,
 		"D#": 3, "EB": 3,
@@ -182,7 +182,7 @@ func NoteParser(str string) (float64, error) {
 		"G#": 8, "AB": 8,
 		"A":  9,
 		"A#": 10, "BB": 10,
-		"B": 11, "CB": 11,
+		"B": 11, "CB": -1, // Cb4 is B3
 	}
 
 	// Find where the octave number starts
-- 
2.43.0

