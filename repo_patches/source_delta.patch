From 0bf77102eb0edf0a975f5e36defbede043e80819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 01/33] fix: refuse notes with a NaN frequency

---
 klang/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/messages.py b/klang/messages.py
index 196508d..b46ddc3 100644
--- a/klang/messages.py
+++ b/klang/messages.py
@@ -29,7 +29,7 @@ class Note(collections.namedtuple('Note', 'pitch velocity frequency')):
             raise ValueError('Invalid velocity %s!' % velocity)
         if frequency is None:
             frequency = temperament.pitch_2_frequency(pitch)
-        if frequency < 0:
+        if not frequency >= 0:
             raise ValueError('Invalid frequency %s!' % frequency)
 
         return super().__new__(cls, pitch, velocity, frequency)
-- 
2.43.0


From 4357be9ba77c20a5995dab9f7ae2d1356068d314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 02/33] fix: keep tremolo envelope in range when its
 coefficients change

---
 klang/audio/effects.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 7023a79..92a4519 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -83,7 +83,7 @@ class Tremolo(Composite):
         smoothness: Value input for envelope shape.
         dutyCycle: dutyCycle relays to lfo.
         lfo: Pulse width modulation lfo.
-        zi: Low pass filter state.
+        lastPwm: Last low pass filtered lfo sample.
     """
 
     def __init__(self, rate: TimeOrNoteValue = 3., depth: float = .8,
@@ -112,7 +112,7 @@ class Tremolo(Composite):
         self.lfo = PwmOscillator(rate)
         self.rate.connect(self.lfo.frequency)
         self.dutyCycle.connect(self.lfo.dutyCycle)
-        self.zi = np.zeros(1)
+        self.lastPwm = 0.
 
     def update(self):
         # Fetch input values
@@ -122,10 +122,14 @@ class Tremolo(Composite):
 
         # Calculate AM-envelope
         decay = max(1e-6, smoothness * min(dutyCycle, 1. - dutyCycle))
-        coeffs = low_pass_coefficients(1. / decay)
+        b, a = low_pass_coefficients(1. / decay)
         self.lfo.update()
         pwm = self.lfo.output.value
-        filteredPwm, self.zi = scipy.signal.lfilter(*coeffs, pwm, zi=self.zi)
+        # The filter state depends on the coefficients, which can change between
+        # two updates. Rebuild it from the last filtered sample.
+        zi = [-a[1] * self.lastPwm]
+        filteredPwm, _ = scipy.signal.lfilter(b, a, pwm, zi=zi)
+        self.lastPwm = filteredPwm[-1]
         env = (1. - depth) + depth * (.5 + .5 * filteredPwm)
 
         # Apply
-- 
2.43.0


From 1ce42117308e0af138745b29b907eff4241aff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:31 +0000
Subject: [PATCH 03/33] fix: do not overwrite the delayed samples before mixing
 them

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 92a4519..4a7ed49 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -173,7 +173,7 @@ class Delay(Block):
             nChannels, _ = new.shape
             new = new.sum(axis=0) / nChannels
 
-        old = self.ring.peek()
+        old = self.ring.peek().copy()  # Gets overwritten by extend()
         self.ring.extend(new + self.feedback * old)
         self.output.set_value(blend(new, old, self.drywet))
 
-- 
2.43.0


From f1bfa91e82e2c32229d1eee4ca9e8394ddbd4914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:31 +0000
Subject: [PATCH 04/33] fix: validate the duration of note valued delay times

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 4a7ed49..80f0998 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -150,12 +150,12 @@ class Delay(Block):
             feedback (float): Amount of feedback.
             drywet (float): Mixture between dry and effected signal.
         """
+        time = compute_duration(time)
         self.validate_delay_time(time)
         super().__init__(nInputs=1, nOutputs=1)
         self.feedback = feedback
         self.drywet = drywet
 
-        time = compute_duration(time)
         length = int(time * SAMPLING_RATE)
         capacity = int(self.MAX_TIME * SAMPLING_RATE)
 
-- 
2.43.0


From b8940268fec78a3dd4378022d9ea57918a760778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:32 +0000
Subject: [PATCH 05/33] fix: play every sample of a looped region once per
 turn, in order

---
 klang/audio/sampling.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index fd0ee98..9698434 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -265,24 +265,17 @@ class Sample:
 
     def callback(self, nFrames=BUFFER_SIZE):
         """Sample callback. Get some new samples for resampler."""
-        start = self.currentIndex
-        stop = start + nFrames
-        reachedEnd = (stop >= self.stop)
-        if reachedEnd:
-            if self.loop:
-                stop = (stop % self.stop) + self.start
-            else:
-                # Block for future uses
-                stop = self.stop
+        if self.loop:
+            # Wrap around the playback region as often as necessary
+            offsets = self.currentIndex - self.start + np.arange(nFrames + 1)
+            indices = self.start + offsets % (self.stop - self.start)
+            self.currentIndex = int(indices[-1])
+            return self.data[indices[:-1]]
 
+        start = self.currentIndex
+        stop = min(start + nFrames, self.stop)
         self.currentIndex = stop
-        if start <= stop:
-            return self.data[start:stop]
-
-        return np.concatenate([
-            self.data[self.start:stop],
-            self.data[start:self.stop],
-        ])
+        return self.data[start:stop]
 
     def read(self, nFrames=BUFFER_SIZE):
         """Get next samples."""
-- 
2.43.0


From 3678c1a01ae7f5799944f42bb3effe6f98e4b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:32 +0000
Subject: [PATCH 06/33] fix: output multi channel audio files channel first

---
 klang/audio/sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index 9698434..13a2c3d 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -349,8 +349,7 @@ class AudioFile(Block):
 
         data = self.sample.read(BUFFER_SIZE)
         self.playing = self.sample.playing
-        samples = extend_with_silence(data.T)
-        samples = (samples.T).squeeze()
+        samples = extend_with_silence(data.T).squeeze()
         self.output.set_value(samples)
 
     def __str__(self):
-- 
2.43.0


From e0168e5507af86a939f086367508680df1e98bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:34 +0000
Subject: [PATCH 07/33] fix: do not share gain and panning lists between mixers
 and their creators

---
 klang/audio/mixer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/audio/mixer.py b/klang/audio/mixer.py
index fcbbdb5..7043a1f 100644
--- a/klang/audio/mixer.py
+++ b/klang/audio/mixer.py
@@ -30,7 +30,7 @@ class Mixer(Block):
 
         assert len(gains) == nInputs
         super().__init__(nInputs=nInputs, nOutputs=1)
-        self.gains = gains
+        self.gains = list(gains)
 
     def add_new_channel(self, gain=DEFAULT_GAIN):
         """Add a new input channel to the mixer."""
@@ -85,7 +85,7 @@ class StereoMixer(Mixer):
         super().__init__(nInputs, gains=gains)
         self.mode = mode
         self.panLaw = panLaw
-        self.pannings = pannings
+        self.pannings = list(pannings)
 
     def add_new_channel(self, gain=DEFAULT_GAIN, panning=CENTER):
         # pylint: disable=arguments-differ
-- 
2.43.0


From 32c150b33c885d759bad4cd8cc0c50db1572f231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 08/33] fix: send all steps up to the current one at the first
 update

---
 klang/sequencer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index b3334b8..24556c9 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -120,6 +120,9 @@ class PizzaSlicer(Block):
         phase = self.input.value
         idx = pizza_slice_number(phase, self.nSlices)
         missing = (idx - self.currentIdx) % self.nSlices
+        if self.currentIdx < 0:  # Nothing sent yet
+            missing = idx + 1
+
         for _ in range(missing):
             self.increment()
             self.output.send(self.currentIdx)
-- 
2.43.0


From bdd01c3a0647f6ccf7dd8d96a6ac474036b170d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 09/33] fix: release polyphonic voices whose note-off arrives
 in the same block

---
 klang/audio/synthesizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index b688f77..3a7c149 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -202,6 +202,7 @@ class PolyphonicSynthesizer(Synthesizer):
             #print('Play new note', note)
             voice = next(self.freeVoice)
             voice.input.push(note)
+            voice.currentPitch = note.pitch
         else:
             #print('Kill old note', note)
             for voice in self.voices:
-- 
2.43.0


From 94a8a37cbce4b3ae2c1e373fa6dd27cd950cd664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 10/33] fix: select tunings by number key from the list of
 temperaments

---
 klang/keyboard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 5334f94..33ff89a 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -148,8 +148,8 @@ class MusicalKeyboard(Keyboard):
         except ValueError:
             return
 
-        if 0 <= nr < len(TEMPERAMENTS):
-            self.temperament = TEMPERAMENTS[nr]
+        if 0 <= nr < len(self.TEMPERAMENTS):
+            self.temperament = self.TEMPERAMENTS[nr]
             print('Switched to %s' % self.temperament)
 
     def bypass_other_keys(self, key):
-- 
2.43.0


From 6df67250cb287e55a97d6d1baf53e84a9303a9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 11/33] fix: end the note a key has started after octave
 changes

---
 klang/keyboard.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 33ff89a..4195bfc 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -109,13 +109,22 @@ class MusicalKeyboard(Keyboard):
         self.octave = REF_OCTAVE
         self.velocity = 1.
         self.temperament = defaultTemperament
+        self.playingNotes = {}
 
     def play_note(self, char, noteOn=True):
-        """Play music note (note-on and note-off)."""
-        pitch = self.CHAR_2_BASE_PITCH[char] + self.octave * DODE
-        frequency = self.temperament.pitch_2_frequency(pitch)
-        velocity = self.velocity if noteOn else self.SILENT
-        note = Note(pitch, velocity=velocity, frequency=frequency)
+        """Play music note (note-on and note-off). A note-off ends the note the
+        key has started, also if octave or tuning have changed since.
+        """
+        if noteOn:
+            pitch = self.CHAR_2_BASE_PITCH[char] + self.octave * DODE
+            frequency = self.temperament.pitch_2_frequency(pitch)
+            note = Note(pitch, velocity=self.velocity, frequency=frequency)
+            self.playingNotes[char] = note
+        elif char in self.playingNotes:
+            note = self.playingNotes.pop(char).silence()
+        else:
+            return
+
         self.output.send(note)
 
     def change_octave(self, char):
-- 
2.43.0


From eae7adca7817f8b1e4a7d248714bc73116b53bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 12/33] fix: render progress bars of length one

---
 klang/progress_bar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/progress_bar.py b/klang/progress_bar.py
index 6c204ff..9850489 100644
--- a/klang/progress_bar.py
+++ b/klang/progress_bar.py
@@ -28,7 +28,7 @@ class ProgressBar:
 
     def render(self, i) -> str:
         """Render progress bar."""
-        progress = max(0, min(1, i / (self.length - 1)))
+        progress = max(0, min(1, i / max(1, self.length - 1)))
 
         # ETA
         now = self.clock()
-- 
2.43.0


From dcb967a962be23a6151dab3aa6c324c1fc023a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 13/33] fix: fade out from the exact start time, also within a
 block

---
 klang/audio/klanggeber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index 05ccd10..9fa9211 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -240,7 +240,7 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
             silence = get_silence((frame_count, dac.nChannels), D_TYPE)
             return silence, pyaudio.paAbort
 
-        if playTime >= fadeOutStart:
+        if playTime + INTERVAL > fadeOutStart:
             outData *= fade_out_envelope(playTime)
 
         if filepath:
-- 
2.43.0


From 847ad4399dea0f313cabbe9933d402ef0178a3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 14/33] fix: continue the phase of chirps after their end

---
 klang/audio/oscillators.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index 912ec3c..e9296cf 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -20,22 +20,15 @@ def chirp_phase(t, freqStart, tEnd, freqEnd, method='linear', vertex_zero=True):
     scipy.signal.waveforms._chirp_phase with constant frequency extension for
     t >= tEnd.
     """
-    if (tEnd <= t[0]) or (freqStart == freqEnd):
+    if (tEnd <= 0) or (freqStart == freqEnd):
         # Only constant frequency
         return TAU * freqEnd * t
 
-    phase = _chirp_phase(t, f0=freqStart, t1=tEnd, f1=freqEnd, method=method,
-                         vertex_zero=vertex_zero)
-    if t[-1] < tEnd:
-        # Only chirping
-        return phase
+    phase = _chirp_phase(np.minimum(t, tEnd), f0=freqStart, t1=tEnd,
+                         f1=freqEnd, method=method, vertex_zero=vertex_zero)
 
-    # Mixture between chirp and constant frequency
-    constFreq = (t >= tEnd)
-    mid = constFreq.argmax()
-    phaseOffset = phase[mid] - TAU * freqEnd * t[mid]
-    phase[mid:] = TAU * freqEnd * t[mid:] + phaseOffset
-    return phase
+    # Constant frequency extension continues the phase reached at tEnd
+    return phase + TAU * freqEnd * np.maximum(t - tEnd, 0.)
 
 
 def sample_phase(frequency, startPhase=0.):
-- 
2.43.0


From 71f38fa8db00868e25a2db9ca09d85d4833dfafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 15/33] fix: composites get their outside connections back when
 sorting fails

temporarily_unpatch() only reconnected the block when the body of the with
statement succeeded.
---
 klang/composite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/klang/composite.py b/klang/composite.py
index b7fdbee..ee3d97d 100644
--- a/klang/composite.py
+++ b/klang/composite.py
@@ -43,10 +43,11 @@ def temporarily_unpatch(block):
     for src, dst in connections:
         src.disconnect(dst)
 
-    yield block
-
-    for src, dst in connections:
-        src.connect(dst)
+    try:
+        yield block
+    finally:
+        for src, dst in connections:
+            src.connect(dst)
 
 
 class Composite(Block):
-- 
2.43.0


From d7ede1067bb0b8312cc9c1165d17c168f0c2ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:04 +0000
Subject: [PATCH 16/33] fix: refuse comb and echo filters without delay

A filter of length 0 divided by zero with its first sample and killed the process.
---
 klang/audio/_filters.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 3430019..ef1537f 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -121,6 +121,11 @@ RingBufferFilter_new(PyTypeObject *type, PyObject *args, PyObject *kwargs)
         return NULL;
     }
 
+    if (length < 1) {
+        PyErr_SetString(PyExc_ValueError, "length has to be at least 1!");
+        return NULL;
+    }
+
     RingBufferFilterObject *self;
     self = (RingBufferFilterObject *) type->tp_alloc(type, 0);
     if (!self) {
-- 
2.43.0


From b4814ad1134735adcff8cbc96af0fbe7f94edcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:04 +0000
Subject: [PATCH 17/33] fix: comb and echo filters read strided arrays and
 refuse what is no array

The filters walk over the input as contiguous memory, but did not ask for a
contiguous array: every second sample of x came out as the first half of x.
An argument which can not be converted crashed the process.
---
 klang/audio/_filters.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index ef1537f..190b4c0 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -203,7 +203,11 @@ parse_input_array(PyObject *args)
         return NULL;
     }
 
-    inArray = PyArray_FROM_OT(inArray, NPY_DOUBLE);
+    inArray = PyArray_FROM_OTF(inArray, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+    if (!inArray) {
+        return NULL;
+    }
+
     if (PyArray_NDIM(inArray) != 1) {
         PyErr_SetString(PyExc_ValueError, "samples have to be ndim 1!");
         return NULL;
-- 
2.43.0


From 539613a08a91a15dab6a9d515d411668e916fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:04 +0000
Subject: [PATCH 18/33] fix: comb and echo filters release their input arrays

Each filtered block of samples was kept in memory forever.
---
 klang/audio/_filters.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 190b4c0..ca38c84 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -210,6 +210,7 @@ parse_input_array(PyObject *args)
 
     if (PyArray_NDIM(inArray) != 1) {
         PyErr_SetString(PyExc_ValueError, "samples have to be ndim 1!");
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -249,6 +250,7 @@ ForwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -259,6 +261,7 @@ ForwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, x[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
@@ -275,6 +278,7 @@ BackwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -285,6 +289,7 @@ BackwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, y[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
@@ -301,6 +306,7 @@ EchoFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -311,6 +317,7 @@ EchoFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, self->alpha * y[i] + x[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
-- 
2.43.0


From fda85d45db6780e86774aaf87083f02fc4122d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 19/33] fix: envelope flags are parsed into ints

The format unit "p" stores an int. Written to a one byte bool it overwrote the
following fields: initialising a running envelope again with its flags set it
back to another stage.
---
 klang/audio/_envelope.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/klang/audio/_envelope.c b/klang/audio/_envelope.c
index 03f469f..ded5db3 100644
--- a/klang/audio/_envelope.c
+++ b/klang/audio/_envelope.c
@@ -523,12 +523,17 @@ Envelope_init(Envelope *self, PyObject *args, PyObject *kwargs)
         "attack", "decay", "sustain", "release", "dt", "overshoot", "retrigger",
         "loop", NULL
     };
+    int retrigger = self->retrigger;  // "p" stores an int, not a bool
+    int loop = self->loop;
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "ddddd|dpp", kwlist, &self->attack,
                 &self->decay, &self->sustain, &self->release, &self->dt, &self->overshoot,
-                &self->retrigger, &self->loop)
+                &retrigger, &loop)
     )
         return -1;
 
+    self->retrigger = retrigger;
+    self->loop = loop;
+
     self->overshoot = clip(self->overshoot, 1e-9, 1e9);  // Headroom
     Envelope_compute_base_values_and_coefficients(self);
     return 0;
-- 
2.43.0


From d553c1d0c62069ebb24d3732bc1cd16595c313b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 20/33] fix: send arrays of any memory order

---
 klang/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/network.py b/klang/network.py
index dc361d1..28d6293 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -70,7 +70,7 @@ def array_to_dict(arr):
     """Convert numpy array to JSON compatible dictionary using base 64
     encoding.
     """
-    raw = base64.b64encode(arr.data)
+    raw = base64.b64encode(arr.tobytes())
     return {
         'type': 'ndarray',
         'dtype': str(arr.dtype),
-- 
2.43.0


From e53efc0834f02213c0abe24cc6065276738d62d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 21/33] fix: receive datagrams of full length

---
 klang/network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index 28d6293..1c99f76 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -11,8 +11,10 @@ from klang.connections import MessageOutput, MessageInput
 from klang.messages import Note
 
 
-NETWORK_BUFFER_SIZE = 1024
-"""int: Network buffer size for receiving datagram messages."""
+NETWORK_BUFFER_SIZE = 65536
+"""int: Network buffer size for receiving datagram messages. The rest of larger
+datagrams gets lost (UDP has at most 65507 bytes).
+"""
 
 LOGGER = logging.getLogger(__name__)
 """Logger: Network module logger."""
-- 
2.43.0


From 0ac148fca03cb50b72a538a0172558fbd21422b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 22/33] fix: quiet MIDI notes are not note-offs

---
 klang/midi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/klang/midi.py b/klang/midi.py
index df26b93..ace7830 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -38,6 +38,9 @@ def note_to_midi_message(note, channel=0):
         statusByte = MIDI_NOTE_OFF + channel
 
     velocity = int(note.velocity * 127)
+    if note.on:
+        velocity = max(velocity, 1)  # Note-on with velocity 0 means note-off
+
     return [statusByte, note.pitch, velocity]
 
 
-- 
2.43.0


From 1f4239652ee7e72b52e9a7dadd3161806bd48e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:15 +0000
Subject: [PATCH 23/33] fix: send MIDI notes on the channel of the block

---
 klang/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/midi.py b/klang/midi.py
index ace7830..0a18ac1 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -56,7 +56,7 @@ class MidiOut(Block):
 
     def update(self):
         for note in self.input.receive():
-            msg = note_to_midi_message(note)
+            msg = note_to_midi_message(note, self.channel)
             self.midiout.send_message(msg)
 
     def __del__(self):
-- 
2.43.0


From 7cf128f3f1bc928151fb9abad7e80a27856bcc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 24/33] fix: clock uses the value of its frequency input

---
 klang/audio/sync.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/sync.py b/klang/audio/sync.py
index ca6c27b..af2d57e 100644
--- a/klang/audio/sync.py
+++ b/klang/audio/sync.py
@@ -3,6 +3,7 @@ from klang.audio.helpers import get_silence, get_time
 from klang.audio.oscillators import Phasor
 from klang.block import Block
 from klang.constants import TAU
+from klang.music.tempo import compute_rate
 
 
 class Clock(Block):
@@ -33,7 +34,8 @@ class Clock(Block):
     def update(self):
         t = get_time(BUFFER_SIZE)
         currentPhase = self.phasor.currentPhase
-        phase = (TAU * self.frequency * t + currentPhase) % TAU
+        frequency = compute_rate(self.frequency.value)
+        phase = (TAU * frequency * t + currentPhase) % TAU
         if self.edge == 'rising':
             active = (phase < self.duty)
         else:
-- 
2.43.0


From 27082afef5740b259923d7362ba3b7a80951a587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 25/33] fix: clock owns its frequency input

---
 klang/audio/sync.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klang/audio/sync.py b/klang/audio/sync.py
index af2d57e..9bf8aeb 100644
--- a/klang/audio/sync.py
+++ b/klang/audio/sync.py
@@ -25,6 +25,8 @@ class Clock(Block):
         self.edge = edge
         self.output.set_value(get_silence(BUFFER_SIZE))
         self.phasor = Phasor(frequency)
+        self.phasor.frequency.owner = self
+        self.inputs = [self.phasor.frequency]
 
     @property
     def frequency(self):
-- 
2.43.0


From 28ec2af5d44753557024c6d20845c3e8b37c9e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:40 +0000
Subject: [PATCH 26/33] fix: kick drum keeps one phase and follows its pitch

---
 klang/audio/synthesizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index 3a7c149..21b65c2 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -9,7 +9,8 @@ import numpy as np
 
 from klang.audio.envelopes import D
 from klang.audio.helpers import DT, MONO_SILENCE, T
-from klang.audio.waves import sample_wave
+from klang.audio.oscillators import sample_phase
+from klang.audio.waves import sine
 from klang.block import Block
 from klang.config import BUFFER_SIZE
 from klang.connections import MessageInput
@@ -280,5 +281,5 @@ class Kick(Block):
 
         frequency, _ = sample_pitch_decay(self.frequency, self.pitchDecay, self.intensity, self.currentTime)
         env, self.currentTime = sample_exponential_decay(self.decay, self.currentTime)
-        signal, self.currentPhase = sample_wave(frequency, startPhase=self.currentPhase)
-        self.output.set_value(env * signal)
+        phase, self.currentPhase = sample_phase(frequency, self.currentPhase)
+        self.output.set_value(env * sine(phase))
-- 
2.43.0


From 1f73cd5f50e21efe848d0f86f3ea14592a3609de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 27/33] fix: audio input works with another number of outputs

The stream is opened with as many channels as the output block has, for input
too. Incoming samples were reshaped to the number of channels of the input
block, which failed in the callback when it differed.
---
 klang/audio/klanggeber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index 9fa9211..a123057 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -223,7 +223,7 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
         if in_data:
             # TODO: Make me, test me
             raw = np.frombuffer(in_data, dtype=D_TYPE)
-            samples = raw.reshape((frame_count, adc.nChannels))
+            samples = raw.reshape((frame_count, -1))  # As many channels as the stream has
             adc.inject_samples(samples)
 
         # Trigger global block execution / propagate audio stream callback
-- 
2.43.0


From ad5b65adc47180afb6bf955aab401b3fad03ba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 28/33] fix: streams without output block have the channels of
 the input block

A stream of zero channels can not be opened.
---
 klang/audio/klanggeber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index a123057..9c92682 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -272,7 +272,7 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
         stream = pa.open(
             rate=SAMPLING_RATE,
             frames_per_buffer=BUFFER_SIZE,
-            channels=dac.nChannels,  # TODO: How to 1x input, 2x outputs?
+            channels=dac.nChannels or adc.nChannels,  # TODO: How to 1x input, 2x outputs?
             format=pyaudio.paFloat32,
             input=(adc.nChannels > 0),
             output=(dac.nChannels > 0),
-- 
2.43.0


From bc12a901d6f5c7a598911d5d5a7c2fc328c01d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 29/33] fix: networks of empty composites can be run

The check for duplicates failed when the flattened execution order is empty.
---
 klang/klang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/klang.py b/klang/klang.py
index cf2c6f4..ab69b97 100644
--- a/klang/klang.py
+++ b/klang/klang.py
@@ -33,7 +33,7 @@ def validate_global_execution_order(execOrder, logger):
     """
     flattenedExecOrder = unravel(execOrder)
     counter = collections.Counter(flattenedExecOrder)
-    hasDuplicates = max(counter.values()) > 1
+    hasDuplicates = max(counter.values(), default=0) > 1
     if hasDuplicates:
         fmt = (
             'Found duplicates in flattened execOrder! Following blocks will '
-- 
2.43.0


From 169a6357bb84ba34e40e62a033f27bf03b460ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 30/33] fix: scales which stay on a pitch have the code of
 their pitches

---
 klang/music/scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/music/scales.py b/klang/music/scales.py
index 100f3b1..5ac88fd 100644
--- a/klang/music/scales.py
+++ b/klang/music/scales.py
@@ -60,7 +60,7 @@ assert np.all(
 def scale_2_code(scale: Sequence[int]) -> int:
     """Get binary scale code for scale."""
     pitches = scale_2_pitches(scale)
-    return MASK[pitches].sum()
+    return MASK[np.unique(pitches)].sum()  # Scales may stay on a pitch
 
 
 def code_2_scale(code: int) -> np.ndarray:
-- 
2.43.0


From 43b45d8cba20277f2ecd00d986cde18a25ced455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 31/33] fix: arpeggiators end each note only once

---
 klang/arpeggiator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/arpeggiator.py b/klang/arpeggiator.py
index 2900ba0..48d35d4 100644
--- a/klang/arpeggiator.py
+++ b/klang/arpeggiator.py
@@ -185,6 +185,7 @@ class Arpeggiator(Composite):
             if self.prevNote:
                 noteOff = self.prevNote.silence()
                 self.output.send(noteOff)
+                self.prevNote = None  # Ended once
 
             if self.arpeggio:
                 note = next(self.arpeggio)
-- 
2.43.0


From 5da8ac08b33d487a6060cb9af2d0950246b67526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:46 +0000
Subject: [PATCH 32/33] fix: copies of modulated oscillators keep the phase of
 their modulator

---
 klang/audio/oscillators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index e9296cf..07903bc 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -218,13 +218,16 @@ class FmOscillator(Oscillator):
         self.output.set_value(samples)
 
     def __deepcopy__(self, memo):
-        return type(self)(
+        oscillator = type(self)(
             frequency=self.frequency.value,
             intensity=self.intensity,
             modFrequency=self.modulator.frequency.value,
             wave_func=self.wave_func,
             startPhase=self.currentPhase,
         )
+        # The modulator goes on from its current phase as well
+        oscillator.modulator.currentPhase = self.modulator.currentPhase
+        return oscillator
 
 
 class PwmOscillator(Phasor):
-- 
2.43.0


From de08c88caa2cc2b5311c08ca2cc1126845cc2f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:09 +0000
Subject: [PATCH 33/33] fix: cached panning amplitudes can not be overwritten
 by callers

---
 klang/audio/panning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/panning.py b/klang/audio/panning.py
index a4b1981..03b1d16 100644
--- a/klang/audio/panning.py
+++ b/klang/audio/panning.py
@@ -75,10 +75,12 @@ def panning_amplitudes(panLevel, mode='constant_power', panLaw=None):
             centerValue = np.sqrt(.5 * np.cos(TAU / 8))
             alpha = pan_law_exponent(panLaw, centerValue)
 
-    return np.array([
+    amplitudes = np.array([
         [left ** alpha],
         [right ** alpha],
     ])
+    amplitudes.setflags(write=False)  # Cached: same array for all callers
+    return amplitudes
 
 
 def pan_signal(signal, panLevel, mode='constant_power', panLaw=None):
-- 
2.43.0

