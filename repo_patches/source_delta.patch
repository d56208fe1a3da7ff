From fc6379bebafd8c6722d4f73d420c94ce12c7617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 01/46] fix: restore connections when temporarily_unpatch is
 left with an exception

---
 klang/composite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/klang/composite.py b/klang/composite.py
index b7fdbee..ee3d97d 100644
--- a/klang/composite.py
+++ b/klang/composite.py
@@ -43,10 +43,11 @@ def temporarily_unpatch(block):
     for src, dst in connections:
         src.disconnect(dst)
 
-    yield block
-
-    for src, dst in connections:
-        src.connect(dst)
+    try:
+        yield block
+    finally:
+        for src, dst in connections:
+            src.connect(dst)
 
 
 class Composite(Block):
-- 
2.43.0


From c10eae0877adc196b6d60e7785adc839e25b9009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 02/46] fix: order of internal blocks of a composite depended
 on its relays

---
 klang/composite.py |  9 +++------
 klang/execution.py | 22 +++++++++++++++-------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/klang/composite.py b/klang/composite.py
index ee3d97d..94a53e8 100644
--- a/klang/composite.py
+++ b/klang/composite.py
@@ -71,12 +71,9 @@ class Composite(Block):
             blocks = introspect(self)
 
         with temporarily_unpatch(self):
-            execOrder = determine_execution_order(blocks)
-
-        while self in execOrder:
-            execOrder.remove(self)
-
-        self.execOrder = execOrder
+            # The relays connect the internal blocks with the composite, which
+            # has no part in its own interior.
+            self.execOrder = determine_execution_order(blocks, exclude=self)
 
     def update(self):
         """Execute internal composite blocks."""
diff --git a/klang/execution.py b/klang/execution.py
index 6e7d16a..dd423ba 100644
--- a/klang/execution.py
+++ b/klang/execution.py
@@ -5,7 +5,7 @@ from klang.block import input_neighbors, output_neighbors
 from klang.graph import graph_matrix, topological_sorting
 
 
-def traverse_network(blocks):
+def traverse_network(blocks, exclude=None):
     """Traverse block network and collect vertices and edges. Vertices are
     returned as a list, not as a set, for preserving sequence order / better
     edge case handling.
@@ -13,6 +13,9 @@ def traverse_network(blocks):
     Args:
         blocks (iterable): Starting blocks for graph traversal.
 
+    Kwargs:
+        exclude (Block): Block to leave out together with its connections.
+
     Returns:
         tuple: Network vertices and edges.
     """
@@ -21,23 +24,28 @@ def traverse_network(blocks):
     queue = collections.deque(blocks)
     while queue:
         block = queue.popleft()
+        if block is exclude:
+            continue
+
         if block not in vertices:
             vertices.append(block)
             for successor in output_neighbors(block):
-                edges.add((block, successor))
-                queue.append(successor)
+                if successor is not exclude:
+                    edges.add((block, successor))
+                    queue.append(successor)
 
             for predecessor in input_neighbors(block):
-                edges.add((predecessor, block))
-                queue.append(predecessor)
+                if predecessor is not exclude:
+                    edges.add((predecessor, block))
+                    queue.append(predecessor)
 
     return vertices, edges
 
 
-def determine_execution_order(blocks):
+def determine_execution_order(blocks, exclude=None):
     """Get appropriate execution order for block network."""
     blocks = list(blocks)
-    vertices, edges = traverse_network(blocks)
+    vertices, edges = traverse_network(blocks, exclude)
     if not edges:
         return vertices
 
-- 
2.43.0


From 5c02b6d4be819bf33704eb87e32169e7f1b473ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 03/46] fix: starting a network without any non-composite block

---
 klang/klang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/klang.py b/klang/klang.py
index cf2c6f4..ab69b97 100644
--- a/klang/klang.py
+++ b/klang/klang.py
@@ -33,7 +33,7 @@ def validate_global_execution_order(execOrder, logger):
     """
     flattenedExecOrder = unravel(execOrder)
     counter = collections.Counter(flattenedExecOrder)
-    hasDuplicates = max(counter.values()) > 1
+    hasDuplicates = max(counter.values(), default=0) > 1
     if hasDuplicates:
         fmt = (
             'Found duplicates in flattened execOrder! Following blocks will '
-- 
2.43.0


From 34a2ea5cf0e14c1d5e95a24649c1d8ad1316a655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 04/46] fix: refused addition to a mixer left an additional
 channel

---
 klang/audio/mixer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klang/audio/mixer.py b/klang/audio/mixer.py
index fcbbdb5..e2cbe51 100644
--- a/klang/audio/mixer.py
+++ b/klang/audio/mixer.py
@@ -2,7 +2,7 @@
 from klang.audio.helpers import MONO_SILENCE, STEREO_SILENCE
 from klang.audio.panning import CENTER, panning_amplitudes
 from klang.block import fetch_output, Block
-from klang.connections import Input
+from klang.connections import Input, validate_connection
 
 
 __all__ = ['Mixer', 'StereoMixer']
@@ -52,8 +52,9 @@ class Mixer(Block):
         """Inplace add a new block.output or output to the mixer. Return mixer
         for concatenation.
         """
-        self.add_new_channel()
         output = fetch_output(other)
+        validate_connection(output, Input())
+        self.add_new_channel()
         output.connect(self.inputs[-1])
         return self
 
-- 
2.43.0


From 93571ac9774c62be84f8cdc7327c04d31f6a516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 05/46] fix: block + mixer must extend the mixer for all kinds
 of blocks

---
 klang/block.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/klang/block.py b/klang/block.py
index 584ce70..c4259e8 100644
--- a/klang/block.py
+++ b/klang/block.py
@@ -134,11 +134,12 @@ def pipe_operator(left, right):
 
 def mix_operator(left, right):
     """Mix two audio blocks (or outputs) together with a new Mixer instance.
-    Returns this mixer for concatenation. Only audio outputs can be mixed!
+    Returns this mixer for concatenation. An existing mixer on the right side
+    gets extended. Only audio outputs can be mixed!
 
     Args:
         left (Block or Output or Mixer): Left operand.
-        right (Block or Output): Right operand.
+        right (Block or Output or Mixer): Right operand.
 
     Returns:
         Mixer: Mixer instance.
@@ -150,6 +151,10 @@ def mix_operator(left, right):
         raise TypeError('Can not mix %s with %s' % (left, right))
 
     from klang.audio.mixer import Mixer  # Circular import for comforts
+    if isinstance(right, Mixer):
+        right += left
+        return right
+
     mixer = Mixer(nInputs=0)
     mixer += left
     mixer += right
-- 
2.43.0


From 87a86f0307f45a2736a299f2fa3b4810f356d4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 06/46] fix: extending a ring buffer by more values than its
 length scrambled its content

---
 klang/ring_buffer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/klang/ring_buffer.py b/klang/ring_buffer.py
index e1a19c5..a9eb64d 100644
--- a/klang/ring_buffer.py
+++ b/klang/ring_buffer.py
@@ -88,6 +88,13 @@ class RingBuffer:
         if nValues > self.bufferSize:
             raise ValueError('To many samples!')
 
+        if nValues > self._length:
+            # Only the last values remain, the others get overwritten
+            nSkip = nValues - self._length
+            self.pos = (self.pos + nSkip) % self._length
+            values = values[nSkip:]
+            nValues = self._length
+
         start = self.pos
         stop = start + nValues
         self.data[start:stop] = values
-- 
2.43.0


From da225095c83b3ef465f0ad75661328a49664a04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 07/46] fix: native filters read the wrong samples of strided
 arrays

---
 klang/audio/_filters.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 3430019..910d2a2 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -198,7 +198,7 @@ parse_input_array(PyObject *args)
         return NULL;
     }
 
-    inArray = PyArray_FROM_OT(inArray, NPY_DOUBLE);
+    inArray = PyArray_FROM_OTF(inArray, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     if (PyArray_NDIM(inArray) != 1) {
         PyErr_SetString(PyExc_ValueError, "samples have to be ndim 1!");
         return NULL;
-- 
2.43.0


From ab36b03d917af39e72cb4a2223b60528c9c59bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:05 +0000
Subject: [PATCH 08/46] fix: Python envelope skipped the last samples of its
 stages and left [0, 1]

---
 klang/audio/envelope.py | 52 ++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/klang/audio/envelope.py b/klang/audio/envelope.py
index 89d8502..a13644b 100644
--- a/klang/audio/envelope.py
+++ b/klang/audio/envelope.py
@@ -135,8 +135,9 @@ def calculate_transfer_function(duration, overshoot=DEFAULT_OVERSHOOT):
         tuple: Transfer function coefficients.
     """
     coeff = calculate_coefficient(duration, overshoot)
-    numerator = (coeff, )
-    denominator = (1., coeff - 1.)
+    alpha = 1. - math.exp(-coeff)
+    numerator = (alpha, )
+    denominator = (1., alpha - 1.)
     return numerator, denominator
 
 
@@ -154,7 +155,8 @@ def generator_finished(samples):
     return samples.size < BUFFER_SIZE
 
 
-def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=None):
+def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=None,
+                  minSamples=0):
     """Curve sample generator. Get exponential envelope samples leading from
     `start` -> `target`. Previously generated samples can be incorporated via
     prepend. These values will be prepended to the first yield samples.
@@ -171,30 +173,37 @@ def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=
             shape (exponential <-> linear).
         prepend (array): Samples to prepend in first call. Last, incomplete
             sample buffer from another sample generator.
+        minSamples (int): Minimum number of samples of the curve.
 
     Yields:
-        tuple: Samples array and last filter state (or target value if there was
-        no crossover).
+        tuple: Samples array and last value (or target value if there was no
+        crossover).
     """
     rate = SAMPLING_RATE * duration
-    nSamples = int(time_needed(start, target, rate, overshoot))  # rate -> samples
+    nSamples = math.ceil(time_needed(start, target, rate, overshoot) - 1e-6)  # rate -> samples
+    nSamples = max(nSamples, minSamples)
+    lower = min(start, target)
+    upper = max(start, target)
 
     # Arguments for lfilter
     tf = calculate_transfer_function(rate, overshoot)
-    targetArr = full(BUFFER_SIZE, target + sign(target - start) * overshoot)
-    zi = [start]
+    goal = target + sign(target - start) * overshoot
+    targetArr = full(BUFFER_SIZE, goal)
+    zi = [0.]  # Jump to goal
+    if rate > 0:
+        zi = [start - tf[0][0] * goal]  # First sample = start
 
     # Prepend samples to first output
     if prepend is not None:
         missing = BUFFER_SIZE - prepend.size
         available = min(nSamples, missing)
         tail, zi = lfilter(*tf, targetArr[:available], zi=zi)
-        samples = np.concatenate([prepend, tail])
+        samples = np.concatenate([prepend, np.clip(tail, lower, upper)])
         if generator_finished(samples):
             yield samples, target
             return
 
-        yield samples, zi[0]
+        yield samples, samples[-1]
         nSamples -= available
 
     assert nSamples >= 0
@@ -202,11 +211,12 @@ def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=
     fullCycles, remainder = divmod(nSamples, BUFFER_SIZE)
     for _ in range(fullCycles):
         samples, zi = lfilter(*tf, targetArr, zi=zi)
-        yield samples, zi[0]
+        samples = np.clip(samples, lower, upper)
+        yield samples, samples[-1]
 
     if remainder > 0:
         samples, zi = lfilter(*tf, targetArr[:remainder], zi=zi)
-        yield samples, zi[0]
+        yield np.clip(samples, lower, upper), target
     else:
         yield SENTINEL_ARRAY, target
 
@@ -311,12 +321,12 @@ class Envelope:
         elif self.stage is Stage.ATTACKING:
             self.sampleGenerator = curve_samples(
                 start=self.value, target=UPPER, duration=self.attack,
-                overshoot=self.overshoot, prepend=prepend
+                overshoot=self.overshoot, prepend=prepend, minSamples=1
             )
         elif self.stage is Stage.DECAYING:
             self.sampleGenerator = curve_samples(
                 start=self.value, target=self.sustain, duration=self.decay,
-                overshoot=self.overshoot, prepend=prepend
+                overshoot=self.overshoot, prepend=prepend, minSamples=1
             )
         elif self.stage is Stage.SUSTAINING:
             self.sampleGenerator = constant_samples(
@@ -325,7 +335,7 @@ class Envelope:
         elif self.stage is Stage.RELEASING:
             self.sampleGenerator = curve_samples(
                 start=self.value, target=LOWER, duration=self.release,
-                overshoot=self.overshoot, prepend=prepend
+                overshoot=self.overshoot, prepend=prepend, minSamples=1
             )
 
     def switch_stage(self, stage, prepend=None):
@@ -371,10 +381,14 @@ class Envelope:
         else:
             return self.stage
 
-    def go_to_next_stage(self):
-        """Advance to next envelope stage."""
+    def go_to_next_stage(self, prepend=None):
+        """Advance to next envelope stage.
+
+        Kwargs:
+            prepend (array): Last, incomplete samples of the current stage.
+        """
         nextStage = self.determine_next_stage()
-        self.switch_stage(nextStage)
+        self.switch_stage(nextStage, prepend)
 
     def sample(self, bufferSize=UNUSED):
         """Get next BUFFER_SIZE envelope samples.
@@ -387,7 +401,7 @@ class Envelope:
         """
         samples, self.value = next(self.sampleGenerator)
         while generator_finished(samples):
-            self.go_to_next_stage()
+            self.go_to_next_stage(samples)
             samples, self.value = next(self.sampleGenerator)
 
         return samples
-- 
2.43.0


From 7c364d1e6563f6a119a1c12e639da0c1c19eeae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 09/46] fix: arpeggiator silenced its last note again and again

---
 klang/arpeggiator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/arpeggiator.py b/klang/arpeggiator.py
index 2900ba0..6ce0ac2 100644
--- a/klang/arpeggiator.py
+++ b/klang/arpeggiator.py
@@ -185,6 +185,7 @@ class Arpeggiator(Composite):
             if self.prevNote:
                 noteOff = self.prevNote.silence()
                 self.output.send(noteOff)
+                self.prevNote = None
 
             if self.arpeggio:
                 note = next(self.arpeggio)
-- 
2.43.0


From 2526adf5cf030c3534550bfa08fbd81b84c7163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:44 +0000
Subject: [PATCH 10/46] fix: polyphonic synthesizer left notes hanging when
 released within the same update

---
 klang/audio/synthesizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index b688f77..28e8b32 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -202,6 +202,7 @@ class PolyphonicSynthesizer(Synthesizer):
             #print('Play new note', note)
             voice = next(self.freeVoice)
             voice.input.push(note)
+            voice.currentPitch = note.pitch  # For note-offs before next voice update
         else:
             #print('Kill old note', note)
             for voice in self.voices:
-- 
2.43.0


From c1c300ef58785460d896be5970fc706d3f9f3bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 11/46] fix: sequencer played all steps at once when its phase
 moved back

---
 klang/sequencer.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index b3334b8..a919d22 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -111,6 +111,8 @@ class PizzaSlicer(Block):
         self.outputs = [MessageOutput(owner=self)]
         self.nSlices = nSlices
         self.currentIdx = -1
+        self.currentPhase = 0.
+        self.nAhead = 0  # Slices already sent beyond the current phase
 
     def increment(self):
         """Increment current index by one."""
@@ -119,10 +121,19 @@ class PizzaSlicer(Block):
     def update(self):
         phase = self.input.value
         idx = pizza_slice_number(phase, self.nSlices)
-        missing = (idx - self.currentIdx) % self.nSlices
-        for _ in range(missing):
+        step = (phase - self.currentPhase) % TAU
+        missing = (idx - self.currentIdx + self.nAhead) % self.nSlices
+        if step > .5 * TAU and self.currentIdx >= 0 and missing > 0:
+            # Phase moved backwards (e.g. micro rhythm got removed). Do not
+            # repeat the slices in between.
+            missing -= self.nSlices
+
+        self.currentPhase = phase
+        self.nAhead -= missing
+        while self.nAhead < 0:
             self.increment()
             self.output.send(self.currentIdx)
+            self.nAhead += 1
 
     def __str__(self):
         return '%s(nSlices: %s)' % (type(self).__name__, self.nSlices)
@@ -215,6 +226,7 @@ class Sequence(Composite):
         """Patch microRhythm to sequence."""
         self.disconnect_phase_insert()
         self.phaseOut | microRhythm | self.phaseIn
+        microRhythm.update()  # Otherwise phase would jump back to zero
         self.sequencer.update_internal_exec_order()
 
     def reset_micro_rhythm(self):
-- 
2.43.0


From d6a67ca32a02d893a46a775a02970af86d6c433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:06 +0000
Subject: [PATCH 12/46] fix: looping samples played frames out of order at the
 end of the region

---
 klang/audio/sampling.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index fd0ee98..76eeefd 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -248,7 +248,7 @@ class Sample:
     def trim(self, start=0, stop=None):
         """Trim playback boundaries to [start, stop)."""
         start = int(start)
-        stop = int(stop or self.length)
+        stop = self.length if stop is None else int(stop)
         assert 0 <= start < stop <= self.length  # TODO(atheler): start <= stop?
         self.start = start
         self.stop = stop
@@ -267,22 +267,15 @@ class Sample:
         """Sample callback. Get some new samples for resampler."""
         start = self.currentIndex
         stop = start + nFrames
-        reachedEnd = (stop >= self.stop)
-        if reachedEnd:
-            if self.loop:
-                stop = (stop % self.stop) + self.start
-            else:
-                # Block for future uses
-                stop = self.stop
-
-        self.currentIndex = stop
-        if start <= stop:
-            return self.data[start:stop]
-
-        return np.concatenate([
-            self.data[self.start:stop],
-            self.data[start:self.stop],
-        ])
+        if self.loop:
+            # Continue at the start bound, as many times as necessary
+            period = self.stop - self.start
+            indices = self.start + (np.arange(start, stop) - self.start) % period
+            self.currentIndex = self.start + (stop - self.start) % period
+            return self.data[indices]
+
+        self.currentIndex = stop = min(stop, self.stop)
+        return self.data[start:stop]
 
     def read(self, nFrames=BUFFER_SIZE):
         """Get next samples."""
-- 
2.43.0


From 540acd9f1c4af784f4590e9bf1bb8bcfbed60c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 13/46] fix: audio files with several channels put out
 transposed samples

---
 klang/audio/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index 76eeefd..6ac0f95 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -350,7 +350,9 @@ class AudioFile(Block):
         data = self.sample.read(BUFFER_SIZE)
         self.playing = self.sample.playing
         samples = extend_with_silence(data.T)
-        samples = (samples.T).squeeze()
+        if self.sample.nChannels == MONO:
+            samples = samples.ravel()
+
         self.output.set_value(samples)
 
     def __str__(self):
-- 
2.43.0


From 26c6027c47cff68b1d3286e1f8e8a97aad574f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:49 +0000
Subject: [PATCH 14/46] fix: audio files stopped before the resampler had put
 out its last frames

---
 klang/audio/sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index 6ac0f95..91232aa 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -348,7 +348,8 @@ class AudioFile(Block):
             return self.mute_outputs()
 
         data = self.sample.read(BUFFER_SIZE)
-        self.playing = self.sample.playing
+        # Resampler can hold back frames at the end of the sample
+        self.playing = self.sample.playing or len(data) == BUFFER_SIZE
         samples = extend_with_silence(data.T)
         if self.sample.nChannels == MONO:
             samples = samples.ravel()
-- 
2.43.0


From cb4e052187bbe672c9e0adb6a3aa98234d942691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:18 +0000
Subject: [PATCH 15/46] fix: fade-out left the rest of the buffer in which it
 starts unscaled

---
 klang/audio/klanggeber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index 05ccd10..de8f0d2 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -240,7 +240,7 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
             silence = get_silence((frame_count, dac.nChannels), D_TYPE)
             return silence, pyaudio.paAbort
 
-        if playTime >= fadeOutStart:
+        if fadeout > 0 and playTime + INTERVAL > fadeOutStart:
             outData *= fade_out_envelope(playTime)
 
         if filepath:
-- 
2.43.0


From 0084f046c05980e9a52c497115e6b3ae9fa94d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:29 +0000
Subject: [PATCH 16/46] fix: offline bounce skipped buffers with a channel
 mismatch

---
 klang/audio/klanggeber.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index de8f0d2..94b71b6 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -236,6 +236,9 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
         try:
             outData = dac.collect_samples()
         except ChannelMismatch as err:
+            if offline:
+                raise
+
             logger.error(err, exc_info=True)
             silence = get_silence((frame_count, dac.nChannels), D_TYPE)
             return silence, pyaudio.paAbort
-- 
2.43.0


From 759b3e59090cf41cb61389485140311c863da6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:40 +0000
Subject: [PATCH 17/46] fix: offline bounce of a whole number of buffers could
 lack the last one

---
 klang/audio/klanggeber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index 94b71b6..986fa00 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -261,7 +261,8 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
             msg = 'Offline mode and duration set to INF. You will never get anything.'
             logger.warning(msg)
 
-        nCycles = int(duration * SAMPLING_RATE // BUFFER_SIZE)
+        # Rounding: Multiples of INTERVAL can be off by a floating point error
+        nCycles = int(round(duration * SAMPLING_RATE, 6) // BUFFER_SIZE)
         for _ in ProgressBar.range(nCycles, prefix='Bouncing'):
             stream_callback(None, BUFFER_SIZE, None, 0)
 
-- 
2.43.0


From 6a8a1470e67ed0fb71b72a60821b77e0413b519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:50 +0000
Subject: [PATCH 18/46] fix: progress bar of length one divided by zero

---
 klang/progress_bar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/progress_bar.py b/klang/progress_bar.py
index 6c204ff..9850489 100644
--- a/klang/progress_bar.py
+++ b/klang/progress_bar.py
@@ -28,7 +28,7 @@ class ProgressBar:
 
     def render(self, i) -> str:
         """Render progress bar."""
-        progress = max(0, min(1, i / (self.length - 1)))
+        progress = max(0, min(1, i / max(1, self.length - 1)))
 
         # ETA
         now = self.clock()
-- 
2.43.0


From c925e16ffe05ef6bae6bf83db1ec16db281cb585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:00 +0000
Subject: [PATCH 19/46] fix: silent audio could not be written to a WAV file

---
 klang/audio/wavfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klang/audio/wavfile.py b/klang/audio/wavfile.py
index 0b5a614..5361113 100644
--- a/klang/audio/wavfile.py
+++ b/klang/audio/wavfile.py
@@ -57,7 +57,10 @@ def write_wave(audio, filepath, samplingRate=SAMPLING_RATE, dtype=np.int16):
     audio = np.asarray(audio)
 
     # Scale to full Wertebereich of target bit depth.
-    samples = (normalize_values(audio) * np.iinfo(dtype).max).astype(dtype)
+    if np.any(audio):
+        audio = normalize_values(audio)
+
+    samples = (audio * np.iinfo(dtype).max).astype(dtype)
     m, n = samples.shape
     assert m > n
     scipy.io.wavfile.write(filepath, samplingRate, samples)
-- 
2.43.0


From 895a8a6582cee34bfe6ade3486b9268c5d2d401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:23 +0000
Subject: [PATCH 20/46] fix: network arrays which are not C-contiguous arrive
 with their contents in order

---
 klang/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/network.py b/klang/network.py
index dc361d1..28d6293 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -70,7 +70,7 @@ def array_to_dict(arr):
     """Convert numpy array to JSON compatible dictionary using base 64
     encoding.
     """
-    raw = base64.b64encode(arr.data)
+    raw = base64.b64encode(arr.tobytes())
     return {
         'type': 'ndarray',
         'dtype': str(arr.dtype),
-- 
2.43.0


From 7c9b073036379fb269efef9a0c05414ef7ea9416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:23 +0000
Subject: [PATCH 21/46] fix: empty datagram does not hold back the datagrams
 after it

---
 klang/network.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index 28d6293..afb265a 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -52,16 +52,14 @@ def receive_all_from(sock, bufsize=NETWORK_BUFFER_SIZE):
         bytes: Received data chunks.
     """
     try:
-        # This would be a use case for the Walrus Operator but we want support
-        # for <3.8
-        data = sock.recv(bufsize)
-        while data:
+        while True:
+            # An empty datagram does not mean that there is no more data
+            data = sock.recv(bufsize)
             if len(data) == bufsize:
                 fmt = 'Full input buffer (%d bytes)! Overflow?'
                 LOGGER.warning(fmt, bufsize)
 
             yield data
-            data = sock.recv(bufsize)
     except BlockingIOError:
         return
 
-- 
2.43.0


From 7eb929ef3ac93a4d7373b3f3d55ee63a3a5cb844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:23 +0000
Subject: [PATCH 22/46] fix: datagrams which can not be decoded do not stop the
 network blocks

---
 klang/network.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index afb265a..0afeca8 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -144,15 +144,14 @@ class JsonCourier:
         """Yields all JSON decoded objects."""
         for data in receive_all_from(self.sock):
             #print('Received:', data)
-            string = data.decode()
-            while string:
-                try:
+            try:
+                string = data.decode()
+                while string:
                     obj, stop = self.decoder.raw_decode(string)
                     yield obj
                     string = string[stop:]
-                except json.JSONDecodeError as err:
-                    self.logger.error(err, exc_info=True)
-                    break
+            except Exception as err:  # Anything can come from the network
+                self.logger.error(err, exc_info=True)
 
     def send_object(self, obj):
         """Send object to address as JSON."""
-- 
2.43.0


From 76e5d1bf61b9a2e3c078c65d1accca0d5e133591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:23 +0000
Subject: [PATCH 23/46] fix: network buffer large enough for any datagram

---
 klang/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/network.py b/klang/network.py
index 0afeca8..c505a77 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -11,7 +11,7 @@ from klang.connections import MessageOutput, MessageInput
 from klang.messages import Note
 
 
-NETWORK_BUFFER_SIZE = 1024
+NETWORK_BUFFER_SIZE = 65536
 """int: Network buffer size for receiving datagram messages."""
 
 LOGGER = logging.getLogger(__name__)
-- 
2.43.0


From 61a77485fc590e300e1adf0667d5e03d5d99e4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:12 +0000
Subject: [PATCH 24/46] fix: temperament keys of the musical keyboard raised a
 KeyError

---
 klang/keyboard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 5334f94..33ff89a 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -148,8 +148,8 @@ class MusicalKeyboard(Keyboard):
         except ValueError:
             return
 
-        if 0 <= nr < len(TEMPERAMENTS):
-            self.temperament = TEMPERAMENTS[nr]
+        if 0 <= nr < len(self.TEMPERAMENTS):
+            self.temperament = self.TEMPERAMENTS[nr]
             print('Switched to %s' % self.temperament)
 
     def bypass_other_keys(self, key):
-- 
2.43.0


From d44b4047a83c5d7673c7a118fb44b67c97733577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:12 +0000
Subject: [PATCH 25/46] fix: key release stops the note which was started by
 the key

---
 klang/keyboard.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 33ff89a..e71c161 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -109,13 +109,22 @@ class MusicalKeyboard(Keyboard):
         self.octave = REF_OCTAVE
         self.velocity = 1.
         self.temperament = defaultTemperament
+        self.activeNotes = {}
 
     def play_note(self, char, noteOn=True):
         """Play music note (note-on and note-off)."""
-        pitch = self.CHAR_2_BASE_PITCH[char] + self.octave * DODE
-        frequency = self.temperament.pitch_2_frequency(pitch)
-        velocity = self.velocity if noteOn else self.SILENT
-        note = Note(pitch, velocity=velocity, frequency=frequency)
+        if noteOn or char not in self.activeNotes:
+            pitch = self.CHAR_2_BASE_PITCH[char] + self.octave * DODE
+            frequency = self.temperament.pitch_2_frequency(pitch)
+            velocity = self.velocity if noteOn else self.SILENT
+            note = Note(pitch, velocity=velocity, frequency=frequency)
+        else:
+            # Octave or temperament could have been changed in the meantime
+            note = self.activeNotes.pop(char).silence()
+
+        if noteOn:
+            self.activeNotes[char] = note
+
         self.output.send(note)
 
     def change_octave(self, char):
-- 
2.43.0


From 13c085cdf256bca84a680df22357e729d7e01edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:12 +0000
Subject: [PATCH 26/46] fix: musical keyboard does not leave the range of valid
 pitches

---
 klang/keyboard.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index e71c161..b4aabe8 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -90,6 +90,12 @@ class MusicalKeyboard(Keyboard):
     QUIETER = -.1
     """float: Quieter decrement."""
 
+    LOWEST_OCTAVE = 0
+    """int: Lowest octave. All keys have valid pitches."""
+
+    HIGHEST_OCTAVE = 9
+    """int: Highest octave. All keys have valid pitches."""
+
     TEMPERAMENTS = list(TEMPERAMENTS.values())
     """list: Temperament values. Makes the first 10 temperament accessible."""
 
@@ -131,11 +137,12 @@ class MusicalKeyboard(Keyboard):
         """Change current octave up / down."""
         if char == 'y':
             fmt = 'One octave down to %d'
-            self.octave -= 1
+            octave = self.octave - 1
         else:
             fmt = 'One octave up to %d'
-            self.octave += 1
+            octave = self.octave + 1
 
+        self.octave = clip(octave, self.LOWEST_OCTAVE, self.HIGHEST_OCTAVE)
         print(fmt % self.octave)
 
     def change_velocity(self, char):
-- 
2.43.0


From 5688042ea01f0bb1af7cbb25411f9eda4d33e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:25 +0000
Subject: [PATCH 27/46] fix: MIDI output sends on its channel

---
 klang/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/midi.py b/klang/midi.py
index df26b93..788888f 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -53,7 +53,7 @@ class MidiOut(Block):
 
     def update(self):
         for note in self.input.receive():
-            msg = note_to_midi_message(note)
+            msg = note_to_midi_message(note, self.channel)
             self.midiout.send_message(msg)
 
     def __del__(self):
-- 
2.43.0


From 458e3195001ab3bc774f3d9524a51ba34ab3a159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:25 +0000
Subject: [PATCH 28/46] fix: MIDI note-on of a very quiet note is not a
 note-off

---
 klang/midi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/klang/midi.py b/klang/midi.py
index 788888f..0a18ac1 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -38,6 +38,9 @@ def note_to_midi_message(note, channel=0):
         statusByte = MIDI_NOTE_OFF + channel
 
     velocity = int(note.velocity * 127)
+    if note.on:
+        velocity = max(velocity, 1)  # Note-on with velocity 0 means note-off
+
     return [statusByte, note.pitch, velocity]
 
 
-- 
2.43.0


From 4c82d51248da144c4caace2b36489f568e195a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:37 +0000
Subject: [PATCH 29/46] fix: copy of an FM oscillator has the modulator phase

---
 klang/audio/oscillators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index 912ec3c..0a1e946 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -1,4 +1,6 @@
 """Oscillator audio blocks."""
+import copy
+
 import numpy as np
 from scipy.signal.waveforms import _chirp_phase
 
@@ -225,13 +227,15 @@ class FmOscillator(Oscillator):
         self.output.set_value(samples)
 
     def __deepcopy__(self, memo):
-        return type(self)(
+        ret = type(self)(
             frequency=self.frequency.value,
             intensity=self.intensity,
             modFrequency=self.modulator.frequency.value,
             wave_func=self.wave_func,
             startPhase=self.currentPhase,
         )
+        ret.modulator = copy.deepcopy(self.modulator)
+        return ret
 
 
 class PwmOscillator(Phasor):
-- 
2.43.0


From 2a949fef81c726408d361246de610b6e3e238025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:46 +0000
Subject: [PATCH 30/46] fix: chirp phase does not jump when the chirp has ended

---
 klang/audio/oscillators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index 0a1e946..3082316 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -22,7 +22,7 @@ def chirp_phase(t, freqStart, tEnd, freqEnd, method='linear', vertex_zero=True):
     scipy.signal.waveforms._chirp_phase with constant frequency extension for
     t >= tEnd.
     """
-    if (tEnd <= t[0]) or (freqStart == freqEnd):
+    if freqStart == freqEnd:
         # Only constant frequency
         return TAU * freqEnd * t
 
@@ -32,11 +32,11 @@ def chirp_phase(t, freqStart, tEnd, freqEnd, method='linear', vertex_zero=True):
         # Only chirping
         return phase
 
-    # Mixture between chirp and constant frequency
+    # Constant frequency from the end of the chirp on
     constFreq = (t >= tEnd)
-    mid = constFreq.argmax()
-    phaseOffset = phase[mid] - TAU * freqEnd * t[mid]
-    phase[mid:] = TAU * freqEnd * t[mid:] + phaseOffset
+    endPhase = _chirp_phase(tEnd, f0=freqStart, t1=tEnd, f1=freqEnd,
+                            method=method, vertex_zero=vertex_zero)
+    phase[constFreq] = TAU * freqEnd * (t[constFreq] - tEnd) + endPhase
     return phase
 
 
-- 
2.43.0


From 26f5101d77b6c48ab7d5ac6169e73171646abc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:46 +0000
Subject: [PATCH 31/46] fix: audio clock used its frequency input as number

---
 klang/audio/sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/sync.py b/klang/audio/sync.py
index ca6c27b..482dac8 100644
--- a/klang/audio/sync.py
+++ b/klang/audio/sync.py
@@ -33,7 +33,7 @@ class Clock(Block):
     def update(self):
         t = get_time(BUFFER_SIZE)
         currentPhase = self.phasor.currentPhase
-        phase = (TAU * self.frequency * t + currentPhase) % TAU
+        phase = (TAU * self.frequency.value * t + currentPhase) % TAU
         if self.edge == 'rising':
             active = (phase < self.duty)
         else:
-- 
2.43.0


From a2afbb9bbb3d82648c7479e9cb4a5b4a7b06366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:16 +0000
Subject: [PATCH 32/46] fix: delay effect outputs its echoes, also for delays
 shorter than a buffer

---
 klang/audio/effects.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 7023a79..bcb1e1c 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -169,8 +169,13 @@ class Delay(Block):
             nChannels, _ = new.shape
             new = new.sum(axis=0) / nChannels
 
-        old = self.ring.peek()
-        self.ring.extend(new + self.feedback * old)
+        old = np.empty(new.shape)
+        step = min(BUFFER_SIZE, self.ring.length)
+        for start in range(0, BUFFER_SIZE, step):
+            stop = min(start + step, BUFFER_SIZE)
+            old[start:stop] = self.ring.peek(stop - start)
+            self.ring.extend(new[start:stop] + self.feedback * old[start:stop])
+
         self.output.set_value(blend(new, old, self.drywet))
 
 
-- 
2.43.0


From 6fbb756541d029eec5b703066504e6fe70be0232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:16 +0000
Subject: [PATCH 33/46] fix: validate delay times given as note values

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index bcb1e1c..a24cf75 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -146,12 +146,12 @@ class Delay(Block):
             feedback (float): Amount of feedback.
             drywet (float): Mixture between dry and effected signal.
         """
+        time = compute_duration(time)
         self.validate_delay_time(time)
         super().__init__(nInputs=1, nOutputs=1)
         self.feedback = feedback
         self.drywet = drywet
 
-        time = compute_duration(time)
         length = int(time * SAMPLING_RATE)
         capacity = int(self.MAX_TIME * SAMPLING_RATE)
 
-- 
2.43.0


From 5c045bf32005556985be463fa17116598a17a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 34/46] fix: mono audio files put out silence of a different
 shape when paused

---
 klang/audio/sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index 91232aa..4148440 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -309,6 +309,9 @@ class AudioFile(Block):
         self.sample = Sample(rate, data, *args, **kwargs)
         self.playing = False
         shape = (self.sample.nChannels, BUFFER_SIZE)
+        if self.sample.nChannels == MONO:
+            shape = BUFFER_SIZE
+
         self.silence = get_silence(shape)
         self.mute_outputs()
 
-- 
2.43.0


From 65fd602425810785b51b59cdcb581d95091c0412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 35/46] fix: micro rhythms jumped by one part just below some
 part boundaries

---
 klang/music/rhythm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/klang/music/rhythm.py b/klang/music/rhythm.py
index 00b6fc4..9bf6e11 100644
--- a/klang/music/rhythm.py
+++ b/klang/music/rhythm.py
@@ -99,15 +99,14 @@ def format_notes(notes):
 
 def harmonize(func, phase, n):
     """Extend micro rhythm to full circle TAU."""
-    values = func(n * phase % TAU)
-    offset = int(n * phase / TAU) * TAU
-    return (values + offset) / n
+    part, angle = divmod(n * phase, TAU)
+    return (func(angle) + part * TAU) / n
 
 
 def phrase(func, phase, phrasing, n):
     """Evaluate micro rhythm phase for some phrasing."""
     straight = phase % TAU
-    groove = harmonize(func, phase, n)
+    groove = harmonize(func, straight, n)
     return blend(
         straight,
         groove,
-- 
2.43.0


From 5f71324c81ebc6cb9e39345fc82c703ee5386513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 36/46] fix: scale code of scales with repeated pitches counted
 those twice

---
 klang/music/scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/music/scales.py b/klang/music/scales.py
index 100f3b1..7b233e6 100644
--- a/klang/music/scales.py
+++ b/klang/music/scales.py
@@ -60,7 +60,7 @@ assert np.all(
 def scale_2_code(scale: Sequence[int]) -> int:
     """Get binary scale code for scale."""
     pitches = scale_2_pitches(scale)
-    return MASK[pitches].sum()
+    return MASK[np.unique(pitches)].sum()
 
 
 def code_2_scale(code: int) -> np.ndarray:
-- 
2.43.0


From 48b27b814a4d14c7e0ca7957f2990a0be4dbb952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:19 +0000
Subject: [PATCH 37/46] fix: sample_wave() returns a single next phase for
 varying frequencies

---
 klang/audio/waves.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/waves.py b/klang/audio/waves.py
index bcbc65f..6412e63 100644
--- a/klang/audio/waves.py
+++ b/klang/audio/waves.py
@@ -58,4 +58,6 @@ def sample_wave(frequency, startPhase=0., wave_func=sine, shape=BUFFER_SIZE):
     warnings.warn('sample_wave() function to be deprecated?')
     t = get_time(shape)
     phase = TAU * frequency * t + startPhase
-    return wave_func(phase), wrap(phase[-1] + TAU * frequency * DT)
+    # Frequency may vary over the buffer, the next phase is a single one
+    lastFrequency = np.ravel(frequency)[-1]
+    return wave_func(phase), wrap(phase[-1] + TAU * lastFrequency * DT)
-- 
2.43.0


From 8cf0414ae03b59b9b2e1c070233ca1783e3003bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 38/46] fix: cached panning amplitudes can not be modified by
 who gets them

---
 klang/audio/panning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/panning.py b/klang/audio/panning.py
index a4b1981..3eb8475 100644
--- a/klang/audio/panning.py
+++ b/klang/audio/panning.py
@@ -75,10 +75,12 @@ def panning_amplitudes(panLevel, mode='constant_power', panLaw=None):
             centerValue = np.sqrt(.5 * np.cos(TAU / 8))
             alpha = pan_law_exponent(panLaw, centerValue)
 
-    return np.array([
+    amplitudes = np.array([
         [left ** alpha],
         [right ** alpha],
     ])
+    amplitudes.setflags(write=False)  # Cached and hence shared
+    return amplitudes
 
 
 def pan_signal(signal, panLevel, mode='constant_power', panLaw=None):
-- 
2.43.0


From cb49ac05a81ff5120b36ad59c8a3e7b172f72d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 39/46] fix: number of channels of a sequencer with added
 channels

---
 klang/sequencer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index a919d22..a065102 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -294,7 +294,7 @@ class Sequencer(Composite):
     @property
     def nChannels(self) -> int:
         """Number of channels."""
-        return len(self.pattern)
+        return len(self.sequences)
 
     def apply_micro_rhythm(self, microRhythm, channel):
         """Apply micro rhythm to all or one specific sequence(s)."""
-- 
2.43.0


From 478727c5dc7e2a0bab5ae0f56127602e13b1fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 40/46] fix: dotted quarter and half notes were drawn like
 dotted notes of twice their value

---
 klang/music/note_formatting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/klang/music/note_formatting.py b/klang/music/note_formatting.py
index c27c0c2..4bddc1e 100644
--- a/klang/music/note_formatting.py
+++ b/klang/music/note_formatting.py
@@ -14,7 +14,7 @@ from klang.music.note_values import (
     DOUBLE_DOTTED_THIRTY_SECOND_NOTE, TRIPLE_DOTTED_THIRTY_SECOND_NOTE,
     SIXTY_FOURTH_NOTE, DOTTED_SIXTY_FOURTH_NOTE,
     DOUBLE_DOTTED_SIXTY_FOURTH_NOTE, TRIPLE_DOTTED_SIXTY_FOURTH_NOTE, HALF_NOTE,
-    Tuplet
+    WHOLE_NOTE, Tuplet
 )
 
 
@@ -126,7 +126,7 @@ def hstack(*texts, sep=''):
 def note_head(note):
     """Get note head."""
     return '%s%s' % (
-        WHITE_CIRCLE if note > QUARTER_NOTE else BLACK_CIRCLE,
+        WHITE_CIRCLE if note >= HALF_NOTE else BLACK_CIRCLE,
         DOT if note.numerator == 3 else ' '
     )
 
@@ -135,7 +135,7 @@ def note_beam(note, beamDirection=BEAM_START):
     """Get top part of note stem with beam."""
     nBeams = BEAM_NUMBER[note]
     if nBeams == 0:
-        if note > HALF_NOTE:
+        if note >= WHOLE_NOTE:
             return '  '
 
         return STEM
@@ -171,7 +171,7 @@ def format_note(note, beamDirection=BEAM_START):
     Returns:
         str: Note string.
     """
-    stem = STEM if note <= HALF_NOTE else '  '
+    stem = STEM if note < WHOLE_NOTE else '  '
     return '\n'.join([
         note_beam(note, beamDirection),
         stem,
-- 
2.43.0


From 477c1d51ab7576ecb89a1a64dd6bf8409e16cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 41/46] fix: time signature of a complex metre without a
 grouping

---
 klang/music/note_formatting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/music/note_formatting.py b/klang/music/note_formatting.py
index 4bddc1e..39a4ab0 100644
--- a/klang/music/note_formatting.py
+++ b/klang/music/note_formatting.py
@@ -271,6 +271,7 @@ def format_time_signature(grouping):
         metre = sum_grouping(grouping)
     except TypeError:
         metre = grouping
+        grouping = [metre]
 
     if is_complex(metre):
         grouping = expand(grouping)
-- 
2.43.0


From 801bd05f1b0e46b840eb81656db2846d8282efa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 42/46] fix: beams went on across the bar line after notes as
 long as the bar

---
 klang/music/note_formatting.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/klang/music/note_formatting.py b/klang/music/note_formatting.py
index 39a4ab0..9e98b5b 100644
--- a/klang/music/note_formatting.py
+++ b/klang/music/note_formatting.py
@@ -238,13 +238,12 @@ def _beam_needs_to_end(position, note, metre, groupCrossings):
 
     # Map to bar level
     start = position % metre
-    end = (start + note) % metre
+    end = start + note
 
-    # Wrap around / end of bar
-    if end < start:
+    # End of bar
+    if end >= metre:
         return True
 
-
     # Check group crossings
     for crossing in groupCrossings:
         if start < crossing <= end:
-- 
2.43.0


From 1f525aba3330fca15bb18ec7237d66410e7266bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 43/46] fix: waltzes were grouped as 6/8 and 2/2 as 4/4 bars

---
 klang/music/note_formatting.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/klang/music/note_formatting.py b/klang/music/note_formatting.py
index 9e98b5b..e375164 100644
--- a/klang/music/note_formatting.py
+++ b/klang/music/note_formatting.py
@@ -3,8 +3,8 @@ import collections
 import fractions
 
 from klang.music.metre import (
-    FOUR_FOUR_METRE, THREE_FOUR_METRE, TWO_FOUR_METRE, SIX_EIGHT_METRE,
-    NINE_EIGHT_METRE, is_complex
+    FOUR_FOUR_METRE, TWO_FOUR_METRE, SIX_EIGHT_METRE, NINE_EIGHT_METRE,
+    is_complex
 )
 from klang.music.note_values import (
     QUARTER_NOTE, DOTTED_QUARTER_NOTE, EIGHT_NOTE, DOTTED_EIGHT_NOTE,
@@ -21,7 +21,6 @@ from klang.music.note_values import (
 DEFAULT_GROUPINGS = {
     #FOUR_FOUR_METRE: [HALF_NOTE, HALF_NOTE],
     FOUR_FOUR_METRE: 4 * [QUARTER_NOTE],
-    THREE_FOUR_METRE: 3 * [QUARTER_NOTE],
     TWO_FOUR_METRE: 2 * [QUARTER_NOTE],
     SIX_EIGHT_METRE: 2 * [DOTTED_QUARTER_NOTE],
     NINE_EIGHT_METRE: 3 * [DOTTED_QUARTER_NOTE],
@@ -31,6 +30,15 @@ DEFAULT_GROUPINGS = {
 """dict: Metre (Fraction) -> Common note grouping (list)."""
 
 
+QUALIFIED_GROUPINGS = {
+    (2, 2): 2 * [HALF_NOTE],
+    (3, 4): 3 * [QUARTER_NOTE],
+}
+"""dict: Numerator and denominator (tuple) -> Common note grouping (list). Metres
+which equal another metre, e.g. 3/4 and 6/8.
+"""
+
+
 BEAM_CHARACTERS = [
     '     ',
     '┌─┬─┐',
@@ -318,7 +326,9 @@ def format_notes(notes, grouping=None, metre=FOUR_FOUR_METRE, strech=True,
         raise ValueError('Sub 1/16 notes not supported!')
 
     if grouping is None:
-        grouping = DEFAULT_GROUPINGS[metre]
+        grouping = QUALIFIED_GROUPINGS.get((metre.numerator, metre.denominator))
+        if grouping is None:
+            grouping = DEFAULT_GROUPINGS[metre]
     else:
         metre = sum_grouping(grouping)
 
-- 
2.43.0


From 58244cf6436173831a341c97d19e826aed9bfe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 44/46] fix: sequences of one step never played

---
 klang/sequencer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index a065102..e1372fa 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -112,24 +112,27 @@ class PizzaSlicer(Block):
         self.nSlices = nSlices
         self.currentIdx = -1
         self.currentPhase = 0.
-        self.nAhead = 0  # Slices already sent beyond the current phase
+        self.nAhead = -1  # Slices already sent beyond the current phase
 
     def increment(self):
         """Increment current index by one."""
         self.currentIdx = (self.currentIdx + 1) % self.nSlices
 
     def update(self):
-        phase = self.input.value
+        phase = self.input.value % TAU
         idx = pizza_slice_number(phase, self.nSlices)
+        moved = idx - pizza_slice_number(self.currentPhase, self.nSlices)
         step = (phase - self.currentPhase) % TAU
-        missing = (idx - self.currentIdx + self.nAhead) % self.nSlices
-        if step > .5 * TAU and self.currentIdx >= 0 and missing > 0:
+        if step <= .5 * TAU or self.currentIdx < 0:
+            if phase < self.currentPhase:
+                moved += self.nSlices  # Next turn
+        elif phase > self.currentPhase:
             # Phase moved backwards (e.g. micro rhythm got removed). Do not
             # repeat the slices in between.
-            missing -= self.nSlices
+            moved -= self.nSlices
 
         self.currentPhase = phase
-        self.nAhead -= missing
+        self.nAhead -= moved
         while self.nAhead < 0:
             self.increment()
             self.output.send(self.currentIdx)
-- 
2.43.0


From 53129625b25f90653d3f0f5c3c0cabe78d90746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 45/46] fix: note-offs came late after the note length was
 shortened

---
 klang/note_effects.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/klang/note_effects.py b/klang/note_effects.py
index e7b9c80..2e15aaf 100644
--- a/klang/note_effects.py
+++ b/klang/note_effects.py
@@ -34,6 +34,14 @@ class NoteLengthener(Block, ClockMixin):
             yield note
             self.activeNotes.popleft()
 
+    def schedule(self, entry: Tuple[float, Note]):
+        """Add entry to active notes. Sorted by end, duration may change."""
+        i = len(self.activeNotes)
+        while i > 0 and entry[0] < self.activeNotes[i - 1][0]:
+            i -= 1
+
+        self.activeNotes.insert(i, entry)
+
     def update(self):
         now = self.clock()
         for note in self.outdated_notes(now):
@@ -43,7 +51,7 @@ class NoteLengthener(Block, ClockMixin):
         for note in self.input.receive():
             if note.on:
                 entry = (now + self.duration, note)
-                self.activeNotes.append(entry)
+                self.schedule(entry)
                 self.output.send(note)
 
 
-- 
2.43.0


From ae8f4cf5f548df4d5aa6b807b4a61a3f5db4e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 46/46] fix: limiter forgot sounding notes when its maximum was
 raised or lowered

---
 klang/note_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/note_effects.py b/klang/note_effects.py
index 2e15aaf..88367e4 100644
--- a/klang/note_effects.py
+++ b/klang/note_effects.py
@@ -66,7 +66,7 @@ class MaxNotes(Block):
         self.inputs = [MessageInput(owner=self)]
         self.outputs = [MessageOutput(owner=self)]
         self.nNotes = nNotes
-        self.activeNotes = collections.deque([], maxlen=nNotes + 1)
+        self.activeNotes = collections.deque()
 
     def update(self):
         for newNote in self.input.receive():
-- 
2.43.0

