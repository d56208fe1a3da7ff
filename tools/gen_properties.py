#!/usr/bin/env python3
"""Writes properties.jsonl (one source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    anchors = {'files': files,
               'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = list(observe)
    anchors['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': anchors})

prop('C01', 'Both ends of every connection always agree, and refusals change nothing',
  'After any sequence of connect, disconnect and pipe requests, an input or relay has at most one source, and it names that source exactly when the source lists it among its destinations. '
  'A connection is only ever made from an output or relay to an input or relay of the same kind (value or message), a second source is refused while one is attached, and disconnecting a pair that is not connected is refused. '
  'A refused request raises an error and leaves every connection in the patch exactly as it was.',
  ['histories', 'inputs'], 'all sequences of connect/disconnect/pipe requests over any set of outputs, inputs and relays of both kinds, called from either end',
  'The unit tests connect and disconnect single pairs; they never check the whole patch after a refused request, nor long interleavings of fan-out, relays and re-patching.',
  ['klang/connections.py', 'klang/block.py'],
  [('make_connection / validate_connection', 'klang/connections.py:make_connection'), ('break_connection', 'klang/connections.py:break_connection'), ('pipe_operator', 'klang/block.py:pipe_operator')],
  [('incomingConnection', 'the one source of an input', 'klang/connections.py:InputBase'), ('outgoingConnections', 'set of destinations of an output', 'klang/connections.py:OutputBase')],
  ['connected', 'incomingConnection', 'outgoingConnections', 'is_connected', 'are_connected'])

prop('C02', 'A value input always reads its current source, through any relay chain',
  'Reading a value input or relay gives the value most recently set on the output (or unconnected relay) at the head of its chain of connections, however many relays lie in between and whatever was re-patched before. '
  'Without a source it gives the value most recently set on itself, also after having been disconnected from a source. '
  'Setting a value on one end never changes what unrelated ends read.',
  ['histories', 'inputs'], 'all interleavings of set, connect, disconnect and read over outputs, relays and inputs without relay loops',
  'Tests read one freshly made chain; fallback values after re-patching and fan-out over relay trees are never sampled.',
  ['klang/connections.py'],
  [('Input.value / Input.get_value', 'klang/connections.py:Input'), ('Relay', 'klang/connections.py:Relay'), ('_ValueContainer', 'klang/connections.py:_ValueContainer')],
  [('_value', 'own fallback value', 'klang/connections.py:_ValueContainer')], ['value', 'get_value', 'set_value'])

prop('C03', 'Messages reach every connected input exactly once, in order, bounded',
  'A message sent from an output (or relay) is queued exactly once at every message input that is connected to it at that moment, directly or through relays, and at no other. '
  'Each input hands out its messages in sending order, each once; when more than 50 are waiting it has dropped the oldest ones and kept the newest 50, and asking for the latest message gives the newest one and empties the queue. '
  'Connecting, disconnecting and other inputs\' reading never add, lose or reorder queued messages.',
  ['histories', 'inputs'], 'all interleavings of send, push, receive (complete or partial), receive-latest, connect and disconnect over outputs, relays and inputs',
  'Tests send a handful of messages over one connection; overflow, partial reads, relay trees and re-patching with messages waiting are not reached.',
  ['klang/connections.py', 'klang/note_effects.py'],
  [('MessageOutput.send', 'klang/connections.py:MessageOutput'), ('_MessageQueue', 'klang/connections.py:_MessageQueue'), ('MessageRelay.push', 'klang/connections.py:MessageRelay'), ('MessageMixer', 'klang/note_effects.py:MessageMixer')],
  [('queue', 'waiting messages of an input', 'klang/connections.py:_MessageQueue')], ['receive()', 'receive_latest()', 'queue'])

prop('C04', 'Every block runs exactly once per cycle, after everything it depends on',
  'The execution order of a network contains every block that is connected, directly or transitively and in any direction, to the given blocks, each exactly once, whatever the wiring order and whichever blocks are given. '
  'A block never runs before a block that feeds it, except in a feedback loop, where the skipped connection must be closed by a path of respected connections leading back from the consumer to the producer. '
  'An engine cycle updates the blocks in exactly that order.',
  ['programs', 'inputs'], 'all block networks (value and message connections, self connections, parallel connections, cycles, several components) and all choices of starting blocks',
  'Tests cover a handful of fixed graphs; the orderings depend on discovery order and on where cycles are entered, which needs all small graphs.',
  ['klang/execution.py', 'klang/graph.py', 'klang/klang.py', 'klang/block.py'],
  [('traverse_network / determine_execution_order', 'klang/execution.py'), ('find_back_edges / topological_sorting', 'klang/graph.py'), ('run_klang', 'klang/klang.py:run_klang')],
  [], ['order returned', 'order of update() calls'])

prop('C05', 'Composites run their interior in dependency order and leave outer wiring intact',
  'Updating a composite updates each block of its interior exactly once and in dependency order (feedback inside the interior excepted as for whole networks), never blocks outside it nor the composite itself, and this also holds for composites nested in composites and for composites that are already patched into an outer network. '
  'Determining the interior order, or temporarily unpatching a block, leaves every connection as it was before, also when the code running while the block is unpatched raises. '
  'Starting a network in which a block would be updated more than once per cycle gives a warning naming that block and only such blocks.',
  ['programs', 'histories', 'fault_sequences'], 'all interiors reached through input and output relays, all outer wirings, nesting, all orders of wiring, and exceptions while unpatched',
  'Tests build one or two composites by hand and do not vary the wiring order, outer feedback, relays feeding several interior blocks, or failures.',
  ['klang/composite.py', 'klang/execution.py', 'klang/klang.py'],
  [('Composite.update_internal_exec_order', 'klang/composite.py:Composite'), ('temporarily_unpatch', 'klang/composite.py:temporarily_unpatch'), ('introspect', 'klang/composite.py:introspect'), ('validate_global_execution_order', 'klang/klang.py')],
  [('execOrder', 'interior order', 'klang/composite.py:Composite')], ['update() calls', 'connections before and after'])

prop('C06', 'Mixers contain exactly the channels added, scaled by gain and averaged',
  'Adding signals with the plus operator (block + block, mixer + block, block + mixer, +=) yields a mixer whose channels are exactly the added signals in order of addition, each connected once, and adding to an existing mixer extends that mixer. '
  'On every update the output is the sum over channels of gain times the channel\'s current signal, divided by the number of channels when there is more than one; a mixer without channels outputs silence. '
  'The stereo mixer does the same per side, a mono channel panned hard left or right appearing on that side only with full gain and a two-channel signal keeping its sides apart; mixing never modifies the incoming signals.',
  ['histories', 'inputs'], 'all sequences of add-channel, plus, gain/panning changes, signal changes and updates with up to many channels',
  'Tests mix one or two fixed signals; operand order, growing a mixer while running and aliasing of inputs are not covered.',
  ['klang/audio/mixer.py', 'klang/block.py', 'klang/audio/panning.py'],
  [('mix_operator', 'klang/block.py:mix_operator'), ('Mixer.update / __iadd__', 'klang/audio/mixer.py:Mixer'), ('StereoMixer.update', 'klang/audio/mixer.py:StereoMixer')],
  [('gains, pannings', 'per-channel settings', 'klang/audio/mixer.py')], ['output value', 'inputs and their sources'])

prop('C07', 'The ring buffer is an exact delay line for every read/write history',
  'Writing values one at a time or in chunks of any size up to the declared buffer size, peeking shows, for every position up to min(length, buffer size), the value written exactly length positions earlier (zero before anything was written). '
  'Peek-and-extend returns those old values and then stores the new ones, unaffected by the overwrite; chunks larger than the buffer size and lengths above capacity are refused without changing the contents. '
  'This holds at every wrap-around position, for mono and multi-channel data.',
  ['histories', 'inputs'], 'all interleavings of append, extend, peek, peek-extend with all chunk sizes up to the buffer size and all lengths (at fixed length), including lengths below the buffer size for chunks no longer than the length',
  'Tests check a few lengths and one chunking; the wrap-around copies to head and tail depend on position, length and chunk size together.',
  ['klang/ring_buffer.py'],
  [('RingBuffer.append / extend / peek / peek_extend', 'klang/ring_buffer.py:RingBuffer')],
  [('data, pos', 'samples with shadow tail and read/write position', 'klang/ring_buffer.py')], ['peek()', 'peek_extend()'])

prop('C08', 'Comb and echo filters follow their difference equation for any chunking',
  'The forward comb outputs input plus alpha times the input k samples earlier, the backward comb input plus alpha times its own output k samples earlier, and the echo outputs what was fed into its line k samples earlier, where input plus alpha times that output is fed in; before the beginning everything is zero. '
  'The result depends only on the sequence of samples and not on how it is split into chunks, several filters never influence each other, and the input array is left unchanged. '
  'The native implementation and the Python fallback agree wherever the fallback supports the delay (delay not shorter than a chunk).',
  ['inputs', 'histories'], 'all delays k >= 1, all gains, all input sequences and all chunkings (for the Python fallback: k not shorter than the chunk)',
  'Tests filter one impulse with one delay in one or few chunks; carry-over of state across chunk borders is a matter of all (k, chunking, position) combinations.',
  ['klang/audio/_filters.c', 'klang/audio/filters.py', 'klang/ring_buffer.py'],
  [('filter methods', 'klang/audio/_filters.c'), ('Py*Filter', 'klang/audio/filters.py')],
  [('ring buffer position and data', 'delay line', 'klang/audio/_filters.c')], ['filter(x)'])

prop('C09', 'The envelope walks its stages in order and its level follows the stage',
  'A gate-on starts the attack from silence or release (and from any stage if retriggering is enabled, otherwise is ignored while already on), the level then rises without jumps to full, moves to the sustain level, stays there while held, and a gate-off from any sounding stage falls without jumps to zero, where it stays and the envelope reports inactive. '
  'In loop mode the envelope repeats attack, decay and release while the gate is on and ends after the release once it is off. '
  'The level always stays within zero and one, each stage takes about as long as configured (zero means immediately), and the samples do not depend on the sizes in which they are requested; native and Python implementation agree on stages and level.',
  ['histories', 'configurations', 'inputs'], 'all sequences of gate-on, gate-off and sample requests, all attack/decay/sustain/release/overshoot settings, retrigger and loop on or off',
  'Tests sample single notes with a few parameter sets; gates arriving in the middle of each stage, retrigger/loop combinations and zero durations are not crossed.',
  ['klang/audio/_envelope.c', 'klang/audio/envelope.py', 'klang/audio/envelopes.py'],
  [('gate / stage switching', 'klang/audio/_envelope.c'), ('Envelope.gate / determine_next_stage', 'klang/audio/envelope.py'), ('EnvelopeBase.update', 'klang/audio/envelopes.py')],
  [('stage, value, enabled', 'stage machine', 'klang/audio/envelope.py')], ['sample()', 'active'])

prop('C10', 'A lengthened note gets exactly one note-off, at its due time',
  'Every note-on entering the note lengthener is passed on unchanged in the same update and is followed by exactly one note-off of the same pitch, in the first update at which the clock has advanced since by at least the duration set when the note came, never earlier and never twice. '
  'Note-offs that are due are sent before new note-ons of the same update, in the order in which they fall due (notes due at the same time in the order of their note-ons); incoming note-offs are not passed on. '
  'This holds for any number of overlapping notes, also of equal pitch, any spacing of updates, and when the duration is changed between updates.',
  ['histories', 'schedules', 'inputs'], 'all sequences of updates at non-decreasing clock times with any batches of incoming notes and any changes of the duration between updates',
  'No test at all covers the lengthener\'s pairing over time; sequencer tests only look at the pattern lookup.',
  ['klang/note_effects.py', 'klang/clock.py'],
  [('NoteLengthener.update / outdated_notes', 'klang/note_effects.py:NoteLengthener'), ('ClockMixin', 'klang/clock.py')],
  [('activeNotes', 'pending note-offs with due time', 'klang/note_effects.py')], ['messages on the output'])

prop('C11', 'The note limiter never lets more than its maximum of notes sound',
  'At every moment the number of note-ons the limiter has sent and not yet silenced is at most its maximum, and equals the number of note-ons received as long as that is not larger than the maximum. '
  'When a note-on would exceed the maximum, the note that has sounded longest is silenced (exactly once, same pitch) immediately before the new one is sent; note-ons are all forwarded unchanged and in order. '
  'A maximum changed between updates holds from the next note-on on: as many of the longest sounding notes are silenced as needed. No other messages are sent.',
  ['histories', 'inputs'], 'all sequences of incoming notes in all batchings, all maxima >= 1, equal pitches included',
  'No test covers the limiter.',
  ['klang/note_effects.py'], [('MaxNotes.update', 'klang/note_effects.py:MaxNotes')],
  [('activeNotes', 'sounding notes, oldest first', 'klang/note_effects.py')], ['messages on the output'])

prop('C12', 'The arpeggiator cycles the held notes in its order and pairs on with off',
  'The held notes are a set by pitch: a note-on adds its pitch unless held, a note-off removes it, other note-offs are ignored; stepping visits the held notes according to the chosen order (up, down, up-down, down-up, alternating, or one fixed shuffle), cycling without skipping or repeating, and keeps its place (modulo the number of steps) while notes come and go. '
  'The arpeggiator makes at most one step per update, exactly when its phase wraps; at a step it first silences the note it had last started (exactly once) and then starts the next held note, if any. '
  'So at most one of its notes sounds at any time and none is left sounding after a step with no notes held.',
  ['histories', 'inputs'], 'all sequences of note-on, note-off and updates, all orders, all sets of held notes, all step rates',
  'Tests step through a few static chords; changes of the held notes between steps and the on/off pairing are not covered.',
  ['klang/arpeggiator.py'],
  [('Arpeggio', 'klang/arpeggiator.py:Arpeggio'), ('arpeggio_index_permutation', 'klang/arpeggiator.py'), ('Arpeggiator.update', 'klang/arpeggiator.py:Arpeggiator')],
  [('notes, permutation, current', 'held notes and cycle position', 'klang/arpeggiator.py'), ('prevNote', 'note sounding', 'klang/arpeggiator.py')], ['next()', 'messages on the output'])

prop('C13', 'The monophonic synthesizer plays the held note its policy prefers',
  'While keys are held, the note given to the single voice after each key event is the held note the policy prefers (newest pressed, oldest pressed, highest or lowest), and when the last key is released the voice is gated off. '
  'Releasing one of several held keys falls back to the preferred one among those still held, releasing a key that is not held changes nothing, and a pitch pressed several times needs as many releases. '
  'The voice sounds the frequency and velocity of that note, is silent exactly when idle, and processes each note once.',
  ['histories', 'inputs'], 'all sequences of note-on/note-off with arbitrary pitches and velocities (repeated pitches included), all policies, any batching over updates',
  'Tests try short sequences per policy; heap order after removals from the middle and ties need all histories.',
  ['klang/audio/synthesizer.py', 'klang/audio/voices.py'],
  [('NoteScheduler', 'klang/audio/synthesizer.py:NoteScheduler'), ('MonophonicSynthesizer', 'klang/audio/synthesizer.py:MonophonicSynthesizer'), ('Voice.process_incoming_notes', 'klang/audio/voices.py:Voice')],
  [('notes', 'held notes as a heap', 'klang/audio/synthesizer.py')], ['note passed to the voice', 'voice frequency/amplitude/envelope'])

prop('C14', 'Every held note of the polyphonic synthesizer has its own voice until released',
  'Each note-on is given to exactly one voice, voices being used in rotation, so the 24 most recently started notes each have a voice of their own; a note-off gates off every voice that is playing that pitch and no voice playing another pitch, also when on and off arrive within the same update. '
  'Consequently after every note has been released all voices end up inactive and the output is silent. '
  'Voices are independent copies of the template, and the output is the sum of the active voices divided by the number of voices.',
  ['histories', 'inputs'], 'all sequences of note-on/note-off in all batchings over updates, more notes than voices, repeated pitches',
  'Tests start one or two notes; stealing, same-update on/off and repeated pitches are not covered.',
  ['klang/audio/synthesizer.py', 'klang/audio/voices.py', 'klang/audio/envelopes.py', 'klang/audio/oscillators.py'],
  [('PolyphonicSynthesizer.process_note / update', 'klang/audio/synthesizer.py:PolyphonicSynthesizer'), ('duplicate_voice', 'klang/audio/synthesizer.py'), ('Voice', 'klang/audio/voices.py')],
  [('currentPitch', 'pitch a voice is playing', 'klang/audio/voices.py')], ['voice states', 'output value'])

prop('C15', 'The sequencer plays every pattern step once per cycle, in order and on time',
  'Running from the start, a sequence emits the notes of each step exactly once per cycle, in pattern order, at the first update at which its phase has reached that step (several at once if several steps were passed); rests emit nothing, chords emit all their notes, and every note is silenced after the note length. '
  'The step duration is the grid value relative to the beat value at the given tempo, and channels run independently, each at its own speed, with their own output or, merged, through a common output in channel order. '
  'Inserting a micro rhythm shifts steps within the cycle only (no step lost, doubled or reordered), and removing it restores the straight timing.',
  ['histories', 'schedules', 'inputs'], 'all patterns (one step, rests, chords, several channels, different lengths), tempi, grids, update counts, and micro rhythms applied or removed at a cycle start',
  'Tests check slice numbers and the pattern lookup in isolation; no test runs a sequencer over time.',
  ['klang/sequencer.py', 'klang/note_effects.py', 'klang/audio/oscillators.py', 'klang/music/rhythm.py'],
  [('PizzaSlicer.update', 'klang/sequencer.py:PizzaSlicer'), ('PatternLookup.update', 'klang/sequencer.py:PatternLookup'), ('Sequence / Sequencer', 'klang/sequencer.py'), ('MicroRhyhtm.warp', 'klang/music/rhythm.py')],
  [('currentIdx', 'current step', 'klang/sequencer.py')], ['messages on the outputs'])

prop('C16', 'Sample playback delivers the trimmed region in order, and loops seamlessly',
  'Successive reads of a sample deliver its frames from the start bound up to but excluding the stop bound, in order and each exactly once; without looping reads then become shorter and finally empty, and the sample stops being reported as playing. '
  'With looping every read is complete and after the last frame playback continues at the start bound without a missing, doubled or reordered frame, for any read size and region. '
  'Rewinding and trimming move the position to the start bound respectively into the bounds, and invalid bounds are refused. '
  'At another playback speed, which may change between reads, the crude resamplers take that many times the frames per read and spread them evenly, continuing at the next frame.',
  ['histories', 'inputs'], 'all lengths, trim bounds, read sizes (also larger than the region), mono and multi-channel data, loop on/off, and sequences of read, rewind and trim',
  'The loop test only looks at chunk sizes, never at the frames delivered.',
  ['klang/audio/sampling.py'], [('Sample.callback / trim / rewind', 'klang/audio/sampling.py:Sample'), ('CrudeResampler.read', 'klang/audio/sampling.py:CrudeResampler')],
  [('currentIndex, start, stop', 'playback position and bounds', 'klang/audio/sampling.py')], ['frames returned', 'playing'])

prop('C17', 'The audio file transport plays, pauses, stops and rewinds without losing frames',
  'While playing, each update outputs the next buffer of the file\'s frames per channel (mono as one signal, stereo as left and right signal), padded with silence at the end, after which the block stops by itself; while not playing it outputs silence and the position does not move. '
  'Pause followed by play continues at exactly the next frame, rewind and stop return to the beginning, and the reported position is the time of the frames played. '
  'The frames are those stored in the 16 bit file, scaled to [-1, 1), for mono and stereo files; the interpolating resampler may delay them by one frame.',
  ['histories', 'inputs'], 'all sequences of play, pause, stop, rewind and update, files of any length and one or two channels, mono mix-down on or off',
  'Tests play one file from beginning to end looking only at zero/non-zero output.',
  ['klang/audio/sampling.py', 'klang/audio/wavfile.py'], [('AudioFile', 'klang/audio/sampling.py:AudioFile'), ('load_wave', 'klang/audio/wavfile.py:load_wave'), ('extend_with_silence', 'klang/audio/sampling.py')],
  [('playing', 'transport state', 'klang/audio/sampling.py'), ('currentIndex', 'position', 'klang/audio/sampling.py')], ['output value', 'playing', 'playingPosition'])

prop('C18', 'An offline bounce renders exactly the requested time and writes every buffer',
  'Bouncing offline for a duration runs every block once per buffer for as many whole buffers as fit in it, the clock seen by the blocks being zero in the first and advancing by exactly one buffer duration per buffer. '
  'Every buffer reaching the audio output is written to the WAV file, in order and with all its channels, scaled as a whole to full range and by nothing else, except for the fade-out which scales linearly from one at its start to zero at the end of the duration and leaves earlier samples unscaled. '
  'A run in which the signals do not match the number of output channels reports an error instead of writing wrong audio. A live run processes and records its buffers in the same way until the duration is over or the user interrupts it, and releases the sound card at its end, also after an error in a buffer.',
  ['configurations', 'inputs', 'fault_sequences'], 'all durations, fade-outs (also none and not aligned with buffers), one or more output channels, any signal, and channel mismatches at any cycle',
  'No test runs the engine.',
  ['klang/audio/klanggeber.py', 'klang/klang.py', 'klang/clock.py', 'klang/audio/wavfile.py'],
  [('run_audio_engine / stream_callback', 'klang/audio/klanggeber.py:run_audio_engine'), ('run_klang', 'klang/klang.py:run_klang'), ('write_wave', 'klang/audio/wavfile.py:write_wave')],
  [('playTime', 'render position', 'klang/audio/klanggeber.py'), ('capturedFrames', 'buffers for the file', 'klang/audio/klanggeber.py')], ['WAV file', 'update() calls and clock'])

prop('C19', 'The audio output takes its channels from its inputs in order, unaltered',
  'The audio output block flattens its inputs, in input order, into channels (a one-dimensional signal is one channel, a multi-channel signal contributes its channels in order), takes as many as it has output channels and interleaves them frame by frame without changing a sample. '
  'When the inputs do not provide enough channels it refuses with a channel mismatch; unconnected inputs count as silent channels. '
  'The audio input block hands each recorded channel to the output of the same number, all others staying silent.',
  ['inputs', 'configurations'], 'all numbers of channels and inputs and all combinations of mono, stereo and multi-channel signals',
  'Tests cover two or three hand-picked combinations.',
  ['klang/audio/klanggeber.py'], [('Dac.iterate_channels / collect_samples', 'klang/audio/klanggeber.py:Dac'), ('pack_signals', 'klang/audio/klanggeber.py'), ('Adc.inject_samples', 'klang/audio/klanggeber.py:Adc')],
  [], ['collect_samples()', 'outputs of the input block'])

prop('C20', 'Objects sent over the network arrive equal, in order, once; bad data is skipped',
  'Every object sent (numbers, strings, booleans, null, lists and dictionaries of these, notes, arrays) arrives at a receiving message block as an equal object of the same kind, in the order sent and exactly once, all datagrams waiting being delivered by the next update; the value block holds the last object received and keeps it while nothing arrives. '
  'Notes keep pitch, velocity and frequency and arrays their shape, type and contents. '
  'A datagram that cannot be decoded is skipped: the update does not fail and neither earlier nor later datagrams are lost, doubled or changed.',
  ['histories', 'inputs', 'fault_sequences'], 'all sequences of sends, receiver updates and malformed datagrams (invalid JSON, truncated, not UTF-8, invalid notes or arrays), datagrams below the receive buffer size, local sockets without loss',
  'There is no test of the network module at all.',
  ['klang/network.py', 'klang/messages.py'], [('JsonCourier.receive_objects / send_object', 'klang/network.py:JsonCourier'), ('receive_all_from', 'klang/network.py'), ('Note.from_dict / to_dict', 'klang/messages.py:Note')],
  [('socket receive queue', 'datagrams waiting', 'operating system')], ['messages on the output', 'output value'])

prop('C21', 'Every key press makes one note-on and its release the matching note-off',
  'However often the operating system repeats press or release events, each physical key yields alternately one press and one release event. '
  'A musical key emits a note-on with the pitch of the current octave, the current velocity and the current temperament\'s frequency, and its release emits a note-off of exactly the pitch that was started, even when octave, velocity or temperament were changed in between, so no note is left hanging. '
  'Octave, velocity and temperament keys change these settings once per press within their valid range and play no note.',
  ['histories', 'inputs'], 'all sequences of press and release events including auto-repeat and releases without press, over note keys, control keys and other keys',
  'There is no test of the keyboard.',
  ['klang/keyboard.py'], [('Keyboard.on_press / on_release', 'klang/keyboard.py:Keyboard'), ('MusicalKeyboard.play_note and change_*', 'klang/keyboard.py:MusicalKeyboard')],
  [('keyState', 'debounce state', 'klang/keyboard.py'), ('octave, velocity, temperament', 'current settings', 'klang/keyboard.py')], ['messages on the outputs'])

prop('C22', 'MIDI output sends one correct message per note on the configured channel',
  'Each note received is sent exactly once and in order as a three byte MIDI message: status note-on or note-off for the configured channel, the pitch, and the velocity scaled to 0..127. '
  'A sounding note is never turned into a message that a MIDI receiver takes as note-off, and the other way round. '
  'This holds for all sixteen channels.',
  ['inputs', 'histories'], 'all notes (pitch 0..127, velocity 0..1), all channels, all batchings',
  'There is no test of the MIDI module.',
  ['klang/midi.py'], [('note_to_midi_message', 'klang/midi.py'), ('MidiOut.update', 'klang/midi.py:MidiOut')], [], ['bytes sent to the MIDI port'])

prop('C23', 'Oscillator phase is continuous across buffers and independent of clones',
  'For any sequence of frequencies, constant or varying sample by sample, the phase of the first sample of a buffer is the phase reached at the end of the previous one, advanced sample by sample by the frequency in force, always within one turn; a scalar phase source advances by exactly one buffer duration per update. '
  'Changing the frequency never makes the phase jump, nor does a chirp reaching its last frequency. '
  'A copy of an oscillator starts with the same settings and phase, and from then on neither influences the other.',
  ['histories', 'inputs'], 'all sequences of updates, frequency changes (scalars, note values and per-sample arrays) and copies, all oscillator types',
  'Tests compare one or two buffers of a constant frequency.',
  ['klang/audio/oscillators.py', 'klang/audio/waves.py'], [('sample_phase', 'klang/audio/oscillators.py'), ('Phasor / Oscillator / Lfo / FmOscillator / PwmOscillator', 'klang/audio/oscillators.py')],
  [('currentPhase', 'phase carried to the next buffer', 'klang/audio/oscillators.py')], ['output value', 'currentPhase'])

prop('C24', 'Delay effects repeat the input after exactly the delay time, with feedback',
  'The delay effect outputs the dry/wet blend of the current input and the delay line\'s content: the wet part at each sample is what was fed into the line exactly the delay time earlier, namely the input plus feedback times the wet part of that time, and silence before. '
  'The stereo delay does this separately for left and right with their own times and feedbacks, broadcasting mono input; splitting and combining channels passes each through unchanged. '
  'The incoming signals are not modified and a delay time above the maximum is refused.',
  ['histories', 'inputs', 'configurations'], 'all input signals over any number of buffers, all delay times from one buffer to the maximum, feedbacks and blends',
  'No test runs the delay effects.',
  ['klang/audio/effects.py', 'klang/ring_buffer.py'], [('Delay.update', 'klang/audio/effects.py:Delay'), ('StereoDelay', 'klang/audio/effects.py:StereoDelay'), ('AudioSplitter / AudioCombiner', 'klang/audio/effects.py')],
  [('ring', 'delay line', 'klang/audio/effects.py')], ['output value'])

prop('C25', 'Euclidean rhythms have the asked number of pulses, spread as evenly as possible',
  'For every number of slots and every number of pulses between one and that number, the generated rhythm has exactly that many slots and pulses. '
  'The pulses are maximally even: going round the cycle, the distances between neighbouring pulses, and likewise between every second, third, ... neighbour, differ by at most one. '
  'The same arguments always give the same rhythm.',
  ['inputs'], 'all slot counts and pulse counts',
  'There is no test of the rhythm module.',
  ['klang/music/rhythm.py'], [('euclidian_rhythm / _compute_bitmap', 'klang/music/rhythm.py')], [], ['returned pattern'])

prop('C26', 'Tempo, metre and note values convert consistently to durations and rates',
  'The duration of a note value is its ratio to the beat value times the beat period of the tempo, for given or default metre and beat value, so that note values filling a bar add up to the bar period, dotted values last one and a half times and tuplets divide exactly. '
  'Rates are the reciprocals of the durations, while plain numbers pass through unchanged. '
  'The default beat value and the classification of metres (simple, compound, complex, irrational) follow from numerator and denominator as written, without reducing the fraction.',
  ['inputs'], 'all tempi, metres and note values',
  'Tests check single examples of each conversion.',
  ['klang/music/tempo.py', 'klang/music/metre.py', 'klang/music/note_values.py'], [('note_duration / bar_period / compute_duration / compute_rate', 'klang/music/tempo.py'), ('default_beat_value', 'klang/music/metre.py')], [], ['returned values'])

prop('C27', 'Micro rhythms bend the phase within the cycle without a jump, loss or shift of the cycle',
  'A micro rhythm maps the phase of a cycle such that its notes, whatever their durations, take up equal parts, the pattern being repeated as often per cycle as the beat value fits in a whole note (or as often as asked for). '
  'The phrasing, own or connected, blends linearly between the straight phase (zero) and the full rhythm (one). '
  'The mapping starts at zero, never jumps and always moves forward, also at the boundaries of notes, repetitions and cycles, so that every repetition starts exactly on its part of the cycle.',
  ['inputs', 'histories'], 'all note patterns, numbers of repetitions, phrasings (also changing) and phases, including those one rounding step beside a boundary',
  'There is no test of micro rhythms at all; boundaries of repetitions are hit only by particular floating point phases.',
  ['klang/music/rhythm.py'],
  [('harmonize / phrase', 'klang/music/rhythm.py:harmonize'), ('MicroRhyhtm', 'klang/music/rhythm.py:MicroRhyhtm.warp')],
  [], ['warp', 'output.value'])

prop('C28', 'The reverb is the mean of echos at consecutive prime delays, blended with the input',
  'The reverb consists of the asked number of comb (or other) filters, whose delays are the consecutive prime numbers from the pre-delay on, none left out and none twice; each has the gain with which its echos decay at the same rate as those of all others. '
  'The output is the dry/wet blend of the input and the mean of the filter outputs, continued over buffers without a seam, for every input; several reverbs do not influence each other and the input is not modified. '
  'The search for the next primes gives the right numbers in whatever order it is asked.',
  ['histories', 'inputs'], 'all numbers of echos, pre-delays, decays (none, endless, any), mixes, filter types and input histories over many buffers',
  'Tests look at some small primes only; the reverb has no test, and its tail spans many buffers.',
  ['klang/audio/effects.py', 'klang/primes.py', 'klang/audio/filters.py'],
  [('Reverb', 'klang/audio/effects.py:Reverb'), ('find_next_primes', 'klang/primes.py:find_next_primes')],
  [], ['output.value'])

prop('C29', 'Filters and modulation effects continue seamlessly over buffers and changes of settings',
  'The filter block filters every channel by itself with the coefficients designed for its current frequency (limited to the audible range), its memory continuing from buffer to buffer and through changes of frequency. '
  'The ring modulator multiplies the input with an oscillator whose frequency is the base frequency plus the amount times the LFO, blended with the dry signal; the tremolo scales it between one and one minus depth by a pulse of the given rate and duty cycle, smoothed by a low pass that runs on over buffers. '
  'Settings, whether set directly or connected, take effect from the next buffer on without restarting anything, mono and stereo signals are treated alike and never modified.',
  ['histories', 'inputs'], 'all histories of buffers (mono, stereo), settings and re-patched controls',
  'None of these effects has a test; what breaks them (a lost memory, a shared memory, a missed change) only shows in histories of several buffers.',
  ['klang/audio/effects.py', 'klang/audio/oscillators.py'],
  [('Filter', 'klang/audio/effects.py:Filter'), ('RingModulator', 'klang/audio/effects.py:RingModulator'), ('Tremolo', 'klang/audio/effects.py:Tremolo')],
  [('state', 'filter memory', 'klang/audio/effects.py:_Filter'), ('zi', 'low pass memory', 'klang/audio/effects.py:Tremolo')], ['output.value'])

prop('C30', 'Memoryless effects compute their function of the current signal, and nothing else',
  'Gain, sub-sampler, bit crusher, octave and tanh distortion, linear transformer and panning give, for every signal (scalar, mono or stereo) and every setting, exactly the function they stand for: gain times signal (also sample by sample and when linked), samples held over the factor, cleared low bits, 2x^2-1, tanh of the driven signal, the line through the given limits or ranges, left and right weighted by the panning law. '
  'The result keeps the shape of the signal, never depends on earlier buffers, and the input is never modified. Panning amplitudes are mirrored between the sides, monotonic in the level, limited to full left and right, and of constant power in that mode; a pan law lowers the centre by its decibels in every mode and leaves full left and right; whoever is given amplitudes can not change those of others; invalid factors, modes and positive pan laws are refused.',
  ['inputs', 'histories'], 'all signals and settings, in any order, with kept and changed settings',
  'None of these effects has a test.',
  ['klang/audio/effects.py', 'klang/audio/panning.py', 'klang/audio/wavfile.py', 'klang/math.py'],
  [('Gain', 'klang/audio/effects.py:Gain'), ('Subsampler', 'klang/audio/effects.py:Subsampler'), ('Bitcrusher', 'klang/audio/effects.py:Bitcrusher'), ('Transformer', 'klang/audio/effects.py:Transformer'), ('pan_signal', 'klang/audio/panning.py:pan_signal')],
  [], ['output.value', 'panning_amplitudes'])

prop('C31', 'Note names, temperaments, scales and chords say the same in every notation',
  'Every note name (letter, up to two accidentals, octave, in any case) stands for its pitch, and spelling a pitch and reading the name gives that pitch again; malformed names are refused. '
  'A temperament gives its reference frequency to pitch 69, doubles with every octave (also below zero) and has the given cents in between, for scalars and arrays; cents and ratios convert to and fro. '
  'Codes, steps and pitches of a scale describe the same set of pitch classes; inverting a chord up and down is undone by the other and keeps its pitch classes. '
  'An item is found by its own name, or by an abbreviation of exactly one item, and an ambiguous or unknown name is refused; tables are read back as written. Arguments are never modified.',
  ['inputs', 'histories'], 'all pitches and names, all 4095 scale codes, all tables, temperaments, chords and histories of inversions',
  'Tests look at a few names, one temperament and four inversions; scales, tables and finding by name have no test.',
  ['klang/music/pitch.py', 'klang/music/tunings.py', 'klang/music/scales.py', 'klang/music/chords.py', 'klang/music/intervals.py', 'klang/util.py'],
  [('note names', 'klang/music/pitch.py:note_name_2_pitch'), ('Temperament', 'klang/music/tunings.py:Temperament'), ('scale codes', 'klang/music/scales.py:scale_2_code'), ('inversions', 'klang/music/chords.py:invert_chord'), ('finding', 'klang/util.py:find_item')],
  [], ['return values'])

prop('C32', 'Within one cycle values and messages travel through the whole patch',
  'Whatever was patched, unpatched, set and sent before, one cycle brings every value and every message through all blocks that come later in the current execution order: after a cycle of a freshly ordered patch without loops every output is the function of the current sources, every message was taken exactly once, in order, and a further cycle changes nothing; in a loop exactly the feeding back link waits for the next cycle. '
  'A composite, however deeply nested, is not to be told from a single block doing the same, also after its interior was changed and put in order again. The main loop without audio gives every cycle one time, the next multiple of the buffer duration, and sleeps until then.',
  ['histories', 'configurations', 'schedules'], 'all patches of blocks and composites, histories of wiring, settings, messages, orders and cycles, and timings of the main loop',
  'Unit tests look at connections, orders and composites one by one; no test runs a patch whose wiring changes.',
  ['klang/connections.py', 'klang/block.py', 'klang/composite.py', 'klang/execution.py', 'klang/klang.py', 'klang/clock.py'],
  [('execute', 'klang/execution.py:execute'), ('Relay, MessageRelay', 'klang/connections.py'), ('Composite.update', 'klang/composite.py:Composite'), ('main loop', 'klang/klang.py:run_klang')],
  [('queue', 'messages waiting', 'klang/connections.py:_MessageQueue'), ('currentTime', 'time of the cycle', 'klang/clock.py:ClockMixin')], ['outputs after each cycle', 'messages received', 'clock()'])

prop('C33', 'Drums restart with every hit and decay evenly',
  'A kick drum begins its sound anew with every hit (a note-on of a pitch above zero, any velocity) and with nothing else: what it plays depends only on its parameters and on the time since the last hit, so any two kicks of the same settings hit at the same time sound alike, whatever they played before. '
  'A hi-hat is noise shaped by its decay envelope: silent where the envelope is, never louder than it, new noise with every buffer, or always the same noise when looped. '
  'Exponential decays halve over the same time wherever one starts, across buffers, and pitches decay towards their base frequency; sampling a wave on and on yields one phase, which goes on one sample later, also for frequencies that vary.',
  ['inputs', 'histories'], 'all parameters, histories of hits of one or two drums, and frequencies',
  'No unit test plays a drum.',
  ['klang/audio/synthesizer.py', 'klang/audio/waves.py'],
  [('Kick, HiHat, decays', 'klang/audio/synthesizer.py:Kick'), ('sample_wave', 'klang/audio/waves.py:sample_wave')],
  [('currentTime', 'time since the last hit', 'klang/audio/synthesizer.py:Kick'), ('currentPhase', 'phase of the sine', 'klang/audio/synthesizer.py:Kick')], ['outputs per buffer', 'next phase'])

prop('C34', 'Notes, primes and elementary functions obey their laws',
  'A note has a pitch of 0..127, a velocity of 0..1 and a frequency which is not negative, and anything else is refused; notes order by pitch, velocity, frequency; dictionary and JSON forms give the same note again, silencing one changes only its velocity, and it is either on or off. '
  'The next primes from any start on are all primes there are, in order, also beyond the prepared table and after it grew. '
  'Wrapping a phase stays within half a turn and changes it by whole turns; clipping, blending, linear mapping, common multiples, powers of two and dyadic fractions are what they are called; normalizing makes the loudest value one, leaves its argument alone and refuses silence. '
  'Arrays of silence and of times which all blocks share can not be written. The progress shown of a run never shrinks, is full at the end, and tells the remaining time by the time taken so far.',
  ['inputs', 'histories'], 'all numbers, notes and phases; histories of using the shared tables; runs of any length and timing',
  'Unit tests sample a few numbers; the shared tables and the progress bar are not tested at all.',
  ['klang/messages.py', 'klang/primes.py', 'klang/math.py', 'klang/audio/helpers.py', 'klang/progress_bar.py'],
  [('Note', 'klang/messages.py:Note'), ('find_next_primes', 'klang/primes.py:find_next_primes'), ('wrap', 'klang/math.py:wrap'), ('get_silence, get_time', 'klang/audio/helpers.py:get_silence'), ('ProgressBar', 'klang/progress_bar.py:ProgressBar')],
  [('PRIMES', 'table of known primes, grows', 'klang/primes.py:PRIMES'), ('startTime', 'start of the run', 'klang/progress_bar.py:ProgressBar')], ['results of each call', 'text of the bar'])

prop('C35', 'Sheet music says which notes are played, and when',
  'Written as sheet music, every note has a symbol which tells its value (head, stem, beams or dot), in order; a beam never reaches into the next group or bar, and ends with the last note of its group; a bar line stands for every bar which ended before a note, also where a note lasts several bars. '
  'Stretched, a note takes as many columns as the shortest note fits into it; a tuplet stands over its own notes with its ratio as a label, also within a tuplet. The time signature is that of the metre or grouping asked for (3/4 is not 6/8, and groups of a complex metre are added up), and so are the groups. '
  'All rows are equally long; notes below a sixteenth are refused, in tuplets too. Arguments are never modified.',
  ['inputs'], 'all sequences of notes and nested tuplets in all metres, groupings and formats',
  'Nothing of it is tested.',
  ['klang/music/note_formatting.py', 'klang/music/metre.py', 'klang/music/note_values.py'],
  [('format_notes', 'klang/music/note_formatting.py:format_notes'), ('beams', 'klang/music/note_formatting.py:_beam_needs_to_end'), ('format_time_signature', 'klang/music/note_formatting.py:format_time_signature'), ('format_tuplet', 'klang/music/note_formatting.py:format_tuplet')],
  [('pos, beaming, barNr', 'position, open beam and bar of the writer', 'klang/music/note_formatting.py:format_notes')], ['text returned'])

prop('C36', 'The message mixer passes on every message of every input once',
  'With each update the message mixer sends every message waiting at its inputs exactly once, unchanged, input by input and in order of arrival; nothing is sent in between and nothing waits afterwards. '
  'This holds for messages of any kind, any number of inputs, also added later, and however the inputs are fed; only from an input with more than 50 messages waiting the oldest are lost.',
  ['histories'], 'all histories of arriving messages, updates and added inputs',
  'Nothing of it is tested but through a sequencer.',
  ['klang/note_effects.py'], [('MessageMixer', 'klang/note_effects.py:MessageMixer')],
  [('queues of the inputs', 'messages waiting', 'klang/connections.py:_MessageQueue')], ['messages on the output'])

prop('C37', 'A sequenced piece sounds exactly its notes, from the score into the file',
  'Rendered offline, a piece of sequenced channels, in whatever way they are wired over message mixers and note limiters to polyphonic and monophonic synthesizers, echoes, gains and a mixer to the channels of the sound card, sounds in every buffer of the file exactly the notes its score tells for that time: none late, early, missing, doubled, hanging or at a wrong level. '
  'Polyphonic synthesizers sound all of them, monophonic ones the highest or lowest, and a limiter the last few. How the blocks were wired, in which order, and from which of them the network was started makes no difference, and it stays so however long the piece runs.',
  ['inputs', 'histories'], 'all scores, speeds, note lengths, micro rhythms and wirings; runs of any length',
  'Tests look at blocks alone; no test renders a piece.',
  ['klang/sequencer.py', 'klang/note_effects.py', 'klang/audio/synthesizer.py', 'klang/audio/voices.py', 'klang/audio/klanggeber.py', 'klang/audio/mixer.py', 'klang/audio/effects.py', 'klang/execution.py', 'klang/klang.py'],
  [('Sequencer', 'klang/sequencer.py:Sequencer'), ('PolyphonicSynthesizer.process_note', 'klang/audio/synthesizer.py:PolyphonicSynthesizer'), ('run_klang', 'klang/klang.py:run_klang'), ('run_audio_engine', 'klang/audio/klanggeber.py:run_audio_engine')],
  [('voices', 'what every voice of every synthesizer sounds', 'klang/audio/synthesizer.py:PolyphonicSynthesizer'), ('activeNotes', 'notes a limiter has started', 'klang/note_effects.py:MaxNotes'), ('ring', 'earlier buffers of an echo', 'klang/audio/effects.py:Delay')], ['samples of the rendered file'])

prop('C38', 'Blocks influence each other through their connections only',
  'Two or more blocks in one program, of the same or of different kinds and not connected to each other, each behave as if they were alone, in whatever order they are made, fed and updated: what one plays, sends or holds, its memory (voices, held notes, tails, phases, positions, buffers, settings) and its output until its own next update do not depend on what happens to the others. '
  'This goes for synthesizers, envelopes, filters and their native versions, delays, reverbs, oscillators, samples and audio files, mixers, sequencers and rhythms, note effects, sound card blocks and ring buffers. Only the clock is common to all.',
  ['inputs', 'histories'], 'all histories of two or more blocks in all interleavings',
  'Tests have one block at a time.',
  ['klang/block.py', 'klang/connections.py', 'klang/note_effects.py', 'klang/arpeggiator.py', 'klang/sequencer.py', 'klang/ring_buffer.py', 'klang/audio'],
  [('update of every block', 'klang/block.py:Block'), ('shared silence', 'klang/audio/helpers.py:MONO_SILENCE'), ('duplicate_voice', 'klang/audio/synthesizer.py:duplicate_voice')],
  [('state of each block', 'must be its own', 'klang/block.py:Block')], ['results of each block in a shared program, compared with those it has alone'])

prop('N01', 'Native extensions never touch memory outside their buffers or leak references',
  'No call sequence on the native envelope and filters, with any arguments, reads or writes outside the arrays involved, crashes the interpreter or leaks memory.',
  ['inputs', 'histories'], 'all arguments and call sequences',
  'Tests do not run under a memory checker.',
  ['klang/audio/_envelope.c', 'klang/audio/_filters.c'], [('argument parsing and buffer handling', 'klang/audio/_envelope.c')], [], ['sanitizer reports'])

prop('N02', 'Filter designs are numerically accurate',
  'The frequency responses of the low pass, high pass and band pass filters equal the mathematical definition of a Butterworth filter of the given order within floating point accuracy.',
  ['inputs', 'configurations'], 'all frequencies, orders and filter designs',
  'Tests compare a few points.',
  ['klang/audio/effects.py'], [('FilterCoefficients', 'klang/audio/effects.py:FilterCoefficients')], [], ['returned arrays'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
