"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop('C01', 'Connections stay mutually consistent and single-sourced',
 'Whatever sequence of connects and disconnects is applied, a destination lists a source exactly when that source lists the destination, and every destination has at most one source. '
 'A connect succeeds exactly when the two ends are of connectable kinds (value with value, message with message, output-like to input-like) and the destination is free, and a disconnect removes exactly that one connection. '
 'A rejected connect or disconnect, and any operation on other ends, changes nothing.',
 ['inputs', 'histories'], 'every pair of ends of every kind, in every state reachable by any history of connects and disconnects',
 'tests connect a handful of hand-picked pairs; consistency must hold for all graphs and after failures too',
 ['klang/connections.py'],
 [('type table', 'connections.py:is_valid_connection'), ('guard and double-entry update', 'connections.py:make_connection'), ('double-entry removal', 'connections.py:break_connection'), ('direction choice of relays', 'connections.py:RelayBase.connect')],
 [('outgoingConnections', 'set of destinations of a source', 'connections.py:OutputBase'), ('incomingConnection', 'source of a destination or None', 'connections.py:InputBase')],
 ['connected', 'connect/disconnect result and raised error'])
prop('C02', 'A value read anywhere is the value of its ultimate source',
 'Reading an input or relay returns the value last set at the source reached by following connections upstream through any number of relays; every way of reading the value agrees. '
 'An unconnected end returns the value last set on itself, and connecting or disconnecting never destroys that fallback value.',
 ['inputs', 'histories'], 'every chain of relays of any length, every value, every history of sets, connects and disconnects',
 'tests read through chains of length one or two',
 ['klang/connections.py'],
 [('recursive fetch', 'connections.py:Input.value, Input.get_value'), ('own value', 'connections.py:_ValueContainer')],
 [('_value', 'own value of an end', 'connections.py:_ValueContainer')], ['value', 'get_value()'])
prop('C03', 'Messages reach every connected input once, in order',
 'A sent message is delivered exactly once to every message input reachable from the sender through any number of relays and fan-outs, and to no other input. '
 'Each input hands its messages out in arrival order, each once, keeping only the most recent fifty when more are pending; asking only for the latest returns the newest pending message (or nothing) and discards the rest.',
 ['inputs', 'histories'], 'every network of message outputs, relays and inputs; every sequence of sends and receives',
 'tests send one or two messages through at most one relay',
 ['klang/connections.py'],
 [('fan-out', 'connections.py:MessageOutput.send'), ('relay forwarding', 'connections.py:MessageRelay'), ('bounded queue', 'connections.py:_MessageQueue')],
 [('queue', 'pending messages', 'connections.py:_MessageQueue')], ['receive()', 'receive_latest()'])
prop('C04', 'Execution order is complete, duplicate-free and source before sink',
 'For every network the computed execution order contains each block connected (in either direction, transitively) to the starting blocks exactly once and nothing else. '
 'Every block comes after all blocks feeding it, except across connections that lie on a feedback loop; with no feedback loop there are no exceptions, and breaking the loop connections found leaves no loop.',
 ['inputs', 'configurations'], 'every finite directed graph of blocks, with or without cycles, from any starting blocks',
 'tests sort about ten fixed graphs',
 ['klang/graph.py', 'klang/execution.py', 'klang/block.py'],
 [('network closure', 'execution.py:traverse_network'), ('index mapping', 'execution.py:determine_execution_order'), ('loop breaking', 'graph.py:find_back_edges, remove_back_edges'), ('sorting', 'graph.py:topological_sorting')],
 [], ['determine_execution_order()', 'topological_sorting()'])
prop('C05', 'Composites sort only their inside and restore outside connections',
 'While a composite computes its internal order its outside connections are taken away and afterwards, also when the computation fails, exactly the same connections are in place again. '
 'The internal order never contains the composite itself and contains every internal block exactly once, and updating the composite updates these blocks in that order.',
 ['inputs', 'histories'], 'every composite with any number of outside connections and inner blocks',
 'tests build two small composites without failures',
 ['klang/composite.py', 'klang/block.py', 'klang/execution.py'],
 [('context manager', 'composite.py:temporarily_unpatch'), ('self removal', 'composite.py:Composite.update_internal_exec_order'), ('execution', 'execution.py:execute')],
 [('execOrder', 'internal order', 'composite.py:Composite')], ['connections after update_internal_exec_order()', 'execOrder'])
prop('C06', 'Delay line returns each written sample exactly length samples later',
 'Reading n samples from a delay line always yields the samples written exactly one line length earlier, in order, zeros before anything was written. '
 'This holds for every line length not shorter than the block size, every capacity, and any mixture of single writes and block writes of any size up to the block size; larger blocks are refused.',
 ['inputs', 'histories'], 'every length >= block size, every capacity >= length, every sequence of appends and extends with chunk sizes up to the block size',
 'tests use a few lengths with fixed chunkings',
 ['klang/ring_buffer.py'],
 [('write with mirrored head and tail', 'ring_buffer.py:RingBuffer.extend, append'), ('contiguous read', 'ring_buffer.py:RingBuffer.peek')],
 [('data', 'ring storage with mirror region', 'ring_buffer.py:RingBuffer'), ('pos', 'read/write position', 'ring_buffer.py:RingBuffer')], ['peek()', 'peek_extend()'])
prop('C07', 'Comb and echo filters compute their difference equations',
 'With delay k and gain a, the forward comb outputs x[n]+a*x[n-k], the backward comb x[n]+a*y[n-k], and the echo filter outputs w[n-k] where w[n]=x[n]+a*w[n-k], for every sample with silence before the start. '
 'The result does not depend on how the signal is cut into consecutive blocks, the input array is left unchanged and not kept alive, and no memory outside the delay line is touched.',
 ['inputs', 'histories'], 'every delay, gain, signal and block partition (the pure Python variants for delays not shorter than the block)',
 'tests compare a few impulse responses',
 ['klang/audio/_filters.c', 'klang/audio/filters.py', 'klang/ring_buffer.py'],
 [('compiled filters', '_filters.c:*_filter, RingBuffer_peek, RingBuffer_append'), ('fallback filters', 'filters.py:Py*Filter.filter')],
 [('ringBuffer', 'delay memory', '_filters.c:RingBuffer')], ['filter()'])
prop('C08', 'Envelopes stay in range and follow their stages',
 'With sustain between 0 and 1 every envelope sample lies between 0 and 1: it rises during attack up to 1, falls during decay to the sustain level, holds it, falls during release to 0, and then stays 0 and is inactive. '
 'Gate-on starts an attack from the current level only when idle, releasing or retriggerable; gate-off starts a release unless idle or already releasing; in loop mode a gated envelope restarts after release. '
 'Sampling n samples at once equals sampling them in any consecutive pieces.',
 ['inputs', 'histories'], 'all attack, decay, sustain, release, overshoot and sampling interval settings, every sequence of gates and sample requests',
 'tests look at a few parameter sets and gate sequences',
 ['klang/audio/_envelope.c', 'klang/audio/envelopes.py'],
 [('stage machine', '_envelope.c:Envelope_single_sample, Envelope_gate'), ('coefficients', '_envelope.c:Envelope_compute_base_values_and_coefficients')],
 [('stage', 'current stage', '_envelope.c:Envelope'), ('value', 'last sample', '_envelope.c:Envelope')], ['sample()', 'active'])
prop('C09', 'Oscillators run phase-continuously across blocks',
 'Consecutive sample phases of an oscillator differ by 2*pi*frequency/sampling rate modulo 2*pi, inside a block and from the last sample of one block to the first of the next, for constant, per-sample and changing frequencies. '
 'Block-rate phases advance by the block duration; phases lie in [0, 2*pi) when the start phase does, and a low-frequency oscillator maps the wave range [-1, 1] onto its configured output range. A copy of an oscillator goes on as its original would. A chirp continues from block to block and goes on at its end frequency without a jump. Sine, square (up, then down), sawtooth (rising) and triangle (rising, then falling) waves repeat every turn and stay within [-1, 1].',
 ['inputs', 'histories'], 'every frequency (constant, array, note value), start phase and number of blocks',
 'tests check two frequencies over a few blocks',
 ['klang/audio/oscillators.py', 'klang/audio/helpers.py', 'klang/math.py', 'klang/audio/waves.py'],
 [('phase sampling', 'oscillators.py:sample_phase'), ('block phase', 'oscillators.py:Phasor.sample'), ('output mapping', 'math.py:linear_mapping')],
 [('currentPhase', 'phase carried between blocks', 'oscillators.py:Phasor')], ['output value'])
prop('C10', 'Mixers average the gain-scaled inputs and keep one setting per channel',
 'A mixer outputs the sum of gain times signal over all its channels divided by their number (undivided for a single channel, silence for none); the stereo mixer additionally scales left and right by the panning amplitudes of each channel. '
 'However channels are added, there is always exactly one gain (and one panning) per channel, defaulting to unity (and centre), and inputs are not modified.',
 ['inputs', 'configurations'], 'any number of channels, gains, pannings and signals, and any way of adding channels',
 'tests mix at most three channels',
 ['klang/audio/mixer.py'],
 [('mono sum', 'mixer.py:Mixer.update'), ('stereo sum', 'mixer.py:StereoMixer.update'), ('channel bookkeeping', 'mixer.py:add_new_channel, __iadd__')],
 [('gains', 'one per channel', 'mixer.py:Mixer'), ('pannings', 'one per channel', 'mixer.py:StereoMixer')], ['output value'])
prop('C11', 'Panning laws',
 'For every pan level the linear law has left plus right equal to 1 and the constant-power law has left squared plus right squared equal to 1; levels beyond the ends act like the ends, where one side is 0 and the other 1. '
 'All amplitudes lie in [0, 1] in every mode, swapping left and right corresponds to negating the level, a larger level never raises left nor lowers right, and with a pan law of d decibels left squared plus right squared is 10^(d/20) at the centre, whatever the mode.',
 ['inputs'], 'every real pan level, every mode and every non-positive pan law',
 'tests sample a few levels',
 ['klang/audio/panning.py'],
 [('amplitudes', 'panning.py:panning_amplitudes'), ('pan law', 'panning.py:pan_law_exponent')], [], ['panning_amplitudes()', 'pan_signal()'])
prop('C12', 'Sample playback stays in its region, in order and gapless',
 'Playback hands out the samples between the start and stop mark in order, each exactly once, never anything outside the marks, and then nothing more until rewound. '
 'When looping, the sample after the one before the stop mark is the one at the start mark, for every loop length and every request size, and each request is filled completely. An audio file block puts these samples out one block at a time, channel first, completed with silence; pausing keeps the position, rewinding and stopping go back to the start mark, from where the sample plays again what it played the first time.',
 ['inputs', 'histories'], 'all data lengths, start and stop marks, request sizes and request sequences, looping or not',
 'tests look at lengths of at least one block and only at array sizes',
 ['klang/audio/sampling.py'],
 [('sample fetch', 'sampling.py:Sample.callback'), ('marks', 'sampling.py:Sample.trim, rewind, playing'), ('audio file block', 'sampling.py:AudioFile.update, play, pause, rewind, stop')],
 [('currentIndex', 'next sample', 'sampling.py:Sample')], ['callback()', 'read()'])
prop('C13', 'Delay effect: wet signal is the input delayed by the delay time',
 'For delay times of at least one block the output is (1-mix)*input + mix*w where w is the stored signal from exactly the delay time (in whole samples) earlier and the stored signal is input plus feedback times w; before the first echo w is silence. '
 'Delay times given as seconds or note values are both accepted up to the maximum duration and refused beyond it.',
 ['inputs', 'histories'], 'every delay time of at least one block, feedback, mix and input signal over any number of blocks',
 'tests only construct the effect or check the silence',
 ['klang/audio/effects.py', 'klang/ring_buffer.py', 'klang/math.py', 'klang/music/tempo.py'],
 [('delay loop', 'effects.py:Delay.update'), ('time validation', 'effects.py:Delay.__init__, validate_delay_time'), ('mix', 'math.py:blend')],
 [('ring', 'delay memory', 'effects.py:Delay')], ['output value'])
prop('C14', 'Arpeggio plays exactly the held notes, each per cycle, in its order',
 'The held notes are always sorted and contain each pitch once; adding a held pitch changes nothing, removing takes exactly that pitch. '
 'For every play order one cycle visits every held note at least once (up, down, alternating and random exactly once; up-down and down-up the way there and back without repeating the turning points), and stepping always yields a currently held note, also right after notes were added or removed. '
 'An arpeggiator holds each note from its note-on to its note-off; whenever its phase comes round, once per interval (of at least a block) and first at once, it ends the note it started last, exactly once, and starts the next held note, if any is held. It sends nothing else.',
 ['inputs', 'histories'], 'every order, every number of notes and every interleaving of add, remove and step',
 'tests step through up to four fixed notes',
 ['klang/arpeggiator.py'],
 [('index orders', 'arpeggiator.py:arpeggio_index_permutation, interleave'), ('state', 'arpeggiator.py:Arpeggio.add_note, remove_note, wrap_current, __next__'), ('block', 'arpeggiator.py:Arpeggiator.update')],
 [('notes', 'held notes', 'arpeggiator.py:Arpeggio'), ('permutation', 'play order', 'arpeggiator.py:Arpeggio'), ('current', 'position in play order', 'arpeggiator.py:Arpeggio')], ['next()'])
prop('C15', 'Step sequencing never skips, repeats or misorders a step',
 'However the phase moves between two updates, the steps emitted are the consecutive steps following the last emitted one, cyclically, up to and including the step the current phase falls into, and none if that step was already emitted. '
 'Each step number is looked up in the pattern and every pitch there (zero meaning rest) is played exactly once in order at full velocity.',
 ['inputs', 'histories'], 'every number of steps, every sequence of phases, every pattern',
 'tests use slow, regular phase ramps',
 ['klang/sequencer.py'],
 [('edge detection', 'sequencer.py:PizzaSlicer.update, pizza_slice_number'), ('lookup', 'sequencer.py:PatternLookup.update')],
 [('currentIdx', 'last emitted step', 'sequencer.py:PizzaSlicer')], ['emitted messages'])
prop('C16', 'Note effects end every note they start, exactly once',
 'The note lengthener forwards every note-on at once and later sends exactly one matching note-off, at the first update at or after its duration has passed and not earlier, in note order; incoming note-offs are ignored. '
 'The note limiter forwards every note-on and at no time leaves more than its maximum number of notes sounding, ending the oldest first with exactly one note-off each; the message mixer forwards every message of every input exactly once in order.',
 ['inputs', 'histories'], 'all durations, note sequences, limits and update times that never run backwards',
 'tests play a few notes',
 ['klang/note_effects.py', 'klang/messages.py', 'klang/clock.py'],
 [('expiry', 'note_effects.py:NoteLengthener.outdated_notes, update'), ('limit', 'note_effects.py:MaxNotes.update'), ('merge', 'note_effects.py:MessageMixer.update')],
 [('activeNotes', 'notes still sounding', 'note_effects.py')], ['sent messages'])
prop('C17', 'Synthesizers play the right held note and never hang a voice',
 'A monophonic synthesizer always plays, among the notes held, the newest, oldest, lowest or highest according to its policy, and stops when none is held. '
 'In a polyphonic synthesizer every note-on starts a voice with the note\'s frequency and velocity, voices being used in rotation, and a note-off releases every voice playing that pitch, also when on and off arrive in the same block. A voice sounds velocity times oscillator times envelope; a synthesizer puts out the average of its voices, idle ones being silent.',
 ['inputs', 'histories'], 'every sequence of note-ons and note-offs distributed over any blocks, every policy',
 'tests play up to three notes with separate updates',
 ['klang/audio/synthesizer.py', 'klang/audio/voices.py'],
 [('priority', 'synthesizer.py:NoteScheduler'), ('voice allocation', 'synthesizer.py:PolyphonicSynthesizer.process_note'), ('voice', 'voices.py:Voice.process_incoming_notes')],
 [('notes', 'held notes by priority', 'synthesizer.py:NoteScheduler'), ('currentPitch', 'pitch a voice plays', 'voices.py:Voice')], ['voice state', 'output value'])
prop('C18', 'Notes are always valid and survive serialisation',
 'A note exists only with pitch in [0, 128), velocity in [0, 1] and non-negative frequency (the tuning\'s frequency of the pitch unless given); everything else is refused. '
 'A note is note-on exactly when velocity is positive and note-off exactly when zero, silencing keeps pitch and frequency, and converting a note to its dictionary or text form and back yields an equal note.',
 ['inputs'], 'every pitch, velocity and frequency',
 'tests use a few notes',
 ['klang/messages.py', 'klang/network.py'],
 [('validation', 'messages.py:Note.__new__'), ('codec', 'messages.py:to_dict, from_dict, to_json, from_json')], [], ['Note fields'])
prop('C19', 'Tempo, metre and note-value arithmetic is exact and self-consistent',
 'Frequency and period of a tempo are reciprocal, a note lasts (note value / beat value) beats, a bar lasts as long as a note of the metre\'s value and contains metre / beat value beats, and angular velocity times bar duration is one turn. '
 'Dotting n times multiplies a note value by 2 - 2^-n, undotting inverts it exactly, an m-note tuplet scales its notes by its ratio, and durations or rates given as plain numbers pass unchanged while note values are converted, rate being the reciprocal of duration. '
 'A metre keeps its numerator and denominator as given; it is simple with 2, 3 or 4 beats, compound with a multiple of 3 from 6 on, complex if divisible by neither 2 nor 3, and irrational exactly if its denominator is no power of two.',
 ['inputs'], 'every positive tempo, metre, beat value, note value and dot count',
 'tests use a few metres and dot counts up to three',
 ['klang/music/tempo.py', 'klang/music/metre.py', 'klang/music/note_values.py'],
 [('tempo conversion', 'tempo.py'), ('metres', 'metre.py:create_metre, is_simple, is_compound, is_complex, is_irrational'), ('beat value', 'metre.py:default_beat_value'), ('dots', 'note_values.py:dot_note, dedot_note'), ('tuplets', 'note_values.py:Tuplet')], [], ['returned numbers'])
prop('C20', 'Tunings hit concert pitch and repeat at the octave; note names round-trip',
 'In every temperament the concert-pitch note has exactly the chosen concert frequency, a note one octave higher has exactly twice the frequency, and each note is its tuning interval above the base note of its octave; equal temperament multiplies by the twelfth root of two per semitone. '
 'Cents and ratios convert into each other and back, and every pitch number converts to a note name that converts back to it, with accidentals shifting by a semitone each.',
 ['inputs'], 'every pitch number, tuning and concert pitch',
 'tests check a few pitches',
 ['klang/music/tunings.py', 'klang/music/pitch.py'],
 [('tuning', 'tunings.py:Temperament'), ('cents', 'tunings.py:ratio_2_cent, cent_2_ratio'), ('names', 'pitch.py:note_name_2_pitch, pitch_2_note_name')], [], ['frequency', 'name'])
prop('C21', 'Prime search returns the next primes',
 'A number is reported prime exactly when it is. Searching from any number returns the smallest prime not below it, also beyond the precomputed table (which always holds all primes up to its end, in order), and a search for several primes returns that many consecutive primes.',
 ['inputs', 'histories'], 'every integer, every sequence of searches',
 'tests check primes below a few hundred',
 ['klang/primes.py'],
 [('primality', 'primes.py:is_prime'), ('table', 'primes.py:sieve_of_sundaram, _increase_cache'), ('search', 'primes.py:binary_search_with_upper, find_next_prime, find_next_primes')],
 [('PRIMES', 'prime table', 'primes.py')], ['returned numbers'])
prop('C22', 'Euclidean rhythms have the requested pulses, slots and evenness',
 'For every number of pulses between zero and the number of slots the rhythm has exactly that many slots of zeros and ones with exactly that many ones. '
 'The pulses are spread as evenly as possible: cyclic distances between neighbouring pulses differ by at most one, and any two stretches of equal length, also around the end, hold numbers of pulses that differ by at most one.',
 ['inputs'], 'every pair 0 <= pulses <= slots',
 'tests compare a few published rhythms',
 ['klang/music/rhythm.py'],
 [('Bjorklund', 'rhythm.py:_compute_bitmap, euclidian_rhythm')], [], ['returned pattern'])
prop('C23', 'Scales, codes and chord inversions are faithful',
 'Converting a scale to its pitches or its code and back returns the same scale, for all scales and codes containing the root; scale intervals add up to an octave. '
 'Inverting a chord up n times moves its n lowest notes up an octave one after the other and keeps all others; inverting down the same number of times restores the chord.',
 ['inputs'], 'every scale code, every chord and every inversion count',
 'tests check a few scales and chords',
 ['klang/music/scales.py', 'klang/music/chords.py'],
 [('scale codes', 'scales.py:scale_2_pitches, pitches_2_scale, scale_2_code, code_2_scale'), ('inversion', 'chords.py:invert_chord')], [], ['returned arrays'])
prop('C24', 'Offline rendering executes exactly the whole blocks of the duration',
 'Rendering offline for a duration runs exactly the number of whole blocks fitting into it, updating every block of the network once per cycle with the clock at the cycle\'s start time. '
 'The captured output holds, for every cycle in order, the signals arriving at the output block, one column per channel, unchanged before the fade-out and scaled linearly from one to zero over it.',
 ['inputs', 'configurations'], 'every duration, fade-out time, channel count and signal shape',
 'tests never render',
 ['klang/audio/klanggeber.py', 'klang/progress_bar.py', 'klang/clock.py', 'klang/audio/helpers.py'],
 [('render loop', 'klanggeber.py:run_audio_engine'), ('channel collection', 'klanggeber.py:Dac.iterate_channels, collect_samples, pack_signals'), ('cycle counter', 'progress_bar.py:ProgressBar')],
 [('currentTime', 'clock', 'clock.py:ClockMixin')], ['captured samples', 'clock'])
prop('C25', 'Keyboard sends matched, debounced note events',
 'Repeated press events of a held key, and release events of a key not held, are ignored; every accepted press of a note key sends one note-on and its release one note-off of the same pitch and frequency, whatever octave, velocity or tuning changes, or events of other keyboards, happen in between. '
 'Octave keys shift later notes by twelve semitones, velocity stays within [0.1, 1], and number keys select one of the available tunings. The note keys a w s e d f t g z h u j k o l p play sixteen successive semitones, a being middle C at first.',
 ['inputs', 'histories'], 'every sequence of press and release events of all keys',
 'tests press single keys',
 ['klang/keyboard.py', 'klang/math.py'],
 [('debouncing', 'keyboard.py:Keyboard.on_press, on_release'), ('notes', 'keyboard.py:MusicalKeyboard.play_note'), ('controls', 'keyboard.py:change_octave, change_velocity, change_temperament')],
 [('keyState', 'held keys', 'keyboard.py:Keyboard')], ['sent messages'])
prop('C26', 'Signal-shaping effects compute their stated pointwise maps',
 'Gain multiplies, the linear transformer maps its input range end points exactly onto its output range, mixing dry and wet is the convex combination, tremolo stays between (1 - depth) and 1 times the input, and distortions map [-1, 1] into [-1, 1]. '
 'Sub-sampling repeats every n-th sample n times, bit reduction rounds the integer sample down to the next multiple of its step, splitting and combining channels are inverse, and amplitude-to-integer conversion keeps full scale in range and its error below one step. The single pole low pass decays by exp(-2 pi cutoff / sampling rate) per sample, with unit gain at 0 Hz for positive cutoffs.',
 ['inputs'], 'every signal, gain, range, factor and bit count',
 'tests check a few arrays',
 ['klang/audio/effects.py', 'klang/math.py', 'klang/audio/wavfile.py'],
 [('effects', 'effects.py:Gain, Transformer, Tremolo, Subsampler, Bitcrusher, OctaveDistortion, AudioSplitter, AudioCombiner'), ('math', 'math.py:blend, linear_mapping, clip'), ('conversion', 'wavfile.py:convert_samples_to_int, convert_samples_to_float')], [], ['output value'])
prop('C27', 'Filters, reverb, ring modulation and stereo delay process a signal seamlessly',
 'Filtering a signal block by block equals filtering it in one piece: each channel has its own filter, whose state continues from block to block also across cutoff changes, with the coefficients designed for the first tabulated frequency not below the cutoff (the last one beyond the table). '
 'Reverb outputs (1-mix)*input + mix*average of its echo filters, one for each consecutive prime delay from the pre-delay on, with gain exp(-pi*delay/decay) (0 without decay). Ring modulation outputs (1-mix)*input + mix*modulator*input, the modulator running at frequency + amount*LFO; a stereo delay delays each side with its own time and feedback. No input is modified.',
 ['inputs', 'histories'], 'every signal, cutoff history, decay, delay and mix',
 'the tests never run these blocks',
 ['klang/audio/effects.py'],
 [('filter block', 'effects.py:Filter, _Filter, FilterCoefficients, Observer'), ('reverb', 'effects.py:Reverb'), ('ring modulator', 'effects.py:RingModulator'), ('stereo delay', 'effects.py:StereoDelay')],
 [('state', 'filter state', 'effects.py:_Filter')], ['output value'])
prop('C28', 'Values and messages sent over the network arrive unchanged',
 'Every note, array of any number type, shape and memory order, and JSON value a network block sends arrives at the receiving block as an equal value (arrays with the same type and shape), as long as its encoding fits a datagram and the transport delivers it; what is sent is not modified. '
 'A message block sends on each pending message once and in order; a value block ends an update with the last pending value, and keeps its former value when none is pending.',
 ['inputs', 'histories'], 'every value, message sequence and order of updates',
 'the tests encode a few arrays and notes, nothing is ever sent',
 ['klang/network.py'],
 [('codec', 'network.py:array_to_dict, array_from_dict, klang_object_hook, KlangJSONEncoder'), ('sockets', 'network.py:create_socket_from_address, receive_all_from, JsonCourier'), ('blocks', 'network.py:NetworkIn, NetworkOut, NetworkMessageIn, NetworkMessageOut')],
 [('sock', 'pending datagrams', 'network.py:JsonCourier')], ['sent messages', 'output value'])
prop('C29', 'Every note is sent as the MIDI message it stands for',
 'A MIDI output block sends every pending note once, in order, as one three byte message on the channel of the block: a note-on (0x90 + channel) for notes with positive velocity, a note-off (0x80 + channel, velocity 0) for silent ones, with the pitch of the note. '
 'The velocity byte of a note-on is within 1 to 127 and less than one step away from 127 times the velocity (1 for the quietest).',
 ['inputs', 'histories'], 'every pitch, velocity, channel and sequence of notes',
 'there are no tests of this block',
 ['klang/midi.py'],
 [('conversion', 'midi.py:note_to_midi_message'), ('block', 'midi.py:MidiOut, open_midiout')], [], ['sent MIDI messages'])

prop('C30', 'Clocks and drums run on from block to block',
 'A clock signal is 1 during the duty part of each period (rising edge; in the rest of it for a falling edge) and 0 otherwise, and its period goes on seamlessly from block to block while the frequency, given in Hertz or as a note value, changes; whatever is connected to its frequency runs before it. '
 'A kick drum starts anew with every block that holds a note-on of a pitch above zero and otherwise plays on: a sine without phase jumps whose pitch falls along frequency (1 + intensity exp(-pi t / pitchDecay)) and whose loudness falls along exp(-pi t / decay). '
 'A hi-hat block is noise between -1 and 1, the same noise in every block if looped, times a decay envelope which first gets all pending notes in order.',
 ['inputs', 'histories'], 'every frequency, duty, decay and intensity, every sequence of notes and blocks',
 'tests only construct these blocks',
 ['klang/audio/sync.py', 'klang/audio/synthesizer.py'],
 [('clock', 'audio/sync.py:Clock'), ('decay curves', 'audio/synthesizer.py:sample_exponential_decay, sample_pitch_decay'), ('drums', 'audio/synthesizer.py:HiHat, Kick')],
 [('currentTime, currentPhase', 'state of the kick drum', 'audio/synthesizer.py:Kick')], ['output value'])

prop('C31', 'Sequencers play their pattern in time, micro rhythms bend it within beats',
 'Every row of a sequencer pattern becomes a channel that goes through its steps again and again, one step per grid / beat value beats of the tempo: after any number of blocks exactly the steps that the elapsed time has reached have been played, in order, all pitches of a chord at once, and every note ends after the given part of a step or the given time. '
 'Channels play on an output of their own, or all on the one output if outputs are not split. '
 'A micro rhythm applied to a channel takes its phase and only its phase, applying another one replaces it and resetting removes it, with nothing left connected. It bends the phase along the running sums of its notes within each beat: phases stay in their beat, beats start on time, the phase never runs backwards, and phrasing blends the straight with the bent phase. A random pattern has the length asked for, its values lie within the given limits and repeat with the given period.',
 ['inputs', 'histories'], 'every pattern, tempo, grid, beat value, note length, micro rhythm and sequence of blocks and patches',
 'tests play one pattern and construct the blocks',
 ['klang/sequencer.py', 'klang/music/rhythm.py'],
 [('wiring and timing of a channel', 'sequencer.py:Sequence'), ('channels and outputs', 'sequencer.py:Sequencer'), ('bent phase', 'rhythm.py:harmonize, phrase, MicroRhyhtm')],
 [('execOrder', 'inner blocks in order', 'composite.py:Composite')], ['sent notes', 'connections', 'bent phase'])

prop('C32', 'Whatever is connected to a block is found from it and runs in order with it',
 'Every input and output of a library block, composites and blocks that grow new channels included, belongs to that block and is listed once; inputs and outputs that a block offers by name are among them. Blocks, and copies of blocks that can be copied, share no ends. '
 'So a block connected to any end of another is found from either side, and runs before or after it as the connection says. `a | b` connects the first output of a with the first input of b, given as blocks or as ends, and leads on to the block behind it, also in chains.',
 ['inputs', 'histories'], 'every library block, with any arguments, however often it has grown, and every end of it',
 'tests look at few blocks and at the first of their ends',
 ['klang/block.py', 'klang/composite.py', 'klang/sequencer.py', 'klang/note_effects.py', 'klang/keyboard.py', 'klang/midi.py', 'klang/network.py', 'klang/arpeggiator.py', 'klang/music/rhythm.py', 'klang/audio/effects.py', 'klang/audio/oscillators.py', 'klang/audio/envelopes.py', 'klang/audio/voices.py', 'klang/audio/synthesizer.py', 'klang/audio/sampling.py', 'klang/audio/mixer.py', 'klang/audio/sync.py', 'klang/audio/klanggeber.py'],
 [('ends of blocks', 'block.py:Block.__init__'), ('order derived from owners', 'execution.py:traverse_network'), ('grown channels', 'mixer.py:Mixer.add_new_channel, note_effects.py:MessageMixer, sequencer.py:Sequencer'), ('pipe', 'block.py:pipe_operator')],
 [('owner', 'the block an end belongs to', 'connections.py:OutputBase, InputBase')], ['owners', 'execution order'])

prop('C33', 'Live runs play every block on time and always let go of the sound card',
 'With a sound card, each request sets the time to the number of blocks so far times the block duration, hands channel k of the incoming samples to output k of the input block, then runs all blocks once and returns what arrives at the output block, one column per channel, faded linearly towards the end. This goes on until the duration is reached (forever by default), or stops with silence when channels are missing. '
 'A card with too few channels is refused before anything is opened. However a run ends (duration, missing channels, keyboard interrupt, error of the card), the stream is stopped and closed and the audio system terminated, once each and in this order; a file holds exactly what was played. '
 'The first input and the first output block of the network are used, absent ones have no channels. Without audio channels, all blocks run once per cycle, at whole multiples of the block duration which never go backwards, until interrupted. '
 'Before running, every block that would run more than once per cycle, composites taken apart, is reported with its number of runs, and no other.',
 ['inputs', 'histories'], 'every network, number of channels, duration, fadeout and history of requests, interrupts and errors',
 'there is no sound card in tests, and the real loop never ends',
 ['klang/audio/klanggeber.py', 'klang/klang.py'],
 [('callback and stream', 'klanggeber.py:run_audio_engine'), ('channels of the card', 'klanggeber.py:validate_sound_card_channels, Adc.inject_samples, Dac.collect_samples'), ('main loop', 'klang.py:run_klang, sleep_until_next_cycle'), ('repeated blocks', 'klang.py:unravel, validate_global_execution_order')],
 [('playTime', 'time of the next block', 'klanggeber.py:run_audio_engine'), ('capturedFrames', 'blocks played so far', 'klanggeber.py:run_audio_engine')], ['calls to the sound card', 'samples', 'clock', 'warnings'])

prop('C34', 'Names find the music data they mean',
 'Looking up a chord, scale, interval or temperament by its exact name gives the data of that name, as it stands in the data files or is built in (a scale that stays on a pitch is the scale of its different pitches). An abbreviation of exactly one name - the same first letter, the other letters in order, some left out - gives the data of that one. '
 'Any other name (of at least one letter) is refused with a ValueError which names all closest names: all it may stand for, or those at the least editing distance with free insertions. '
 'The editing distance of two non-empty sequences is that of the usual recurrence over prefixes with the given costs of deletions, insertions and substitutions (a first row and column that count letters); with unit costs it is symmetric and 0 exactly for equal sequences. '
 'Data files and texts give each name its values in order, numbers as numbers.',
 ['inputs'], 'every table, name, pair of sequences, and costs',
 'there are no tests of lookups',
 ['klang/util.py', 'klang/music/chords.py', 'klang/music/scales.py', 'klang/music/intervals.py', 'klang/music/tunings.py'],
 [('lookup', 'util.py:find_item'), ('editing distance', 'util.py:levenshtein'), ('data files', 'util.py:parse_music_data_from_csv, load_music_data_from_csv'), ('tables', 'chords.py:find_chord, scales.py:find_scale, intervals.py:find_interval, tunings.py:find_temperament')],
 [('CHORDS, KNOWN_SCALES, INTERVALS, TEMPERAMENTS', 'tables of music data', 'music/')], ['return values', 'errors'])

prop('C35', 'Sounds keep their shape, rate and waveform in files',
 'Writing a sound of frames times channels (more frames than channels, integers or floats of any scale and memory layout) to a file stores as many frames and channels at the given (by default the configured) sampling rate; all samples are scaled by one positive factor that makes the loudest one full scale of the given (by default 16 bit) integer type, less than one step off. The sound itself is left alone. '
 'Silence is refused with a ValueError and no file is written. Loading a 16 bit file (by path or file object) gives its rate and all its frames in order, each channel a column, every sample divided by 32768; files of other sample widths are refused with a ValueError. '
 'Normalising scales a signal by one positive factor to a largest magnitude of 1.',
 ['inputs'], 'every sound that is not silent, every 16 bit file',
 'tests do not touch files',
 ['klang/audio/wavfile.py', 'klang/math.py'],
 [('writing', 'wavfile.py:write_wave'), ('reading', 'wavfile.py:load_wave, convert_samples_to_float'), ('normalising', 'math.py:normalize_values')], [], ['file content', 'returned samples'])

out = pathlib.Path(__file__).resolve().parents[1] / 'properties.jsonl'
out.write_text(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
print(len(P), 'properties')
