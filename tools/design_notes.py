"""Per property: what the harness explores, and how the statement is to be read."""
NOTES = {
 'C01': ('random and exhaustive histories of connect/disconnect over small sets of all nine classes, compared after each step with a set of pairs',
         'The statement is about ends of exactly the nine classes: the code compares `type(x)`, so objects of further subclasses connect to nothing.'),
 'C02': ('random networks of outputs, relays and inputs with values', 'Relays that feed themselves are excluded: reading such a loop is a RecursionError (documented oddity, nothing sensible to return).'),
 'C03': ('random message networks, pushes and abandoned receives', 'Loops of relays are excluded as in C02. Queues keep the fifty newest messages.'),
 'C04': ('all graphs of up to four nodes, random larger ones, networks of real blocks', 'The recursion of the depth first search is bounded by the interpreter (about 1000 blocks in a row); the proof assumes it suffices. '
         'The ranking function used for termination is the usual weight of a finite acyclic graph.'),
 'C05': ('random composites with outside neighbours; exceptions injected at every callback', 'Composites whose inside is connected through the outside get their inner order from the graph with the outside connections removed; this is what the statement says.'),
 'C06': ('reference list of all samples written', 'Lengths not shorter than the block, as stated; the setter of `length` while running is not part of it.'),
 'C07': ('all delays, gains, cuts of small signals; strided, integer, list and refused inputs; delays up to sixty seconds; reference counts; memory behind the line',
         'The Python variants are the fallback for delays not shorter than a block. Which of the two is used (filters.py, bottom) and the member table entry of `alpha` are units of their own.'),
 'C08': ('reference stage machine with the exact curve; scripts of gates, samples and settings; blocks with several gates per turn; copies; a second __init__',
         'The contract is agnostic of the curve: samples rise and fall by at least a fixed pace, so every stage ends. `dt` is positive and parameters finite; the member table entries of `retrigger` and `loop` are a unit of their own.'),
 'C09': ('consecutive blocks with all kinds of frequency changes against summed phases', 'Start phases lie in [0, 2 pi). Reals: `% TAU` of a tiny negative number can be TAU itself in doubles.'),
 'C10': ('random mixers and channel changes', 'Mixers created with the same list shared their gains before fix e0168e5.'),
 'C11': ('grids of positions and laws', ''),
 'C12': ('sound sources over in-memory files at all speeds, marks and loops', 'The resampling qualities themselves (libsamplerate) are outside; see the statement.'),
 'C13': ('delays in seconds and note values over random signals', 'Delay times below one block are outside the statement.'),
 'C14': ('random held notes, orders and intervals; arpeggiators with notes coming and going against an exact timetable', 'That splitting a position into (octave, place) enumerates all of them is a separate unit, by induction.'),
 'C15': ('sequencers over clock positions', 'Steps are sent when the phase enters them; the very first update sends the step it starts in (fix 32c150b).'),
 'C16': ('random note streams through each effect', 'Note limits are at least 1 (0 sends an off before its on).'),
 'C17': ('random note streams into synthesizers with few voices', 'A note-on and its note-off within one block are handled in order (fix bdd01c3).'),
 'C18': ('values at and beyond all limits; dictionaries and messages', '`_replace`/`_make` of namedtuple bypass validation by design and are not constructors of the statement.'),
 'C19': ('fractions, metres and tempos', 'Metres whose fraction is not normalised are compared by cross-multiplication.'),
 'C20': ('all pitches, temperaments, names', ''),
 'C21': ('small and full tables, sequences of searches far beyond the table, products and squares of primes', ''),
 'C22': ('all pulses and slots up to 90, random ones up to 600', 'Proved: slots, pulses, distances of neighbouring pulses. The balance of longer stretches is bounded only.'),
 'C23': ('all scales and modes, random chords', 'Scales are a finite domain of 2048, executed completely by the symbolic interpreter.'),
 'C24': ('rendering with recording stand-ins for files and devices', 'Rendering to a file needs at least one block (0 blocks raise ValueError in numpy; the file would be empty).'),
 'C25': ('random key histories including octave, velocity, tuning changes', 'The octave is not bounded by the keyboard: keys beyond [0, 128) raise ValueError (C18) and are outside the statement.'),
 'C26': ('random signals through every effect', 'Bit reduction is stated for integer samples, as the code uses it.'),
 'C27': ('reference filters over the whole signal, brute force combs, oscillators as in C09, two delay references',
         'The positional arguments of Filter reach the design function twice (they are given twice in its constructor): only keyword arguments work. Three and more channels are cut to two (MAX_CHANNELS).'),
 'C28': ('real datagrams over UNIX and loopback sockets in a scratch directory: all number types, layouts and shapes, sizes around powers of two and near 64 KiB, random messages and update orders',
         'UNIX sockets refuse more than about ten pending datagrams (BlockingIOError in the sender): the transport does not deliver those, see the statement. Notes nested in lists arrive as plain lists (JSON limitation, only top level notes are recognised); values that JSON cannot express raise TypeError in the sender.'),
 'C29': ('all channels, pitches and velocity steps; random note sequences into two blocks over a recording stand-in for rtmidi', 'Pitches are whole numbers, as MIDI needs them.'),
 'C30': ('clocks with changing frequencies against exact periods, drums against closed formulas over random notes and blocks, noise divided by its envelope',
         'A note-on of pitch 0 does not trigger the kick drum; samples within rounding of an edge of the clock are not compared.'),
 'C31': ('sequencers of all shapes against an exact timetable of note-ons and note-offs, micro rhythms against interpolated running sums, micro rhythms applied and reset while playing',
         'Patterns of one step send it only once (documented oddity) and are excluded; runs in which a step falls on a block border within rounding are not compared. The micro rhythm runs before or after its sequence, so its bend may arrive one block late.'),
 'C32': ('every block class of the library built twice, copied and grown; a feeder put on every input and a reader on every output, found and ordered from either side; pipe chains over blocks and ends',
         'Devices, listeners and MIDI ports are stand-ins, sockets live in a scratch directory. Blocks a user writes are up to the user.'),
 'C33': ('whole runs on a simulated sound card: requests, pauses, interrupts and errors in any order, with and without incoming samples, missing channels, cards with too few channels; the main loop on faked time; nested orders with repeated blocks',
         'The sound card is a stand-in with the interface of pyaudio: it asks for BUFFER_SIZE frames at a time, one request after the other, and hands over as many channels as the stream was opened with. The audio system is terminated only after a stream was opened (a card that fails to open leaves it running).'),
 'C34': ('every entry of the data files (intervals: a ninth of them) by name, random abbreviations and misspellings of names, random tables, words and costs against an independent recurrence, random data files as text, bytes and files',
         'Decoding of the data files (json) and the texts of errors are only executed. An empty name is outside the statement (it ends in an AssertionError).'),
 'C35': ('sounds of all layouts, scales and types written to scratch files which are then read with the wave module and compared sample by sample, crafted files of several widths, rates and channels read back, silence',
         'What scipy and the wave module do with the bytes is assumed in the proofs and only executed in the harness. Sounds with one dimension only or with as many channels as frames are refused by the code and outside the statement; so are 8 bit files.'),
}
