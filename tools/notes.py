A = ' Seeded search over a simulated machine; assurance is what the sampled schedules and faults reach. Trusted: the model of CPython multiprocessing, pipes and files (sim/), and '
M = 'the reference model sim/model.py.'
NOTE = {
 'C01': ('seeded schedules of reader, workers and queues against a reference model', 'Real lulua-write and all its workers under random interleavings, compared with independent typing of every text.' + A + M),
 'C02': ('I/O, decoding and archive faults at random bytes', 'Every injected read fault must lead to failure; permitted omissions must be logged, the rest exact.' + A + M),
 'C03': ('interrupts, kills, stream faults; bounded progress', 'Runs must finish within a step bound after faults; no process may be left.' + A + 'the blocking semantics of the simulated primitives.'),
 'C04': ('interrupts at random points against a prefix oracle', 'A successful interrupted run must equal the model for the prefix that was read.' + A + M),
 'C05': ('random delivery, block boundaries, truncation and read errors', 'Readers are compared with the stored bytes; cut or failing streams must raise.' + A + 'the brotli library.'),
 'C06': ('random splits, nestings, orders and pipe deliveries of a corpus against the sum', 'Complete pipelines write|combine in one simulated machine.' + A + M),
 'C07': ('truncation and read errors at random bytes of statistics input', 'Every consumer must fail if its input is cut inside a record or a read fails.' + A + 'the record boundaries written by the undamaged run.'),
 'C08': ('processes with different histories exchanging records', 'Records from processes that loaded other keyboards first, in other orders and with other hash seeds are read by others and compared by key name.' + A + M),
 'C09': ('write, flush and close faults at random bytes of every output', 'Exit status 0 implies the complete bytes of the undisturbed run.' + A + 'that the undisturbed run is complete.'),
 'C10': ('honest and adversarial random sequences', 'Emitted layouts are compared with the input layout, key by key.' + A + 'YAML.'),
 'C11': ('adversarial random sequences, clocks and interrupts against an independent effort model', 'Printed energy is recomputed from the emitted layout.' + A + M),
 'C12': ('random delivery of text streams against the reference typist', 'Events compared one by one.' + A + M),
 'C13': ('converter stand-in that rejects, crashes and blocks at random points', 'Statistics must be those of the complete outputs of successful conversions.' + A + M + ' The real pandoc is not run.'),
 'C14': ('same command under different clocks, process ids, hash seeds, histories and schedules', 'Byte comparison of outputs.' + A + 'nothing else.'),
 'C15': ('random delivery, truncation, damage and read errors of wiki dumps', 'Output lines are compared with the texts stored in the dump.' + A + 'bz2 and expat.'),
 'C23': ('interrupts, failing allocations and read errors at random moments and bytes', 'Exit status 0 implies the complete bytes of the undisturbed run and that no read failed.' + A + 'that the undisturbed run is complete.'),
 'C24': ('both stages of the corpus pipeline on one machine, with signals, killed stages and I/O faults', 'Success of both stages implies exactly the statistics of the reference model; every run must end within a step bound.' + A + M),
}
