import chk_weld, chk_lib, chk_run, chk_straight, chk_settings, chk_files, chk_cli, chk_round, chk_py
CHECKS, META, NOT = {}, {}, {}
def reg(ids, fn, tech, level, note):
    for i in ids: CHECKS[i] = fn; META[i] = (tech, level, note)

reg(list(chk_weld.PROFILES), chk_weld.check,
    'TLA+ trace validation of recorded welder runs with TLC (spec/WelderTrace.tla over the printer model spec/Tracker.tla)', 'model_checking',
    'Every recorded run of the real program on seeded generated programs and options is executed step by step by the specification, with the source and the target '
    'on two model printers and exact integer geometry; the property is an invariant of every step. Assurance is over the runs explored, not all inputs. '
    'Trusted: TLC, the tokenizer tools/gcode.py, the printer model (bound to the library by G02/G03).')

BOUND = 'Assurance is exhaustive for short programs over the stated alphabets and sampled beyond. Trusted: TLC and the harness that prints the state (harness/harness.cpp, without expectations).'
reg(['G01'], chk_lib.chk_g01, 'TLA+ specification of the line grammar (spec/Parser.tla) evaluated by TLC on every recorded answer of the real parser, exhaustively for short lines', 'model_checking',
    'Every line over a ten character alphabet up to length four (quick) or five, and generated lines, are parsed by the real parser and by the specification. Trusted: TLC and the harness printing the fields.')
reg(['G02', 'G03', 'G04', 'G05'], chk_lib.chk_tracker, 'TLA+ model of the printer (spec/Tracker.tla) run by TLC in lock step with the real position tracker (spec/TrackerTrace.tla)', 'model_checking', BOUND)
reg(['G06'], chk_lib.chk_g06, 'TLA+ model of an ideal history (spec/HistoryTrace.tla) checked by TLC against recorded update/undo/grow sequences of the real tracker', 'model_checking', BOUND)
reg(['G07'], chk_lib.chk_g07, 'TLA+ model of slicer comments (spec/Features.tla) checked by TLC against recorded comment sequences of the real comment processor', 'model_checking', BOUND)
reg(['L01'], chk_lib.chk_l01, 'TLA+ model of log levels (spec/Logger.tla) checked by TLC against recorded operations of the real logger', 'model_checking', BOUND)
reg(['N01'], chk_lib.chk_n01, 'TLA+ specification of writing decimal numbers (spec/Numbers.tla) evaluated by TLC on recorded answers of the real number writer', 'model_checking', BOUND)
reg(['D01'], chk_lib.chk_d01, 'TLA+ model of double-ended sequences (spec/DequeTrace.tla) checked by TLC against recorded operations of the real containers', 'model_checking', BOUND)

RUN = 'Every recorded run of the real program (or of the library behind it) on seeded generated programs and options is judged by the specification. Assurance is over the runs explored. Trusted: TLC, tools/gcode.py, the harness that prints reports.'
reg(['W14'], chk_run.check14, 'TLA+ model of the collector (spec/CollectTrace.tla beside spec/WelderTrace.tla) checked by TLC against recorded welder runs on programs whose circles are known by construction', 'model_checking', RUN)
reg(['W16'], chk_run.check16, 'TLA+ specification of the header (spec/HeaderTrace.tla) evaluated by TLC on recorded runs', 'model_checking', RUN)
reg(['W17'], chk_run.check17, 'TLA+ trace validation (spec/StatsTrace.tla extends spec/WelderTrace.tla): every progress report, the result and the printed tables of recorded runs against counters kept by the specification', 'model_checking', RUN)
reg(['W18'], chk_run.check18, 'TLA+ model of the life of a run (spec/RunTrace.tla) checked by TLC against recorded runs cancelled at every report', 'model_checking', RUN)

reg(list(chk_straight.PROFILES), chk_straight.check,
    'TLA+ trace validation of recorded straightener runs with TLC (spec/StraightTrace.tla over the firmware model spec/ArcMoves.tla and the printer model spec/Tracker.tla)', 'model_checking',
    'Every recorded run of the real program, for eight firmware versions and their settings, is executed step by step beside its source; the moves replacing an arc are compared with '
    'what the model of the firmware allows. Assurance is over the runs explored. Trusted: TLC, tools/gcode.py, the printer model (bound to the library by G02/G03).')
reg(['S05'], chk_settings.check, 'TLA+ table of firmwares, versions and settings (spec/Firmware.tla) evaluated by TLC on recorded answers of the real program (spec/SettingsTrace.tla, with the moves of probe arcs judged by spec/ArcMoves.tla)', 'model_checking',
    'The matrix of every type, version and setting is run completely, values and combinations are sampled. Trusted: TLC, the reading of the printed names and values.')

reg(['S06'], chk_cli.check_s06, 'TLA+ specification of the command line as a machine reading its words twice (spec/StraightOptions.tla), evaluated by TLC on recorded runs of the real program (spec/StraightOptionsTrace.tla); TLA+ model of a file system (spec/Files.tla) stepped with the operations of runs in place under injected faults and kills (spec/FilesTrace.tla)', 'model_checking',
    'Every option with every kind of value, alone and combined; what the settings do is compared with the library run with those the specification says are in force. Every file operation of runs in place is a point of failure or kill. Assurance is over the command lines and runs explored. Trusted: TLC, the reading of the printed lines, harness/fileops.c.')
reg(['C01'], chk_cli.check_c01, 'TLA+ specification of the command line (spec/Options.tla, spec/Decimals.tla) as a machine reading one word after the other, evaluated by TLC on recorded runs of the real program (spec/OptionsTrace.tla)', 'model_checking',
    'Every option with every kind of value, alone and combined; what the options do is compared with the library run with the settings the specification says are in force. Assurance is over the command lines explored. Trusted: TLC, the reading of the printed lines.')

FILES = 'The model is stepped with the operations of real runs; the state after every operation is judged, which is what a kill there leaves. Trusted: TLC, the preloaded recorder harness/fileops.c.'
reg(['F01'], chk_files.check01, 'TLA+ model of a file system (spec/Files.tla) stepped by TLC with the recorded file operations of real runs under injected faults and kills (spec/FilesTrace.tla)', 'model_checking', FILES)
reg(['F02'], chk_files.check02, 'TLA+ model checking of all interleavings of the recorded operations of two runs (spec/Interleave.tla), and trace validation of real runs interleaved operation by operation (spec/FilesTrace.tla)', 'model_checking', FILES)

reg(['R01'], chk_round.check, 'TLA+ trace validation of both real programs composed (spec/RoundTrip.tla over the printer model spec/Tracker.tla and the firmware model spec/ArcMoves.tla)', 'model_checking',
    'The lines of a source and of what welding and straightening made of it are executed side by side; the moves have to follow the path of the lines they stand for. Assurance is over the runs explored. Trusted: TLC, tools/gcode.py.')

reg(['P01', 'P02', 'P03'], chk_py.check, 'TLA+ model of a session with the Python extension (spec/PyConvert.tla: arguments and settings in force; spec/PyTrace.tla: calls, messages, reports, answers and results) stepped by TLC with recorded sessions of the real extension', 'model_checking',
    'Every recorded session of the real extension, in a Python process of its own with a logger that records, is executed event by event by the specification, beside the library run with the settings the specification puts in force. Assurance is over the sessions explored. Trusted: TLC, harness/pyhost.py, the reading of the messages in tools/chk_py.py.')
