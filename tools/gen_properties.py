#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit and validate)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AW = "ArcWelder/arc_welder.cpp"
SA = "ArcWelder/segmented_arc.cpp"
SS = "ArcWelder/segmented_shape.cpp"
GP = "GcodeProcessorLib/gcode_position.cpp"
PA = "GcodeProcessorLib/gcode_parser.cpp"
CLI = "ArcWelderConsole/ArcWelderConsole.cpp"
INV = "ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp"
FW = ["ArcWelderInverseProcessor/marlin_1.cpp", "ArcWelderInverseProcessor/marlin_2.cpp",
      "ArcWelderInverseProcessor/repetier.cpp", "ArcWelderInverseProcessor/prusa.cpp",
      "ArcWelderInverseProcessor/smoothieware.cpp"]
INT = "ArcWelderInverseProcessor/arc_interpolation.cpp"
PROPS = []

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": hook}})

NOT = "The stable tests only format numbers and parse a handful of commands; none runs the welder on a file. "
OUT = ["the target file written by the ArcWelder program"]

P("W01", "Lines that are not welded pass through unchanged, in order, once",
  "Every line of the source file is either represented by exactly one arc command of the target (a G0/G1 move, or a blank line between or directly after such moves) or appears in the target exactly once, with its text unchanged and in the same relative order. "
  "The target contains nothing else except the header the program adds: no line is invented, duplicated, lost or moved across another, whatever the file's length and however it ends. "
  "(Carriage returns and a lone trailing ';' may be normalised.)",
  ["inputs", "configurations"], "every source file (any commands, comments, blank lines, line endings, missing final newline) and every option set",
  NOT + "It must hold for every interleaving of arcs, interrupted arcs and other commands, including the state of the look-back buffer at end of file.",
  [AW, "ArcWelder/unwritten_command.h"], [("unwritten command buffer", f"{AW}: write_gcode_to_file, write_unwritten_gcodes_to_file"), ("reprocessing of the command that ended an arc", f"{AW}: process_gcode, process")],
  [("unwritten_commands_", "source lines read but not yet written", "ArcWelder/arc_welder.h")], OUT)

P("W02", "The machine is in the same state at every line that survives",
  "When the target is executed by a controller, the logical position of X, Y, Z and E, the absolute/relative modes, the coordinate offsets and the selected tool before and after every surviving source line and after every arc equal those reached at the corresponding point of the source, to within half a unit in the last written decimal of the arc's numbers (in relative extruder mode, per arc). "
  "The target uses only motion forms the controller already accepted: arcs are written with absolute X/Y end points and with E in the mode that is in force.",
  ["inputs", "configurations", "histories"], "every source program over moves, G90/G91, M82/M83, G92, G28, G10/G11, T, M218 and comments, and every option set, including the option that lets G90/G91 influence the extruder",
  NOT + "A wrong end point or E value only appears after particular mode and offset histories.",
  [AW, SA, GP], [("arc command generation", f"{SA}: get_shape_gcode"), ("E end value in absolute mode", f"{AW}: process_gcode, get_arc_gcode")],
  [("current position", "tracked XYZE, modes and offsets", "GcodeProcessorLib/position.h")], OUT)

P("W03", "Welding conserves the filament extruded",
  "Each arc extrudes exactly the filament that the moves it replaces extruded together, to within half a unit in its last written E decimal, and carries an E word if and only if those moves extruded or retracted something. "
  "In relative extruder mode the written amount is the sum of the replaced amounts; in absolute mode it is the end value, so that no error accumulates over a file.",
  ["inputs", "histories", "configurations"], "every sequence of extruding, retracting and travel moves in either extruder mode, with G92 E resets and E precision options",
  NOT + "Sums over arbitrarily long arcs and mode changes before them cannot be sampled by number-formatting tests.",
  [SA, SS, AW], [("running E total of a shape", f"{SS}, {SA}: try_add_point_internal_"), ("E output", f"{SA}: get_shape_gcode")],
  [("e_relative total", "sum of the E deltas of the points of the shape", "ArcWelder/segmented_shape.h")], OUT)

P("W04", "Feedrates survive welding",
  "All moves replaced by one arc have the same effective feedrate (of at least 1 mm/min), the arc runs at that feedrate, and every surviving line runs at the feedrate it had in the source. "
  "An arc carries an F word only when the feedrate in force before it differs, and then with the exact source value, fractional part included.",
  ["inputs", "histories"], "every file with feedrate changes on moves, on F-only lines, between and inside candidate arcs",
  NOT + "Needs feedrate changes placed at the first, middle and last moves of an arc and before interrupted arcs.",
  [AW, SA], [("feedrate equality gate", f"{AW}: process_gcode"), ("F output", f"{AW}: get_arc_gcode; {SA}: get_shape_gcode")],
  [("f", "feedrate in force", "GcodeProcessorLib/position.h")], OUT)

P("W05", "The tool path stays within half the resolution",
  "Every point at which a replaced move ended lies within half the configured resolution of the written arc, and every replaced segment stays within half the resolution of it at its closest approach to the arc's centre, up to the rounding of the written coordinates. "
  "This holds for each segment of the arc, not only for its ends.",
  ["inputs", "configurations"], "every polyline, every resolution > 0, coordinates of any magnitude a printer uses, both with and without 3D arcs",
  NOT + "The error bound is a universal statement over geometry, the handful of sampled strings never touches it.",
  [SS, SA], [("per-point and per-segment distance test", f"{SS}: arc::try_create_arc, circle::get_deviation..., circle fit"), ("refit on every added point", f"{SA}: try_add_point_internal_")],
  [("points", "points of the candidate arc", "ArcWelder/segmented_shape.h")], OUT)

P("W06", "Arcs turn the right way and keep the path length",
  "Each written arc is G3 if the moves it replaces turn counter-clockwise around its centre and G2 if they turn clockwise, it turns by the same angle as they do, and its centre offsets are relative to its start and never both zero. This holds for the arc as a controller executes the numbers written: an end that rounds onto or behind the start never makes a full circle of a short arc, nor a short arc of a nearly full circle. "
  "The length of the path it replaces differs from the arc's own length by no more than the configured path tolerance, as a fraction of the arc's length.",
  ["inputs", "configurations"], "every polyline in every orientation and quadrant, arcs from a few degrees to almost a full turn, from below the written resolution to the maximum radius, every path tolerance in (0,1)",
  NOT + "Direction and sweep errors appear only for particular quadrants and sweeps.",
  [SS, SA], [("direction and sweep selection", f"{SS}: arc::try_create_arc"), ("G2/G3 choice", f"{SA}: get_shape_gcode")],
  [("current_arc_", "fitted arc", "ArcWelder/segmented_arc.h")], OUT)

P("W07", "An arc replaces moves of one kind only",
  "All moves replaced by one arc are of the same kind: all extrude, all retract, or all travel without E. "
  "Travel moves are replaced only when travel arcs are allowed.",
  ["inputs", "configurations"], "every interleaving of extruding, retracting and travel moves along a curve, in absolute or relative extruder mode, with and without the travel option",
  NOT + "The mix can occur at any of the first, second or later moves of an arc.",
  [AW, SA], [("kind gate", f"{SA}: try_add_point; {AW}: process_gcode")],
  [("waiting_for_arc_", "an arc is being collected", "ArcWelder/arc_welder.h")], OUT)

P("W08", "Welding never crosses a state change",
  "The moves replaced by an arc are consecutive absolute G0/G1 moves starting from a known XY position, with no other command, no comment-only line, and no change of positioning mode, extruder mode, tool, coordinate offset or feature type between them. "
  "Moves in relative positioning, and moves whose start was never established (before homing or the first full move), are never replaced.",
  ["inputs", "histories"], "every interleaving of moves with any other command, comment or tool/offset/mode change",
  NOT + "Any command of the dialect can occur at any place inside a candidate arc.",
  [AW, GP], [("eligibility test", f"{AW}: process_gcode")],
  [("previous/current position", "modes, offsets, null flags", "GcodeProcessorLib/position.h")], OUT)

P("W09", "Arcs stay in the plane unless 3D arcs are allowed",
  "Without 3D arcs, an arc is written only for moves that all keep the same Z, and no arc has a Z word. "
  "With 3D arcs, an arc's Z word gives the Z at which the replaced moves end, and Z at every replaced point agrees with a helix that rises in proportion to the distance travelled, within the written precision.",
  ["inputs", "configurations"], "every polyline with flat, stepped, linear or irregular Z, with 3D arcs on and off",
  NOT + "Vase-mode files with irregular Z steps are never exercised.",
  [AW, SS, SA], [("Z gate", f"{AW}: process_gcode"), ("constant Z rate test", f"{SS}: arc::try_create_arc"), ("Z output", f"{SA}: get_shape_gcode")], [], OUT)

P("W10", "Extrusion-rate variance limits which moves are joined",
  "Two consecutive extruding moves are welded into the same arc only if the filament per millimetre of the later differs from that of the earlier by no more than the configured percentage. "
  "With the limit set to zero the rates are not compared.",
  ["inputs", "configurations"], "every sequence of extruding moves with varying amount per millimetre and every variance setting",
  NOT + "Requires rate jumps at particular moves of an arc.",
  [AW], [("rate comparison", f"{AW}: process_gcode")], [("previous_extrusion_rate_", "filament per mm of the previous move", "ArcWelder/arc_welder.h")], OUT)

P("W11", "Arc commands respect the length limit and the number precision",
  "When a maximum gcode length is set, no arc command written (without its comment) is longer than it. "
  "Every X, Y, Z, I and J of an arc has exactly the configured number of decimals and every E its own configured number (a zero may be written as 0), and with dynamic precision these rise to the largest number of decimals of X, Y, Z (and of E) in the source's moves up to the arc's last one (at most six), never falling.",
  ["inputs", "configurations"], "every option set with or without a length limit (31 and up), precisions 3 to 6, dynamic precision on or off, coordinates of any sign and magnitude",
  NOT + "Length depends on signs, magnitudes and precisions together.",
  [SA, AW, "GcodeProcessorLib/utilities.cpp"], [("length test", f"{SA}: try_add_point_internal_, get_shape_gcode_length"), ("precision", f"{AW}: process_gcode; {SS}: set_xyz_precision")], [], OUT)

P("W12", "No arc exceeds the maximum radius",
  "The radius of every written arc is at most the configured maximum radius (default and upper limit 9999 mm), up to the rounding of its written numbers. "
  "A path that would need a larger circle is left as lines.",
  ["inputs", "configurations"], "every nearly straight path and every maximum radius > 0",
  NOT + "Only nearly straight paths reach the limit.",
  [SS, SA, AW], [("radius test", f"{SS}: circle::try_create_circle"), ("limit", f"{AW}: constructor")], [], OUT)

P("W13", "Firmware compensation rejects arcs the firmware would flatten",
  "When the controller's segment length and minimum number of segments are given, an arc is written only if the controller would cut a full circle of its radius into at least that minimum number of segments of the given length, or the replaced path is itself so short that the full circle holds at least that minimum number of such paths. "
  "When they are not given, no arc is rejected for it.",
  ["inputs", "configurations"], "every arc radius and segment density, every pair of segment length and minimum segment count",
  NOT + "The bound couples radius, arc length and segment count.",
  [SA, SS, AW], [("segment count comparison", f"{SA}: try_add_point_internal_")], [], OUT)

P("W14", "Curves sampled from a circle are welded, completely and greedily",
  "Collection is greedy: as long as the next eligible move lies on one circle with the moves collected, within all limits, it joins them, and the arc finally written runs from the start of the first collected move to the end of the last, provided it has at least two; moves that no arc within the limits can join are left as they are. "
  "The move that ends an arc is the first candidate of the next collection, so adjacent curves are each welded whole; when one move has been collected and the next is on no common circle with it, the collection slides on to that next move. A move refused for another reason (feedrate, kind, extrusion rate, feature) while no arc was complete ends the collection, which then begins after it.",
  ["inputs", "configurations", "histories"], "every concatenation of exact circular runs, sharp corners, travel moves, other commands and comments",
  NOT + "Which moves are welded depends on the whole history of the look-back state.",
  [AW, SA], [("collect, extend, emit, restart", f"{AW}: process_gcode; {SA}: try_add_point")],
  [("waiting_for_arc_", "an arc is being collected", "ArcWelder/arc_welder.h"), ("points", "points collected so far", "ArcWelder/segmented_shape.h")], OUT)

P("W15", "Comments of replaced commands end up on their arc",
  "The comments of the commands replaced by an arc, and of no other command, appear on the arc's line in their order, joined by ' - ', where a comment equal to all that was collected before it is not repeated. "
  "An arc whose commands had no comments has none, and comments of surviving lines are untouched.",
  ["inputs"], "every placement of comments on moves before, inside and after arcs, including the command that interrupts an arc",
  NOT + "An off-by-one appears only at the ends of an arc and after interrupted ones.",
  [AW, "ArcWelder/unwritten_command.h"], [("comment collection", f"{AW}: get_comment_for_arc")], [], OUT)

P("W16", "The target states what was done, after the slicer's own first line",
  "The target contains exactly one header of comment lines and a blank line, which states the settings the run used. "
  "It is placed before the first source line, except that a first line by which another program recognises the file (Ultimaker's flavour line, PrusaSlicer's 'generated by' line) stays the first line of the target.",
  ["inputs", "configurations"], "every first line and every option set",
  NOT + "No test looks at the header.",
  [AW], [("header", f"{AW}: add_arcwelder_comment_to_target, process")], [], OUT)

P("W17", "Reported statistics and progress are true",
  "The reported number of lines, of moves replaced (points compressed) and of arcs created, the file sizes, and the segment counts and total lengths of the source and target distributions equal those computed from the two files. "
  "Progress reports never decrease, and the final result of a completed run reports the whole file.",
  ["inputs", "configurations", "histories"], "every source file, option set and progress interval",
  NOT + "No test runs the statistics.",
  [AW, "ArcWelder/segmented_shape.h", "ArcWelder/arc_welder.h"], [("counters", f"{AW}: process, process_gcode, write_arc_gcodes"), ("segment statistics", "ArcWelder/segmented_shape.h, ArcWelder/arc_welder.h: source_target_segment_statistics")], [], ["progress callback and result of the arc_welder class, and the program's console output"])

P("W18", "A cancelled run stops cleanly",
  "When a progress report is answered with a request to stop, no further source line is processed, only the final report follows, and the result says that the run was cancelled and not successful. "
  "What was written before is a prefix of what the uninterrupted run writes; an in-place run leaves the source unchanged and no temporary file behind.",
  ["inputs", "histories", "configurations"], "every progress report of a run as the point of cancellation, for separate and in-place targets",
  NOT + "Cancellation is never exercised.",
  [AW], [("cancel flag", f"{AW}: process, on_progress_")], [], ["progress callback, results and files"])

P("F01", "In-place welding never loses the source file",
  "If the target is the source itself (by the same or by another path to it) then at every moment, and after a failure or a kill at any file operation, the source path holds either the complete original or the complete result. "
  "A failed run says so (exit status and message) and leaves no temporary file; a successful one leaves only the result.",
  ["crash_points", "fault_sequences", "configurations"], "every file operation of an in-place run as the point of a failure (open, write, rename, delete) or of a kill, and every way to name the target",
  NOT + "No test injects a failure or stops the program midway.",
  [AW, CLI, "GcodeProcessorLib/utilities.cpp"], [("temporary file and replace", f"{AW}: process; GcodeProcessorLib/utilities.cpp: replace_file, get_temp_file_path_for_file")], [], ["files in the directory, exit status, system calls recorded by an interposed library"])

P("F02", "Concurrent runs do not disturb each other",
  "Programs welding or straightening different files of one directory in place at the same time, in any interleaving of their file operations, each produce the result they produce alone. "
  "Runs on the same file leave it as one complete result.",
  ["schedules"], "every interleaving of the file operations of two processes over the same directory",
  NOT + "A single-process test cannot exhibit a shared temporary name.",
  ["GcodeProcessorLib/utilities.cpp", AW, "ArcWelderInverseProcessor/arc_interpolation.cpp"], [("unique temporary name", "GcodeProcessorLib/utilities.cpp: create_uuid, get_temp_file_path_for_file")], [], ["temporary paths opened, resulting files"])

P("C01", "The welder's command line means what it says",
  "Every option value accepted by the welder takes effect as documented, in its short and long form, with the documented default when absent. "
  "Values outside the documented range, unknown, repeated or contradictory options or a missing source are rejected with a message and a non-zero exit status before any file is created or changed, and a run that succeeds exits with zero. Warnings, log messages and progress reports are printed when and only when the options ask for them.",
  ["configurations", "inputs"], "every option, alone and in combination, with values below, at, between and above its limits",
  NOT + "The command line is not tested at all.",
  [CLI], [("argument parsing and validation", f"{CLI}: main")], [], ["exit status, messages, header of the target"])

P("G01", "Every line is split into the same command, parameters and comment",
  "A line is parsed into its command (letter and number as written, including a fractional number, or an @ word), its parameters with the exact decimal values and number of decimals written, and its comment (the text after the first ';'); a line that does not start with a command is reported as unknown, and as empty only if it has nothing but blanks before its comment. "
  "Letter case and spaces between or inside words and numbers never change the command or the parameters (except that a blank ends the number of the command itself: 'G1 0' is not G10), and the stored command text is the line up to the comment, unchanged when the format is to be preserved and otherwise upper-cased (except text commands) without surrounding blanks and control characters.",
  ["inputs"], "every byte string as a line",
  "TestParsingCase samples a few spellings; the language of lines is infinite.",
  [PA, "GcodeProcessorLib/parsed_command.h"], [("character-level parser", f"{PA}: try_parse_gcode, try_extract_gcode_command, try_extract_double")], [], ["result of parsing a line through the library"])

P("G02", "The tracked X, Y, Z and F follow the printer",
  "After every command the tracked X, Y and Z (machine and gcode coordinates), the known/unknown and homed status of each axis, the feedrate and the positioning mode are those of a printer executing the same program with absolute/relative positioning, coordinate resets, homing and per-tool offsets. "
  "Unknown axes stay unknown until established. Where the configuration says that a program has to state its positioning mode, nothing moves, and the position is not called definite, until it has.",
  ["histories", "inputs"], "every finite program over G0-G3, G28, G90, G91, G92, G10, M218 and T with any subset of parameters",
  NOT + "State depends on the whole history of modes and offsets.",
  [GP, "GcodeProcessorLib/position.cpp"], [("command handlers", f"{GP}: process_g0_g1, process_g28, process_g92, ...")], [("position", "x,y,z,f and flags", "GcodeProcessorLib/position.h")], ["position returned after each update"])

P("G03", "The tracked extruders follow the printer",
  "For every extruder the tracked E value, E offset, and E change of the last command are those of a printer executing the same program with absolute/relative extrusion, E resets and tool changes, and each tool keeps its own E state and offsets. While the extrusion mode is not known, E stays where it is. "
  "A tool number outside the configured range never corrupts the state of another tool.",
  ["histories", "inputs", "configurations"], "every finite program over moves, M82, M83, G90/G91, G92 E, T and G10/M218 offsets for 1 to 4 extruders, zero-based or one-based tool numbers",
  NOT + "No test uses more than one extruder.",
  [GP, "GcodeProcessorLib/extruder.cpp"], [("E tracking", f"{GP}: update_position, process_t")], [("extruder", "per-tool E and offsets", "GcodeProcessorLib/extruder.h")], ["extruder state after each update"])

P("G04", "Retraction and extrusion state follows the filament",
  "After every command that changes the position, the retracted length, the length deretracted and the length extruded by that command, and the total extruded, equal those of a ledger of the E movement of the tool in use: E taken back is retracted, E given first pays the retraction back, and only the rest is extruded. "
  "The flags for extruding, start of extrusion, retracting, retracted (fully or partially), primed and deretracted are those the ledger implies, and every tool has a ledger of its own.",
  ["histories"], "every sequence of E changes of any sign and size interleaved with other commands",
  NOT + "The flags are a state machine over the whole history.",
  [GP, "GcodeProcessorLib/extruder.cpp"], [("retraction ledger", f"{GP}: update; extruder.cpp")], [], ["extruder state after each update"])

P("G05", "Layers, heights and Z-hops are recognised from extrusion",
  "The height of the last extrusion, the layer height and the layer number change only when filament is extruded (or a retraction is paid back after the first layer) above the height of the last extrusion and, once a bed or priming height is configured, within those bounds; the layer number then goes up by one exactly when Z is at least the minimum layer height above the previous layer. "
  "A move that does not extrude and ends above the last extrusion by at least the tool's lift height is reported as a Z-hop, and no other move is.",
  ["histories"], "every program mixing Z moves, hops, extrusion, retraction and priming",
  NOT + "State over whole histories.",
  [GP], [("layer and height tracking", f"{GP}: update")], [], ["position after each update"])

P("G06", "Undo restores the tracked state and history is exact",
  "Undoing the last update restores exactly the state and the previous state from before it, for as many consecutive updates as the history holds. "
  "Re-applying the undone command gives the state it gave the first time.",
  ["histories"], "every interleaving of updates and undos up to the capacity of the history",
  NOT + "No test uses undo.",
  [GP, "GcodeProcessorLib/gcode_position.h"], [("ring of positions", f"{GP}: add_position, undo_update")], [], ["positions after each update/undo"])

P("G07", "Feature types are read from slicer comments",
  "A comment that announces a section (Cura, Simplify3D, Slic3r PE tool changes) gives all following commands the feature type announced until the next announcement, and a Slic3r PE comment on a command gives that command its feature type. "
  "The first slicer recognised decides which comments count from then on, and any other comment changes nothing.",
  ["inputs", "histories"], "every sequence of recognised and unrecognised comments on their own lines and on commands",
  NOT + "No test uses the comment processor.",
  ["GcodeProcessorLib/gcode_comment_processor.cpp"], [("comment processor", "GcodeProcessorLib/gcode_comment_processor.cpp")], [], ["feature tag after each update"])

P("S01", "Straightening touches arcs only",
  "Every source line that is not a G2/G3 arc appears in the straightened file exactly once, unchanged and in order; arcs are replaced by G1 moves only. "
  "After each arc the logical X, Y, Z and E, the feedrate and the positioning modes equal those of the source at that point, except where the firmware itself drops an arc (no feedrate, no radius).",
  ["inputs", "configurations", "histories"], "every file of moves, arcs, modes and offsets, every firmware type and version",
  NOT + "The straightener is not tested.",
  [INT, "ArcWelderInverseProcessor/firmware.cpp"] + FW, [("arc interpolation", f"{INT}: process")], [], ["the target file written by the ArcStraightener program"])

P("S02", "Interpolated points lie on the arc in the right direction",
  "Every point a straightened arc visits lies on the circle of the arc within the rounding of the written numbers (plus the known drift of firmwares that rotate with a small-angle approximation), the points advance strictly in the arc's direction from its start to its end, and they cover its whole sweep and no more. "
  "An arc that ends where it starts is a full circle for firmwares that define it so, as far as the rounding of the firmware's own arithmetic lets it see that the ends coincide.",
  ["inputs", "configurations"], "every arc (centre form, any radius, sweep, direction, full circles) and every firmware type and version",
  NOT + "Geometry over all arcs and five firmwares.",
  FW, [("per-firmware interpolation", "ArcWelderInverseProcessor/*.cpp: interpolate_arc")], [], ["the target file written by the ArcStraightener program"])

P("S03", "Interpolation uses the firmware's number of segments",
  "The number of moves generated for an arc is the one the selected firmware and version computes from the arc's length, radius and the segment settings in force (segment length, minimum segments, segments per second, angular limits, chord error). "
  "Settings given on the command line replace the firmware's defaults.",
  ["inputs", "configurations"], "every arc, feedrate, firmware, version and segment setting",
  NOT + "Five formulas over real-valued inputs.",
  FW, [("segment count", "ArcWelderInverseProcessor/*.cpp: interpolate_arc")], [], ["the target file written by the ArcStraightener program"])

P("S04", "E and Z progress evenly along an interpolated arc",
  "Along a straightened arc, Z and E advance monotonically in equal steps (the last one may be shorter where the firmware defines it so) from the start to the end value, the amounts extruded add up to the arc's own (in absolute and relative extruder mode), and the arc's feedrate applies to all of its moves. "
  "Firmware that ignores Z in arcs is excluded.",
  ["inputs", "configurations"], "every helical or flat arc in either extruder mode, for every firmware",
  NOT + "The straightener is not tested.",
  FW, [("linear and extruder travel", "ArcWelderInverseProcessor/*.cpp: interpolate_arc")], [], ["the target file written by the ArcStraightener program"])

P("S05", "Firmware versions have their documented defaults and settings",
  "For each firmware type and version the straightener reports and uses that version's default settings, accepts and applies exactly the settings that version has, and treats the default version as the documented latest. "
  "The influence of G90/G91 on the extruder follows the firmware unless overridden.",
  ["configurations"], "every firmware, version and setting",
  NOT + "Configuration tables are not tested.",
  FW + [INV, "ArcWelderInverseProcessor/firmware_types.h"], [("version tables", "ArcWelderInverseProcessor/*.cpp: apply_arguments, get_default_arguments_for_current_version")], [], ["the settings printed, the moves generated"])

P("S06", "The straightener's command line and in-place runs are safe",
  "Option values of the wrong type, unknown options, firmware or versions, settings the version does not have, and a missing source are rejected with a message and a non-zero exit status before any file is created or changed. "
  "Straightening in place leaves either the complete original or the complete result at the source path after any failure or kill, reports failure in its exit status, and leaves no temporary file after a success or a reported failure.",
  ["configurations", "fault_sequences", "crash_points"], "every option with values in and out of range; every file operation as the point of failure or kill",
  NOT + "No test injects failures.",
  [INV, INT, "GcodeProcessorLib/utilities.cpp"], [("argument validation", f"{INV}: main"), ("replace", f"{INT}: process")], [], ["exit status, files"])

P("R01", "Welding then straightening gives back the same print",
  "A file that is welded and then straightened with matching firmware settings drives the machine through the same sequence of surviving lines, visits the end of each arc exactly and stays within the resolution of the original path in between, with the same filament at each surviving line. "
  "Straightening a file without arcs changes nothing.",
  ["inputs", "configurations"], "every source file within the welder's domain and every firmware",
  NOT + "Two programs composed.",
  [AW, INT] + FW, [("composition of both programs", f"{AW}: process; {INT}: process")], [], ["the file written by ArcStraightener from the file written by ArcWelder"])

P("L01", "Log messages appear exactly when their level is enabled",
  "A message is passed on if and only if its level is at or above the level set for its logger, with the enabled-level query giving the same answer, for each logger separately and after any sequence of level changes. "
  "The message's text, logger and level arrive unchanged.",
  ["histories", "configurations"], "every sequence of global and per-logger level changes and messages",
  NOT + "The logger is not tested.",
  ["GcodeProcessorLib/logger.cpp"], [("level filter", "GcodeProcessorLib/logger.cpp: is_log_level_enabled, log")], [], ["messages received by a logger subclass or printed"])

P("D01", "The look-back buffer and queues behave as sequences",
  "The growable and fixed ring containers behave as double-ended sequences: after any series of pushes, pops, clears and resizes within capacity, the size, every element by index, and the elements returned are those of the sequence. "
  "Growing never loses, duplicates or reorders elements, wherever the ring has wrapped.",
  ["histories"], "every sequence of front and back operations from every wrap position",
  NOT + "Wrap-around and growth combinations are not tested.",
  ["GcodeProcessorLib/circular_buffer.h", "GcodeProcessorLib/array_list.h"], [("ring arithmetic", "GcodeProcessorLib/array_list.h, circular_buffer.h")], [], ["container contents after each operation"])

P("N01", "Numbers are written correctly rounded",
  "Every number is written as the decimal with exactly the asked number of decimals that is nearest to it (either neighbour when it is half way), in plain notation with its sign and without leading zeros; zero may be written as 0. "
  "This holds from the smallest to the largest numbers, without touching any memory but its own.",
  ["inputs"], "every double and every number of decimals the programs use",
  "TestDoubleToString samples fixed values near 1; the programs write differences of doubles, which may be of any size (1e-17) or sign.",
  ["GcodeProcessorLib/fpconv.cpp", "GcodeProcessorLib/utilities.cpp"], [("digit generation, rounding and padding", "GcodeProcessorLib/fpconv.cpp: emit_digits_decimal; utilities.cpp: dtos")], [], ["text returned for a number, and the numbers in every target file"])

PY = ["PyArcWelder/py_arc_welder.cpp", "PyArcWelder/py_arc_welder_extension.cpp"]
PYL = ["PyArcWelder/py_logger.cpp", "PyArcWelder/python_helpers.cpp"]
NOPY = "No test loads the Python extension. "
P("P01", "The Python extension welds as the settings in force say",
  "ConvertFile writes the file that the welding library writes for the same source and the settings in force, at the target path (in place of the source when the paths are the same), and changes no other file. "
  "In force are the given values and, for arguments that are not given, the defaults of the command line program; a resolution that is not positive and a negative tolerance, variance, segment length, segment count or line length mean the default, a radius is at most 9999 mm, "
  "precisions are whole (decimals are dropped) and from 3 to 6, and a switch is on if it is greater than zero. No setting reaches a later call.",
  ["inputs", "configurations", "histories"], "every dictionary of arguments (present, absent, of any number type and size), every source file, and every series of calls in one process",
  NOPY + "Which value is in force depends on the type and size of seventeen arguments and on the calls before.",
  PY + PYL, [("reading of the arguments", f"{PY[0]}: py_gcode_arc_args::parse_args"), ("conversion", f"{PY[1]}: ConvertFile")], [], ["the files after ConvertFile returned"])

P("P02", "The Python extension reports true progress, obeys answers and leaks nothing",
  "The callback receives a complete report, with the guid of the call, before the first line, whenever the library reports, and at the end; every field equals that of the library, sizes and positions of any magnitude included, and progress never goes back. "
  "Answers that are true, None or a whole number above zero continue, as does a callback that raises; false and whole numbers of zero or less stop the conversion before the next line, except in answer to the last report. "
  "The results say success, cancellation or failure (with a message) truthfully and hold the last report with its statistics. No reference to an argument, report or result is kept or lost.",
  ["inputs", "schedules", "histories"], "every sequence of answers of the callback, every source file of any size, and every series of calls in one process",
  NOPY + "Cancellation needs runs of thousands of lines, sizes beyond 2 GB and reference counts are seen by no ordinary use.",
  PY, [("reports", f"{PY[0]}: build_py_progress, on_progress_"), ("results", f"{PY[1]}: ConvertFile")], [], ["the dictionaries passed to the callback and returned, reference counts before and after"])

P("P03", "The Python extension rejects what it cannot use and logs to the Python logger",
  "A call without a dictionary, without a required argument or with an argument of the wrong type raises an exception (naming a missing argument), is logged as an error, reports no progress and changes no file; no call ends the process. "
  "A source or target that cannot be opened is logged as an error and reported by the results. Every optional argument that is missing, and every precision out of range, is warned about once; the beginning and the end of a conversion are logged as info. "
  "Each line of the source is logged once, as verbose, if and only if the log level of the call allows it (details as debug likewise), whatever bytes the line contains. Messages go to the logger and nowhere else.",
  ["inputs", "configurations", "histories"], "every argument of ConvertFile and every dictionary of arguments, every log level, every source file and every series of calls in one process",
  NOPY + "Wrong types, bytes that are no text and levels left over from an earlier call each need their own history.",
  PY + PYL, [("rejection", f"{PY[0]}: py_gcode_arc_args::parse_args"), ("messages", f"{PYL[0]}: py_logger::log"), ("level of the call", f"{PY[1]}: ConvertFile")], [], ["exceptions, messages received by the Python logger, and what is printed"])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    try:
        import jsonschema
        sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in PROPS: jsonschema.validate(p, sch)
    except (ImportError, FileNotFoundError):
        pass
    print(len(PROPS), "properties")
