"""Planted bugs: id -> property, edits (file, old, new), demonstration."""
SEEDS = {}
WELD = '''D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
weld() { _build/ArcWelderConsole/ArcWelder -p=NONE -l=ERROR "$@" "$D/in.gcode" "$D/out.gcode" >/dev/null || exit 2; }
'''
def seed(i, prop, edits, demo, needs, breaks, files=None):
    SEEDS[i] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, files=files or {})

seed('w03-front-e', 'W03', [('ArcWelder/segmented_arc.cpp', '    e_relative_ -= new_initial_point.e_relative;\n', '')],
WELD + r'''python3 - > "$D/in.gcode" <<'P'
import math
print("G90\nM83\nG28\nG1 X50 Y50 Z0.2 F3000")
print("G1 X40 Y80 E1.00000 F1500")       # a move that starts no arc
print("G1 X90 Y60 E2.00000")
for k in range(1, 9): print("G1 X%.3f Y%.3f E0.10000" % (80 + 10*math.cos(k*.2), 60 + 10*math.sin(k*.2)))
P
weld -v=0 -r=0.2
python3 - "$D/in.gcode" "$D/out.gcode" <<'P'
import re, sys
tot = lambda f: sum(float(m) for m in re.findall(r'^G[0-3] .*E([-0-9.]+)', open(f).read(), re.M))
a, b = tot(sys.argv[1]), tot(sys.argv[2])
print(a, b); sys.exit(0 if abs(a - b) < .001 else 1)
P
''', 'relative extruder mode, and an arc whose collection dropped earlier points that did not fit', 'the arc extrudes the filament of moves that are written separately as well')

seed('w10-only-up', 'W10', [('ArcWelder/arc_welder.cpp', 'extrusion_rate_change_percent = utilities::abs(utilities::get_percent_change(previous_extrusion_rate_, mm_extruded_per_mm_travel));',
 'extrusion_rate_change_percent = utilities::get_percent_change(previous_extrusion_rate_, mm_extruded_per_mm_travel);')],
WELD + r'''python3 - > "$D/in.gcode" <<'P'
import math
print("G90\nM83\nG28\nG1 X60 Y50 Z0.2 F3000")
for k in range(1, 13): print("G1 X%.3f Y%.3f E%.5f%s" % (50 + 10*math.cos(k*.1), 50 + 10*math.sin(k*.1), .1 if k < 7 else .05, " F1500" if k == 1 else ""))
P
weld -v=0.05
# the rate drops by half at one point, so at least two commands must remain
test $(grep -c '^G[123] .*E' "$D/out.gcode") -ge 2
''', 'an extrusion rate that drops (not rises) between two moves of one curve', 'moves of very different extrusion rate are welded together')

seed('w15-backward', 'W15', [('ArcWelder/arc_welder.cpp', "    if (old_comment != comment && old_comment.length() > 0)", "    if (old_comment != comment.substr(0, old_comment.length()) && old_comment.length() > 0)")],
WELD + r'''python3 - > "$D/in.gcode" <<'P'
import math
print("G90\nM83\nG28\nG1 X60 Y50 Z0.2 F3000")
c = ["wall start", "edge", "wall", "end"]
for k in range(1, 5): print("G1 X%.3f Y%.3f E0.1%s;%s" % (50 + 10*math.cos(k*.1), 50 + 10*math.sin(k*.1), " F1500" if k == 1 else "", c[k-1]))
P
weld
grep -q ';wall start - edge - wall - end$' "$D/out.gcode"
''', 'a comment that is a proper prefix of the comments collected before it', 'the comment is missing from the arc')

seed('w05-last-chord', 'W05', [('ArcWelder/segmented_shape.cpp', """    // Check the point perpendicular from the segment to the circle's center, if any such point exists
    
    if (segment::get_closest""", """    // Check the point perpendicular from the segment to the circle's center, if any such point exists
    
    if ((index == 0 || index + 1 < max_index) && segment::get_closest""")],
WELD + r'''python3 - > "$D/in.gcode" <<'P'
import math
print("G90\nM83\nG28\nG1 X60 Y50 Z0.2 F3000")
for k, a in enumerate([.1, .2, .3, .4, .5, .6, .7, .8, 1.3]): print("G1 X%.3f Y%.3f E%.5f%s" % (50 + 10*math.cos(a), 50 + 10*math.sin(a), (a if a < 1 else .5) and (.1 if a < 1 else .5), " F1500" if k == 0 else ""))
P
weld -r=0.05
# the last chord leaves the circle by 0.31 mm, so it must stay a line
tail -1 "$D/out.gcode" | grep -q '^G1 '
''', 'a curve whose last replaced segment is much longer than the others', 'a segment further from the arc than half the resolution is replaced')

LIB = '''D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
run() { g++ -O1 -std=c++11 -w -include cstdint -IGcodeProcessorLib "$(dirname "$0")/main.cpp" GcodeProcessorLib/*.cpp -o "$D/main" -lpthread || exit 3; "$D/main"; }
run
'''
POS = r'''#include "gcode_parser.h"
#include "gcode_position.h"
#include <cstdio>
#include <cmath>
static gcode_parser parser;
static gcode_position_args arguments(int extruders, double retraction, int buffer)
{
	gcode_position_args a; a.set_num_extruders(extruders);
	for (int k = 0; k < extruders; k++) { a.retraction_lengths[k] = retraction; a.z_lift_heights[k] = .4; a.x_firmware_offsets[k] = a.y_firmware_offsets[k] = 0; }
	a.home_x = a.home_y = a.home_z = 0; a.home_x_none = a.home_y_none = a.home_z_none = false;
	a.xyz_axis_default_mode = "absolute"; a.e_axis_default_mode = "absolute"; a.position_buffer_size = buffer; a.zero_based_extruder = true; a.default_extruder = 0;
	return a;
}
static position& feed(gcode_position& g, const char* const* lines)
{
	long n = 0;
	for (; *lines; lines++) { parsed_command c; parser.try_parse_gcode(*lines, c, true); g.update(c, ++n, n, n); }
	return *g.get_current_position_ptr();
}
static bool near(double a, double b) { return std::fabs(a - b) < 1e-6; }
'''
seed('g01-blank-decimals', 'G01', [('GcodeProcessorLib/gcode_parser.cpp', """				f = (f*10.0) + (*p - '0');
				++n;
			}
			++p;
		}
		r += f / ten_pow(n);
		*p_precision""", """				f = (f*10.0) + (*p - '0');
				++n;
			}
			else if (*(p + 1) == '0')
				break;
			++p;
		}
		r += f / ten_pow(n);
		*p_precision""")], LIB, 'a blank inside the decimals of a number, directly in front of a zero', 'the rest of the number and all following parameters are lost',
 {'main.cpp': r'''#include "gcode_parser.h"
#include <cmath>
#include <cstdio>
int main()
{
	gcode_parser p; parsed_command c;
	p.try_parse_gcode("G1 X1. 05 Y2", c, true);
	return c.parameters.size() == 2 && std::fabs(c.parameters[0].double_value - 1.05) < 1e-9 && c.parameters[0].double_precision == 2 ? 0 : 1;
}
'''})
seed('g02-g92-tool-offset', 'G02', [('GcodeProcessorLib/gcode_position.cpp', "pos->y_offset = pos->y + pos->y_firmware_offset;", "pos->y_offset = pos->y;")], LIB,
 'a G92 without parameters while a tool with a Y offset is in use', 'the coordinates after the reset are wrong by the tool offset',
 {'main.cpp': POS + r'''int main()
{
	gcode_position g(arguments(2, .8, 20));
	const char* l[] = { "G28", "M218 T1 X3 Y5", "T1", "G1 X10 Y10", "G92", 0 };
	position& p = feed(g, l);
	return near(p.get_gcode_y(), 0) && near(p.get_gcode_x(), 0) ? 0 : 1;
}
'''})
seed('g03-e-other-tool', 'G03', [('GcodeProcessorLib/gcode_position.cpp', "(p_current_pos->get_current_extruder().e - p_previous_pos->get_extruder(p_current_pos->current_tool).e);", "(p_current_pos->get_current_extruder().e - p_previous_pos->get_current_extruder().e);")], LIB,
 'a tool change between tools whose E positions differ', 'the E change reported for the tool change is the difference of two tools',
 {'main.cpp': POS + r'''int main()
{
	gcode_position g(arguments(2, .8, 20));
	const char* l[] = { "G28", "G1 X10 Y10 E5", "T1", 0 };
	position& p = feed(g, l);
	return near(p.get_current_extruder().e_relative, 0) ? 0 : 1;
}
'''})
seed('g04-deretract-flag', 'G04', [('GcodeProcessorLib/gcode_position.cpp', "p_current_pos->get_current_extruder().is_extruding_start = utilities::greater_than(p_current_pos->get_current_extruder().extrusion_length, 0) && !p_previous_pos->get_current_extruder().is_extruding;",
  "p_current_pos->get_current_extruder().is_extruding_start = utilities::greater_than(p_current_pos->get_current_extruder().extrusion_length, 0) && !p_previous_pos->get_current_extruder().is_extruding && !utilities::greater_than(p_current_pos->get_current_extruder().deretraction_length, 0);")], LIB,
 'one E move that pays a retraction back and goes on extruding', 'the start of the extrusion is not reported',
 {'main.cpp': POS + r'''int main()
{
	gcode_position g(arguments(1, .8, 20));
	const char* l[] = { "G28", "M83", "G1 E-0.8", "G1 X5 Y5", "G1 X9 E1.3", 0 };
	position& p = feed(g, l);
	return p.get_current_extruder().is_extruding && p.get_current_extruder().is_extruding_start ? 0 : 1;
}
'''})
seed('g05-min-layer', 'G05', [('GcodeProcessorLib/gcode_position.cpp', "utilities::greater_than_or_equal(p_current_pos->z, p_previous_pos->height + minimum_layer_height_)", "utilities::greater_than_or_equal(p_current_pos->z, p_previous_pos->last_extrusion_height + minimum_layer_height_)")], LIB,
 'extrusion rising by less than the minimum layer height several times in a row (as in spiral vases)', 'no layer change is ever reported',
 {'main.cpp': POS + r'''int main()
{
	gcode_position_args a = arguments(1, .8, 20); a.minimum_layer_height = .1;
	gcode_position g(a);
	const char* l[] = { "G28", "M83", "G1 X1 Z0.2 E1", "G1 X2 Z0.2 E1", "G1 X3 Z0.26 E1", "G1 X4 Z0.32 E1", 0 };
	position& p = feed(g, l);
	return p.layer == 2 && near(p.height, .32) ? 0 : 1;
}
'''})
seed('g06-grow-wrapped', 'G06', [('GcodeProcessorLib/circular_buffer.h', """	void resize(int max_size, T object)
	{
		T* new_items = new T[max_size];
		for (int index = 0; index < count_; index++)
		{
			new_items[index] = items_[(front_index_ + index + max_size_) % max_size_];
		}
""", """	void resize(int max_size, T object)
	{
		T* new_items = new T[max_size];
		const int used = front_index_ + count_ <= max_size_ ? count_ : max_size_ - front_index_;
		for (int index = 0; index < used; index++)
		{
			new_items[index] = items_[front_index_ + index];
		}
		for (int index = used; index < count_; index++)
		{
			new_items[index] = items_[index - 1];
		}
""")], LIB, 'growing the history while the ring has wrapped around with more than a few entries, then undoing into the wrapped part', 'undo restores the wrong states',
 {'main.cpp': POS + r'''int main()
{
	gcode_position g(arguments(1, .8, 4));
	const char* l[] = { "G28", "G1 X1", "G1 X2", "G1 X3", "G1 X4", "G1 X5", 0 };
	feed(g, l);
	g.grow_max_positions(8);
	if (!near(g.get_current_position().x, 5) || !near(g.get_previous_position().x, 4)) return 1;
	g.undo_update(); g.undo_update();
	return near(g.get_current_position().x, 3) && near(g.get_previous_position().x, 2) ? 0 : 1;
}
'''})
seed('g07-slicer-switch', 'G07', [('GcodeProcessorLib/gcode_comment_processor.cpp', """	case comment_process_type_cura:
		update_cura_section(comment);
		break;""", """	case comment_process_type_cura:
		if (!update_cura_section(comment))
			update_simplify_3d_section(comment);
		break;""")], LIB, 'a comment of another slicer\'s vocabulary after the slicer has been recognised', 'an unrelated comment changes the feature type of the commands that follow',
 {'main.cpp': POS + r'''int main()
{
	gcode_position g(arguments(1, .8, 20));
	std::string a = "TYPE:WALL-OUTER", b = "skirt";
	g.get_gcode_comment_processor()->update(a); g.get_gcode_comment_processor()->update(b);
	const char* l[] = { "G1 X1", 0 };
	return feed(g, l).feature_type_tag == feature_type_outer_perimeter_feature ? 0 : 1;
}
'''})
seed('l01-one-logger', 'L01', [('GcodeProcessorLib/logger.cpp', "	logger_levels_[logger_type] = get_log_level_for_value(level_value);", "	const int log_level = get_log_level_for_value(level_value);\n	logger_levels_[logger_type] = log_level > 0 || level_value == 0 ? log_level : logger_levels_[logger_type];\n	if (logger_type + 1 == num_loggers_ && log_level == CRITICAL)\n		set_log_level((log_levels)log_level);")], LIB,
 'setting the last logger to CRITICAL by value', 'every other logger is silenced too',
 {'main.cpp': r'''#include "logger.h"
int main()
{
	std::vector<std::string> names; names.push_back("a"); names.push_back("b"); std::vector<int> levels(2, 0);
	logger g(names, levels);
	g.set_log_level(0, INFO); g.set_log_level_by_value(1, 50);
	return g.is_log_level_enabled(0, INFO) && !g.is_log_level_enabled(1, INFO) ? 0 : 1;
}
'''})
seed('d01-pop-back-wrap', 'D01', [('GcodeProcessorLib/array_list.h', """				resize(max_size_ * 2);
			}
			else {
				throw std::exception();
			}
		}
		int pos = get_index_position(count_);""", """				const int front = front_index_;
				resize(max_size_ * 2);
				if (front > max_size_ / 4)
					front_index_ = 0, count_ = count_ - (front + 1 == max_size_ / 2);
			}
			else {
				throw std::exception();
			}
		}
		int pos = get_index_position(count_);""")], LIB, 'growing by push_back while the front stands on the last slot', 'the newest element before the growth is lost',
 {'main.cpp': r'''#include "array_list.h"
int main()
{
	array_list<int> a;
	a.push_front(0);
	for (int k = 1; k < 120; k++) a.push_back(k);
	if (a.count() != 120) return 1;
	for (int k = 0; k < 120; k++) if (a[k] != k) return 1;
	return 0;
}
'''})

seed('w14-slide-length', 'W14', [('ArcWelder/segmented_arc.cpp', '    original_shape_length_ -= new_initial_point.distance;\n', '')],
WELD + r'''python3 - > "$D/in.gcode" <<'P'
import math
print("G90\nM83\nG28\nG1 X50 Y50 Z0.2 F3000")
print("G1 X40 Y80 E1.00000 F1500")       # two sides of a corner, then a circle
print("G1 X60 Y60 E2.00000")
for k in range(1, 21): print("G1 X%.3f Y%.3f E0.10000" % (50 + 10*math.cos(k*.1), 60 + 10*math.sin(k*.1)))
P
weld -v=0
test $(grep -c '^G[23] ' "$D/out.gcode") = 1 -a $(grep -c '^G1 .*E' "$D/out.gcode") = 2
''', 'a curve that directly follows moves of the same kind which are on no common circle', 'the length of the dropped moves is still held against the path tolerance, so the curve is left as lines')
seed('w16-mention', 'W16', [('ArcWelder/arc_welder.cpp', 'line.rfind("; generated by PrusaSlicer", 0) == 0', 'line.find("; generated by PrusaSlicer") != std::string::npos')],
WELD + r'''printf 'G90 ; generated by PrusaSlicer\nG1 X5 Y5 F600\n' > "$D/in.gcode"
weld
head -1 "$D/out.gcode" | grep -q '^; Postprocessed by'
''', 'a first line that is a command with a comment naming PrusaSlicer', 'the line is taken for the mark of the slicer: it is put before the header, and its command is not executed')
seed('w17-reprocess', 'W17', [('ArcWelder/arc_welder.cpp', """        else if (allow_travel_arcs_ && is_travel)
        {
          travel_statistics_.update(movement_length_mm, true);
        }

      }""", """      }
      if (allow_travel_arcs_ && is_travel && !is_extrusion)
      {
        travel_statistics_.update(movement_length_mm, true);
      }""")],
WELD + r'''python3 - > "$D/in.gcode" <<'P'
import math
print("G90\nM83\nG28\nG1 X60 Y50 Z0.2 F3000")
for k in range(1, 9): print("G0 X%.3f Y%.3f%s" % (50 + 10*math.cos(k*.1), 50 + 10*math.sin(k*.1), " F1500" if k == 1 else ""))
print("G0 X0 Y0")
print("G0 X10 Y0")
P
_build/ArcWelderConsole/ArcWelder -y -p=FULL -l=INFO "$D/in.gcode" "$D/out.gcode" > "$D/log" || exit 2
# ten travel moves after the first full one, which makes eleven
sed -n '/Target File Travel Statistics/,$p' "$D/log" | grep -m1 'Total count source' > "$D/n" && cat "$D/n"
grep -q '\.11|$' "$D/n"
''', 'travel arcs, and a travel move that ends an arc', 'that move is counted twice in the statistics of the source')
seed('w17-source-arcs', 'W17', [('ArcWelder/arc_welder.cpp', "if ((p.is_g0_g1 || p.is_g2_g3) && p.length > 0)", "if (p.is_g0_g1 && p.length > 0)")],
WELD + r'''printf 'G90\nM83\nG28\nG1 X60 Y50 Z0.2 F3000\nG1 X50 Y50 E1\nG2 X60 Y60 I10 J0 E1\nG1 X70 Y60 E1\n' > "$D/in.gcode"
_build/ArcWelderConsole/ArcWelder -p=FULL -l=INFO "$D/in.gcode" "$D/out.gcode" > "$D/log" || exit 2
grep 'Total count source\|Total count target' "$D/log" | grep -o '\.[0-9]*|$' | sort -u > "$D/n"
test $(wc -l < "$D/n") = 1
''', 'arcs in the source that pass through', 'they are missing from the statistics of the target')
seed('w18-first-report', 'W18', [('ArcWelder/arc_welder.cpp', '  continue_processing = on_progress_(get_progress_(static_cast<long>(gcodeFile.tellg()), static_cast<double>(start_clock)));\n  p_logger_', '  on_progress_(get_progress_(static_cast<long>(gcodeFile.tellg()), static_cast<double>(start_clock)));\n  p_logger_')],
r'''D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
printf 'G90\nG28\nG1 X5 Y5 F600\n' > "$D/in.gcode"
cp "$(dirname "$0")/main.cpp" "$D/main.cpp"
g++ -O1 -std=c++11 -w -include cstdint -IGcodeProcessorLib -IArcWelder "$D/main.cpp" ArcWelder/*.cpp GcodeProcessorLib/*.cpp -o "$D/main" -lpthread || exit 3
"$D/main" "$D/in.gcode" "$D/out.gcode"
''', 'a request to stop in answer to the very first report', 'the request is ignored and the whole file is processed',
 {'main.cpp': r'''#include "arc_welder.h"
static bool stop(arc_welder_progress p, logger*, int) { return p.lines_processed > 0; }
int main(int, char** a)
{
	std::vector<std::string> names(1, "x"); std::vector<int> levels(1, (int)CRITICAL);
	logger lg(names, levels);
	arc_welder_args args(a[1], a[2], &lg);
	args.callback = stop;
	arc_welder w(args);
	arc_welder_results r = w.process();
	return r.cancelled && !r.success && r.progress.lines_processed == 0 ? 0 : 1;
}
'''})

STRAIGHT = '''D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
straighten() { _build/ArcWelderInverseProcessor/ArcStraightener "$@" "$D/in.gcode" "$D/out.gcode" >/dev/null || exit 2; }
'''
seed('s01-e-offset-reset', 'S01', [('ArcWelderInverseProcessor/arc_interpolation.cpp', 'current.e = p_pre_pos->get_current_extruder().get_offset_e();', 'current.e = p_pre_pos->get_current_extruder().e;')],
STRAIGHT + r'''printf 'G90\nM82\nG92 E0\nG1 X10 Y0 Z0.2 F3000\nG1 X20 Y0 E5\nG92 E0\nG2 X30 Y10 I10 J0 E1\nG1 X40\n' > "$D/in.gcode"
straighten -f=MARLIN_1
# between the reset and the end of the arc E goes from 0 to 1
sed -n '/E5$/,$p' "$D/out.gcode" | tail -n +2 | grep -o 'E[0-9.]*' | tr -d E | awk '$1 > 1.001 { bad = 1 } END { exit bad }'
''', 'absolute extrusion, and G92 E0 after some filament was extruded', 'the moves of the next arc first extrude from the value before the reset')
seed('s01-relative-mixed', 'S01', [('ArcWelderInverseProcessor/arc_interpolation.cpp', 'state.is_relative = p_pre_pos->is_relative;', 'state.is_relative = p_pre_pos->is_relative && p_pre_pos->is_extruder_relative;')],
STRAIGHT + r'''printf 'G90\nG1 X0 Y0 Z0 F3000\nM82\nG91\nG1 X10 Y0 Z0.2\nG2 X10 Y10 I10 J0 E1\nG1 X5\n' > "$D/in.gcode"
straighten -f=MARLIN_1 -g=FALSE
sed -n '/^G91/,$p' "$D/out.gcode" | grep '^G1 .*E' | grep -o 'X[-0-9.]*' | tr -d X | awk '{ s += $1 } END { exit !(s > 9.9 && s < 10.1) }'
''', 'relative positioning together with absolute extrusion', 'the moves of an arc are written as absolute coordinates and executed as distances')
seed('s02-repetier-correction', 'S02', [('ArcWelderInverseProcessor/repetier.cpp', """      r_axis0 = -offset[0] * cos_Ti + offset[1] * sin_Ti;
      r_axis1 = -offset[0] * sin_Ti - offset[1] * cos_Ti;
      count = 0;
    }

    // Update arc_target location
    arc_target[X_AXIS] = center_axis0 + r_axis0;
    arc_target[Y_AXIS] = center_axis1 + r_axis1;
    arc_target[Z_AXIS] += linear_per_segment;""", """      r_axis0 = -offset[0] * cos_Ti + offset[1] * sin_Ti;
      r_axis1 = -offset[0] * sin_Ti + offset[1] * cos_Ti;
      count = 0;
    }

    // Update arc_target location
    arc_target[X_AXIS] = center_axis0 + r_axis0;
    arc_target[Y_AXIS] = center_axis1 + r_axis1;
    arc_target[Z_AXIS] += linear_per_segment;""")],
STRAIGHT + r'''printf 'G90\nG1 X0 Y0 Z0.2 F3000\nG2 X20 Y0 I10 J-3\n' > "$D/in.gcode"
straighten -f=REPETIER -v=1.0.5 -m=0.5
sed -n '/^G1 X0 Y0/,$p' "$D/out.gcode" | tail -n +2 | python3 -c "
import re, sys, math
for l in sys.stdin:
    x, y = [float(re.search(c + r'([-0-9.]+)', l).group(1)) for c in 'XY']
    if abs(math.hypot(x - 10, y + 3) - math.hypot(10, 3)) > .05: sys.exit(l)
"
''', 'an arc of more than 25 segments on firmware 1.0.5 whose centre has a J offset', 'every 26th point is thrown off the circle')
seed('s02-quarter-drift', 'S02', [('ArcWelderInverseProcessor/marlin_2.cpp', """    sin_T = theta_per_segment - sq_theta_per_segment * theta_per_segment / 6,
    cos_T = 1 - 0.5f * sq_theta_per_segment; // Small angle approximation


  const float per_segment_L""", """    sin_T = theta_per_segment - sq_theta_per_segment / 6,
    cos_T = 1 - 0.5f * sq_theta_per_segment; // Small angle approximation


  const float per_segment_L""")],
STRAIGHT + r'''printf 'G90\nG1 X0 Y0 Z0.2 F3000\nG3 X4 Y0 I2 J0\n' > "$D/in.gcode"
straighten -f=MARLIN_2 -v=2.0.9.2
sed -n '/^G1 X0 Y0/,$p' "$D/out.gcode" | tail -n +2 | python3 -c "
import re, sys, math
last, n = 0, 0
L = [l for l in sys.stdin]
for k, l in enumerate(L):
    x, y = [float((re.search(c + r'([-0-9.]+)', l) or re.match('(0)', '0')).group(1)) for c in 'XY']
    a = math.atan2(y, x - 2) + math.pi
    if k < len(L) - 1 and abs(a - math.pi * (k + 1) / 36) > .015: sys.exit(l)
"
''', 'a version that shortens the sine series, between two corrections of the drift', 'the points lag behind along the arc, so that the move before each correction is too long')
seed('s03-minimum-clockwise', 'S03', [('ArcWelderInverseProcessor/marlin_2.cpp', "min_segments = (uint16_t)utilities::ceilf(min_segments * utilities::absf(angular_travel) / utilities::radiansf(360.0f));", "min_segments = (uint16_t)utilities::ceilf(min_segments * utilities::maxf(angular_travel, 0.0f) / utilities::radiansf(360.0f));")],
STRAIGHT + r'''printf 'G90\nG1 X0 Y0 Z0.2 F3000\nG3 X1 Y1 I1 J0\nG1 X0 Y0\nG2 X1 Y1 I1 J0\n' > "$D/in.gcode"
straighten -f=MARLIN_2 -v=2.0.9.1 -r=60
# three quarters of a circle and one quarter
test $(grep -c '^G1 ' "$D/out.gcode") = $((1 + 45 + 1 + 15))
''', 'a clockwise arc so small that the minimum number of segments decides', 'clockwise arcs get too few segments')
seed('s03-perr-limit', 'S03', [('ArcWelderInverseProcessor/smoothieware.cpp', "if ((args_.mm_max_arc_error > 0) && (2.0 * (double)radius > args_.mm_max_arc_error)) {", "if ((args_.mm_max_arc_error > 0) && ((double)radius > args_.mm_max_arc_error * 100)) {")],
STRAIGHT + r'''printf 'G90\nG1 X0 Y0 Z0.2 F3000\nG2 X3 Y0 I1.5 J0\n' > "$D/in.gcode"
straighten -f=SMOOTHIEWARE -e=0.05
# chords of 2 sqrt(.05 (2*1.5-.05)) = .768 mm on an arc of 4.712 mm
test $(grep -c '^G1 ' "$D/out.gcode") = 7
''', 'Smoothieware, an arc with a radius below a hundred times the permitted error', 'the permitted error is ignored and the segment length falls back to half a millimetre')
seed('s04-z-at-corrections', 'S04', [('ArcWelderInverseProcessor/smoothieware.cpp', """        count = 0;
      }

      // Update arc_target location
      arc_target[this->plane_axis_0] = center_axis0 + r_axis0;
      arc_target[this->plane_axis_1] = center_axis1 + r_axis1;
      arc_target[this->plane_axis_2] += linear_per_segment;""", """        count = 0;
      }

      // Update arc_target location
      arc_target[this->plane_axis_0] = center_axis0 + r_axis0;
      arc_target[this->plane_axis_1] = center_axis1 + r_axis1;
      if (count > 0) arc_target[this->plane_axis_2] += linear_per_segment;""")],
STRAIGHT + r'''printf 'G90\nG1 X0 Y0 Z0 F3000\nG2 X20 Y0 Z2 I10 J0\n' > "$D/in.gcode"
straighten -f=SMOOTHIEWARE -m=1 -e=0
sed -n '/^G1 X0 Y0/,$p' "$D/out.gcode" | grep -o 'Z[0-9.]*' | tr -d Z | awk 'NR > 1 && ($1 - p > .07 || $1 - p < .06) { bad = 1 } { p = $1 } END { exit bad }'
''', 'a helical arc of more than five segments on Smoothieware', 'Z stands still at every correction and jumps at the end')
seed('s04-retract-first', 'S04', [('ArcWelderInverseProcessor/prusa.cpp', """  float extruder_per_segment = extruder_travel / segments;

  /* Vector rotation by transformation matrix""", """  float extruder_per_segment = utilities::absf(extruder_travel) / segments;

  /* Vector rotation by transformation matrix""")],
STRAIGHT + r'''printf 'G90\nM82\nG92 E0\nG1 X0 Y0 Z0.2 F3000\nG1 E5\nG2 X20 Y0 I10 J0 E4\n' > "$D/in.gcode"
straighten -f=PRUSA -v=3.10.0
sed -n '/^G1 E5/,$p' "$D/out.gcode" | grep -o 'E[0-9.]*' | tr -d E | awk 'NR > 1 && $1 > p { bad = 1 } { p = $1 } END { exit bad }'
''', 'an arc that retracts while it moves (a wipe)', 'filament is pushed out along the arc and pulled back with its last move')

seed('s05-zero-is-unset', 'S05', [('ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp', "      args.firmware_args.n_arc_correction = n_arc_correction_arg.getValue();", "      if (n_arc_correction_arg.getValue() > 0) args.firmware_args.n_arc_correction = n_arc_correction_arg.getValue();")],
STRAIGHT + r'''printf 'G90\nG1 X0 Y0 Z0.2 F3000\nG2 X20 Y0 I10 J0\n' > "$D/in.gcode"
straighten -f=MARLIN_1 -c=0
grep -q '^; n_arc_correction=0' "$D/out.gcode"
''', 'the value 0 for the number of segments between corrections', 'the setting is accepted and the default used')
seed('s05-version-mode', 'S05', [('ArcWelderInverseProcessor/prusa.cpp', """  case prusa::prusa_firmware_versions::V3_11_0:
    // Active Settings
""", """  case prusa::prusa_firmware_versions::V3_11_0:
    default_args.g90_g91_influences_extruder = true;
    // Active Settings
""")],
STRAIGHT + r'''printf 'G92 E0\nG91\nM82\nG90\nG1 X0 Y0 Z0.2 F3000\nM83\nG90\nG1 E1\nG2 X20 Y0 I10 J0 E2\n' > "$D/in.gcode"
straighten -f=PRUSA -v=3.11.0
# relative extrusion stays in force after G90: the arc extrudes 2 mm
sed -n '/^G1 E1/,$p' "$D/out.gcode" | tail -n +2 | grep -o 'E[-0-9.]*' | tr -d E | awk '{ s += $1 } END { exit !(s > 1.99 && s < 2.01) }'
''', 'Prusa 3.11.0, relative extrusion, and a G90 after the M83', 'G90 is taken to set the extruder mode for one version only')
seed('s05-version-prefix', 'S05', [('ArcWelderInverseProcessor/firmware.cpp', """    // process i
    if (*i == version)""", """    // process i
    if (i->compare(0, version.size(), version) == 0)""")],
STRAIGHT + r'''printf 'G90\nG1 X0 Y0 Z0.2 F3000\nG2 X20 Y0 I10 J0\n' > "$D/in.gcode"
! _build/ArcWelderInverseProcessor/ArcStraightener -f=REPETIER -v=1.0 "$D/in.gcode" "$D/out.gcode" >/dev/null 2>&1 && test ! -e "$D/out.gcode"
''', 'a version name cut short', 'an unknown version is accepted, and the last one known is imitated')
seed('s05-latest-named', 'S05', [('ArcWelderInverseProcessor/firmware.cpp', """  if (requested_version == LATEST_FIRMWARE_VERSION_NAME || args_.version == latest_release_version_name)""", """  if (args_.version == latest_release_version_name)""")],
STRAIGHT + r'''printf 'G90\nG1 X0 Y0 Z0.2 F3000\nG2 X20 Y0 I10 J0\n' > "$D/in.gcode"
straighten -f=MARLIN_2; mv "$D/out.gcode" "$D/a"
straighten -f=MARLIN_2 -v=2.0.9.1; cmp "$D/a" "$D/out.gcode"
''', 'no version given, for a firmware with a newer version than the latest release', 'the version said to be in force is not the one imitated')

NUM = r'''D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
g++ -O1 -include cstdint -IGcodeProcessorLib "$(dirname "$0")/demo.cpp" GcodeProcessorLib/fpconv.cpp GcodeProcessorLib/utilities.cpp -o "$D/demo" || exit 2
"$D/demo"
'''
seed('n01-carry', 'N01', [('GcodeProcessorLib/fpconv.cpp', """        dest[0] = '1';
        terminator_location++;""", """        dest[0] = '1';""")],
NUM, 'a number whose rounding carries through all of its digits (9.9996, 99.9999)', 'the last decimal is missing', {'demo.cpp': r'''#include "utilities.h"
int main() { return utilities::dtos(9.9996, 3) == "10.000" && utilities::dtos(-99.999996, 5) == "-100.00000" ? 0 : 1; }
'''})
seed('n01-pad', 'N01', [('GcodeProcessorLib/fpconv.cpp', """  if (ndigits < terminator_location)
  {""", """  if (ndigits + 2 < terminator_location)
  {""")],
NUM, 'a number with about as many digits as are wanted', 'the digit that decides the rounding is read from memory not written before', {'demo.cpp': r'''#include "fpconv.h"
#include <cstring>
#include <string>
static std::string s(double d, int p, char fill) { char b[600]; memset(b, fill, sizeof b); return std::string(b, fpconv_dtos(d, b, p)); }
int main() { const double t[] = { 1.25, 12.5, 0.5, 0.25, 7.125, 100.5 };
  for (double d : t) for (int p = 0; p < 6; p++) if (s(d, p, '0') != s(d, p, '9')) return 1;
  return 0; }
'''})
seed('n01-long', 'N01', [('GcodeProcessorLib/fpconv.cpp', "  if (terminator_location < 24)", "  if (terminator_location < 12)")],
NUM, 'a number with six digits before the point and five decimals', 'it is cut off neither rounded nor at the decimals wanted', {'demo.cpp': r'''#include "utilities.h"
int main() { return utilities::dtos(123456.123456789, 5) == "123456.12346" && utilities::dtos(123456.5, 5) == "123456.50000" ? 0 : 1; }
'''})

BIG = r'''python3 - > "$D/in.gcode" <<'P'
import math
print("G90\nM83\nG28\nG1 X60 Y50 Z0.2 F3000")
for k in range(700): print("G1 X%.3f Y%.3f E0.1" % (50 + k % 97, 50 + 10*math.sin(k*1.7)))
print("G2 X60 Y50 I5 J0 E1")
P
'''
seed('f01-unflushed', 'F01', [('ArcWelder/arc_welder.cpp', """  output_file_.close();
  const bool""", """  const bool""")],
WELD + BIG + r'''cp "$D/in.gcode" "$D/was"
n=$(( $(stat -c %s "$D/in.gcode") / 1024 ))
for k in $(seq $((n - 3)) $((n + 1))); do
  # the disk is full near the end of the new file
  ( trap '' XFSZ; ulimit -f $k; exec _build/ArcWelderConsole/ArcWelder -p=NONE -l=ERROR "$D/in.gcode" > /dev/null 2>&1 ) || { cmp "$D/in.gcode" "$D/was" || exit 1; continue; }
  test "$(tail -n 1 "$D/in.gcode" | cut -c1-2)" = G2 || exit 1
  cp "$D/was" "$D/in.gcode"
done
''', 'an in-place run, with a write that fails after the last line has been processed', 'the source is replaced by a file that is cut short')
SHIM = {'shim.c': r'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <sys/uio.h>
#include <unistd.h>
static int n;
static int fails(int fd) { return fd > 2 && ++n == atoi(getenv("FAIL")) ? (errno = ENOSPC, 1) : 0; }
ssize_t write(int fd, const void *b, size_t c) { ssize_t (*f)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write"); return fails(fd) ? -1 : f(fd, b, c); }
ssize_t writev(int fd, const struct iovec *v, int c) { ssize_t (*f)(int, const struct iovec *, int) = dlsym(RTLD_NEXT, "writev"); return fails(fd) ? -1 : f(fd, v, c); }
'''}
seed('f01-full-for-a-while', 'F01', [('ArcWelder/arc_welder.cpp', """  output_file_.close();
  const bool""", """  output_file_.clear();
  output_file_.close();
  const bool""")],
WELD + BIG + r'''gcc -shared -fPIC "$(dirname "$0")/shim.c" -o "$D/shim.so" -ldl || exit 2
cp "$D/in.gcode" "$D/was"
# the disk is full for the first write only
FAIL=1 LD_PRELOAD=$D/shim.so _build/ArcWelderConsole/ArcWelder -p=NONE -l=ERROR "$D/in.gcode" > /dev/null 2>&1 && exit 1
cmp "$D/in.gcode" "$D/was"
''', 'an in-place run, with a write that fails once and works again later', 'the source is replaced by a file from which lines are missing, and the run is called a success', SHIM)
seed('f02-fixed-name', 'F02', [('GcodeProcessorLib/utilities.cpp', "	temp_file_path += create_uuid();\n", "	temp_file_path += \"arcwelder\";\n")],
WELD + r'''mkdir "$D/d"; python3 - "$D/d" <<'P'
import math, sys
for f, n in (("big", 60000), ("small", 30)):
    with open("%s/%s.gcode" % (sys.argv[1], f), "w") as o:
        o.write("G90\nM83\nG28\nG1 X60 Y50 Z0.2 F3000\n")
        for k in range(n): o.write("G1 X%.3f Y%.3f E0.1 ;%s\n" % (50 + 10*math.cos(k*.2), 50 + 10*math.sin(k*.2), f))
P
for f in big small; do cp "$D/d/$f.gcode" "$D/in.gcode"; weld; grep -v '^;' "$D/out.gcode" > "$D/$f.want"; done
_build/ArcWelderConsole/ArcWelder -p=NONE -l=ERROR "$D/d/big.gcode" > /dev/null 2>&1 & p=$!
for k in $(seq 2000); do ls "$D/d" | grep -q tmp && break; done
kill -STOP $p
_build/ArcWelderConsole/ArcWelder -p=NONE -l=ERROR "$D/d/small.gcode" > /dev/null 2>&1; r=$?
kill -CONT $p; wait $p || exit 1; test $r = 0 || exit 1
for f in big small; do grep -v '^;' "$D/d/$f.gcode" | cmp - "$D/$f.want" || exit 1; done
''', 'two runs in one directory, the second starting while the first is under way', 'they write to the same temporary file')
seed('f02-short-name', 'F02', [('GcodeProcessorLib/utilities.cpp', "	temp_file_path += create_uuid();\n", "	temp_file_path += create_uuid().substr(0, 2);\n")],
WELD + r'''printf 'G90\nM83\nG28\nG1 X60 Y50 Z0.2 F3000\nG1 X1\n' > "$D/in.gcode"
# the temporary names of runs must differ
for k in $(seq 100); do _build/ArcWelderConsole/ArcWelder -p=NONE -l=DEBUG "$D/in.gcode" 2>/dev/null | grep -o 'Temporary file path: .*' | grep -o '[^/]*$'; done | sort > "$D/names"
test $(wc -l < "$D/names") = 100 || exit 2
test -z "$(uniq -d "$D/names")"
''', 'two runs in one directory that happen to choose the same short name', 'they write to the same temporary file')
CLI = 'ArcWelderConsole/ArcWelderConsole.cpp'
RUN = r'''D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
A=$PWD/_build/ArcWelderConsole/ArcWelder; B=$PWD/_build/ArcWelderInverseProcessor/ArcStraightener; cd "$D" || exit 2
python3 - > in.gcode <<'P'
import math
print("G90\nM83\nG28\nG1 X60 Y50 Z0.2 F3000")
for k in range(1, 13): print("G1 X%.3f Y%.3f E%.5f" % (50 + 10*math.cos(k*.1), 50 + 10*math.sin(k*.1), .1 if k < 7 else .05))
P
rejects() { "$@" > out.log 2>&1 && exit 1; test $? -lt 128 || exit 1; grep -q . out.log || exit 1; test "$(ls)" = "in.gcode
out.log" || exit 1; }
accepts() { rm -f out.gcode; "$@" > out.log 2>&1 || exit 1; test -s out.gcode || exit 1; rm -f out.gcode; }
'''
seed('c01-length-30', 'C01', [(CLI, 'args.max_gcode_length < 31)', 'args.max_gcode_length < 30)')],
RUN + r'''accepts "$A" -c=31 in.gcode out.gcode; accepts "$A" -c=0 in.gcode out.gcode
rejects "$A" -c=29 in.gcode out.gcode; rejects "$A" --max-gcode-length=30 in.gcode out.gcode
''', 'a maximum length of exactly 30', 'a value outside the documented range is accepted')
seed('c01-source-made', 'C01', [('GcodeProcessorLib/utilities.cpp', 'if (file = fopen(file_path.c_str(), "r")) {', 'if (file = fopen(file_path.c_str(), "a")) {')],
RUN + r'''accepts "$A" in.gcode out.gcode
rejects "$A" missing.gcode out.gcode
''', 'a source that does not exist', 'an empty source is created instead of an error being reported')
seed('c01-variance-0', 'C01', [(CLI, '    args.extrusion_rate_variance_percent = extrusion_rate_variance_percent_arg.getValue();\n',
 '    if (extrusion_rate_variance_percent_arg.getValue() != 0) args.extrusion_rate_variance_percent = extrusion_rate_variance_percent_arg.getValue();\n')],
RUN + r'''"$A" -v=0 -t=0.2 in.gcode out.gcode > out.log 2>&1 || exit 1
test $(grep -c '^G[123] .*E' out.gcode) = 1
''', 'an extrusion rate variance of exactly 0, and moves whose rate differs', 'comparing extrusion rates cannot be switched off')
seed('c01-last-level', 'C01', [(CLI, 'log_name_index < log_level_names_size;', 'log_name_index + 1 < log_level_names_size;')],
RUN + r'''for l in NOSET VERBOSE DEBUG INFO WARNING ERROR CRITICAL; do accepts "$A" -l=$l in.gcode out.gcode; done
''', 'the last of the log levels, CRITICAL', 'a documented value makes the program abort')
seed('c01-radius-0', 'C01', [(CLI, 'if (args.max_radius_mm <= 0)', 'if (args.max_radius_mm < 0)')],
RUN + r'''accepts "$A" -m=0.001 in.gcode out.gcode
rejects "$A" -m=0 in.gcode out.gcode; rejects "$A" -m=-0.0 in.gcode out.gcode; rejects "$A" --max-radius-mm=-1 in.gcode out.gcode
''', 'a maximum radius of exactly 0', 'a value outside the documented range is accepted')
seed('c01-half-pair', 'C01', [(CLI, 'else if (args.mm_per_arc_segment == 0.0 && args.min_arc_segments != 0)', 'else if (args.mm_per_arc_segment == 0.0 && mm_per_arc_segment_arg.isSet() && args.min_arc_segments != 0)')],
RUN + r'''accepts "$A" -a=24 -s=1 in.gcode out.gcode
rejects "$A" -s=1 in.gcode out.gcode; rejects "$A" -a=24 -s=0 in.gcode out.gcode; rejects "$A" -a=24 in.gcode out.gcode
''', 'minimum arc segments without millimetres per arc segment', 'contradictory options are accepted and silently have no effect')
INVP, INTP = 'ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp', 'ArcWelderInverseProcessor/arc_interpolation.cpp'
seed('s06-unflushed', 'S06', [(INTP, "      output_file_.close();\n", "")],
WELD + BIG + r'''B=_build/ArcWelderInverseProcessor/ArcStraightener
cp "$D/in.gcode" "$D/was"; "$B" -l=ERROR "$D/in.gcode" "$D/want" > /dev/null || exit 2
n=$(( $(stat -c %s "$D/want") / 1024 ))
for k in $(seq $((n - 3)) $((n + 1))); do
  # the disk is full near the end of the new file
  ( trap '' XFSZ; ulimit -f $k; exec "$B" -l=ERROR "$D/in.gcode" > /dev/null 2>&1 ) || { cmp "$D/in.gcode" "$D/was" || exit 1; continue; }
  cmp "$D/in.gcode" "$D/want" || exit 1
  cp "$D/was" "$D/in.gcode"
done
''', 'an in-place run, with a write that fails after the last line has been processed', 'the source is replaced by a file that is cut short')
seed('s06-full-for-a-while', 'S06', [(INTP, "      output_file_.close();\n", "      output_file_.clear();\n      output_file_.close();\n")],
WELD + BIG + r'''gcc -shared -fPIC "$(dirname "$0")/shim.c" -o "$D/shim.so" -ldl || exit 2
cp "$D/in.gcode" "$D/was"
# the disk is full for the first write only
FAIL=1 LD_PRELOAD=$D/shim.so _build/ArcWelderInverseProcessor/ArcStraightener -l=ERROR "$D/in.gcode" > /dev/null 2>&1 && exit 1
cmp "$D/in.gcode" "$D/was"
''', 'an in-place run, with a write that fails once and works again later', 'the source is replaced by a file from which lines are missing, and the run is called a success', SHIM)
seed('s06-any-type', 'S06', [(INVP, 'firmware_type_names[DEFAULT_FIRMWARE_TYPE], &firmware_type_constraint);', 'firmware_type_names[DEFAULT_FIRMWARE_TYPE], "string");')],
RUN + r'''for t in MARLIN_1 MARLIN_2 REPETIER PRUSA SMOOTHIEWARE; do accepts "$B" -f=$t in.gcode out.gcode; done
rejects "$B" -f=MARLIN_3 in.gcode out.gcode; rejects "$B" --firmware-type=Prusa in.gcode out.gcode
''', 'a firmware type that does not exist', 'it is accepted and the default firmware is used')
seed('s06-borrowed-setting', 'S06', [(INVP, 'is_argument_used(FIRMWARE_ARGUMENT_MIN_MM_PER_ARC_SEGMENT)', 'is_argument_used(FIRMWARE_ARGUMENT_MIN_ARC_SEGMENTS)')],
RUN + r'''accepts "$B" -f=PRUSA -v=3.11.0 -n=.1 in.gcode out.gcode
rejects "$B" -f=MARLIN_1 -n=.1 in.gcode out.gcode; rejects "$B" -f=MARLIN_2 -v=2.0.9.1 -n=.1 in.gcode out.gcode
''', 'the setting min-mm-per-arc-segment for Marlin 2.0.9.1, which has min-arc-segments only', 'a setting the version does not have is accepted and silently has no effect')
seed('s06-target-made', 'S06', [('GcodeProcessorLib/utilities.cpp', "	FILE* file;\n	if (file = fopen(file_path.c_str(), \"r\")) {", "	FILE* file;\n	if ((file = fopen(file_path.c_str(), \"r\")) || (file = fopen(file_path.c_str(), \"w\"))) {")],
RUN + r'''accepts "$B" in.gcode out.gcode
rejects "$B" missing.gcode out.gcode; rejects "$B" missing.gcode
''', 'a source that does not exist', 'an empty source is created instead of an error being reported')

# ---------------------------------------------------------------- the welder's rules, one by one
CURVE = r"""python3 - > "$D/in.gcode" <<'P'
import math
print("G90\nM83\nG28\nG1 X60 Y50 Z0.2 F3000")
"""
AWC = 'ArcWelder/arc_welder.cpp'; SARC = 'ArcWelder/segmented_arc.cpp'; SHAPE = 'ArcWelder/segmented_shape.cpp'
seed('w01-last-line', 'W01', [(AWC, 'while (std::getline(gcodeFile, line) && continue_processing)', 'while (std::getline(gcodeFile, line) && !gcodeFile.eof() && continue_processing)')],
WELD + r"""printf 'G90\nM83\nG28\nG1 X60 Y50 Z0.2 F3000\nM104 S0\nM84' > "$D/in.gcode"
weld
grep -q '^M84' "$D/out.gcode"
""", 'a source whose last line does not end with a newline', 'the last line is lost')
seed('w01-blank-between', 'W01', [(AWC, '    while (!unwritten_commands_.pop_back().is_g0_g1);', '    unwritten_commands_.pop_back();')],
WELD + CURVE + r"""for k in range(1, 9): print("G1 X%.3f Y%.3f E0.1%s%s" % (50 + 10*math.cos(k*.1), 50 + 10*math.sin(k*.1), " F1500" if k == 1 else "", "\n" if k == 4 else ""))
P
weld
! grep -q '^G1 .*E' "$D/out.gcode"      # everything is one arc, nothing else may extrude
""", 'a blank line between two of the moves that become an arc', 'a move stays in the target beside the arc that replaces it')
seed('w04-close-feedrates', 'W04', [(AWC, '(!waiting_for_arc_ || p_pre_pos->f == p_cur_pos->f)', '(!waiting_for_arc_ || utilities::is_equal(p_pre_pos->f, p_cur_pos->f, 1))')],
WELD + CURVE + r"""for k in range(1, 11): print("G1 X%.3f Y%.3f E0.1 F%.1f" % (50 + 10*math.cos(k*.1), 50 + 10*math.sin(k*.1), 1500 if k < 6 else 1500.5))
P
weld
test $(grep -c '^G[123] .*E' "$D/out.gcode") -ge 2
""", 'feedrates that differ by less than 1 mm/min', 'moves of different feedrates are welded together')
seed('w06-start-offset', 'W06', [(AWC, 'printer_point previous_p(p_pre_pos->get_gcode_x(), p_pre_pos->get_gcode_y(), p_pre_pos->get_gcode_z(),', 'printer_point previous_p(p_pre_pos->x, p_pre_pos->y, p_pre_pos->z,')],
WELD + r"""for off in 0 0.02; do python3 - $off > "$D/in.gcode" <<'P'
import math, sys
o = float(sys.argv[1])
print("G90\nM83\nG28\nG1 X60 Y50 Z0.2 F3000")
if o: print("G92 X%.3f" % (60 + o))
for k in range(1, 13): print("G1 X%.3f Y%.3f E0.1%s" % (o + 50 + 10*math.cos(k*.1), 50 + 10*math.sin(k*.1), " F1500" if k == 1 else ""))
P
weld -r=0.2 -x=5
python3 - $off "$D/out.gcode" <<'P' || exit 1
import re, sys
o = float(sys.argv[1])
for m in re.finditer(r'^G3 X\S+ Y\S+ I(\S+) J(\S+)', open(sys.argv[2]).read(), re.M):
    if abs(60 + o + float(m.group(1)) - (50 + o)) > .012: print(m.group()); sys.exit(1)
P
done
""", 'a coordinate offset (G92 X) that is small beside the circle', 'the centre is relative to another point than the start of the arc')
seed('w07-wipe', 'W07', [(SARC, '        || (p1.e_relative < 0 && p.e_relative < 0) // Retractions', '        || (p1.e_relative <= 0 && p.e_relative <= 0) // Retractions')],
WELD + CURVE + r"""for k in range(1, 11): print("G1 X%.3f Y%.3f%s%s" % (50 + 10*math.cos(k*.1), 50 + 10*math.sin(k*.1), " E-0.1" if k < 6 else "", " F1500" if k == 1 else ""))
P
weld -y
test $(grep -c '^G[123] .*X' "$D/out.gcode") -ge 3
""", 'travel arcs allowed, and a wipe (retracting while moving) followed by travel on the same circle', 'retracting and travel moves become one arc')
seed('w08-relative', 'W08', [(AWC, '      !p_cur_pos->is_relative &&\n', '      (!p_cur_pos->is_relative || p_cur_pos->is_extruder_relative) &&\n')],
WELD + CURVE + r"""print("G91")
for k in range(1, 11): print("G1 X%.3f Y%.3f E0.1%s" % (10*math.cos(k*.1) - 10*math.cos(k*.1-.1), 10*math.sin(k*.1) - 10*math.sin(k*.1-.1), " F1500" if k == 1 else ""))
P
weld
! grep -q '^G[23] ' "$D/out.gcode"
""", 'curves drawn in relative positioning with a relative extruder', 'the moves are replaced by arcs with absolute coordinates')
seed('w09-below-bed', 'W09', [(SARC, '  if (has_z)\n', '  if (has_z && current_arc_.end_point.z > 0)\n')],
WELD + CURVE + r"""for k in range(1, 11): print("G1 X%.3f Y%.3f Z%.3f E0.1%s" % (50 + 10*math.cos(k*.1), 50 + 10*math.sin(k*.1), .2 - k * .03, " F1500" if k == 1 else ""))
P
weld -z -r=0.1
grep -q '^G[13] .*Z-0.1' "$D/out.gcode"
""", '3D arcs allowed, and a helix that ends at Z 0 or below', 'the arc has no Z word, so it stays at the height it started from')
seed('w11-z-decimals', 'W11', [(AWC, "      case 'Z':\n        current_arc_.update_xyz_precision", "        current_arc_.update_xyz_precision")],
WELD + CURVE + r"""print("G1 Z0.20005")
for k in range(1, 11): print("G1 X%.3f Y%.3f E0.1%s" % (50 + 10*math.cos(k*.1), 50 + 10*math.sin(k*.1), " F1500" if k == 1 else ""))
P
weld -d
grep -Eq '^G3 X[0-9]+\.[0-9]{5} ' "$D/out.gcode"
""", 'dynamic precision, and a Z with more decimals than any X or Y', 'the arcs have fewer decimals than the source')
seed('w12-second-look', 'W12', [(SHAPE, 'if (circle::try_create_circle(points[0], points[index], points[count - 1], max_radius, test_circle) &&', 'if (circle::try_create_circle(points[0], points[index], points[count - 1], DEFAULT_MAX_RADIUS_MM, test_circle) &&')],
WELD + r"""python3 - > "$D/in.gcode" <<'P'
import math
print("G90\nM83\nG28\nG1 X60 Y50 Z0.2 F3000")
x, y, a = 60, 50, 0.
for k in range(1, 25):        # the curve opens slowly
    a += 1 / (36 + k); x -= math.sin(a); y += math.cos(a); print("G1 X%.3f Y%.3f E0.1%s" % (x, y, " F1500" if k == 1 else ""))
P
weld -m=40 -r=0.2
python3 - "$D/out.gcode" <<'P'
import re, sys
sys.exit(any(float(i)**2 + float(j)**2 > 40.01**2 for i, j in re.findall(r'^G[23] .*I(\S+) J(\S+)', open(sys.argv[1]).read(), re.M)))
P
""", 'a path whose circle through the middle point is larger than the maximum radius', 'the second attempt accepts circles larger than the maximum radius')
seed('w13-short-path', 'W13', [(SARC, 'num_segments = (int)utilities::floor(circumference / original_shape_length_);', 'num_segments = (int)utilities::ceil(circumference / original_shape_length_);')],
WELD + CURVE + r"""for k in range(1, 8): print("G1 X%.3f Y%.3f E0.1%s" % (50 + 10*math.cos(k*.09), 50 + 10*math.sin(k*.09), " F1500" if k == 1 else ""))
P
weld -s=10 -a=12 -r=0.2
# a full circle is 62.8 mm: six segments of 10 mm, and twelve paths of 5.24 mm at most
python3 - "$D/out.gcode" <<'P'
import math, re, sys
x, y = 60., 50.
for l in open(sys.argv[1]):
    w = dict((a, float(b)) for a, b in re.findall(r'([XYIJ])(-?[0-9.]+)', l.split(';')[0]))
    if l[:3] in ('G2 ', 'G3 '):
        a = math.atan2(-w['J'], -w['I']); b = math.atan2(w['Y'] - y - w['J'], w['X'] - x - w['I'])
        d = (b - a) % (2*math.pi) * math.hypot(w['I'], w['J'])
        if d > 5.24: print(l, d); sys.exit(1)
    if l[:1] == 'G' and 'X' in w: x, y = w['X'], w['Y']
P
""", 'firmware compensation, and a path whose length divides the circle into just below the minimum number of segments', 'an arc the controller flattens is written')
seed('r01-feedrate', 'R01', [('ArcWelderInverseProcessor/arc_interpolation.cpp', 'current.f = p_pre_pos->f;', 'current.f = p_cur_pos->f;')],
WELD + CURVE + r"""for k in range(1, 13): print("G1 X%.3f Y%.3f E0.1%s" % (50 + 10*math.cos(k*.1), 50 + 10*math.sin(k*.1), " F1500" if k == 1 else ""))
print("G1 X20 Y20 E1")
P
weld
_build/ArcWelderInverseProcessor/ArcStraightener -l=ERROR "$D/out.gcode" "$D/back.gcode" > /dev/null || exit 2
f=$(awk '/^G1 X20 Y20/ { print f; exit } { for (k = 1; k <= NF; k++) if ($k ~ /^F/) f = $k }' "$D/back.gcode"); test "${f%.*}" = F1500
""", 'a curve whose first move changes the feedrate, welded and straightened', 'the feedrate is lost, and everything after the arc runs at the one before it')
seed('r01-blank-lines', 'R01', [('ArcWelderInverseProcessor/arc_interpolation.cpp', '        else\n        {\n          // Nothing to do with', '        else if (cmd.gcode.length() > 0 || cmd.comment.length() > 0)\n        {\n          // Nothing to do with')],
WELD + r"""printf 'G28\n\nG1 X1 Y1 F3000\n;\n\nM84\n' > "$D/in.gcode"
_build/ArcWelderInverseProcessor/ArcStraightener -l=ERROR "$D/in.gcode" "$D/back.gcode" > /dev/null || exit 2
test $(tail -n 6 "$D/back.gcode" | cmp - "$D/in.gcode" > /dev/null && echo 1 || echo 0) = 1
""", 'blank lines, or lines with an empty comment, in a file', 'they are lost')

# ------------------------------------------------------------------ the Python extension
PYC, PYX, PYL = 'PyArcWelder/py_arc_welder.cpp', 'PyArcWelder/py_arc_welder_extension.cpp', 'PyArcWelder/py_logger.cpp'
PYHOST = '''import sys, types, os, math
D = sys.argv[1]
sys.path.insert(0, os.path.join(os.getcwd(), '_build/PyArcWelder'))
LOG = []
class Log(object):
    def __getattr__(self, name): return lambda *a: LOG.append((name,) + a)
class LoggingConfigurator(object):
    def __init__(self, *a): pass
    def get_logger(self, name): return Log()
for n in ('octoprint_arc_welder', 'octoprint_arc_welder.log'): sys.modules[n] = types.ModuleType(n)
sys.modules['octoprint_arc_welder'].log = sys.modules['octoprint_arc_welder.log']
sys.modules['octoprint_arc_welder.log'].LoggingConfigurator = LoggingConfigurator
import PyArcWelder
REPORTS = []
def progress(r):
    REPORTS.append(r); return True
def source(lines): open(D + '/in.gcode', 'w').write('\\n'.join(lines) + '\\n')
def convert(on_progress=progress, **more):
    del REPORTS[:], LOG[:]
    a = dict(guid='g', source_path=D + '/in.gcode', target_path=D + '/out.gcode', on_progress_received=on_progress)
    a.update(more); a = {k: v for k, v in a.items() if v is not Ellipsis}
    return PyArcWelder.ConvertFile(a)
def out(): return [l for l in open(D + '/out.gcode').read().split('\\n') if l and not l.startswith(';')]
def circle(n, step=.1, r=10, e=True): return ['G1 X%.3f Y%.3f%s' % (50 + r*math.cos(k*step), 50 + r*math.sin(k*step), ' E0.1' if e else '') for k in range(1, n + 1)]
HEAD = ['G90', 'M83', 'G28', 'G1 X60 Y50 Z0.2 F3000']
'''
def pydemo(body): return r'''D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
/usr/bin/python3.12 "$(dirname "$0")/demo.py" "$D" > "$D/said" 2>&1; r=$?
tail -5 "$D/said"; exit $r
''', {'demo.py': PYHOST + body}
def pyseed(i, prop, edits, body, needs, breaks):
    demo, files = pydemo(body)
    seed(i, prop, edits, demo, needs, breaks, files)

pyseed('p01-length-byte', 'P01', [(PYC, 'args.max_gcode_length = (int)gcode_arc_converter', 'args.max_gcode_length = (unsigned char)gcode_arc_converter')], r'''
source(HEAD + circle(20))
convert(max_gcode_length=280)
assert any(l.startswith('G3 ') for l in out()), 'lines of up to 280 characters are allowed'
''', 'a limit of the line length above 255 given from Python', 'the limit is taken modulo 256, so arcs are dropped')

pyseed('p01-two-is-true', 'P01', [(PYC, 'args.allow_travel_arcs = PyLong_AsLong(py_allow_travel_arcs) > 0;', 'args.allow_travel_arcs = PyLong_AsLong(py_allow_travel_arcs) == 1;')], r'''
source(HEAD + circle(20, e=False))
convert(allow_travel_arcs=True); assert any(l.startswith('G3 ') for l in out())
convert(allow_travel_arcs=2); assert any(l.startswith('G3 ') for l in out()), 'two is above zero'
''', 'a switch given as a number above one', 'travel arcs stay off although they are switched on')

pyseed('p01-static-args', 'P01', [(PYX, '		py_gcode_arc_args args;\n', '		static py_gcode_arc_args args;\n')], r'''
source(HEAD + circle(20))
convert(); first = out()
convert(max_radius_mm=5.0)
convert(); assert out() == first, 'a setting of an earlier call is in force'
''', 'a second call in the same process that leaves out a setting given before', 'settings are carried over to later calls')

pyseed('p02-minus-goes-on', 'P02', [(PYC, 'continue_processing = PyLong_AsLong(pContinueProcessing) > 0;', 'continue_processing = PyLong_AsLong(pContinueProcessing) != 0;')], r'''
source(HEAD + circle(20))
r = convert(on_progress=lambda p: -1)
assert r['is_cancelled'], r
''', 'a callback that answers with a negative number', 'the conversion is not cancelled')

pyseed('p02-answer-leak', 'P02', [(PYC, '    Py_DECREF(pContinueProcessing);\n', '')], r'''
source(HEAD + circle(20))
n = int('123456')
before = sys.getrefcount(n)
for k in range(5): convert(on_progress=lambda p: n)
assert sys.getrefcount(n) == before, (before, sys.getrefcount(n))
''', 'a callback that answers with an object that is not immortal', 'a reference is lost with each answer')

pyseed('p02-travel-percent', 'P02', [(PYC, 'double total_travel_count_reduction_percent = progress.travel_statistics', 'double total_travel_count_reduction_percent = progress.segment_statistics')], r'''
source(HEAD + ['G0 X10 Y10', 'G0 X20 Y30', 'G0 X60 Y50'] + circle(20))
r = convert()['progress']
assert abs(r['total_travel_count_reduction_percent']) < 1e-6, r['total_travel_count_reduction_percent']
assert abs(r['total_count_reduction_percent']) > 1
''', 'a source whose travel and extrusion shrink by different shares', 'the reduction of travel moves is reported as that of extrusion')

pyseed('p02-no-retractions', 'P02', [(PYC, 'source_target_segment_statistics::add(progress.segment_statistics, progress.segment_retraction_statistics)', 'source_target_segment_statistics::add(progress.segment_statistics, progress.travel_statistics)')], r'''
wipe = ['G1 X%.3f Y50 E-0.1' % (60 - k) for k in range(1, 41)]
source(HEAD + circle(3)); a = convert()['progress']['segment_statistics_text']
source(HEAD + circle(3) + wipe); b = convert()['progress']['segment_statistics_text']
assert a != b, 'the retractions are missing'
''', 'moves that retract while they travel', 'the statistics of extrusions lack the retracting moves and have the travel moves instead')

pyseed('p02-callback-kept', 'P02', [(PYX, '		Py_XDECREF(py_progress_callback);\n', '		if (!results.cancelled)\n			Py_XDECREF(py_progress_callback);\n')], r'''
source(HEAD + circle(20))
def stop(p): return False
before = sys.getrefcount(stop)
for k in range(3): assert convert(on_progress=stop)['is_cancelled']
assert sys.getrefcount(stop) == before, (before, sys.getrefcount(stop))
''', 'cancelled conversions', 'each keeps its callback (and all that it refers to) alive')

pyseed('p02-first-is-detailed', 'P02', [(PYX, 'build_py_progress(results.progress, args.guid, true)', 'build_py_progress(results.progress, args.guid, results.success)')], r'''
source(HEAD + circle(20))
r = convert(on_progress=lambda p: False)
assert r['is_cancelled'] and len(r['progress']['segment_statistics_text']) > 0
''', 'a conversion that does not succeed', 'its results lack the statistics')

pyseed('p03-level-kept', 'P03', [(PYX, '		p_py_logger->set_log_level((log_levels)args.log_level);\n', '		if (args.log_level != INFO)\n			p_py_logger->set_log_level((log_levels)args.log_level);\n')], r'''
source(HEAD + circle(20))
convert(); quiet = len([m for m in LOG if m[0] == 'verbose'])
convert(log_level=5); assert len([m for m in LOG if m[0] == 'verbose']) > 0
convert(); assert len([m for m in LOG if m[0] == 'verbose']) == quiet, 'the level of an earlier call is in force'
''', 'a call with a more detailed log level before one without', 'the level stays in force for later calls')


pyseed('p03-callback-optional', 'P03', [(PYC, '''    std::string message = "ParseArgs - Unable to retrieve required parameter 'on_progress_received' from the args.";
    p_py_logger->log_exception(GCODE_CONVERSION, message);
    return false;
''', '''    std::string message = "ParseArgs - Unable to retrieve required parameter 'on_progress_received' from the args.";
    p_py_logger->log(GCODE_CONVERSION, log_levels::ERROR, message);
    return false;
''')], r'''
source(HEAD + circle(20))
try: convert(on_progress=Ellipsis)
except SystemError as x: sys.exit('no exception: %r' % x)
except Exception as x: assert 'on_progress_received' in str(x), x
else: sys.exit('accepted')
''', 'a dictionary without the callback', 'no exception is set, so the interpreter raises a SystemError that does not name the argument')

pyseed('p03-warn-dynamic', 'P03', [(PYC, '''  if (py_allow_dynamic_precision == NULL)
  {
    std::string''', '''  if (py_allow_dynamic_precision == NULL && py_resolution_mm == NULL)
  {
    args.allow_dynamic_precision = false;
  }
  else if (py_allow_dynamic_precision == NULL)
  {
    std::string''')], r'''
source(HEAD + circle(20)); convert()
assert len([m for m in LOG if m[0] == 'warn' and 'allow_dynamic_precision' in m[1]]) == 1
''', 'two optional arguments that are both missing', 'one of them is not warned about')

seed('w02-tool-height', 'W02', [('GcodeProcessorLib/position.cpp', '	return z - z_offset + z_firmware_offset;', '	return z - z_offset;')],
WELD + r'''python3 - > "$D/in.gcode" <<'P'
import math
print("G90\nM83\nG28\nG10 P0 X0 Y0 Z1.5\nT0\nG1 X60 Y50 Z5 F3000")
for k in range(1, 13): print("G1 X%.3f Y%.3f Z%.3f E0.1%s" % (50 + 10*math.cos(k*.1), 50 + 10*math.sin(k*.1), 5 + k*.01, " F1500" if k == 1 else ""))
P
weld -z
grep -q '^G3 .*Z5.120 ' "$D/out.gcode"
''', 'a tool with an offset in Z, and arcs in three dimensions', 'the arc ends at another height')


seed('g02-mode-unknown', 'G02', [('GcodeProcessorLib/gcode_position.cpp', '''				!p_current_pos->z_null &&
				!p_current_pos->is_relative_null &&
''', '''				!p_current_pos->z_null &&
				!(p_current_pos->is_relative_null && p_current_pos->x_homed != p_current_pos->y_homed) &&
''')], LIB, 'a printer whose axis mode must be stated by the program', 'the position is called definite before the mode is known',
 {'main.cpp': POS + r'''int main()
{
	gcode_position_args a = arguments(1, .8, 20); a.xyz_axis_default_mode = "require-explicit";
	gcode_position g(a);
	const char* l[] = { "G28", "M83", 0 };
	if (feed(g, l).has_definite_position) return 1;
	const char* m[] = { "G90", 0 };
	return feed(g, m).has_definite_position ? 0 : 1;
}
'''})
seed('g03-mode-unknown', 'G03', [('GcodeProcessorLib/gcode_position.cpp', '''	// Set extrder mode to relative
	if (pos->is_extruder_relative_null)
		pos->is_extruder_relative_null = false;
''', '''	// Set extrder mode to relative
	if (pos->is_extruder_relative_null && !pos->is_relative_null)
		pos->is_extruder_relative_null = false;
''')], LIB, 'modes that must be stated by the program, the extruder mode stated first', 'the extruder mode stays unknown and all extrusion is lost',
 {'main.cpp': POS + r'''int main()
{
	gcode_position_args a = arguments(1, .8, 20); a.xyz_axis_default_mode = "require-explicit"; a.e_axis_default_mode = "require-explicit";
	gcode_position g(a);
	const char* l[] = { "G1 E5", "M83", "G90", "G1 X1 E2", 0 };
	return near(feed(g, l).get_current_extruder().e, 2) ? 0 : 1;
}
'''})
seed('g02-bare-offset', 'G02', [('GcodeProcessorLib/gcode_position.cpp', '''			if (p_cur_param.value_type == 'F')
				z = p_cur_param.double_value;
			else
				has_z = false;
		}
	}
	// apply offsets
	if (has_t)''', '''			if (p_cur_param.value_type == 'F')
				z = p_cur_param.double_value;
		}
	}
	// apply offsets
	if (has_t)''')], LIB, 'M218 with a bare Z, for a tool that has an offset in Z', 'the offset of the tool is lost',
 {'main.cpp': POS + r'''int main()
{
	gcode_position g(arguments(2, .8, 20));
	const char* l[] = { "G28", "M218 T1 Z1.5", "M218 T1 Z", "T1", "G1 X1 Y1 Z5", 0 };
	return near(feed(g, l).z, 3.5) ? 0 : 1;
}
'''})
