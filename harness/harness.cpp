// Drives the public interfaces of GcodeProcessorLib and ArcWelder and prints what they do as JSON lines.
// It contains no expectation about any result; these are in /verif/spec.
#include "gcode_parser.h"
#include "gcode_position.h"
#include "gcode_comment_processor.h"
#include "parsed_command.h"
#include "array_list.h"
#include "circular_buffer.h"
#include "logger.h"
#include "utilities.h"
#include "arc_welder.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
using std::string; using std::vector;

static string unhex(const string& h)
{
	string s;
	for (size_t i = 0; i + 1 < h.size(); i += 2) s.push_back((char)strtol(h.substr(i, 2).c_str(), NULL, 16));
	return s;
}
static vector<string> words(const string& l)
{
	vector<string> w; std::istringstream is(l); string t;
	while (is >> t) w.push_back(t);
	return w;
}
static string codes(const string& s)
{
	string o = "["; char b[8];
	for (size_t i = 0; i < s.size(); i++) { sprintf(b, "%s%d", i ? "," : "", (int)(unsigned char)s[i]); o += b; }
	return o + "]";
}
static string quoted(const string& s)
{
	string o = "\""; char b[8];
	for (size_t i = 0; i < s.size(); i++)
	{
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) { sprintf(b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}
static const char* yes(bool b) { return b ? "true" : "false"; }

// ---------------------------------------------------------------- parser
// <p|u> <hex of the line>: p preserves the format
static void parse_mode(std::istream& in)
{
	gcode_parser parser; string l;
	while (std::getline(in, l))
	{
		vector<string> w = words(l);
		string line = w.size() > 1 ? unhex(w[1]) : "";
		parsed_command c;
		bool known = parser.try_parse_gcode(line.c_str(), c, w[0] == "p");
		printf("{\"k\":%s,\"r\":%s,\"e\":%s,\"c\":%s,\"g\":%s,\"m\":%s,\"p\":[", yes(c.is_known_command), yes(known), yes(c.is_empty),
			codes(c.command).c_str(), codes(c.gcode).c_str(), codes(c.comment).c_str());
		for (size_t i = 0; i < c.parameters.size(); i++)
		{
			parsed_command_parameter& p = c.parameters[i];
			char b[400]; b[0] = 0; string digits, text; bool close = true, neg = false;
			if (p.value_type == 'F')
			{
				snprintf(b, sizeof b, "%.*f", (int)p.double_precision, std::fabs(p.double_value));
				digits = b;
				double again = strtod(b, NULL);
				close = std::fabs(again - std::fabs(p.double_value)) <= 4e-15 * (1 + again);
				neg = p.double_value < 0;
			}
			else if (p.value_type == 'U') { snprintf(b, sizeof b, "%lu", p.unsigned_long_value); digits = b; }
			else text = p.string_value;
			printf("%s{\"n\":%s,\"t\":%s,\"v\":%s,\"q\":%d,\"neg\":%s,\"x\":%s,\"s\":%s}", i ? "," : "", codes(string(p.name.c_str())).c_str(),
				codes(string(1, p.value_type)).c_str(), codes(digits).c_str(), (int)p.double_precision, yes(neg), yes(close), codes(text).c_str());
		}
		printf("]}\n");
	}
}

// --------------------------------------------------------------- tracker
static long long units(double v) { double r = std::floor(v * 100000.0 + 0.5); return std::fabs(r) > 2e9 || r != r ? 2000000001LL : (long long)r; }
static long long milli(double v) { double r = std::floor(v * 1000.0 + 0.5); return std::fabs(r) > 2e9 || r != r ? 2000000001LL : (long long)r; }
static string full(position& p)
{
	string s; char b[64];
#define D(v) sprintf(b, "%a ", (double)(v)); s += b;
#define B(v) s += (v) ? "1 " : "0 ";
#define L(v) sprintf(b, "%ld ", (long)(v)); s += b;
	s += p.command.command + "|" + p.command.gcode + "|" + p.command.comment + "|";
	L(p.command.parameters.size()) L(p.feature_type_tag) D(p.f) B(p.f_null)
	D(p.x) B(p.x_null) D(p.x_offset) D(p.x_firmware_offset) B(p.x_homed) D(p.y) B(p.y_null) D(p.y_offset) D(p.y_firmware_offset) B(p.y_homed)
	D(p.z) B(p.z_null) D(p.z_offset) D(p.z_firmware_offset) B(p.z_homed) B(p.is_metric) B(p.is_metric_null)
	D(p.last_extrusion_height) B(p.last_extrusion_height_null) L(p.layer) D(p.height) L(p.height_increment) L(p.height_increment_change_count)
	B(p.is_printer_primed) B(p.has_definite_position) D(p.z_relative) B(p.is_relative) B(p.is_relative_null) B(p.is_extruder_relative) B(p.is_extruder_relative_null)
	B(p.is_layer_change) B(p.is_height_increment_change) B(p.is_xy_travel) B(p.is_xyz_travel) B(p.is_zhop)
	B(p.has_position_changed) B(p.has_xy_position_changed) L(p.file_line_number) L(p.gcode_number) L(p.file_position) B(p.is_in_bounds) B(p.is_empty)
	L(p.current_tool) L(p.num_extruders)
	for (int k = 0; k < p.num_extruders; k++)
	{
		extruder& e = p.get_extruder(k);
		D(e.x_firmware_offset) D(e.y_firmware_offset) D(e.z_firmware_offset) D(e.e) D(e.e_offset) D(e.e_relative) D(e.extrusion_length) D(e.extrusion_length_total)
		D(e.retraction_length) D(e.deretraction_length) B(e.is_extruding_start) B(e.is_extruding) B(e.is_primed) B(e.is_retracting_start) B(e.is_retracting)
		B(e.is_retracted) B(e.is_partially_retracted) B(e.is_deretracting_start) B(e.is_deretracting) B(e.is_deretracted)
	}
#undef D
#undef B
#undef L
	return s;
}
static string hash(const string& s)
{
	unsigned long long h = 1469598103934665603ULL, g = 88172645463325252ULL; char b[40];
	for (size_t i = 0; i < s.size(); i++) { h ^= (unsigned char)s[i]; h *= 1099511628211ULL; g = (g ^ h) * 6364136223846793005ULL + 1; }
	sprintf(b, "%016llx%016llx", h, g);
	return b;
}
static void show(position& p)
{
	printf("{\"x\":%lld,\"y\":%lld,\"z\":%lld,\"xn\":%s,\"yn\":%s,\"zn\":%s,\"gx\":%lld,\"gy\":%lld,\"gz\":%lld,", units(p.x), units(p.y), units(p.z), yes(p.x_null), yes(p.y_null), yes(p.z_null),
		units(p.get_gcode_x()), units(p.get_gcode_y()), units(p.get_gcode_z()));
	printf("\"xo\":%lld,\"yo\":%lld,\"zo\":%lld,\"xf\":%lld,\"yf\":%lld,\"zf\":%lld,\"xh\":%s,\"yh\":%s,\"zh\":%s,", units(p.x_offset), units(p.y_offset), units(p.z_offset),
		units(p.x_firmware_offset), units(p.y_firmware_offset), units(p.z_firmware_offset), yes(p.x_homed), yes(p.y_homed), yes(p.z_homed));
	printf("\"f\":%lld,\"fn\":%s,\"rel\":%s,\"reln\":%s,\"erel\":%s,\"ereln\":%s,\"tool\":%d,\"ne\":%d,\"tag\":%d,", milli(p.f), yes(p.f_null), yes(p.is_relative), yes(p.is_relative_null),
		yes(p.is_extruder_relative), yes(p.is_extruder_relative_null), p.current_tool, p.num_extruders, p.feature_type_tag);
	printf("\"zr\":%lld,\"trav\":%s,\"chxy\":%s,\"ch\":%s,\"def\":%s,\"leh\":%lld,\"lehn\":%s,\"lay\":%ld,\"h\":%lld,\"primed\":%s,\"lc\":%s,\"zhop\":%s,\"hi\":%d,\"hich\":%s,\"hicc\":%d,\"inb\":%s,",
		units(p.z_relative), yes(p.is_travel()), yes(p.has_xy_position_changed), yes(p.has_position_changed), yes(p.has_definite_position), units(p.last_extrusion_height), yes(p.last_extrusion_height_null),
		p.layer, units(p.height), yes(p.is_printer_primed), yes(p.is_layer_change), yes(p.is_zhop), p.height_increment, yes(p.is_height_increment_change), p.height_increment_change_count, yes(p.is_in_bounds));
	printf("\"ex\":[");
	for (int k = 0; k < p.num_extruders; k++)
	{
		extruder& e = p.get_extruder(k);
		printf("%s{\"e\":%lld,\"eo\":%lld,\"er\":%lld,\"ge\":%lld,\"xl\":%lld,\"xt\":%lld,\"rl\":%lld,\"dl\":%lld,", k ? "," : "", units(e.e), units(e.e_offset), units(e.e_relative), units(e.get_offset_e()),
			units(e.extrusion_length), units(e.extrusion_length_total), units(e.retraction_length), units(e.deretraction_length));
		printf("\"xs\":%s,\"xg\":%s,\"pr\":%s,\"rs\":%s,\"rg\":%s,\"rd\":%s,\"prt\":%s,\"ds\":%s,\"dg\":%s,\"dd\":%s,\"fx\":%lld,\"fy\":%lld,\"fz\":%lld}",
			yes(e.is_extruding_start), yes(e.is_extruding), yes(e.is_primed), yes(e.is_retracting_start), yes(e.is_retracting), yes(e.is_retracted), yes(e.is_partially_retracted),
			yes(e.is_deretracting_start), yes(e.is_deretracting), yes(e.is_deretracted), units(e.x_firmware_offset), units(e.y_firmware_offset), units(e.z_firmware_offset));
	}
	printf("]}");
}
static double num(std::map<string, string>& m, const char* k) { return atof(m[k].c_str()); }
static vector<double> list(const string& s)
{
	vector<double> v; std::istringstream is(s); string t;
	while (std::getline(is, t, ',')) v.push_back(atof(t.c_str()));
	return v;
}
static gcode_position* make_position(std::map<string, string>& m)
{
	gcode_position_args a;
	a.shared_extruder = false;
	int ne = (int)num(m, "ne");
	a.set_num_extruders(ne);
	vector<double> rl = list(m["rl"]), zl = list(m["zl"]), fx = list(m["fx"]), fy = list(m["fy"]), home = list(m["home"]), none = list(m["homenone"]), bounds = list(m["bounds"]);
	for (int k = 0; k < ne; k++) { a.retraction_lengths[k] = rl[k]; a.z_lift_heights[k] = zl[k]; a.x_firmware_offsets[k] = fx[k]; a.y_firmware_offsets[k] = fy[k]; }
	a.home_x = home[0]; a.home_y = home[1]; a.home_z = home[2];
	a.home_x_none = none[0] != 0; a.home_y_none = none[1] != 0; a.home_z_none = none[2] != 0;
	a.priming_height = num(m, "prime"); a.minimum_layer_height = num(m, "minlayer"); a.height_increment = num(m, "hinc");
	a.g90_influences_extruder = num(m, "g90e") != 0;
	a.zero_based_extruder = num(m, "zb") != 0;
	a.default_extruder = (int)num(m, "tool");
	a.xyz_axis_default_mode = m["xyzmode"]; a.e_axis_default_mode = m["emode"];
	if (!m["units"].empty()) a.units_default = m["units"];
	a.is_bound_ = num(m, "bound") != 0; a.is_circular_bed = num(m, "circ") != 0;
	a.x_min = a.snapshot_x_min = bounds[0]; a.x_max = a.snapshot_x_max = bounds[1]; a.y_min = a.snapshot_y_min = bounds[2]; a.y_max = a.snapshot_y_max = bounds[3];
	a.z_min = a.snapshot_z_min = bounds[4]; a.z_max = a.snapshot_z_max = bounds[5];
	a.position_buffer_size = (int)num(m, "buffer");
	// the arguments also travel through a copy and an assignment on their way
	gcode_position_args b(a); gcode_position_args c; c = b;
	return new gcode_position(c);
}
// new k=v ..  | line <number> <hex> | undo | grow <n> | section <hex>
// each prints the observation of the current position, and the identity of the current and previous one
static void track_mode(std::istream& in)
{
	gcode_parser parser; gcode_position* g = NULL; string l;
	while (std::getline(in, l))
	{
		vector<string> w = words(l);
		if (w.empty()) continue;
		if (w[0] == "new")
		{
			delete g; std::map<string, string> m;
			for (size_t k = 1; k < w.size(); k++) { size_t q = w[k].find('='); m[w[k].substr(0, q)] = w[k].substr(q + 1); }
			g = make_position(m);
		}
		else if (w[0] == "line" || w[0] == "qline")     // qline prints nothing
		{
			parsed_command c; string line = w.size() > 2 ? unhex(w[2]) : "";
			parser.try_parse_gcode(line.c_str(), c, true);
			g->update(c, atol(w[1].c_str()), atol(w[1].c_str()) + 7, atol(w[1].c_str()) * 3);
			if (w[0] == "qline") continue;
		}
		else if (w[0] == "undo") g->undo_update();
		else if (w[0] == "undon") { position* p = g->undo_update(atoi(w[1].c_str())); delete[] p; }
		else if (w[0] == "grow") g->grow_max_positions(atoi(w[1].c_str()));
		else if (w[0] == "section") { string t = unhex(w.size() > 1 ? w[1] : ""); g->get_gcode_comment_processor()->update(t); }
		position& p = *g->get_current_position_ptr();
		position& q = *g->get_previous_position_ptr();
		position c2 = g->get_current_position(), q2 = g->get_previous_position();
		string id = hash(full(p)), pid = hash(full(q));
		printf("{\"o\":"); show(p);
		printf(",\"id\":\"%s\",\"pid\":\"%s\",\"cid\":\"%s\",\"cpid\":\"%s\",\"n\":%d,\"max\":%d,\"type\":%d}\n", id.c_str(), pid.c_str(), hash(full(c2)).c_str(), hash(full(q2)).c_str(),
			g->get_num_positions(), g->get_max_positions(), (int)g->get_gcode_comment_processor()->get_comment_process_type());
	}
	delete g;
}

// ------------------------------------------------------------ containers
template <class C> static void content(const char* op, C& c, int got, bool thrown)
{
	printf("{\"n\":%d,\"max\":%d,\"got\":%d,\"thrown\":%s,\"items\":[", c.count(), c.get_max_size(), got, yes(thrown));
	for (int k = 0; k < c.count(); k++) printf("%s%d", k ? "," : "", k % 2 ? c.get(k) : c[k]);
	printf("]}\n");
}
// new array | new arraycap <n> | new ring <n> | then pushf v, pushb v, popf, popb, clear, resize n, copy (through another container) ...
// a ring can fill the room it gains
static void fill(array_list<int>* c, int n) { c->resize(n); }
static void fill(circular_buffer<int>* c, int n) { c->resize(n, -7); }
template <class C> static void run_container(C* c, C* other, vector<vector<string> >& ops)
{
	for (size_t k = 0; k < ops.size(); k++)
	{
		vector<string>& w = ops[k]; int got = -1; bool thrown = false;
		try
		{
			if (w[0] == "pushf") c->push_front(atoi(w[1].c_str()));
			else if (w[0] == "pushb") c->push_back(atoi(w[1].c_str()));
			else if (w[0] == "popf") got = c->pop_front();
			else if (w[0] == "popb") got = c->pop_back();
			else if (w[0] == "clear") c->clear();
			else if (w[0] == "resize") { int n = atoi(w[1].c_str()); if (k % 2) fill(c, n); else c->resize(n); }
			else if (w[0] == "copy") { other->copy(*c); C* t = c; c = other; other = t; }
		}
		catch (std::exception&) { thrown = true; }
		content(w[0].c_str(), *c, got, thrown);
	}
	delete c; delete other;
}
static void deque_mode(std::istream& in)
{
	string l; vector<vector<string> > ops; vector<string> kind;
	while (true)
	{
		bool more = (bool)std::getline(in, l);
		vector<string> w = more ? words(l) : vector<string>();
		if (!more || (w.size() && w[0] == "new"))
		{
			if (kind.size())
			{
				if (kind[1] == "array") run_container(new array_list<int>(), new array_list<int>(), ops);
				else if (kind[1] == "arraycap") run_container(new array_list<int>(atoi(kind[2].c_str())), new array_list<int>(atoi(kind[2].c_str())), ops);
				else { int n = atoi(kind[2].c_str()); run_container(new circular_buffer<int>(n), new circular_buffer<int>(n), ops); }
			}
			ops.clear(); kind = w;
			if (!more) break;
		}
		else if (w.size()) ops.push_back(w);
	}
}

// ---------------------------------------------------------------- logger
static string captured;
// new <n> | all l | one i l | allv v | onev i v | log i l <hex> | logx i <hex> | name i
static void log_mode(std::istream& in)
{
	string l; logger* g = NULL; int n = 0; vector<string> names;
	std::ostringstream out, err;
	std::streambuf* o0 = std::cout.rdbuf(out.rdbuf()); std::streambuf* e0 = std::cerr.rdbuf(err.rdbuf());
	while (std::getline(in, l))
	{
		vector<string> w = words(l); if (w.empty()) continue;
		out.str(""); err.str("");
		string name = "";
		if (w[0] == "new")
		{
			delete g; n = atoi(w[1].c_str()); names.clear(); vector<int> levels;
			for (int k = 0; k < n; k++) { char b[20]; sprintf(b, "log.%c", 'a' + k); names.push_back(b); levels.push_back((k * 3 + 1) % 7); }
			g = new logger(names, levels);
		}
		else if (w[0] == "all") g->set_log_level((log_levels)atoi(w[1].c_str()));
		else if (w[0] == "one") g->set_log_level(atoi(w[1].c_str()), (log_levels)atoi(w[2].c_str()));
		else if (w[0] == "allv") g->set_log_level_by_value(atoi(w[1].c_str()));
		else if (w[0] == "onev") g->set_log_level_by_value(atoi(w[1].c_str()), atoi(w[2].c_str()));
		else if (w[0] == "log") g->log(atoi(w[1].c_str()), (log_levels)atoi(w[2].c_str()), unhex(w.size() > 3 ? w[3] : ""));
		else if (w[0] == "logx") g->log_exception(atoi(w[1].c_str()), unhex(w.size() > 2 ? w[2] : ""));
		printf("{\"out\":%s,\"err\":%s,\"on\":[", quoted(out.str()).c_str(), quoted(err.str()).c_str());
		for (int i = 0; i < n; i++)
		{
			printf("%s[", i ? "," : "");
			for (int k = 0; k < 7; k++) printf("%s%s", k ? "," : "", yes(g->is_log_level_enabled(i, (log_levels)k)));
			printf("]");
		}
		printf("],\"names\":[");
		for (int i = 0; i < n; i++) printf("%s%s", i ? "," : "", quoted(g->get_log_level_name(names[i])).c_str());
		printf("],\"none\":%s,\"vals\":[", quoted(g->get_log_level_name("other")).c_str());
		for (int k = 0; k < 7; k++) printf("%s[%d,%d]", k ? "," : "", logger::get_log_level_value((log_levels)k), logger::get_log_level_for_value(logger::get_log_level_value((log_levels)k)));
		printf("]}\n");
	}
	std::cout.rdbuf(o0); std::cerr.rdbuf(e0);
	delete g;
}

// ---------------------------------------------------------------- welder
static int cancel_at = 0, reports = 0;
static void stats(const char* name, const source_target_segment_statistics& s)
{
	printf(",\"%s\":{\"cs\":%d,\"ct\":%d,\"ls\":%.10f,\"lt\":%.10f,\"s\":[", name, s.total_count_source, s.total_count_target, s.total_length_source, s.total_length_target);
	for (size_t k = 0; k < s.source_segments.size(); k++) printf("%s%d", k ? "," : "", s.source_segments[k].count);
	printf("],\"t\":[");
	for (size_t k = 0; k < s.target_segments.size(); k++) printf("%s%d", k ? "," : "", s.target_segments[k].count);
	printf("]}");
}
static void report(const arc_welder_progress& p)
{
	printf("\"lines\":%d,\"gcodes\":%d,\"points\":%d,\"arcs\":%d,\"aborted\":%d,\"fw\":%d,\"len\":%d,\"pos\":%ld,\"size\":%ld,\"target\":%ld,\"pct\":%.10f,\"ratio\":%.10f,\"cpct\":%.10f", p.lines_processed, p.gcodes_processed,
		p.points_compressed, p.arcs_created, p.arcs_aborted_by_flow_rate, p.num_firmware_compensations, p.num_gcode_length_exceptions, p.source_file_position, p.source_file_size,
		p.target_file_size, p.percent_complete, p.compression_ratio, p.compression_percent);
	stats("ex", p.segment_statistics); stats("re", p.segment_retraction_statistics); stats("tr", p.travel_statistics);
	source_target_segment_statistics both = source_target_segment_statistics::add(p.segment_statistics, p.segment_retraction_statistics);
	stats("both", both);
}
static bool on_progress(arc_welder_progress p, logger*, int)
{
	reports++;
	printf("{\"report\":%d,", reports); report(p); printf("}\n");
	return !(cancel_at > 0 && reports >= cancel_at);
}
// source target k=v ..
static int weld_mode(int argc, char** argv)
{
	vector<string> names; vector<int> levels; names.push_back(ARC_WELDER_LOGGER_NAME); levels.push_back((int)log_levels::CRITICAL);
	logger lg(names, levels); lg.set_log_level(log_levels::CRITICAL);
	arc_welder_args a(argv[2], argv[3], &lg);
	a.callback = on_progress; a.notification_period_seconds = -1;
	for (int k = 4; k < argc; k++)
	{
		string s = argv[k]; size_t q = s.find('='); string n = s.substr(0, q); double v = atof(s.substr(q + 1).c_str());
		if (n == "r") a.resolution_mm = v; else if (n == "t") a.path_tolerance_percent = v; else if (n == "m") a.max_radius_mm = v;
		else if (n == "z") a.allow_3d_arcs = v != 0; else if (n == "y") a.allow_travel_arcs = v != 0; else if (n == "d") a.allow_dynamic_precision = v != 0;
		else if (n == "x") a.default_xyz_precision = (unsigned char)v; else if (n == "e") a.default_e_precision = (unsigned char)v;
		else if (n == "s") a.mm_per_arc_segment = v; else if (n == "a") a.min_arc_segments = (int)v; else if (n == "v") a.extrusion_rate_variance_percent = v;
		else if (n == "c") a.max_gcode_length = (int)v; else if (n == "g") a.g90_g91_influences_extruder = v != 0;
		else if (n == "cancel") cancel_at = (int)v; else if (n == "b") a.buffer_size = (int)v; else if (n == "period") a.notification_period_seconds = v;
	}
	arc_welder w(a);
	arc_welder_results r = w.process();
	printf("{\"result\":true,\"success\":%s,\"cancelled\":%s,\"message\":%s,\"reports\":%d,", yes(r.success), yes(r.cancelled), quoted(r.message).c_str(), reports);
	report(r.progress); printf("}\n");
	return 0;
}

// a number and how many decimals per line: prints what is written for it
static void num_mode(std::istream& f)
{
	std::string l;
	while (std::getline(f, l))
	{
		std::size_t b = l.find(' ');
		std::string t = utilities::dtos(strtod(l.substr(0, b).c_str(), NULL), (unsigned char)atoi(l.c_str() + b + 1));
		for (size_t k = 0; k < t.size(); k++) if (t[k] < 32 || t[k] > 126 || t[k] == '"' || t[k] == '\\') t[k] = '?';
		std::cout << "\"" << t << "\"\n";
	}
}

int main(int argc, char** argv)
{
	if (argc < 2) return 2;
	string mode = argv[1];
	if (mode == "weld") return weld_mode(argc, argv);
	std::ifstream f(argv[2]);
	if (!f) return 2;
	static char big[1 << 16]; setvbuf(stdout, big, _IOFBF, sizeof big);
	if (mode == "parse") parse_mode(f);
	else if (mode == "track") track_mode(f);
	else if (mode == "deque") deque_mode(f);
	else if (mode == "log") log_mode(f);
	else if (mode == "num") num_mode(f);
	else return 2;
	return 0;
}
