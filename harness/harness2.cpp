// Runs the library behind the straightener with explicit settings: harness2 source target f=TYPE v=VERSION name=value ..
#include "arc_interpolation.h"
#include <cstdlib>
#include <string>
int main(int argc, char** argv)
{
	arc_interpolation_args a;
	if (argc < 3) return 2;
	a.source_path = argv[1]; a.target_path = argv[2];
	firmware_arguments& f = a.firmware_args;
	for (int k = 3; k < argc; k++)
	{
		std::string s = argv[k]; size_t q = s.find('='); std::string n = s.substr(0, q), t = s.substr(q + 1); double v = atof(t.c_str());
		if (n == "f") f.firmware_type = t == "MARLIN_1" ? firmware_types::MARLIN_1 : t == "MARLIN_2" ? firmware_types::MARLIN_2 : t == "REPETIER" ? firmware_types::REPETIER :
			t == "PRUSA" ? firmware_types::PRUSA : firmware_types::SMOOTHIEWARE;
		else if (n == "v") f.version = t;
		else if (n == "mm-per-arc-segment") f.mm_per_arc_segment = v; else if (n == "arc-segments-per-r") f.arc_segments_per_r = v;
		else if (n == "min-mm-per-arc-segment") f.min_mm_per_arc_segment = v; else if (n == "min-arc-segment-mm") f.min_arc_segment_mm = v;
		else if (n == "max-arc-segment-mm") f.max_arc_segment_mm = v; else if (n == "arc-segments-per-sec") f.arc_segments_per_sec = v;
		else if (n == "mm-max-arc-error") f.mm_max_arc_error = v; else if (n == "min-arc-segments") f.min_arc_segments = (int)v;
		else if (n == "min-circle-segments") f.min_circle_segments = (int)v; else if (n == "n-arc-correction") f.n_arc_correction = (int)v;
		else if (n == "g90-g91-influences-extruder") f.g90_g91_influences_extruder = v != 0;
		else return 3;
	}
	arc_interpolation i(a);
	return i.process() ? 0 : 1;
}
