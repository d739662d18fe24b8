// One translation unit per phase (compile time); the whole pipeline in one unit is the fallback (see tools/spec.py).
#include <chia/phase3.hpp>
#include "ph.h"
void run_phase3(phase2::output_t& i, phase3::output_t& o, int nt, int lg, const std::string& n, const std::string& a, const std::string& b, const std::string& f) { phase3::compute(i, o, nt, lg, n, a, b, f); }
