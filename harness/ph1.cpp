// One translation unit per phase (compile time); the whole pipeline in one unit is the fallback (see tools/spec.py).
#include <chia/phase1.hpp>
#include "ph.h"
void run_phase1(const phase1::input_t& i, phase1::output_t& o, int nt, int lg, const std::string& n, const std::string& a, const std::string& b) { phase1::compute(i, o, nt, lg, n, a, b); }
