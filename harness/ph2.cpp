// One translation unit per phase (compile time); the whole pipeline in one unit is the fallback (see tools/spec.py).
#include <chia/phase2.hpp>
#include "ph.h"
void run_phase2(const phase1::output_t& i, phase2::output_t& o, int nt, int lg, const std::string& n, const std::string& a, const std::string& b) { phase2::compute(i, o, nt, lg, n, a, b); }
