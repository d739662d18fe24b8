// One translation unit per phase (compile time); the whole pipeline in one unit is the fallback (see tools/spec.py).
#include <chia/phase4.hpp>
#include "ph.h"
void run_phase4(const phase3::output_t& i, phase4::output_t& o, int nt, int lg, const std::string& n, const std::string& a, const std::string& b, const std::string& f) { phase4::compute(i, o, nt, lg, n, a, b, f); }
