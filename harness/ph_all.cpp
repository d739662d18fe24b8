// All phases in one translation unit, in the order of chia_plot.cpp (fallback when the split units do not compile or link)
#include <chia/phase1.hpp>
#include <chia/phase2.hpp>
#include <chia/phase3.hpp>
#include <chia/phase4.hpp>
#include "ph.h"
void run_phase1(const phase1::input_t& i, phase1::output_t& o, int nt, int lg, const std::string& n, const std::string& a, const std::string& b) { phase1::compute(i, o, nt, lg, n, a, b); }
void run_phase2(const phase1::output_t& i, phase2::output_t& o, int nt, int lg, const std::string& n, const std::string& a, const std::string& b) { phase2::compute(i, o, nt, lg, n, a, b); }
void run_phase3(phase2::output_t& i, phase3::output_t& o, int nt, int lg, const std::string& n, const std::string& a, const std::string& b, const std::string& f) { phase3::compute(i, o, nt, lg, n, a, b, f); }
void run_phase4(const phase3::output_t& i, phase4::output_t& o, int nt, int lg, const std::string& n, const std::string& a, const std::string& b, const std::string& f) { phase4::compute(i, o, nt, lg, n, a, b, f); }
