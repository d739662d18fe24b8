#pragma once
#include <chia/phase4.h>
#include <chia/settings.h>
void run_phase1(const phase1::input_t& i, phase1::output_t& o, int nt, int lg, const std::string& n, const std::string& a, const std::string& b);
void run_phase2(const phase1::output_t& i, phase2::output_t& o, int nt, int lg, const std::string& n, const std::string& a, const std::string& b);
void run_phase3(phase2::output_t& i, phase3::output_t& o, int nt, int lg, const std::string& n, const std::string& a, const std::string& b, const std::string& f);
void run_phase4(const phase3::output_t& i, phase4::output_t& o, int nt, int lg, const std::string& n, const std::string& a, const std::string& b, const std::string& f);
