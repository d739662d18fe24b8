#pragma once
#include <chia/phase2.h>
#include <chia/phase1.hpp>
namespace phase2 {
extern int g_thread_multi;
inline void compute(const phase1::output_t& in, output_t& out, const int nt, const int lg, const std::string name, const std::string tmp, const std::string tmp2) { out.params = in.params; session_phase(2, in.params.k, in.params.id.data(), in.params.id.size(), in.params.memo, in.params.plot_name, nt, lg, name, tmp, tmp2, ""); }
}
