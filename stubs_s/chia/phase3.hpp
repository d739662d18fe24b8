#pragma once
#include <chia/phase3.h>
#include <chia/phase2.hpp>
namespace phase3 {
inline void compute(phase2::output_t& in, output_t& out, const int nt, const int lg, const std::string name, const std::string tmp, const std::string tmp2, const std::string plot_dir) { out.params = in.params; out.plot_file_name = plot_dir + name + ".plot.tmp"; session_phase(3, in.params.k, in.params.id.data(), in.params.id.size(), in.params.memo, in.params.plot_name, nt, lg, name, tmp, tmp2, plot_dir); }
}
