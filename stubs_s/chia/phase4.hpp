#pragma once
#include <chia/phase4.h>
#include <chia/phase3.hpp>
#include <chia/bits.hpp>
namespace phase4 {
inline void compute(const phase3::output_t& in, output_t& out, const int nt, const int lg, const std::string name, const std::string tmp, const std::string tmp2, const std::string plot_dir) { out.params = in.params; out.plot_size = 1; out.plot_file_name = plot_dir + name + ".plot"; session_phase(4, in.params.k, in.params.id.data(), in.params.id.size(), in.params.memo, in.params.plot_name, nt, lg, name, tmp, tmp2, plot_dir); }
}
