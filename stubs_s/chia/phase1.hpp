// Scripted phase for the session harness.
#pragma once
#include <chia/phase1.h>
#include <chia/ThreadPool.h>
#include <chia/DiskTable.h>
#include <chia/bits.hpp>
#include <chia/util.hpp>
void session_phase(int phase, int k, const uint8_t* id, size_t id_size, const std::vector<uint8_t>& memo, const std::string& params_name, int threads, int log_buckets, const std::string& name, const std::string& tmp, const std::string& tmp2, const std::string& out_dir);
namespace phase1 {
inline void compute(const input_t& in, output_t& out, const int nt, const int lg, const std::string name, const std::string tmp, const std::string tmp2) { out.params = in; session_phase(1, in.k, in.id.data(), in.id.size(), in.memo, in.plot_name, nt, lg, name, tmp, tmp2, ""); }
}
