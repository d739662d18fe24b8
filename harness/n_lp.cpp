// C18: line points.
#include "native.h"
#include <chia/encoding.hpp>
using namespace nat;
typedef __uint128_t u128; typedef unsigned long long ull;
static u128 ref_lp(uint64_t a, uint64_t b) { uint64_t x = a > b ? a : b, y = a > b ? b : a; return (u128)x * (x - 1) / 2 + y; }
static void pair_(uint64_t a, uint64_t b) {
	if(a == b) return;
	u128 p = Encoding::SquareToLinePoint(a, b), q = Encoding::SquareToLinePoint(b, a);
	N_CHECK(p == q, "line point of (%llu,%llu) depends on the order", (ull)a, (ull)b);
	N_CHECK(p == ref_lp(a, b), "line point of (%llu,%llu) is %llu:%llu, the format defines %llu:%llu", (ull)a, (ull)b, (ull)(p >> 64), (ull)p, (ull)(ref_lp(a, b) >> 64), (ull)ref_lp(a, b));
	auto s = Encoding::LinePointToSquare(p);
	N_CHECK((s.first == a && s.second == b) || (s.first == b && s.second == a), "line point of (%llu,%llu) decodes to (%llu,%llu)", (ull)a, (ull)b, (ull)s.first, (ull)s.second);
	N_CHECK(s.first > s.second, "line point decodes to (%llu,%llu): larger position not first", (ull)s.first, (ull)s.second);
	ev();
}
void register_native(const std::string& tier) {
	bool th = tier == "thorough";
	const int L = th ? 14 : 12;
	for(int part = 0; part < 8; ++part) add("C18/all-pairs/" + std::to_string(part), [=] { for(uint64_t x = part; x < (1u << L); x += 8) for(uint64_t y = 0; y < x; ++y) pair_(x, y); note("all pairs of positions below 2^%d", L); });
	add("C18/boundary", [=] {
		std::vector<uint64_t> d; for(int i = 0; i <= 35; ++i) for(int j = -5; j <= 5; ++j) { int64_t v = ((int64_t)1 << i) + j; if(v >= 0 && v <= ((int64_t)1 << 35)) d.push_back(v); }
		for(int i = 2; i < 35; ++i) for(int j = 0; j < i; ++j) d.push_back(((uint64_t)1 << i) + ((uint64_t)1 << j));
		for(int i = 2; i < 35; ++i) for(int j = 0; j < i; ++j) d.push_back(((uint64_t)1 << i) - ((uint64_t)1 << j) + (((uint64_t)1 << i) - 1) / 3 % ((uint64_t)1 << j));
		for(auto a : d) for(auto b : d) pair_(a, b);
		note("all pairs over %zu boundary positions up to 2^35", d.size());
	});
	add("C18/adjacent", [=] {   // for every x: the largest y of x and the smallest of x+1 are adjacent line points (no gap, no overlap => bijection, order)
		std::vector<uint64_t> xs; for(uint64_t x = 2; x < (1u << 20); ++x) xs.push_back(x); for(int i = 20; i <= 35; ++i) for(int j = -2000; j <= 2000; ++j) xs.push_back(((uint64_t)1 << i) + j); for(uint64_t m = 1; m < (1u << 20); ++m) xs.push_back(m * 32749);
		for(auto x : xs) {
			u128 last = Encoding::SquareToLinePoint(x, x - 1), first = Encoding::SquareToLinePoint(x + 1, 0), p0 = Encoding::SquareToLinePoint(x, 0);
			N_CHECK(first == last + 1, "line points of %llu and %llu overlap or leave a gap", (ull)x, (ull)x + 1);
			auto s = Encoding::LinePointToSquare(last); N_CHECK(s.first == x && s.second == x - 1, "line point of (%llu,%llu) decodes wrong", (ull)x, (ull)x - 1);
			s = Encoding::LinePointToSquare(first); N_CHECK(s.first == x + 1 && s.second == 0, "line point of (%llu,0) decodes wrong", (ull)x + 1);
			N_CHECK(p0 + (x - 1) == last, "line points of %llu not consecutive", (ull)x); ev(2);
		}
	});
	add("C18/all-points", [=] { u128 prev = 0; for(uint64_t p = 0; p < (th ? 1u << 26 : 1u << 22); ++p) { auto s = Encoding::LinePointToSquare(p); if(!(s.first == 0)) { N_CHECK(s.second < s.first || p == 0, "point %llu", (ull)p); N_CHECK(Encoding::SquareToLinePoint(s.first, s.second) == p, "line point %llu decodes to (%llu,%llu), which encodes differently", (ull)p, (ull)s.first, (ull)s.second); } ev(); } });
}
