// Toy group, SHA-256 and bech32 behind stubs_s/.
#include "../stubs_s/bls.hpp"
#include "../stubs_s/libbech32.h"
namespace toy {
void sha256(uint8_t out[32], const uint8_t* in, size_t n) {
	static const uint32_t K[64] = {0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
	uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
	std::vector<uint8_t> m(in, in + n); m.push_back(0x80); while(m.size() % 64 != 56) m.push_back(0); for(int i = 7; i >= 0; --i) m.push_back((uint64_t)n * 8 >> (8 * i));
	auto ror = [](uint32_t x, int k) { return x >> k | x << (32 - k); };
	for(size_t o = 0; o < m.size(); o += 64) {
		uint32_t w[64]; for(int i = 0; i < 16; ++i) w[i] = (uint32_t)m[o + 4 * i] << 24 | m[o + 4 * i + 1] << 16 | m[o + 4 * i + 2] << 8 | m[o + 4 * i + 3];
		for(int i = 16; i < 64; ++i) w[i] = w[i - 16] + (ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 7] + (ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ w[i - 2] >> 10);
		uint32_t v[8]; for(int i = 0; i < 8; ++i) v[i] = h[i];
		for(int i = 0; i < 64; ++i) { uint32_t t1 = v[7] + (ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[i] + w[i], t2 = (ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2])); for(int j = 7; j > 0; --j) v[j] = v[j - 1]; v[4] += t1; v[0] = t1 + t2; }
		for(int i = 0; i < 8; ++i) h[i] += v[i];
	}
	for(int i = 0; i < 8; ++i) for(int j = 0; j < 4; ++j) out[4 * i + j] = h[i] >> (24 - 8 * j);
}
bool valid(const uint8_t* b) { return (b[0] & 0xE0) == 0xA0 || (b[0] & 0xE0) == 0x80; }
P add(const P& a, const P& b) { P r; int c = 0; for(int i = 47; i >= 1; --i) { c += a.b[i] + b.b[i]; r.b[i] = c; c >>= 8; } r.b[0] = 0xA0; return r; }
static void hash_to(uint8_t* out, size_t n, const char* tag, const uint8_t* p, size_t len) { std::vector<uint8_t> m(tag, tag + strlen(tag)); m.insert(m.end(), p, p + len); m.push_back(0); for(size_t o = 0; o < n; o += 32) { uint8_t h[32]; m.back() = o / 32; sha256(h, m.data(), m.size()); memcpy(out + o, h, n - o < 32 ? n - o : 32); } }
P from_sk(const uint8_t sk[32]) { P r; hash_to(r.b, 48, "point", sk, 32); r.b[0] = 0xA0; return r; }
void keygen(uint8_t out[32], const uint8_t* s, size_t n) { hash_to(out, 32, "keygen", s, n); }
void child(uint8_t out[32], const uint8_t sk[32], uint32_t i) { uint8_t b[36]; memcpy(b, sk, 32); for(int j = 0; j < 4; ++j) b[32 + j] = i >> (24 - 8 * j); hash_to(out, 32, "child", b, 36); }
}
namespace bech32 {
DecodedResult decode(const std::string& s) {
	static const char* CH = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"; const DecodedResult bad{Invalid, "", {}};
	bool lo = false, up = false; for(char c : s) { if(c < 33 || c > 126) throw std::runtime_error("data contains invalid character"); if(c >= 'a' && c <= 'z') lo = true; if(c >= 'A' && c <= 'Z') up = true; }
	if(lo && up) throw std::runtime_error("bech32 string is mixed case"); if(s.size() > 90) throw std::runtime_error("bech32 string too long"); if(s.size() < 8) throw std::runtime_error("bech32 string too short");
	std::string t; for(char c : s) t += c >= 'A' && c <= 'Z' ? c + 32 : c;
	size_t p = t.rfind('1'); if(p == std::string::npos) throw std::runtime_error("bech32 string is missing separator character"); if(p < 1 || p + 7 > t.size()) throw std::runtime_error("bech32 string has bad parts");
	std::string hrp = t.substr(0, p); std::vector<unsigned char> dp; for(size_t i = p + 1; i < t.size(); ++i) { const char* q = strchr(CH, t[i]); if(!q || !t[i]) throw std::runtime_error("data contains invalid character"); dp.push_back(q - CH); }
	std::vector<unsigned char> v; for(char c : hrp) v.push_back(c >> 5); v.push_back(0); for(char c : hrp) v.push_back(c & 31); v.insert(v.end(), dp.begin(), dp.end());
	uint32_t c = 1; static const uint32_t G[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}; for(auto x : v) { uint8_t c0 = c >> 25; c = (c & 0x1ffffff) << 5 ^ x; for(int i = 0; i < 5; ++i) if(c0 >> i & 1) c ^= G[i]; }
	dp.resize(dp.size() - 6);
	if(c == 0x2bc830a3) return {Bech32m, hrp, dp}; if(c == 1) return {Bech32, hrp, dp}; return bad;
}
}
