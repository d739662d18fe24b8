// Stand-in for bls-signatures (not in this sandbox): a toy group with the library's interface. Serialisation widths,
// validation by exception, key derivation by hashing and addition in the group are as in the library; the group itself is
// the integers modulo 2^376 (tag byte 0xA0 | 47 bytes), so sums, orders of operands and derivation paths stay observable.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <stdexcept>
using std::vector; using std::string; using std::array;
namespace toy {
void sha256(uint8_t out[32], const uint8_t* in, size_t n);
struct P { uint8_t b[48]; };
bool valid(const uint8_t* b);
P from_sk(const uint8_t sk[32]);
P add(const P& a, const P& b);
void keygen(uint8_t out[32], const uint8_t* seed, size_t n);
void child(uint8_t out[32], const uint8_t sk[32], uint32_t index);
void on_random(uint8_t* p, size_t n);
}
namespace bls {
class Bytes { const uint8_t* p; size_t n; public: Bytes(const uint8_t* p, size_t n) : p(p), n(n) {} Bytes(const std::vector<uint8_t>& v) : p(v.data()), n(v.size()) {} const uint8_t* begin() const { return p; } size_t size() const { return n; } const uint8_t& operator[](int i) const { return p[i]; } };
class Util { public: typedef bls::Bytes Bytes;
	static void Hash256(uint8_t* out, const uint8_t* in, size_t n) { toy::sha256(out, in, n); }
	static std::string HexStr(const uint8_t* p, size_t n) { std::string s; static const char* d = "0123456789abcdef"; for(size_t i = 0; i < n; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s; }
	static std::string HexStr(const std::vector<uint8_t>& v) { return HexStr(v.data(), v.size()); }
};
class G1Element { toy::P p; public: static const size_t SIZE = 48;
	G1Element() { memset(p.b, 0, 48); p.b[0] = 0xA0; }
	static G1Element FromByteVector(const std::vector<uint8_t>& v, bool = false) { if(v.size() != SIZE) throw std::invalid_argument("G1Element::FromBytes: Invalid size"); if(!toy::valid(v.data())) throw std::invalid_argument("G1 element is invalid"); G1Element e; memcpy(e.p.b, v.data(), 48); return e; }
	static G1Element FromBytes(const Bytes& b, bool = false) { return FromByteVector(std::vector<uint8_t>(b.begin(), b.begin() + b.size())); }
	static G1Element raw(const toy::P& q) { G1Element e; e.p = q; return e; }
	std::vector<uint8_t> Serialize(bool = false) const { return std::vector<uint8_t>(p.b, p.b + 48); }
	bool operator==(const G1Element& o) const { return !memcmp(p.b, o.p.b, 48); } bool operator!=(const G1Element& o) const { return !(*this == o); }
	friend G1Element operator+(const G1Element& a, const G1Element& b) { return raw(toy::add(a.p, b.p)); }
	friend G1Element& operator+=(G1Element& a, const G1Element& b) { a = a + b; return a; }
	bool IsValid() const { return toy::valid(p.b); }
};
class PrivateKey { uint8_t k[32]; public: static const size_t PRIVATE_KEY_SIZE = 32; PrivateKey() { memset(k, 0, 32); }
	static PrivateKey raw(const uint8_t* p) { PrivateKey s; memcpy(s.k, p, 32); return s; }
	static PrivateKey FromByteVector(const std::vector<uint8_t>& v, bool = false) { if(v.size() != 32) throw std::invalid_argument("PrivateKey size"); return raw(v.data()); }
	std::vector<uint8_t> Serialize(bool = false) const { return std::vector<uint8_t>(k, k + 32); }
	G1Element GetG1Element() const { return G1Element::raw(toy::from_sk(k)); }
	const uint8_t* bytes() const { return k; }
};
class CoreMPL { public: 
	PrivateKey KeyGen(const std::vector<uint8_t>& seed) { if(seed.size() < 32) throw std::invalid_argument("Seed size must be at least 32 bytes"); uint8_t o[32]; toy::keygen(o, seed.data(), seed.size()); return PrivateKey::raw(o); }
	PrivateKey DeriveChildSk(const PrivateKey& sk, uint32_t i) { uint8_t o[32]; toy::child(o, sk.bytes(), i); return PrivateKey::raw(o); }
	G1Element SkToG1(const PrivateKey& sk) { return sk.GetG1Element(); }
};
class BasicSchemeMPL : public CoreMPL {}; class AugSchemeMPL : public CoreMPL {}; class PopSchemeMPL : public CoreMPL {};
}
