// Stand-in for libbech32 (not in this sandbox): same interface, BIP-173/350 decoding.
#pragma once
#include <string>
#include <vector>
#include <stdexcept>
#include <cstdint>
namespace bech32 {
enum Encoding { Invalid, Bech32, Bech32m };
struct DecodedResult { Encoding encoding; std::string hrp; std::vector<unsigned char> dp; };
DecodedResult decode(const std::string& s);
}
