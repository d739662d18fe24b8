// Overflow builds: the largest representable table position scaled down to 2^MC_PMAX (force-included first).
#include <chia/entries.h>
#define PMAX MC_PMAX
