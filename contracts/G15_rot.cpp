// G15: dynamic proxies behave like the expressions they hold (rotations).
#include "proxies.hpp"
RC(comp, R * Q) RC(inv, inverse(R)) RC(invcomp, inverse(R) * Q)
