// G15: dynamic proxies behave like the expressions they hold (rotations).
#include "proxies.hpp"
RC(sq, R * R) RC(quat, Q * R) RC(qinv, inverse(Q))
