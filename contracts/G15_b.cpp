// G15: dynamic proxies behave like the expressions they hold (vectors).
#include "proxies.hpp"
VC(neg, -v) VC(rot, R * v)
