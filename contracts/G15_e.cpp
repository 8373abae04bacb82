// G15: dynamic proxies behave like the expressions they hold (vectors).
#include "proxies.hpp"
VC(twice, v + v) VC(part, T.translation() + v)
