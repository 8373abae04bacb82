// G13: the same list in the remaining differentiation modes.
// SCOPE: internal
#define FRAMES_MODES
#include "frames.hpp"
#include "G13_ops.hpp"
#include "G13_list.hpp"
