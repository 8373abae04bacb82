// G13: frame annotations and casts never change numbers.
#include "frames.hpp"
#include "G13_ops.hpp"
#include "G13_list.hpp"
