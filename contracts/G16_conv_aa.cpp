// G16: conversion to angle-axis of expressions with neutral elements.
#include "G16_elements.hpp"
#define WT(a, b, c, A, B, C) H(G16_compto_##a##b##c, withTo<A, B, C>())
WT(M, M, A, RM, RM, RA)
WT(M, Q, A, RM, RQ, RA)
WT(Q, M, A, RQ, RM, RA)
WT(Q, Q, A, RQ, RQ, RA)
WT(A, M, A, RA, RM, RA)
WT(A, Q, A, RA, RQ, RA)
H(G16_addto_QA, addTo<RQ, RR, RA>())
