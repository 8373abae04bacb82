// G16: conversion of expressions with neutral elements.
#include "G16_elements.hpp"
#define WT(a, b, c, A, B, C) H(G16_compto_##a##b##c, withTo<A, B, C>())
WT(M, M, Q, RM, RM, RQ)
WT(M, Q, M, RM, RQ, RM)
WT(M, A, M, RM, RA, RM)
WT(M, A, Q, RM, RA, RQ)
WT(Q, M, Q, RQ, RM, RQ)
WT(Q, Q, M, RQ, RQ, RM)
WT(Q, A, M, RQ, RA, RM)
WT(Q, A, Q, RQ, RA, RQ)
WT(A, M, Q, RA, RM, RQ)
WT(A, Q, M, RA, RQ, RM)
WT(A, A, M, RA, RA, RM)
WT(A, A, Q, RA, RA, RQ)
WT(TM, TM, TQ, TM, TM, TQ)
WT(TM, TQ, TM, TM, TQ, TM)
WT(TQ, TM, TQ, TQ, TM, TQ)
WT(TQ, TQ, TM, TQ, TQ, TM)
H(G16_addto_MQ, addTo<RM, RR, RQ>())
H(G16_addto_QM, addTo<RQ, RR, RM>())
H(G16_addto_AQ, addTo<RA, RR, RQ>())
H(G16_addto_TMQ, addTo<TM, TW, TQ>())
H(G16_addto_TQM, addTo<TQ, TW, TM>())
