#define VPR 0
#define qlpeps qlpeps_r0
#include "c23_rank.inc"
