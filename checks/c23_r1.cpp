#define VPR 1
#define qlpeps qlpeps_r1
#include "c23_rank.inc"
