#define VPR 3
#define qlpeps qlpeps_r3
#include "c23_rank.inc"
