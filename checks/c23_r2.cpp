#define VPR 2
#define qlpeps qlpeps_r2
#include "c23_rank.inc"
