#pragma once
#include "qlmps/utilities.h"
