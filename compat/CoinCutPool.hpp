#pragma once
#include "CoinConflictGraph.hpp"
