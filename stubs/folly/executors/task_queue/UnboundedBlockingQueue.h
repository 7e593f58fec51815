#pragma once
#include "folly/executors/CPUThreadPoolExecutor.h"
