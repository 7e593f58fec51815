// Standard headers the repository leaves out (older standard libraries pulled them in).
#pragma once
#include <cstdint>
#include <cstring>
#include <algorithm>
#include <array>
#include <cmath>
#include <condition_variable>
#include <cassert>
#include <deque>
#include <filesystem>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_map>
#include <variant>
#include <vector>
#include <immintrin.h>
