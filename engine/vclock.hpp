#pragma once
#include <cstdint>
#include <functional>
#include <time.h>
namespace vclk { extern bool on; extern std::uint64_t now, sleeps, slept; extern std::function<void()> on_sleep; }
