#pragma once
#include <cmath>
#include <cstdio>
#include <vector>
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::printf("fails: %s (line %d)\n", #c, __LINE__); bad = 1; } } while (0)
static bool near(double a, double b, double t = 1e-9) { return std::isinf(a) || std::isinf(b) ? a == b : std::fabs(a - b) <= t * (1 + std::fabs(a) + std::fabs(b)); }
