// Stand-in for the Raspberry Pi Pico SDK's time functions, for a harness that simulates them.
#pragma once
#include <stdint.h>
typedef uint64_t absolute_time_t;
const absolute_time_t nil_time = 0;
uint64_t time_us_64();
void sleep_us(uint64_t);
void sleep_until(absolute_time_t);
static inline absolute_time_t delayed_by_us(absolute_time_t t, uint64_t us) { uint64_t d = t + us; return d < t ? ~0ull >> 1 : d; }
