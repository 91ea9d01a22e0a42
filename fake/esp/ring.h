// Simulated ESP-IDF ring buffer: what harnesses see of it.
#pragma once
#include "freertos/ringbuf.h"
namespace ring {
void reset();
size_t live();
unsigned waiters(RingbufHandle_t);
void refuse(unsigned nth);      // the nth creation from now has no memory (0: none)
unsigned refused();
bool is_static(RingbufHandle_t);
size_t size(RingbufHandle_t);
RingbufferType_t type(RingbufHandle_t);
}
