/* Simulated ESP-IDF ring buffer: public C API, on top of the simulated FreeRTOS kernel. */
#pragma once
#include "../../freertos/FreeRTOS.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct SimRing* RingbufHandle_t;
typedef enum { RINGBUF_TYPE_NOSPLIT = 0, RINGBUF_TYPE_ALLOWSPLIT, RINGBUF_TYPE_BYTEBUF, RINGBUF_TYPE_MAX } RingbufferType_t;
typedef struct { void* owner; uint64_t magic; char pad[96]; } StaticRingbuffer_t;
RingbufHandle_t xRingbufferCreate(size_t size, RingbufferType_t);
RingbufHandle_t xRingbufferCreateStatic(size_t size, RingbufferType_t, uint8_t* storage, StaticRingbuffer_t*);
void vRingbufferDelete(RingbufHandle_t);
size_t xRingbufferGetMaxItemSize(RingbufHandle_t);
size_t xRingbufferGetCurFreeSize(RingbufHandle_t);
BaseType_t xRingbufferSend(RingbufHandle_t, const void* item, size_t size, TickType_t);
BaseType_t xRingbufferSendFromISR(RingbufHandle_t, const void* item, size_t size, BaseType_t* woken);
BaseType_t xRingbufferSendAcquire(RingbufHandle_t, void** item, size_t size, TickType_t);
BaseType_t xRingbufferSendComplete(RingbufHandle_t, void* item);
void* xRingbufferReceive(RingbufHandle_t, size_t* size, TickType_t);
void* xRingbufferReceiveUpTo(RingbufHandle_t, size_t* size, TickType_t, size_t most);
void* xRingbufferReceiveFromISR(RingbufHandle_t, size_t* size);
void vRingbufferReturnItem(RingbufHandle_t, void* item);
void vRingbufferReturnItemFromISR(RingbufHandle_t, void* item, BaseType_t* woken);
#ifdef __cplusplus
}
#endif
