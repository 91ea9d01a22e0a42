#ifndef SIM_FREERTOS_QUEUE_H
#define SIM_FREERTOS_QUEUE_H
#include "task.h"
#ifdef __cplusplus
extern "C" {
#endif
QueueHandle_t xQueueCreate(UBaseType_t len, UBaseType_t item);
QueueHandle_t xQueueCreateStatic(UBaseType_t len, UBaseType_t item, uint8_t* storage, StaticQueue_t* q);
void vQueueDelete(QueueHandle_t);
BaseType_t sim_queue_send(QueueHandle_t, const void*, TickType_t, int where);  /* 0 back, 1 front, 2 overwrite */
BaseType_t sim_queue_send_isr(QueueHandle_t, const void*, BaseType_t*, int where);
#define xQueueSend(q, p, t) sim_queue_send((q), (p), (t), 0)
#define xQueueSendToBack(q, p, t) sim_queue_send((q), (p), (t), 0)
#define xQueueSendToFront(q, p, t) sim_queue_send((q), (p), (t), 1)
#define xQueueOverwrite(q, p) sim_queue_send((q), (p), 0, 2)
#define xQueueSendFromISR(q, p, w) sim_queue_send_isr((q), (p), (w), 0)
#define xQueueSendToBackFromISR(q, p, w) sim_queue_send_isr((q), (p), (w), 0)
#define xQueueSendToFrontFromISR(q, p, w) sim_queue_send_isr((q), (p), (w), 1)
UBaseType_t uxQueueMessagesWaitingFromISR(QueueHandle_t);
BaseType_t xQueueIsQueueFullFromISR(QueueHandle_t);
BaseType_t xQueueIsQueueEmptyFromISR(QueueHandle_t);
#define xQueueOverwriteFromISR(q, p, w) sim_queue_send_isr((q), (p), (w), 2)
BaseType_t xQueueReceive(QueueHandle_t, void*, TickType_t);
BaseType_t xQueuePeek(QueueHandle_t, void*, TickType_t);
BaseType_t xQueuePeekFromISR(QueueHandle_t, void*);
BaseType_t xQueueReceiveFromISR(QueueHandle_t, void*, BaseType_t*);
UBaseType_t uxQueueMessagesWaiting(QueueHandle_t);
UBaseType_t uxQueueSpacesAvailable(QueueHandle_t);
BaseType_t xQueueReset(QueueHandle_t);
BaseType_t xQueueGetStaticBuffers(QueueHandle_t, uint8_t**, StaticQueue_t**);
#ifdef __cplusplus
}
#endif
#endif
