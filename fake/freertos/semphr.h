#ifndef SIM_FREERTOS_SEMPHR_H
#define SIM_FREERTOS_SEMPHR_H
#include "queue.h"
#ifdef __cplusplus
extern "C" {
#endif
SemaphoreHandle_t xSemaphoreCreateBinary(void);
SemaphoreHandle_t xSemaphoreCreateBinaryStatic(StaticSemaphore_t*);
SemaphoreHandle_t xSemaphoreCreateCounting(UBaseType_t max, UBaseType_t initial);
SemaphoreHandle_t xSemaphoreCreateCountingStatic(UBaseType_t max, UBaseType_t initial, StaticSemaphore_t*);
SemaphoreHandle_t xSemaphoreCreateMutex(void);
SemaphoreHandle_t xSemaphoreCreateMutexStatic(StaticSemaphore_t*);
SemaphoreHandle_t xSemaphoreCreateRecursiveMutex(void);
SemaphoreHandle_t xSemaphoreCreateRecursiveMutexStatic(StaticSemaphore_t*);
BaseType_t xSemaphoreTake(SemaphoreHandle_t, TickType_t);
BaseType_t xSemaphoreGive(SemaphoreHandle_t);
BaseType_t xSemaphoreTakeRecursive(SemaphoreHandle_t, TickType_t);
BaseType_t xSemaphoreGiveRecursive(SemaphoreHandle_t);
BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t, BaseType_t*);
BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t, BaseType_t*);
UBaseType_t uxSemaphoreGetCount(SemaphoreHandle_t);
TaskHandle_t xSemaphoreGetMutexHolder(SemaphoreHandle_t);
#define xSemaphoreGetMutexHolderFromISR(s) xSemaphoreGetMutexHolder(s)
#define uxSemaphoreGetCountFromISR(s) uxSemaphoreGetCount(s)
void vSemaphoreDelete(SemaphoreHandle_t);
#ifdef __cplusplus
}
#endif
#endif
