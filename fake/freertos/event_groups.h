#ifndef SIM_FREERTOS_EVENTS_H
#define SIM_FREERTOS_EVENTS_H
#include "task.h"
#ifdef __cplusplus
extern "C" {
#endif
EventGroupHandle_t xEventGroupCreate(void);
EventGroupHandle_t xEventGroupCreateStatic(StaticEventGroup_t*);
void vEventGroupDelete(EventGroupHandle_t);
EventBits_t xEventGroupWaitBits(EventGroupHandle_t, EventBits_t, BaseType_t clear, BaseType_t all, TickType_t);
EventBits_t xEventGroupSetBits(EventGroupHandle_t, EventBits_t);
EventBits_t xEventGroupClearBits(EventGroupHandle_t, EventBits_t);
BaseType_t xEventGroupClearBitsFromISR(EventGroupHandle_t, EventBits_t);
BaseType_t xEventGroupSetBitsFromISR(EventGroupHandle_t, EventBits_t, BaseType_t*);
EventBits_t xEventGroupSync(EventGroupHandle_t, EventBits_t set, EventBits_t wait, TickType_t);
#define xEventGroupGetBitsFromISR(g) sim_event_bits(g)
EventBits_t sim_event_bits(EventGroupHandle_t);
#define xEventGroupGetBits(g) xEventGroupClearBits((g), 0)
#ifdef __cplusplus
}
#endif
#endif
