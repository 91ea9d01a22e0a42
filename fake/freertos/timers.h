#ifndef SIM_FREERTOS_TIMERS_H
#define SIM_FREERTOS_TIMERS_H
#include "task.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef void (*TimerCallbackFunction_t)(TimerHandle_t);
typedef void (*PendedFunction_t)(void*, uint32_t);
TimerHandle_t xTimerCreate(const char*, TickType_t, UBaseType_t reload, void* id, TimerCallbackFunction_t);
TimerHandle_t xTimerCreateStatic(const char*, TickType_t, UBaseType_t reload, void* id, TimerCallbackFunction_t, StaticTimer_t*);
BaseType_t sim_timer_cmd(TimerHandle_t, int cmd, TickType_t val, TickType_t block, int isr, BaseType_t* woken);
enum { SIM_TM_START = 1, SIM_TM_STOP, SIM_TM_RESET, SIM_TM_PERIOD, SIM_TM_DELETE };
#define xTimerDelete(t, b) sim_timer_cmd((t), SIM_TM_DELETE, 0, (b), 0, NULL)
#define xTimerStart(t, b) sim_timer_cmd((t), SIM_TM_START, 0, (b), 0, NULL)
#define xTimerStop(t, b) sim_timer_cmd((t), SIM_TM_STOP, 0, (b), 0, NULL)
#define xTimerReset(t, b) sim_timer_cmd((t), SIM_TM_RESET, 0, (b), 0, NULL)
#define xTimerChangePeriod(t, p, b) sim_timer_cmd((t), SIM_TM_PERIOD, (p), (b), 0, NULL)
#define xTimerStartFromISR(t, w) sim_timer_cmd((t), SIM_TM_START, 0, 0, 1, (w))
#define xTimerStopFromISR(t, w) sim_timer_cmd((t), SIM_TM_STOP, 0, 0, 1, (w))
#define xTimerResetFromISR(t, w) sim_timer_cmd((t), SIM_TM_RESET, 0, 0, 1, (w))
#define xTimerChangePeriodFromISR(t, p, w) sim_timer_cmd((t), SIM_TM_PERIOD, (p), 0, 1, (w))
TaskHandle_t xTimerGetTimerDaemonTaskHandle(void);
void vTimerSetReloadMode(TimerHandle_t, UBaseType_t);
UBaseType_t uxTimerGetReloadMode(TimerHandle_t);
void vTimerSetTimerID(TimerHandle_t, void*);
void* pvTimerGetTimerID(TimerHandle_t);
const char* pcTimerGetName(TimerHandle_t);
TickType_t xTimerGetExpiryTime(TimerHandle_t);
TickType_t xTimerGetPeriod(TimerHandle_t);
BaseType_t xTimerIsTimerActive(TimerHandle_t);
BaseType_t xTimerPendFunctionCall(PendedFunction_t, void*, uint32_t, TickType_t);
BaseType_t xTimerPendFunctionCallFromISR(PendedFunction_t, void*, uint32_t, BaseType_t*);
#ifdef __cplusplus
}
#endif
#endif
