#ifndef SIM_FREERTOS_TASK_H
#define SIM_FREERTOS_TASK_H
#include "FreeRTOS.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { eRunning = 0, eReady, eBlocked, eSuspended, eDeleted, eInvalid } eTaskState;
typedef enum { eNoAction = 0, eSetBits, eIncrement, eSetValueWithOverwrite, eSetValueWithoutOverwrite } eNotifyAction;

BaseType_t xTaskCreate(TaskFunction_t fn, const char* name, configSTACK_DEPTH_TYPE depth, void* arg, UBaseType_t prio, TaskHandle_t* out);
TaskHandle_t xTaskCreateStatic(TaskFunction_t fn, const char* name, uint32_t depth, void* arg, UBaseType_t prio, StackType_t* stack, StaticTask_t* tcb);
void vTaskDelete(TaskHandle_t);
void vTaskDelay(TickType_t ticks);
TickType_t xTaskGetTickCount(void);
TickType_t xTaskGetTickCountFromISR(void);
TaskHandle_t xTaskGetCurrentTaskHandle(void);
const char* pcTaskGetName(TaskHandle_t);
void vTaskSuspend(TaskHandle_t);
void vTaskResume(TaskHandle_t);
eTaskState eTaskGetState(TaskHandle_t);
void sim_task_yield(void);
#define taskYIELD() sim_task_yield()
#define portYIELD() sim_task_yield()
BaseType_t xTaskDelayUntil(TickType_t* last, TickType_t inc);
#define vTaskDelayUntil(l, i) ((void)xTaskDelayUntil((l), (i)))
void vTaskSuspendAll(void);
BaseType_t xTaskResumeAll(void);
UBaseType_t uxTaskPriorityGet(TaskHandle_t);
BaseType_t xTaskAbortDelay(TaskHandle_t);
#define taskSCHEDULER_SUSPENDED ((BaseType_t)0)
#define taskSCHEDULER_NOT_STARTED ((BaseType_t)1)
#define taskSCHEDULER_RUNNING ((BaseType_t)2)
BaseType_t xTaskGetSchedulerState(void);
typedef struct { BaseType_t overflow; TickType_t entered; } TimeOut_t;
void vTaskSetTimeOutState(TimeOut_t*);
BaseType_t xTaskCheckForTimeOut(TimeOut_t*, TickType_t*);
#define tskIDLE_PRIORITY ((UBaseType_t)0U)

BaseType_t sim_task_notify(TaskHandle_t, UBaseType_t index, uint32_t value, eNotifyAction action, int isr, BaseType_t* woken);
#define xTaskNotifyGive(t) sim_task_notify((t), 0, 0, eIncrement, 0, NULL)
#define xTaskNotifyGiveIndexed(t, i) sim_task_notify((t), (i), 0, eIncrement, 0, NULL)
#define xTaskNotifyIndexed(t, i, v, a) sim_task_notify((t), (i), (v), (a), 0, NULL)
#define xTaskNotifyIndexedFromISR(t, i, v, a, w) sim_task_notify((t), (i), (v), (a), 1, (w))
#define vTaskNotifyGiveIndexedFromISR(t, i, w) ((void)sim_task_notify((t), (i), 0, eIncrement, 1, (w)))
#define vTaskNotifyGiveFromISR(t, w) (void)sim_task_notify((t), 0, 0, eIncrement, 1, (w))
#define xTaskNotify(t, v, a) sim_task_notify((t), 0, (v), (a), 0, NULL)
#define xTaskNotifyFromISR(t, v, a, w) sim_task_notify((t), 0, (v), (a), 1, (w))
uint32_t sim_notify_take(UBaseType_t index, BaseType_t clear, TickType_t ticks);
BaseType_t sim_notify_wait(UBaseType_t index, uint32_t clear_entry, uint32_t clear_exit, uint32_t* value, TickType_t ticks);
#define ulTaskNotifyTake(c, t) sim_notify_take(0, (c), (t))
#define ulTaskNotifyTakeIndexed(i, c, t) sim_notify_take((i), (c), (t))
#define xTaskNotifyWait(a, b, v, t) sim_notify_wait(0, (a), (b), (v), (t))
#define xTaskNotifyWaitIndexed(i, a, b, v, t) sim_notify_wait((i), (a), (b), (v), (t))
uint32_t sim_notify_value_clear(TaskHandle_t, UBaseType_t index, uint32_t bits);
BaseType_t sim_notify_state_clear(TaskHandle_t, UBaseType_t index);
#define ulTaskNotifyValueClear(t, b) sim_notify_value_clear((t), 0, (b))
#define ulTaskNotifyValueClearIndexed(t, i, b) sim_notify_value_clear((t), (i), (b))
#define xTaskNotifyStateClear(t) sim_notify_state_clear((t), 0)
#define xTaskNotifyStateClearIndexed(t, i) sim_notify_state_clear((t), (i))
#ifdef __cplusplus
}
#endif
#endif
