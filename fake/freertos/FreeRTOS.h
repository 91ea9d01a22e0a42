/* Simulated FreeRTOS kernel: public C API (subset used by estd/port/freertos). */
#ifndef SIM_FREERTOS_H
#define SIM_FREERTOS_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>

#ifdef __cplusplus
extern "C" {
#endif

#define tskKERNEL_VERSION_NUMBER "V10.4.6"
#define tskKERNEL_VERSION_MAJOR 10
#define tskKERNEL_VERSION_MINOR 4
#define tskKERNEL_VERSION_BUILD 6

#define configSUPPORT_STATIC_ALLOCATION 1
#define configSUPPORT_DYNAMIC_ALLOCATION 1
#define configUSE_TASK_NOTIFICATIONS 1
#define configTASK_NOTIFICATION_ARRAY_ENTRIES 3
#define configUSE_TRACE_FACILITY 0
#define configUSE_APPLICATION_TASK_TAG 0
#define configQUEUE_REGISTRY_SIZE 0
#define portUSING_MPU_WRAPPERS 0
#define configSTACK_DEPTH_TYPE uint16_t
#ifndef configTICK_RATE_HZ
#define configTICK_RATE_HZ 100
#endif
#define configMAX_PRIORITIES 8
#define INCLUDE_vTaskDelayUntil 1
#define INCLUDE_vTaskSuspend 1
#define configMINIMAL_STACK_SIZE 128

typedef uint32_t TickType_t;
typedef long BaseType_t;
typedef unsigned long UBaseType_t;
typedef unsigned long StackType_t;
#define portSTACK_TYPE StackType_t
#define portBASE_TYPE long
#define pvPortMalloc malloc
#define vPortFree free

#define portMAX_DELAY ((TickType_t)0xffffffffUL)
#define portTICK_PERIOD_MS ((TickType_t)(1000 / configTICK_RATE_HZ))
#define pdMS_TO_TICKS(ms) ((TickType_t)(((TickType_t)(ms) * (TickType_t)configTICK_RATE_HZ) / (TickType_t)1000U))

#define pdFALSE ((BaseType_t)0)
#define pdTRUE  ((BaseType_t)1)
#define pdPASS  pdTRUE
#define pdFAIL  pdFALSE
#define errQUEUE_EMPTY ((BaseType_t)0)
#define errQUEUE_FULL  ((BaseType_t)0)

typedef struct SimTask* TaskHandle_t;
typedef struct SimQueue* QueueHandle_t;
typedef QueueHandle_t SemaphoreHandle_t;
typedef struct SimEvents* EventGroupHandle_t;
typedef struct SimTimer* TimerHandle_t;
typedef TickType_t EventBits_t;

/* the simulated kernel keeps its object outside but touches the user's static storage on every call,
   so storage that is gone while the kernel still uses it is noticed */
typedef struct { void* owner; uint64_t magic; char pad[64]; } StaticQueue_t;
typedef StaticQueue_t StaticSemaphore_t;
typedef struct { void* owner; uint64_t magic; char pad[16]; } StaticEventGroup_t;
typedef struct { void* owner; uint64_t magic; char pad[24]; } StaticTimer_t;
typedef struct { void* owner; uint64_t magic; char pad[128]; } StaticTask_t;

typedef void (*TaskFunction_t)(void*);

void sim_rtos_misuse(const char* what);
int sim_rtos_in_isr(void);
void sim_rtos_critical(int enter);
#define taskENTER_CRITICAL() sim_rtos_critical(1)
#define taskEXIT_CRITICAL() sim_rtos_critical(0)
#define taskENTER_CRITICAL_FROM_ISR() (sim_rtos_critical(1), (UBaseType_t)0)
#define taskEXIT_CRITICAL_FROM_ISR(x) ((void)(x), sim_rtos_critical(0))
#define portENTER_CRITICAL() sim_rtos_critical(1)
#define portEXIT_CRITICAL() sim_rtos_critical(0)
#define taskDISABLE_INTERRUPTS() sim_rtos_critical(1)
#define taskENABLE_INTERRUPTS() sim_rtos_critical(0)
#define portYIELD_FROM_ISR(...) ((void)0)
#define portEND_SWITCHING_ISR(x) ((void)(x))
#define xPortInIsrContext() sim_rtos_in_isr()
#define xPortIsInsideInterrupt() sim_rtos_in_isr()
#define configUSE_MUTEXES 1
#define configUSE_RECURSIVE_MUTEXES 1
#define configUSE_COUNTING_SEMAPHORES 1
#define configUSE_TIMERS 1
#define INCLUDE_xTimerPendFunctionCall 1
#define INCLUDE_xTaskGetSchedulerState 1
#define INCLUDE_xTimerGetTimerDaemonTaskHandle 1
#define INCLUDE_xSemaphoreGetMutexHolder 1
#define INCLUDE_xTaskGetCurrentTaskHandle 1
#define INCLUDE_vTaskDelete 1
#define INCLUDE_vTaskDelay 1
#define INCLUDE_xTaskDelayUntil 1
#define INCLUDE_eTaskGetState 1
#define INCLUDE_uxTaskPriorityGet 1
#define configASSERT(x) do { if(!(x)) sim_rtos_misuse(#x); } while(0)

#ifdef __cplusplus
}
#endif
#endif
