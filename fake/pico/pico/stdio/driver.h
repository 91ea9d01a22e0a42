// The part of the Pico SDK's stdio driver interface which the library uses.
#pragma once
enum { PICO_OK = 0, PICO_ERROR_NO_DATA = -3 };
struct stdio_driver
{
    void (*out_chars)(const char* buf, int len);
    void (*out_flush)(void);
    int (*in_chars)(char* buf, int len);
};
typedef struct stdio_driver stdio_driver_t;
