// Stand-in for the Arduino core: just the device interfaces estd's stream port is written against.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
// time, for harnesses that simulate it
unsigned long millis();
void delay(unsigned long);
void yield();
class __FlashStringHelper;
#define strlen_P strlen
class Print
{
public:
    virtual ~Print() {}
    virtual size_t write(uint8_t) = 0;
    virtual size_t write(const uint8_t* b, size_t n) { size_t i = 0; for(; i < n; ++i) if(!write(b[i])) break; return i; }
    size_t print(const char* s) { return write((const uint8_t*)s, strlen(s)); }
    size_t print(const __FlashStringHelper* f) { const char* s = reinterpret_cast<const char*>(f); size_t n = 0; while(*s && write((uint8_t)*s)) ++s, ++n; return n; }
    virtual int availableForWrite() { return 0; }
    virtual void flush() {}
};
class Stream : public Print
{
public:
    virtual int available() = 0;
    virtual int read() = 0;
    virtual int peek() = 0;
    size_t readBytes(char* s, size_t n) { size_t i = 0; for(; i < n; ++i) { int c = timedRead(); if(c < 0) break; s[i] = (char)c; } return i; }
    virtual int timedRead() { return read(); }
};
