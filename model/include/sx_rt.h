// Symbolic-execution intrinsics (implemented by the engine, or by the native replay runtime).
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint8_t  sx_u8(const char*);
uint16_t sx_u16(const char*);
uint32_t sx_u32(const char*);
uint64_t sx_u64(const char*);
uint32_t sx_below(const char*, uint32_t n);
uint32_t sx_table(uint32_t idx, const uint32_t* tab, uint32_t n);
void sx_assume(bool);
void sx_assert_(bool, const char*);
void sx_reach(int);
uint64_t sx_concretize(uint64_t);
bool sx_is_symbolic(uint64_t);
int sx_task_begin();          // what follows up to sx_task_end runs at the same time as everything up to sx_task_join
void sx_task_end();
void sx_task_join(int);
void sx_lock(const void*);
void sx_unlock(const void*);
void sx_quiet(int);           // +1: do not look for races, -1: go on looking
void sx_end();
void sx_exit_policy(int);
void sx_debug(const char*, uint64_t);
void sx_print(const char*, const void*, size_t);
int sx_native();
int sx_fmt_double(char* buf, int conv, int prec, double d);
}
