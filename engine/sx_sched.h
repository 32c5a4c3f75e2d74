#pragma once
#include <string>
void sx_sched_begin();
void sx_sched_finish();
int64_t sx_native_input(const std::string &n);
void sx_native_stop(const char *status);
extern "C" int64_t sx_native_cfg(const char *n, int64_t d);
