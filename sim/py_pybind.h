// Included before bindings.cpp. pybind11's registry of Python objects cannot survive a failed
// allocation (it ends the process); that registry is not the project's, so no fault is injected there.
#pragma once
#include <pybind11/detail/internals.h>
extern "C" void sim_hold(int d);
struct SimHold {
	SimHold() { sim_hold(1); }
	~SimHold() { sim_hold(-1); }
};
#define with_instance_map(...) (SimHold(), with_instance_map(__VA_ARGS__))
