#pragma once
#include "sim.h"
// The simulated JavaScript host of the WebAssembly build's entropy source: a Node.js process per worker evaluates the library's own
// JavaScript fragment against mocked crypto objects; the simulator decides what they deliver and when they throw.
struct JsHost { int env; i64 throw_at; int throw_kind; u64 quota; u8*mem; size_t memlen; u64 calls; int order; };
extern JsHost g_js; void js_start(); bool js_available(); void js_reset();
