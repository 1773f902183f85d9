#pragma once
#include <cstdint>
// Layout of the shared trace region between the instrumented harness process and the explorer.
struct MsNode { uint8_t op, w, isf, pad; uint32_t a, b, c; uint64_t imm, cval; };
struct MsEvent { uint32_t kind, node; uint64_t val; uint32_t name, aux; };
struct MsVar { uint32_t kind; int32_t lo, hi, step; uint32_t name; uint32_t node; uint64_t val; };
struct MsHeader {
    volatile uint32_t nNodes, nEvents, nVars, nStr, stale, failedLabel, overflow, finished;
    volatile uint32_t lim; 
};
constexpr uint64_t MS_OFF_VARS = 4096, MS_MAX_VARS = 8192;
constexpr uint64_t MS_OFF_STR = MS_OFF_VARS + MS_MAX_VARS * sizeof(MsVar), MS_MAX_STR = 1 << 20;
constexpr uint64_t MS_OFF_EV = MS_OFF_STR + MS_MAX_STR, MS_MAX_EV = 1 << 20;
constexpr uint64_t MS_OFF_NODES = MS_OFF_EV + MS_MAX_EV * sizeof(MsEvent), MS_MAX_NODES = 1 << 22;
constexpr uint64_t MS_TOTAL = MS_OFF_NODES + MS_MAX_NODES * sizeof(MsNode);
constexpr int MS_EXIT_ASSUME = 77, MS_EXIT_VIOL = 78, MS_EXIT_OVERFLOW = 79, MS_EXIT_UNCAUGHT = 80;
