#pragma once
#include "../device.h"
typedef fakegpu::Err hipError_t;
typedef fakegpu::Event *hipEvent_t;
typedef void *hipStream_t;
static const hipError_t hipSuccess = fakegpu::Success;
static const hipError_t hipErrorNotReady = fakegpu::NotReady;
static const hipError_t hipErrorInvalidValue = fakegpu::InvalidValue;
static const hipError_t hipErrorInvalidResourceHandle = fakegpu::InvalidHandle;
static const hipError_t hipErrorLaunchFailure = fakegpu::LaunchFailure;
enum { hipEventDefault = 0, hipEventBlockingSync = 1, hipEventDisableTiming = 2 };
static inline hipError_t hipEventCreate(hipEvent_t *e) { return fakegpu::create(e); }
static inline hipError_t hipEventCreateWithFlags(hipEvent_t *e, unsigned) { return fakegpu::create(e); }
static inline hipError_t hipEventDestroy(hipEvent_t e) { return fakegpu::destroy(e); }
static inline hipError_t hipEventRecord(hipEvent_t e, hipStream_t = 0) { return fakegpu::record(e); }
static inline hipError_t hipEventQuery(hipEvent_t e) { return fakegpu::query(e); }
static inline hipError_t hipEventSynchronize(hipEvent_t e) { return fakegpu::synchronize(e); }
static inline hipError_t hipEventElapsedTime(float *ms, hipEvent_t a, hipEvent_t b) { return fakegpu::elapsed(ms, a, b); }
static inline hipError_t hipDeviceSynchronize() { return fakegpu::device_synchronize(); }
static inline hipError_t hipStreamSynchronize(hipStream_t) { return fakegpu::device_synchronize(); }
static inline const char *hipGetErrorString(hipError_t e) { return fakegpu::error_string(e); }
