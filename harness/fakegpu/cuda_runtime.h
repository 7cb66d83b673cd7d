#pragma once
#include "device.h"
typedef fakegpu::Err cudaError_t;
typedef fakegpu::Event *cudaEvent_t;
typedef void *cudaStream_t;
static const cudaError_t cudaSuccess = fakegpu::Success;
static const cudaError_t cudaErrorNotReady = fakegpu::NotReady;
static const cudaError_t cudaErrorInvalidValue = fakegpu::InvalidValue;
static const cudaError_t cudaErrorInvalidResourceHandle = fakegpu::InvalidHandle;
static const cudaError_t cudaErrorLaunchFailure = fakegpu::LaunchFailure;
enum { cudaEventDefault = 0, cudaEventBlockingSync = 1, cudaEventDisableTiming = 2 };
static inline cudaError_t cudaEventCreate(cudaEvent_t *e) { return fakegpu::create(e); }
static inline cudaError_t cudaEventCreateWithFlags(cudaEvent_t *e, unsigned) { return fakegpu::create(e); }
static inline cudaError_t cudaEventDestroy(cudaEvent_t e) { return fakegpu::destroy(e); }
static inline cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t = 0) { return fakegpu::record(e); }
static inline cudaError_t cudaEventQuery(cudaEvent_t e) { return fakegpu::query(e); }
static inline cudaError_t cudaEventSynchronize(cudaEvent_t e) { return fakegpu::synchronize(e); }
static inline cudaError_t cudaEventElapsedTime(float *ms, cudaEvent_t a, cudaEvent_t b) { return fakegpu::elapsed(ms, a, b); }
static inline cudaError_t cudaDeviceSynchronize() { return fakegpu::device_synchronize(); }
static inline cudaError_t cudaStreamSynchronize(cudaStream_t) { return fakegpu::device_synchronize(); }
static inline const char *cudaGetErrorString(cudaError_t e) { return fakegpu::error_string(e); }
