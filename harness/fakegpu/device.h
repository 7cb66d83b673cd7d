// A device whose events complete when the exploration says so.
#pragma once
#include <cstddef>
namespace fakegpu {
enum Err { Success = 0, InvalidValue = 1, NotReady = 600, InvalidHandle = 400, LaunchFailure = 719 };
struct Event;
Err create(Event **e);
Err destroy(Event *e);
Err record(Event *e);
Err query(Event *e);
Err synchronize(Event *e);
Err elapsed(float *ms, Event *a, Event *b);
Err device_synchronize();
const char *error_string(Err e);
}  // namespace fakegpu
