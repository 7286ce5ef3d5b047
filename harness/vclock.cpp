// Virtual clock: time() of the whole process.
#include <time.h>
#include <sys/time.h>
extern "C" {
time_t g_virtual_time = 1600000000;
time_t time(time_t *t) { if (t) *t = g_virtual_time; return g_virtual_time; }
}
