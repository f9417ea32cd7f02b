// Fills fresh heap memory (malloc and hence operator new and Eigen) with a chosen byte pattern, so that any
// dependence of results on uninitialised memory shows up. Linked with -Wl,--wrap=malloc.
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int g_byte = -1;
extern "C" void * __real_malloc(size_t n);
extern "C" void * __wrap_malloc(size_t n)
{
  void * p = __real_malloc(n);
  if(p && g_byte >= 0) memset(p, g_byte, n);
  return p;
}
extern "C" void vh_poison(int byte)
{
  g_byte = byte;
}
extern "C" __attribute__((noinline)) void vh_dirty_stack(int byte)
{
  volatile unsigned char buf[200000];
  memset((void *)buf, byte, sizeof buf);
  asm volatile("" ::"r"(buf) : "memory");
}
void * operator new(size_t n)
{
  void * p = __wrap_malloc(n ? n : 1);
  if(!p) throw std::bad_alloc();
  return p;
}
void * operator new[](size_t n)
{
  return operator new(n);
}
void operator delete(void * p) noexcept
{
  free(p);
}
void operator delete[](void * p) noexcept
{
  free(p);
}
void operator delete(void * p, size_t) noexcept
{
  free(p);
}
void operator delete[](void * p, size_t) noexcept
{
  free(p);
}

// Virtual time: while it is on, the clocks stand still except for the problem's functions, which take a fixed
// time each (vh_tick). Durations reported by the solvers are then exactly determined.
static bool g_virtual = false;
static long g_us = 0, g_kind[4];
static void now(struct timespec * ts)
{
  long us = 1000000000L * 1000 + g_us;
  ts->tv_sec = us / 1000000;
  ts->tv_nsec = (us % 1000000) * 1000;
}
extern "C" int clock_gettime(clockid_t id, struct timespec * ts) noexcept
{
  if(!g_virtual) return (int)syscall(SYS_clock_gettime, id, ts);
  now(ts);
  return 0;
}
extern "C" int gettimeofday(struct timeval * tv, void * tz) noexcept
{
  if(!g_virtual) return (int)syscall(SYS_gettimeofday, tv, tz);
  struct timespec ts;
  now(&ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
extern "C" void vh_clock(bool on)
{
  g_virtual = on;
  if(on)
    for(long & k : g_kind) k = 0;
}
extern "C" void vh_tick(int kind, long us)
{
  g_us += us;
  g_kind[kind] += us;
}
extern "C" long vh_ticks(int kind)
{
  return g_kind[kind];
}
