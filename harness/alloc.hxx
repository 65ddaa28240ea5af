// Allocation monitor: counts live blocks handed out by operator new (include in one TU only).
#pragma once
#include <atomic>
#include <cstdlib>
#include <new>
namespace vh
{
inline std::atomic<long long> live_blocks{0};
inline std::atomic<long long> total_blocks{0};
}  // namespace vh
static void* vh_alloc(std::size_t n)
{
  void* p = std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  ++vh::live_blocks;
  ++vh::total_blocks;
  return p;
}
static void vh_free(void* p)
{
  if (p)
    --vh::live_blocks;
  std::free(p);
}
void* operator new(std::size_t n)
{
  return vh_alloc(n);
}
void* operator new[](std::size_t n)
{
  return vh_alloc(n);
}
void operator delete(void* p) noexcept
{
  vh_free(p);
}
void operator delete[](void* p) noexcept
{
  vh_free(p);
}
void operator delete(void* p, std::size_t) noexcept
{
  vh_free(p);
}
void operator delete[](void* p, std::size_t) noexcept
{
  vh_free(p);
}
namespace vh
{
// Runs f and reports how many blocks it left behind.
template <typename F>
long long leaked(F&& f)
{
  const long long before = live_blocks;
  f();
  return live_blocks - before;
}
}  // namespace vh
