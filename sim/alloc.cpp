#include "alloc.h"
#include "core.h"
#include <cerrno>
#include <cstdlib>
#include <new>

namespace alloc {
Policy pol;
bool active = false;
int64_t seen = 0, failed = 0;
static bool refuse(size_t n)
{
	if(!active || static_cast<int64_t>(n) < pol.min_size) { return false; }
	++seen;
	if(pol.fail_at == 0 || (pol.persist ? seen < pol.fail_at : seen != pol.fail_at)) { return false; }
	if(failed++ == 0) { sim::count("fault:allocation failed"); sim::event("allocation %lld of %zu bytes fails", static_cast<long long>(seen), n); }
	return true;
}
}
extern "C" {
void* nbsim_malloc(size_t n) { if(alloc::refuse(n)) { errno = ENOMEM; return nullptr; } return malloc(n); }
void* nbsim_calloc(size_t a, size_t b) { if(alloc::refuse(a * b)) { errno = ENOMEM; return nullptr; } return calloc(a, b); }
void* nbsim_realloc(void* p, size_t n) { if(alloc::refuse(n)) { errno = ENOMEM; return nullptr; } return realloc(p, n); }
void* nbsim__Znwm(size_t n) { if(alloc::refuse(n)) { throw std::bad_alloc(); } return ::operator new(n); }
void* nbsim__Znam(size_t n) { if(alloc::refuse(n)) { throw std::bad_alloc(); } return ::operator new[](n); }
void* nbsim__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t&) noexcept { return alloc::refuse(n) ? nullptr : ::operator new(n, std::nothrow); }
void* nbsim__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t&) noexcept { return alloc::refuse(n) ? nullptr : ::operator new[](n, std::nothrow); }
int nbsim_posix_memalign(void** p, size_t a, size_t n) { return alloc::refuse(n) ? ENOMEM : posix_memalign(p, a, n); }
void* nbsim_aligned_alloc(size_t a, size_t n) { if(alloc::refuse(n)) { errno = ENOMEM; return nullptr; } return aligned_alloc(a, n); }
}
