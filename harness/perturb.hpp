#pragma once
// seeded random delays at libc calls, to vary how threads interleave
#include <atomic>
#include <cstdint>
#include <pthread.h>
#include <time.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace drv {
	inline std::atomic<uint64_t> perturbSeed { 0 };
	inline void maybeDelay(int weight) {
		uint64_t s = perturbSeed.load();
		if (!s) return;
		s ^= s << 13; s ^= s >> 7; s ^= s << 17;
		perturbSeed.store(s ? s : 88172645463325252ull);
		const auto r = (s >> 20) % 100;
		long ns = 0;
		if ((int)r < weight) ns = 2000000 + (s >> 33) % 3000000;
		else if ((int)r < weight * 4) ns = (s >> 33) % 300000;
		if (!ns) return;
		struct timespec ts { 0, ns };
		syscall(SYS_clock_nanosleep, 1, 0, &ts, nullptr);
	}
}
#ifdef DRV_PERTURB
struct DrvStart { void* (*fn)(void*); void* arg; };
static void* drvChild(void* p) {
	auto s = *(DrvStart*)p; delete (DrvStart*)p;
	drv::maybeDelay(25);
	return s.fn(s.arg);
}
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
	static auto real = (int(*)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
	if (!drv::perturbSeed) return real(t, a, fn, arg);
	const int r = real(t, a, drvChild, new DrvStart { fn, arg });
	drv::maybeDelay(25);
	return r;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
	static auto real = (int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
	drv::maybeDelay(2);
	return real(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
	static auto real = (int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
	const int r = real(m);
	drv::maybeDelay(2);
	return r;
}
#endif
