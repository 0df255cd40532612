/*
 * A deterministic thread scheduler under the real interpreter.
 *
 * The pthread primitives that the interpreter (and libstdc++ on its behalf) uses are defined here, so that exactly one
 * thread runs at a time and every synchronisation operation is a point where another one may be chosen.  The files
 * listed in build.py are compiled with -fsanitize=thread and linked with the __tsan_* functions below instead of the
 * sanitizer, which makes their plain memory accesses such points too.  The choices follow from a seed; that no thread
 * can be chosen any more is a deadlock (exit status 95).
 */
#include <cstdint>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace {

enum State { READY, MUTEX, COND, JOIN, FLAG, DONE };

struct Thread {
	State state = READY;
	void* obj = nullptr;         // the mutex, condition, thread or flag
	bool timed = false;
	bool woken = false;
	bool joined = false;
	long prio = 0;
	sem_t sem;
	void* (*fn)(void*) = nullptr;
	void* arg = nullptr;
	void* ret = nullptr;
	pthread_t handle;
};

struct Owner { Thread* t = nullptr; int n = 0; };

bool active = false;
thread_local Thread* self = nullptr;
thread_local bool inside = false;
std::vector<Thread*>* all = nullptr;
std::unordered_map<void*, Owner>* owners = nullptr;
std::unordered_map<void*, Thread*>* guards = nullptr;
uint64_t rng = 1;
long steps = 0;
int mode = 0;                    // how choices are made
uint32_t stay = 0;               // of 1024: how often the thread goes on
uint32_t softp = 0;              // of 1024: how often a memory access is a choice
uint32_t spurious = 0;           // of 1024: wake-ups nobody asked for
std::vector<long>* changes = nullptr; // steps at which the running thread's priority drops (mode 1)
long lowest = -1;

template<typename F> F real(const char* name){
	return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

uint32_t rnd(uint32_t n){
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return static_cast<uint32_t>((rng >> 20) % n);
}

bool enabled(Thread* t){
	switch(t->state){
		case READY: return true;
		case MUTEX: { auto it = owners->find(t->obj); return it == owners->end() || it->second.t == nullptr; }
		case COND: return t->timed;
		case JOIN: return static_cast<Thread*>(t->obj)->state == DONE;
		case FLAG: return *static_cast<volatile bool*>(t->obj);
		default: return false;
	}
}

// Chooses the thread that goes on; returns when it is this one's turn again (never, if it is done).
void choose(bool yielding = false){
	++steps;
	Thread* next = nullptr;
	std::vector<Thread*> can;
	for(Thread* t : *all){
		if(enabled(t)){ can.push_back(t); }
	}
	if(can.empty()){
		for(Thread* t : *all){
			if(t->state == FLAG){ can.push_back(t); }
		}
	}
	if(can.empty()){
		_exit(95);
	}
	if(spurious && rnd(1024) < spurious){
		std::vector<Thread*> w;
		for(Thread* t : *all){
			if(t->state == COND && !t->timed){ w.push_back(t); }
		}
		if(!w.empty()){ can.push_back(w[rnd(w.size())]); }
	}
	bool me = false;
	for(Thread* t : can){ me = me || t == self; }
	if(mode == 1){
		for(long c : *changes){
			if(c == steps){ self->prio = lowest--; }
		}
		if(yielding){ self->prio = lowest--; }
		for(Thread* t : can){
			if(next == nullptr || t->prio > next->prio){ next = t; }
		}
	}else if(me && !yielding && rnd(1024) < stay){
		next = self;
	}else{
		next = can[rnd(can.size())];
	}
	if(next->state == COND){ next->woken = true; }
	next->state = next->state == DONE ? DONE : READY;
	if(next != self){
		Thread* mine = self;
		bool gone = mine->state == DONE;
		sem_post(&next->sem);
		if(!gone){
			while(sem_wait(&mine->sem) != 0){}
		}
	}
}

void point(bool yielding = false){
	if(!active || self == nullptr || inside){ return; }
	inside = true;
	choose(yielding);
	inside = false;
}

void block(State s, void* o, bool timed = false){
	inside = true;
	self->state = s;
	self->obj = o;
	self->timed = timed;
	choose();
	inside = false;
}

void acquire(void* m, bool recursive){
	for(;;){
		Owner& o = (*owners)[m];
		if(o.t == nullptr){
			o.t = self; o.n = 1;
			return;
		}
		if(o.t == self && recursive){
			++o.n;
			return;
		}
		block(MUTEX, m);
	}
}

bool isRecursive(pthread_mutex_t* m){
	return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}

void* trampoline(void* p){
	Thread* t = static_cast<Thread*>(p);
	self = t;
	while(sem_wait(&t->sem) != 0){}
	t->ret = t->fn(t->arg);
	inside = true;
	t->state = DONE;
	choose();
	return t->ret;
}

bool on(){
	return active && self != nullptr && !inside;
}

Thread* add(){
	Thread* t = new Thread();
	sem_init(&t->sem, 0, 0);
	t->prio = 1000 + rnd(100000);
	all->push_back(t);
	return t;
}

int waitOn(pthread_cond_t* c, pthread_mutex_t* m, bool timed){
	point();
	inside = true;
	Owner& o = (*owners)[m];
	int n = o.n;
	o.t = nullptr; o.n = 0;
	self->woken = false;
	inside = false;
	block(COND, c, timed);
	inside = true;
	bool w = self->woken;
	inside = false;
	acquire(m, false);
	(*owners)[m].n = n;
	return timed && w ? ETIMEDOUT : 0;
}

void wake(void* c, bool everyone){
	point();
	std::vector<Thread*> w;
	for(Thread* t : *all){
		if(t->state == COND && t->obj == c){ w.push_back(t); }
	}
	if(w.empty()){ return; }
	if(everyone){
		for(Thread* t : w){ t->state = READY; }
	}else{
		w[rnd(w.size())]->state = READY;
	}
}

} // namespace

// seed 0: the system's own scheduling
void schedStart(uint64_t seed){
	if(seed == 0){ return; }
	all = new std::vector<Thread*>();
	owners = new std::unordered_map<void*, Owner>();
	guards = new std::unordered_map<void*, Thread*>();
	changes = new std::vector<long>();
	rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
	for(int i = 0; i < 8; ++i){ rnd(2); }
	mode = rnd(3) == 0 ? 1 : 0;
	const uint32_t stays[] = {0, 512, 850, 980};
	stay = stays[rnd(4)];
	const uint32_t softs[] = {0, 20, 200};
	softp = softs[rnd(3)];
	spurious = rnd(3) == 0 ? 20 : 0;
	int d = rnd(6);
	for(int i = 0; i < d; ++i){ changes->push_back(1 + rnd(rnd(2) ? 300 : 4000)); }
	self = add();
	self->handle = pthread_self();
	active = true;
}
void schedFlag(volatile bool* flag){
	if(on()){
		point();
		if(!*flag){ block(FLAG, const_cast<bool*>(flag)); }
	}
}
bool schedActive(){ return active; }
void schedPoint(){ point(); }

extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
	if(!on()){
		if(active && self != nullptr){ return 0; }   // (within the scheduler only this thread runs)
		static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock");
		return f(m);
	}
	point();
	acquire(m, isRecursive(m));
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
	if(!on()){
		if(active && self != nullptr){ return 0; }
		static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock");
		return f(m);
	}
	point();
	Owner& o = (*owners)[m];
	if(o.t != nullptr && !(o.t == self && isRecursive(m))){ return EBUSY; }
	o.t = self; ++o.n;
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
	if(!on()){
		if(active && self != nullptr){ return 0; }
		static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock");
		return f(m);
	}
	Owner& o = (*owners)[m];
	if(o.n > 0 && --o.n == 0){ o.t = nullptr; }
	point();
	return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m){
	if(!on()){
		static auto f = real<int(*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
		return f(c, m);
	}
	return waitOn(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t){
	if(!on()){
		static auto f = real<int(*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
		return f(c, m, t);
	}
	return waitOn(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t){
	if(!on()){
		static auto f = real<int(*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
		return f(c, m, k, t);
	}
	return waitOn(c, m, true);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
	if(!on()){
		if(active && self != nullptr){ return 0; }
		static auto f = real<int(*)(pthread_cond_t*)>("pthread_cond_broadcast");
		return f(c);
	}
	wake(c, true);
	return 0;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
	if(!on()){
		if(active && self != nullptr){ return 0; }
		static auto f = real<int(*)(pthread_cond_t*)>("pthread_cond_signal");
		return f(c);
	}
	wake(c, false);
	return 0;
}
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept {
	static auto f = real<int(*)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*)>("pthread_create");
	if(!on()){ return f(h, a, fn, arg); }
	point();
	inside = true;
	Thread* t = add();
	t->fn = fn;
	t->arg = arg;
	int r = f(&t->handle, a, trampoline, t);
	if(r == 0){ *h = t->handle; }else{ t->state = DONE; }
	inside = false;
	point();
	return r;
}
int pthread_join(pthread_t h, void** ret){
	static auto f = real<int(*)(pthread_t, void**)>("pthread_join");
	if(on()){
		point();
		Thread* t = nullptr;
		for(Thread* x : *all){
			if(!x->joined && pthread_equal(x->handle, h)){ t = x; }
		}
		if(t != nullptr){
			while(t->state != DONE){ block(JOIN, t); }
			t->joined = true;
		}
	}
	return f(h, ret);
}
int sched_yield() noexcept {
	if(!on()){ return 0; }
	point(true);
	return 0;
}
int usleep(useconds_t n){
	if(on()){ point(true); return 0; }
	struct timespec t = {static_cast<time_t>(n / 1000000), static_cast<long>(n % 1000000) * 1000};
	static auto f = real<int(*)(const struct timespec*, struct timespec*)>("nanosleep");
	return f(&t, nullptr);
}
int nanosleep(const struct timespec* t, struct timespec* rem){
	if(on()){ point(true); return 0; }
	static auto f = real<int(*)(const struct timespec*, struct timespec*)>("nanosleep");
	return f(t, rem);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* rem){
	if(on()){ point(true); return 0; }
	static auto f = real<int(*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep");
	return f(c, fl, t, rem);
}
// initialisation of local statics
int __cxa_guard_acquire(long long* g) noexcept {
	static auto f = real<int(*)(long long*)>("__cxa_guard_acquire");
	if(on()){
		for(;;){
			auto it = guards->find(g);
			if(it == guards->end() || it->second == self){ break; }
			point(true);
		}
		int r = f(g);
		if(r){ (*guards)[g] = self; }
		return r;
	}
	return f(g);
}
void __cxa_guard_release(long long* g) noexcept {
	static auto f = real<void(*)(long long*)>("__cxa_guard_release");
	f(g);
	if(on()){ guards->erase(g); }
}
void __cxa_guard_abort(long long* g) noexcept {
	static auto f = real<void(*)(long long*)>("__cxa_guard_abort");
	f(g);
	if(on()){ guards->erase(g); }
}

/* ------------------------------------------------ memory accesses of the files compiled with -fsanitize=thread */
static inline void soft(){
	if(active && self != nullptr && !inside && softp && rnd(1024) < softp){ point(); }
}
void __tsan_init(){}
void __tsan_func_entry(void*){}
void __tsan_func_exit(){}
void __tsan_ignore_thread_begin(){}
void __tsan_ignore_thread_end(){}
#define ACC(n) void __tsan_read##n(void*){ soft(); } void __tsan_write##n(void*){ soft(); } \
	void __tsan_unaligned_read##n(void*){ soft(); } void __tsan_unaligned_write##n(void*){ soft(); } \
	void __tsan_volatile_read##n(void*){ soft(); } void __tsan_volatile_write##n(void*){ soft(); } \
	void __tsan_read_write##n(void*){ soft(); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void*, size_t){ soft(); }
void __tsan_write_range(void*, size_t){ soft(); }
void __tsan_vptr_update(void**, void*){}
void __tsan_vptr_read(void**){}
#define ATOM(B, T) \
	T __tsan_atomic##B##_load(const volatile T* a, int){ soft(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##B##_store(volatile T* a, T v, int){ soft(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_exchange(volatile T* a, T v, int){ soft(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int){ soft(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int){ soft(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int){ soft(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int){ soft(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int){ soft(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int){ soft(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int){ soft(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int){ soft(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int){}
void __tsan_atomic_signal_fence(int){}

}
