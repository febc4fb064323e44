// what the compiler calls for each memory access (built without instrumentation); see sched.hpp
extern "C" void sched_mem(const void *p);
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define M(n) void __tsan_##n(void *p) { sched_mem(p); }
M(read1) M(read2) M(read4) M(read8) M(read16) M(write1) M(write2) M(write4) M(write8) M(write16)
M(unaligned_read2) M(unaligned_read4) M(unaligned_read8) M(unaligned_read16) M(unaligned_write2) M(unaligned_write4) M(unaligned_write8) M(unaligned_write16)
M(volatile_read1) M(volatile_read2) M(volatile_read4) M(volatile_read8) M(volatile_read16) M(volatile_write1) M(volatile_write2) M(volatile_write4) M(volatile_write8) M(volatile_write16)
M(vptr_read)
#undef M
void __tsan_vptr_update(void **p, void *) { sched_mem(p); }
void __tsan_read_range(void *p, unsigned long) { sched_mem(p); } void __tsan_write_range(void *p, unsigned long) { sched_mem(p); }
#define A(b, T) \
T __tsan_atomic##b##_load(const volatile T *a, int) { sched_mem((const void*)a); return __atomic_load_n(a, 5); } \
void __tsan_atomic##b##_store(volatile T *a, T v, int) { sched_mem((const void*)a); __atomic_store_n(a, v, 5); } \
T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { sched_mem((const void*)a); return __atomic_exchange_n(a, v, 5); } \
T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { sched_mem((const void*)a); return __atomic_fetch_add(a, v, 5); } \
T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { sched_mem((const void*)a); return __atomic_fetch_sub(a, v, 5); } \
T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { sched_mem((const void*)a); return __atomic_fetch_and(a, v, 5); } \
T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { sched_mem((const void*)a); return __atomic_fetch_or(a, v, 5); } \
T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { sched_mem((const void*)a); return __atomic_fetch_xor(a, v, 5); } \
T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { sched_mem((const void*)a); return __atomic_fetch_nand(a, v, 5); } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { sched_mem((const void*)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { sched_mem((const void*)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { sched_mem((const void*)a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
A(8, unsigned char) A(16, unsigned short) A(32, unsigned int) A(64, unsigned long)
#undef A
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); } void __tsan_atomic_signal_fence(int) {}
}
