/* What -fsanitize=thread calls, in a program without its run-time library: every access is POINT(). */
#define RW(n) void __tsan_read##n(void *a) { POINT(); } void __tsan_write##n(void *a) { POINT(); } \
	void __tsan_unaligned_read##n(void *a) { POINT(); } void __tsan_unaligned_write##n(void *a) { POINT(); } \
	void __tsan_volatile_read##n(void *a) { POINT(); } void __tsan_volatile_write##n(void *a) { POINT(); } \
	void __tsan_read##n##_pc(void *a, void *p) { POINT(); } void __tsan_write##n##_pc(void *a, void *p) { POINT(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { POINT(); }
void __tsan_write_range(void *a, size_t n) { POINT(); }
void __tsan_func_entry(void *p) { }
void __tsan_func_exit(void) { }
void __tsan_init(void) { }
void __tsan_vptr_update(void **p, void *v) { }
void __tsan_vptr_read(void **p) { }
void __tsan_atomic_thread_fence(int mo) { POINT(); __sync_synchronize(); }
void __tsan_atomic_signal_fence(int mo) { }
#define AT(b, T) \
	T __tsan_atomic##b##_load(const volatile T *a, int mo) { POINT(); return __atomic_load_n(a, 5); } \
	void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { POINT(); __atomic_store_n(a, v, 5); } \
	T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { POINT(); return __atomic_exchange_n(a, v, 5); } \
	T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { POINT(); return __atomic_fetch_add(a, v, 5); } \
	T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { POINT(); return __atomic_fetch_sub(a, v, 5); } \
	T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { POINT(); return __atomic_fetch_and(a, v, 5); } \
	T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { POINT(); return __atomic_fetch_or(a, v, 5); } \
	T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { POINT(); return __atomic_fetch_xor(a, v, 5); } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { POINT(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { POINT(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { POINT(); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
