// In a native replay std::atomic inside xmem is replaced by an instrumented one that lets the
// recorded interference happen before every atomic step; otherwise this is empty.
#ifdef XS_NATIVE
#define atomic_uint32_t xs_atomic_u32
#define atomic_uint64_t xs_atomic_u64
#define atomic_uint xs_atomic_u32
#define atomic_int xs_atomic_i32
#define atomic_bool xs_atomic_bool
#define atomic_flag xs_atomic_flag
#define atomic xs_atomic
#define atomic_thread_fence xs_atomic_fence
#undef ATOMIC_FLAG_INIT
#define ATOMIC_FLAG_INIT {}
#endif
