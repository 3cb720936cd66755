#ifdef XS_NATIVE
#undef atomic_uint32_t
#undef atomic_uint64_t
#undef atomic_uint
#undef atomic_int
#undef atomic_bool
#undef atomic_flag
#undef atomic
#undef atomic_thread_fence
#endif
