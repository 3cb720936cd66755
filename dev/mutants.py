SP="basic_shared_ptr.hpp";WP="basic_weak_ptr.hpp";CB="common_control_block.hpp";PP="cb_ptr_pair.hpp";AR="atomic_ref_count.hpp";LR="local_ref_count.hpp"
AL="allocator.hpp";DD="default_delete.hpp";SL="bits/spinlock.hpp";OS="ostream.hpp";SF="basic_shared_from.hpp";ST="basic_atomic_shared_ptr_storage.hpp"
SH="std_helpers.hpp";UP="unique_ptr.hpp";S1="shared_ptr.hpp";S2="local_shared_ptr.hpp"
ALL=[]
def bad(name,props,*ed): ALL.append(("bad",name,props,ed))
def good(name,*ed): ALL.append(("good",name,"",ed))
# ---- reference counts
bad("inc_returns_old","C05",(AR,"m_refs.fetch_add(1, std::memory_order_relaxed) + 1","m_refs.fetch_add(1, std::memory_order_relaxed)"))
bad("inc_two_steps","C05",(AR,"return m_refs.fetch_add(1, std::memory_order_relaxed) + 1;","auto c = m_refs.load(std::memory_order_relaxed) + 1; m_refs.store(c, std::memory_order_relaxed); return c;"))
bad("dec_relaxed","C06",(AR,"fetch_sub(1, std::memory_order_acq_rel)","fetch_sub(1, std::memory_order_relaxed)"))
bad("dec_release","C06",(AR,"fetch_sub(1, std::memory_order_acq_rel)","fetch_sub(1, std::memory_order_release)"))
bad("dec_acquire","C06",(AR,"fetch_sub(1, std::memory_order_acq_rel)","fetch_sub(1, std::memory_order_acquire)"))
bad("inc_nz_blind","C05 C04",(AR,"            if (m_refs.compare_exchange_weak(rc, rc + 1, std::memory_order_acq_rel, std::memory_order_relaxed)) {\n                return rc + 1;\n            }","            return m_refs.fetch_add(1, std::memory_order_acq_rel) + 1;"))
bad("inc_nz_store","C05",(AR,"            if (m_refs.compare_exchange_weak(rc, rc + 1, std::memory_order_acq_rel, std::memory_order_relaxed)) {\n                return rc + 1;\n            }","            m_refs.store(rc + 1, std::memory_order_release); return rc + 1;"))
bad("inc_nz_if","C05 C04",(AR,"while (rc != 0)","if (rc != 0)"))
bad("inc_nz_gt1","C05 C04",(AR,"while (rc != 0)","while (rc > 1)"))
bad("inc_nz_plus2","C05",(AR,"compare_exchange_weak(rc, rc + 1","compare_exchange_weak(rc, rc + 2"))
bad("inc_nz_ret","C05",(AR,"return rc + 1;","return rc;"))
bad("local_inc_nz","C05",(LR,"if (m_refs == 0) return 0;",""))
bad("local_dec_sat","C05",(LR,"return --m_refs;","return m_refs > 1 ? --m_refs : 1;"))
bad("local_dec_post","C05",(LR,"return --m_refs;","return m_refs--;"))
bad("local_16","C05",(LR,"return ++m_refs;","m_refs = uint16_t(m_refs + 1); return m_refs;"))
bad("count_nonzero","C05",(AR,"return m_refs.load(std::memory_order_relaxed);","return m_refs.load(std::memory_order_relaxed) & 0x7fffffff;"))
# ---- control block
bad("cb_weak_first","C03 C02",(CB,"            destroy_resource();\n            dec_weak_ref(src);","            dec_weak_ref(src);\n            destroy_resource();"))
bad("cb_no_weak","C03",(CB,"            dec_weak_ref(src);\n",""))
bad("cb_reread","C05 C02",(CB,"if (m_strong.dec() == 0) {","m_strong.dec();\n        if (m_strong.count() == 0) {"))
bad("cb_weak_reread","C05 C03",(CB,"if (m_weak.dec() == 0) {","m_weak.dec();\n        if (m_weak.count() == 0) {"))
bad("cb_le1","C02",(CB,"if (m_strong.dec() == 0) {","if (m_strong.dec() <= 1) {"))
bad("cb_lock_checkthen","C04 C05",(CB,"return !!m_strong.inc_nz();","if (m_strong.count() == 0) return false;\n        m_strong.inc();\n        return true;"))
bad("cb_fast_unique","C03 C02",(CB,"            destroy_resource();\n            dec_weak_ref(src);","            destroy_resource();\n            if (m_weak.count() == 1) destroy_self(); else dec_weak_ref(src);"))
bad("cb_fast_skip_dec","C05 C03",(CB,"if (m_weak.dec() == 0) {","if (m_weak.count() == 1 || m_weak.dec() == 0) {"))
bad("cb_strong_fast","C05",(CB,"if (m_strong.dec() == 0) {","if (m_strong.count() == 1 || m_strong.dec() == 0) {"))
bad("cb_keep_on_weak","C03",(CB,"            dec_weak_ref(src);\n","            if (m_weak.count() > 1) dec_weak_ref(src); else destroy_self();\n"))
bad("cb_count_weak","C01",(CB,"return long(m_strong.count());","return long(m_strong.count() + m_weak.count() - 1);"))
bad("cb_count_int16","C01",(CB,"return long(m_strong.count());","return long(int16_t(m_strong.count()));"))
bad("cb_self_alloc_after","C15 C03",(CB,"        self_alloc_type myalloc = get_self_alloc(*this); // slice\n        this->~control_block_resource();","        this->~control_block_resource();\n        self_alloc_type myalloc = get_self_alloc(*this); // slice"))
bad("cb_default_alloc","C15",(CB,"self_alloc_type myalloc = get_self_alloc(*this); // slice","self_alloc_type myalloc = get_self_alloc(Alloc());"))
bad("cb_dealloc_2","C15",(CB,"myalloc.deallocate(this, 1);","myalloc.deallocate(this, sizeof(*this));"))
bad("cb_no_dtor","C03",(CB,"        this->~control_block_resource();\n",""))
bad("cb_noobjdtor","C02",(CB,"override { m_obj.~T(); }","override { if constexpr (!std::is_trivially_destructible_v<T> && sizeof(T) > 8) m_obj.~T(); }"))
bad("cb_alloc_2","C15",(CB,"myalloc.allocate(1);","myalloc.allocate(2);"))
bad("cb_prep_noreg","C16",(CB,"                ebf->m.ptr = const_cast<std::remove_cv_t<T>*>(ptr);\n",""))
bad("cb_prep_ebfptr","C16",(CB,"ebf->m.ptr = const_cast<std::remove_cv_t<T>*>(ptr);","ebf->m.ptr = const_cast<ebf_type*>(ebf);"))
bad("cb_prep_once","C16",(CB,"if (ptr) {","if (ptr && !static_cast<ebf_type*>(ptr)->m.cb) {"))
bad("cb_make_release_early","C11",(CB,"        ::new (const_cast<void*>(static_cast<const volatile void*>(tmp->obj()))) T(std::forward<Args>(args)...);\n        auto cb = tmp.release();","        auto cb = tmp.release();\n        new (cb->obj()) T(std::forward<Args>(args)...);"))
bad("cb_overwrite_release_early","C11",(CB,"        ::new (const_cast<void*>(static_cast<const volatile void*>(tmp->obj()))) T;\n        auto cb = tmp.release();","        auto cb = tmp.release();\n        new (cb->obj()) T;"))
bad("cb_overwrite_valueinit","C14",(CB,"::new (const_cast<void*>(static_cast<const volatile void*>(tmp->obj()))) T;","::new (const_cast<void*>(static_cast<const volatile void*>(tmp->obj()))) T();"))
bad("cb_make_noforward","C14",(CB,"T(std::forward<Args>(args)...)","T(args...)"))
bad("cb_alloc_notmoved","C15",(CB,"explicit control_block_resource(Alloc&& a) : Alloc(std::move(a)) {}","explicit control_block_resource(Alloc&&) : Alloc() {}"))
bad("cb_uptr_release_early","C11",(CB,"        auto tmp = rsrc_type::create(std::move(a));\n        new (tmp->obj()) uptr_type(std::move(uptr));","        uptr_type u(std::move(uptr));\n        auto tmp = rsrc_type::create(std::move(a));\n        new (tmp->obj()) uptr_type(std::move(u));"))
# ---- pair
bad("pp_move_noreset","C08 C01",(PP,"cb_ptr_pair& operator=(cb_ptr_pair&& r) noexcept {\n        cb = r.cb;\n        ptr = r.ptr;\n        r.reset();","cb_ptr_pair& operator=(cb_ptr_pair&& r) noexcept {\n        cb = r.cb;\n        ptr = r.ptr;\n        r.cb = nullptr;"))
bad("pp_move_u_noptr","C08",(PP,"cb_ptr_pair& operator=(cb_ptr_pair<CB, U>&& r) noexcept {\n        cb = r.cb;\n        ptr = r.ptr;\n        r.reset();","cb_ptr_pair& operator=(cb_ptr_pair<CB, U>&& r) noexcept {\n        cb = r.cb;\n        ptr = r.ptr;\n        r.cb = nullptr;"))
bad("pp_reset_cb_only","C08",(PP,"        cb = nullptr;\n        ptr = nullptr;","        cb = nullptr;"))
bad("pp_swap_cb","C08",(PP,"        std::swap(cb, r.cb);\n        std::swap(ptr, r.ptr);","        std::swap(cb, r.cb);\n        if (ptr != r.ptr && r.ptr) std::swap(ptr, r.ptr);"))
# ---- shared_ptr
bad("sp_copy_noinc","C01 C02",(SP,"if (m.cb) m.cb->inc_strong_ref(this);","if (m.cb && m.ptr) m.cb->inc_strong_ref(this);"))
bad("sp_dtor_ptr","C01",(SP,"    ~basic_shared_ptr() {\n        if (m.cb)","    ~basic_shared_ptr() {\n        if (m.ptr)"))
bad("sp_massign_noself","C08",(SP,"    basic_shared_ptr& operator=(basic_shared_ptr&& r) noexcept {\n        if (&r == this) return *this; // self usurp\n        basic_shared_ptr(std::move(r)).swap(*this); // release last: r may be owned by what we release","    basic_shared_ptr& operator=(basic_shared_ptr&& r) noexcept {\n        if (m.cb) m.cb->dec_strong_ref(this);\n        init_from_move(r);"))
bad("sp_assign_owner_eq","C08",(SP,"if (&r == this) return *this; // self usurp\n        basic_shared_ptr(r)","if (r.m.cb == m.cb) return *this; // self usurp\n        basic_shared_ptr(r)"))
bad("sp_massign_owner_eq","C08",(SP,"if (&r == this) return *this; // self usurp\n        basic_shared_ptr(std::move(r))","if (r.m.cb == m.cb) return *this; // self usurp\n        basic_shared_ptr(std::move(r))"))
bad("sp_assign_ptr_eq","C08",(SP,"if (&r == this) return *this; // self usurp\n        basic_shared_ptr(r)","if (r.m.ptr == m.ptr) return *this; // self usurp\n        basic_shared_ptr(r)"))
bad("sp_swap_noelse","C08",(SP,"        else {\n            std::swap(m.ptr, r.m.ptr);\n        }\n    }\n\n    [[nodiscard]] element_type* get()","    }\n\n    [[nodiscard]] element_type* get()"))
bad("sp_swap_notransfer","C07",(SP,"            if (m.cb) m.cb->transfer_strong(this, &r);\n        }","        }"))
bad("sp_swap_transfer_wrong","C07",(SP,"            if (m.cb) m.cb->transfer_strong(&r, this);\n            m.swap","            if (m.cb) m.cb->transfer_strong(this, &r);\n            m.swap"))
bad("sp_move_notransfer","C07",(SP,"        if (m.cb) m.cb->transfer_strong(this, &r);\n    }\n\n    cb_ptr","    }\n\n    cb_ptr"))
bad("sp_new_noinit","C07",(SP,"        if (m.cb) m.cb->init_strong(this);\n",""))
bad("sp_alias_noinc","C01 C08",(SP,"init_from_copy(cb_ptr_pair_type(r.m.cb, aptr));","m.cb = r.m.cb; m.ptr = aptr; if (m.cb && aptr) m.cb->inc_strong_ref(this);"))
bad("sp_alias_emptyptr","C08",(SP,"init_from_copy(cb_ptr_pair_type(r.m.cb, aptr));","init_from_copy(cb_ptr_pair_type(r.m.cb, r.m.cb ? aptr : nullptr));"))
bad("sp_usecount_ptr","C01",(SP,"if (!m.cb) return 0;\n        return m.cb->strong","if (!m.ptr) return 0;\n        return m.cb->strong"))
bad("sp_bool_cb","C08",(SP,"return !!m.ptr; }","return !!m.cb; }"))
bad("sp_make_aliased","C10",(SP,"    if (owner.use_count() == 0) return {};\n    return basic_shared_ptr<CBF, T>(owner, ptr);","    return basic_shared_ptr<CBF, T>(owner, ptr);"))
bad("sp_make_aliased2","C10",(SP,"if (owner.use_count() == 0) return {};","if (!owner.get()) return {};"))
bad("sp_make_aliased3","C10",(SP,"if (owner.use_count() == 0) return {};","if (owner.use_count() == 0 || !ptr) return {};"))
bad("sp_dyn_nocheck","C10",(SP,"    if (!ptr) return {};\n    return make_aliased(owner, ptr);","    return make_aliased(owner, ptr);"))
bad("sp_static_null","C10",(SP,"return make_aliased(owner, cast##_cast<T*>(owner.get())); \\","if (!owner) return {}; return make_aliased(owner, cast##_cast<T*>(owner.get())); \\"))
bad("sp_cmp_le","C19",(SP,"return s1.get() <= s2.get(); }","return s1.get() < s2.get() || s1.owner() == s2.owner(); }"))
bad("sp_cmp_eq_owner","C19",(SP,"return s1.get() == s2.get(); }","return s1.get() == s2.get() && s1.owner() == s2.owner(); }"))
bad("sp_same_owner_get","C19",(SP,"return s1.owner() == s2.owner();","return s1.owner() == s2.owner() && (s1.owner() || s1.get() == s2.get());"))
bad("sp_no_owner_get","C19",(SP,"{ return !ptr.owner(); }","{ return !ptr.get(); }"))
bad("sp_owner_before_ptr","C19",(SP,"        return m.cb < r.m.cb;","        return m.cb < r.m.cb || (m.cb == r.m.cb && (const void*)m.ptr < (const void*)r.m.ptr);"))
bad("sp_owner_before_le","C19",(SP,"        return m.cb < r.m.cb;","        return m.cb <= r.m.cb;"))
bad("sp_assign_uptr_early","C11",(SP,"        basic_shared_ptr(std::move(uptr)).swap(*this); // may throw, so don't release before that","        reset(); init_new(CBF::make_uptr_cb(uptr));"))
bad("sp_reset_ptr","C14 C02",(SP,"        operator=(default_uptr<U>(u));","        if ((void*)u != (void*)m.ptr) operator=(default_uptr<U>(u)); "))
bad("sp_ctor_pd_null","C14",(SP,"basic_shared_ptr(unique_ptr<T, D>(nullptr, std::move(d))) {}","basic_shared_ptr() { (void)d; }"))
bad("sp_idx","C08",(SP,"return m.ptr[i]; }","return m.ptr[int(i)]; }"))
# ---- weak
bad("wp_lock_count","C04 C05",(WP,"if (!m.cb->inc_strong_ref_nz(&ret)) return ret;","if (m.cb->strong_ref_count() == 0) return ret;\n        m.cb->inc_strong_ref(&ret);"))
bad("wp_lock_ptr","C04",(WP,"        if (!m.cb) return {};\n\n        basic_shared","        if (!m.ptr) return {};\n\n        basic_shared"))
bad("wp_lock_hook","C07",(WP,"inc_strong_ref_nz(&ret)) return ret;","inc_strong_ref_nz(this)) return ret;"))
bad("wp_lock_partial","C04",(WP,"        ret.m = m;\n        return ret;","        ret.m.cb = m.cb;\n        if (m.ptr) ret.m.ptr = m.ptr;\n        return ret;"))
bad("wp_lock_set_early","C04 C01",(WP,"        if (!m.cb->inc_strong_ref_nz(&ret)) return ret;\n\n        ret.m = m;","        ret.m = m;\n        if (!m.cb->inc_strong_ref_nz(&ret)) { ret.m.cb = nullptr; return ret; }"))
bad("wp_assign_noself","C09",(WP,"        if (&r == this) return *this; // self usurp\n        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(r.m);","        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(r.m);"))
bad("wp_massign_noself","C09",(WP,"        if (&r == this) return *this; // self usurp\n        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_move(r);","        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_move(r);"))
bad("wp_assign_leak","C03",(WP,"    basic_weak_ptr& operator=(const basic_shared_ptr<CBF, U>& sptr) noexcept {\n        if (m.cb)","    basic_weak_ptr& operator=(const basic_shared_ptr<CBF, U>& sptr) noexcept {\n        if (m.cb && m.cb != sptr.m.cb)"))
bad("wp_alias_expired","C08",(WP,"        if (!r) {\n            m.reset();","        if (r.expired()) {\n            m.reset();"))
bad("wp_reset","C03 C08",(WP,"            m.cb->dec_weak_ref(this);\n            m.reset();","            m.cb->dec_weak_ref(this);\n            m.cb = nullptr;"))
bad("wp_swap_hook","C07",(WP,"            if (m.cb) m.cb->transfer_weak(this, &r);\n        }","            if (m.cb) m.cb->transfer_weak(&r, this);\n        }"))
bad("wp_swap_noelse","C08",(WP,"        else {\n            std::swap(m.ptr, r.m.ptr);\n        }",""))
bad("wp_expired","C04",(WP,"return use_count() == 0;","return use_count() <= 1 && !m.ptr;"))
bad("wp_init_ptr","C03",(WP,"if (m.cb) m.cb->inc_weak_ref(this);","if (m.ptr) m.cb->inc_weak_ref(this);"))
bad("wp_owner_before","C19",(WP,"    [[nodiscard]] bool owner_before(const basic_shared_ptr<UCBF, U>& r) const noexcept {\n        return m.cb < r.m.cb;","    [[nodiscard]] bool owner_before(const basic_shared_ptr<UCBF, U>& r) const noexcept {\n        return m.cb < r.m.cb && !expired();"))
# ---- shared_from
bad("sf_ebf_copy","C16",(SF,"basic_enable_shared_from(const basic_enable_shared_from&) : m(nullptr) {}","basic_enable_shared_from(const basic_enable_shared_from& r) : m(r.m) {}"))
bad("sf_ebf_assign","C16",(SF,"operator=(const basic_enable_shared_from&) { return *this; }","operator=(const basic_enable_shared_from& r) { m = r.m; return *this; }"))
bad("sf_weak_from","C16",(SF,"if (!m.cb) return {};\n        return wptr<T>(cb","if (!m.cb || !m.cb->strong_ref_count()) return {};\n        return wptr<T>(cb"))
bad("sf_inc","C16 C04",(SF,"        cb_ptr_pair<control_block_type, T> alias{m.cb, ptr};\n        sptr<T> ret;\n        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = alias;","        cb_ptr_pair<control_block_type, T> alias{m.cb, ptr};\n        sptr<T> ret;\n        if (m.cb && m.cb->strong_ref_count()) { m.cb->inc_strong_ref(&ret); ret.m = alias; }"))
# ---- allocator / deleter / ostream
bad("al_align","C15",(AL,"::operator new(n * sizeof(T), align_val)","::operator new(n * sizeof(T))"))
bad("al_align_del","C15",(AL,"::operator delete(del, align_val);","::operator delete(del);"))
bad("al_align_max","C15",(AL,"align_val{alignof(T)}","align_val{alignof(std::max_align_t)}"))
bad("al_size","C15",(AL,"n * sizeof(T)","n * alignof(T)"))
bad("dd_array","C12",(DD,"delete[] ar;","delete ar;"))
bad("os_owner","C19",(OS,"out << ptr.get();\n    return out;\n}\n}","out << ptr.owner();\n    return out;\n}\n}"))
bad("os_bool","C19",(OS,"    out << ptr.get();","    out << bool(ptr);"))
# ---- storage
bad("st_load_nolock","C17",(ST,"        impl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;","        return m_ptr;"))
bad("st_store_assign","C18",(ST,"        impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);\n    }\n\n","        impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr = ptr;\n    }\n\n"))
bad("st_exch_move","C18 C17",(ST,"            m_ptr.swap(ptr);\n        }\n        return ptr;","            m_ptr = std::move(ptr);\n        }\n        return ptr;"))
bad("st_cas_two","C17",(ST,"        shared_pointer_type cur;\n        {","        shared_pointer_type cur = load();\n        if (cur != expect) { expect.swap(cur); return false; }\n        {"))
bad("st_cas_owner","C17",(ST,"if (m_ptr == expect) {","if (same_owner(m_ptr, expect)) {"))
bad("st_cas_noexpect","C17",(ST,"        expect.swap(cur); // the old value of expect must not be released under the lock\n",""))
bad("st_cas_late","C17",(ST,"            cur = m_ptr;\n        }\n        expect.swap(cur);","        }\n        cur = load();\n        expect.swap(cur);"))
bad("sl_relaxed","C17 C18",(SL,"memory_order_acquire","memory_order_relaxed"))
bad("sl_unlock_relaxed","C17 C18",(SL,"memory_order_release","memory_order_relaxed"))
bad("sl_if","C17 C18",(SL,"while (flag","if (flag"))
# ---- unique
bad("up_reset_order","C12",(UP,"        auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            D::operator()(old);\n        }\n    }\n\n    void swap","        if (this->m_ptr) {\n            D::operator()(this->m_ptr);\n        }\n        this->m_ptr = p;\n    }\n\n    void swap"))
bad("up_release_noreset","C12",(UP,"        m_ptr = Ptr();\n        return old;","        return old;"))
bad("up_massign_del_first","C13",(UP,"        reset(other.release());\n        get_deleter() = std::move(other.get_deleter());","        get_deleter() = std::move(other.get_deleter());\n        reset(other.release());"))
bad("up_massign_nodel","C13",(UP,"        reset(other.release());\n        get_deleter() = std::move(other.get_deleter());","        reset(other.release());"))
bad("up_ref_massign_nodel","C13",(UP,"        reset(other.release());\n        m_deleter = std::addressof(other.get_deleter());","        reset(other.release());"))
bad("up_fn_massign_nodel","C13",(UP,"        m_deleter = other.get_deleter();\n        return *this;","        return *this;"))
bad("up_fn_conv_massign_nodel","C13",(UP,"    template <typename U, typename D2>\n    unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {\n        reset(other.release());\n        m_deleter = other.get_deleter();","    template <typename U, typename D2>\n    unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {\n        m_deleter = other.get_deleter();\n        reset(other.release());"))
bad("up_conv_copydel","C13",(UP,"    template <typename U, typename D2>\n    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}","    template <typename U, typename D2>\n    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(other.get_deleter()) {}"))
bad("up_dtor_noif","C12",(UP,"        if (this->m_ptr) {\n            D::operator()(this->m_ptr);\n        }","        D::operator()(this->m_ptr);"))
bad("up_dtor_clear","C12",(UP,"            D::operator()(this->m_ptr);\n        }\n    }\n\n    unique_ptr(std::nullptr_t) noexcept {}","            auto p = this->m_ptr; this->m_ptr = nullptr; D::operator()(p);\n        }\n    }\n\n    unique_ptr(std::nullptr_t) noexcept {}"))
bad("up_ref_swap","C13",(UP,"        std::swap(m_deleter, other.m_deleter);","        if (this->m_ptr) std::swap(m_deleter, other.m_deleter);"))
bad("up_array_init","C14",(UP,"new std::remove_extent_t<T>[n]()}","new std::remove_extent_t<T>[n]}"))
bad("up_make_noforward","C14",(UP,"new T(std::forward<Args>(args)...)","new T(args...)"))
bad("up_makeptr_copy","C14",(UP,"unique_ptr<RRT>(new RRT(std::forward<T>(t)))","unique_ptr<RRT>(new RRT(t))"))
bad("up_overwrite_value","C14",(UP,"unique_ptr<T>(new T);","unique_ptr<T>(new T());"))
bad("up_cmp","C19",(UP,"return u1.get() > u2.get(); }","return !(u1.get() < u2.get()); }"))
# ---- factories
bad("f_makeshared_noforward","C14",(S1,"allocator<char>{}, std::forward<Args>(args)...","allocator<char>{}, args..."))
bad("f_makesharedptr","C14",(S1,"::make_shared<std::remove_reference_t<T>>(std::forward<T>(t))","::make_shared<std::remove_reference_t<T>>(t)"))
bad("f_local_over","C14",(S2,"make_resource_cb_for_overwrite<T>(allocator<char>{})","make_resource_cb<T>(allocator<char>{})"))
# ---- xstd
bad("x_alias","C20",(SH,"if (owner.use_count() == 0) return {};","if (!owner) return {};"))
bad("x_same","C20",(SH,"bool same_owner(const std::weak_ptr<T>& a, const std::shared_ptr<U>& b) {\n    return !a.owner_before(b) && !b.owner_before(a);","bool same_owner(const std::weak_ptr<T>& a, const std::shared_ptr<U>& b) {\n    return a.lock() == b;"))
bad("x_same_one","C20",(SH,"bool same_owner(const std::weak_ptr<T>& a, const std::weak_ptr<U>& b) {\n    return !a.owner_before(b) && !b.owner_before(a);","bool same_owner(const std::weak_ptr<T>& a, const std::weak_ptr<U>& b) {\n    return !a.owner_before(b);"))
bad("x_no_owner","C20",(SH,"    std::weak_ptr<T> e;\n    return same_owner(ptr, e);","    return ptr.expired();"))
bad("x_makeshared","C20",(SH,"::type>(std::forward<T>(t));\n}\n\ntemplate <typename T>\nauto make_unique","::type>(t);\n}\n\ntemplate <typename T>\nauto make_unique"))
bad("x_exchange","C20",(SH,"            m_ptr.swap(ptr);\n        }\n        return ptr;","            m_ptr = ptr;\n        }\n        return ptr;"))
bad("x_weak_from","C20",(SH,"        return shared_from(ptr);","        return std::shared_ptr<T>(esd::weak_from_this().lock(), ptr);"))
# ==== behaviour-preserving edits: every check has to stay quiet
good("g_rc_fence",(AR,"return m_refs.fetch_sub(1, std::memory_order_acq_rel) - 1;","auto r = m_refs.fetch_sub(1, std::memory_order_release) - 1;\n        if (r == 0) std::atomic_thread_fence(std::memory_order_acquire);\n        return r;"))
good("g_rc_ops",(AR,"return m_refs.fetch_add(1, std::memory_order_relaxed) + 1;","return ++m_refs;"),(AR,"return m_refs.fetch_sub(1, std::memory_order_acq_rel) - 1;","return --m_refs;"),(AR,"return m_refs.load(std::memory_order_relaxed);","return m_refs;"))
good("g_rc_strong_loop",(AR,"        auto rc = m_refs.load(std::memory_order_acquire);\n        while (rc != 0) {\n            if (m_refs.compare_exchange_weak(rc, rc + 1, std::memory_order_acq_rel, std::memory_order_relaxed)) {\n                return rc + 1;\n            }\n        }\n        return 0;",
 "        uint32_t expected = m_refs.load(std::memory_order_relaxed);\n        for (;;) {\n            if (expected == 0) return 0;\n            const uint32_t desired = expected + 1;\n            if (m_refs.compare_exchange_strong(expected, desired)) return desired;\n        }"))
good("g_rc_dowhile",(AR,"        auto rc = m_refs.load(std::memory_order_acquire);\n        while (rc != 0) {\n            if (m_refs.compare_exchange_weak(rc, rc + 1, std::memory_order_acq_rel, std::memory_order_relaxed)) {\n                return rc + 1;\n            }\n        }\n        return 0;",
 "        auto rc = m_refs.load(std::memory_order_relaxed);\n        do {\n            if (rc == 0) return 0;\n        } while (!m_refs.compare_exchange_weak(rc, rc + 1, std::memory_order_acq_rel, std::memory_order_acquire));\n        return rc + 1;"))
good("g_rc_helper",(AR,"            if (m_refs.compare_exchange_weak(rc, rc + 1, std::memory_order_acq_rel, std::memory_order_relaxed)) {\n                return rc + 1;\n            }","            if (try_bump(rc)) return rc + 1;"),(AR,"public:","    bool try_bump(uint32_t& rc) noexcept { return m_refs.compare_exchange_weak(rc, rc + 1, std::memory_order_acq_rel, std::memory_order_relaxed); }\npublic:"))
good("g_rc_relaxed_succ",(AR,"std::memory_order_acq_rel, std::memory_order_relaxed)","std::memory_order_relaxed)"),(AR,"m_refs.load(std::memory_order_acquire)","m_refs.load(std::memory_order_relaxed)"))
good("g_local",(LR,"        if (m_refs == 0) return 0;\n        return inc();","        return m_refs ? ++m_refs : 0;"),(LR,"return --m_refs;","m_refs -= 1;\n        return m_refs;"))
good("g_cb_helpers",(CB,"        if (m_strong.dec() == 0) {\n            destroy_resource();\n            dec_weak_ref(src);\n        }","        const bool last = m_strong.dec() == 0;\n        if (!last) return;\n        on_last_strong(src);"),
 (CB,"protected:\n    virtual void destroy_resource()","private:\n    void on_last_strong(const void* src) noexcept {\n        destroy_resource();\n        dec_weak_ref(src);\n    }\nprotected:\n    virtual void destroy_resource()"),
 (CB,"return !!m_strong.inc_nz();","const auto rc = m_strong.inc_nz();\n        return rc > 0;"))
good("g_cb_destroy",(CB,"        self_alloc_type myalloc = get_self_alloc(*this); // slice\n        this->~control_block_resource();\n        myalloc.deallocate(this, 1);","        control_block_resource* self = this;\n        const Alloc& base = *self;\n        self_alloc_type myalloc(get_self_alloc(base));\n        std::destroy_at(self);\n        myalloc.deallocate(self, 1);"))
good("g_cb_create",(CB,"        auto myalloc = get_self_alloc(a);\n        auto self = myalloc.allocate(1);\n        new (self) control_block_resource(std::move(a));\n        return control_block_resource_ptr(self, [](control_block_resource* ptr) { ptr->destroy_self(); });",
 "        self_alloc_type myalloc = a;\n        void* mem = myalloc.allocate(1);\n        auto self = ::new (mem) control_block_resource(std::move(a));\n        auto del = +[](control_block_resource* ptr) { ptr->destroy_self(); };\n        return {self, del};"))
good("g_cb_factory",(CB,"        ::new (const_cast<void*>(static_cast<const volatile void*>(tmp->obj()))) T(std::forward<Args>(args)...);\n        auto cb = tmp.release();\n        return prepare_pair(cb, cb->obj());","        T* const obj = ::new (const_cast<void*>(static_cast<const volatile void*>(tmp->obj()))) T(std::forward<Args>(args)...);\n        return prepare_pair(static_cast<cb_type*>(tmp.release()), obj);"),
 (CB,"            if (ptr) {\n                const ebf_type* ebf = ptr;\n                ebf->m.cb = cb;\n                ebf->m.ptr = const_cast<std::remove_cv_t<T>*>(ptr);\n            }","            if (ptr != nullptr) {\n                auto& ebf = static_cast<const ebf_type&>(*ptr);\n                ebf.m = pair<void>(cb, const_cast<std::remove_cv_t<T>*>(ptr));\n            }"))
good("g_cb_uptr_factory",(CB,"        auto tmp = rsrc_type::create(std::move(a));\n        new (tmp->obj()) uptr_type(std::move(uptr));\n        auto cb = tmp.release();\n        return prepare_pair(cb, cb->obj()->get());","        auto tmp = rsrc_type::create(std::move(a));\n        T* const raw = uptr.get();\n        new (tmp->obj()) uptr_type(std::move(uptr));\n        return prepare_pair(static_cast<cb_type*>(tmp.release()), raw);"))
good("g_pp",(PP,"        cb = r.cb;\n        ptr = r.ptr;\n        r.reset();\n        return *this;\n    }\n\n    template <typename U>\n    cb_ptr_pair(cb_ptr_pair<CB, U>&& r)","        cb = std::exchange(r.cb, nullptr);\n        ptr = std::exchange(r.ptr, nullptr);\n        return *this;\n    }\n\n    template <typename U>\n    cb_ptr_pair(cb_ptr_pair<CB, U>&& r)"),
 (PP,"        std::swap(cb, r.cb);\n        std::swap(ptr, r.ptr);","        CB* const c = cb;\n        T* const p = ptr;\n        ptr = r.ptr;\n        cb = r.cb;\n        r.ptr = p;\n        r.cb = c;"))
good("g_sp_assign",(SP,"        if (&r == this) return *this; // self usurp\n        basic_shared_ptr(r).swap(*this); // release last: r may be owned by what we release\n        return *this;","        basic_shared_ptr tmp(r);\n        swap(tmp);\n        return *this;"),
 (SP,"        if (&r == this) return *this; // self usurp\n        basic_shared_ptr(std::move(r)).swap(*this); // release last: r may be owned by what we release\n        return *this;","        if (this != &r) {\n            basic_shared_ptr tmp(std::move(r));\n            tmp.swap(*this);\n        }\n        return *this;"))
bad("sp_assign_inc_first","C07",(SP,"        basic_shared_ptr(r).swap(*this); // release last: r may be owned by what we release\n        return *this;","        auto old = m;\n        init_from_copy(r.m);\n        if (old.cb) old.cb->dec_strong_ref(this);\n        return *this;"))
good("g_sp_reset",(SP,"        basic_shared_ptr().swap(*this); // become empty first: the release may destroy or use *this","        if (!m.cb) {\n            m.reset();\n            return;\n        }\n        basic_shared_ptr doomed(std::move(*this));"))
good("g_sp_reset_manual",(SP,"        basic_shared_ptr().swap(*this); // become empty first: the release may destroy or use *this","        auto cb = m.cb;\n        m.reset();\n        if (cb) cb->dec_strong_ref(this);"))
good("g_sp_swap",(SP,"        if (m.cb != r.m.cb) {\n            if (m.cb) m.cb->transfer_strong(&r, this);\n            m.swap(r.m);\n            if (m.cb) m.cb->transfer_strong(this, &r);\n        }\n        else {\n            std::swap(m.ptr, r.m.ptr);\n        }",
 "        if (m.cb == r.m.cb) {\n            std::swap(m.ptr, r.m.ptr);\n            return;\n        }\n        m.swap(r.m);\n        if (m.cb) m.cb->transfer_strong(this, &r);\n        if (r.m.cb) r.m.cb->transfer_strong(&r, this);"))
good("g_sp_dtor",(SP,"        if (m.cb) m.cb->dec_strong_ref(this);\n    }","        release();\n    }"),(SP,"private:\n    // not new!","private:\n    void release() noexcept {\n        control_block_type* const c = m.cb;\n        if (c == nullptr) return;\n        c->dec_strong_ref(this);\n    }\n    // not new!"))
good("g_sp_cmp",(SP,"{ return s1.get() != s2.get(); }","{ return !(s1 == s2); }"),(SP,"{ return s1.get() > s2.get(); }","{ return s2 < s1; }"),(SP,"{ return s1.get() >= s2.get(); }","{ return !(s1 < s2); }"),(SP,"{ return s1.get() <= s2.get(); }","{ return !(s2 < s1); }"))
good("g_sp_alias",(SP,"    if (owner.use_count() == 0) return {};\n    return basic_shared_ptr<CBF, T>(owner, ptr);","    return owner.use_count() ? basic_shared_ptr<CBF, T>(owner, ptr) : basic_shared_ptr<CBF, T>();"),
 (SP,"    auto ptr = dynamic_cast<T*>(owner.get());\n    if (!ptr) return {};\n    return make_aliased(owner, ptr);","    if (auto ptr = dynamic_cast<T*>(owner.get())) return make_aliased(owner, ptr);\n    return {};"))
good("g_sp_alias2",(SP,"    if (owner.use_count() == 0) return {};","    if (no_owner(owner)) return {};"))
good("g_sp_move_ctor",(SP,"        m = std::move(r.m);\n        if (m.cb) m.cb->transfer_strong(this, &r);","        m = r.m;\n        r.m.reset();\n        if (auto* c = m.cb) c->transfer_strong(this, &r);"))
good("g_sp_move_ctor2",(SP,"        m = std::move(r.m);\n        if (m.cb) m.cb->transfer_strong(this, &r);","        if (r.m.cb) r.m.cb->transfer_strong(this, &r);\n        m = std::move(r.m);"))
good("g_wp_reset",(WP,"        if (m.cb) {\n            m.cb->dec_weak_ref(this);\n            m.reset();\n        }","        basic_weak_ptr().swap(*this);"))
good("g_wp_assign",(WP,"        if (&r == this) return *this; // self usurp\n        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(r.m);\n        return *this;","        basic_weak_ptr(r).swap(*this);\n        return *this;"))
bad("wp_assign_inc_first","C07",(WP,"        if (&r == this) return *this; // self usurp\n        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(r.m);\n        return *this;","        if (&r == this) return *this;\n        if (r.m.cb) r.m.cb->inc_weak_ref(this);\n        if (m.cb) m.cb->dec_weak_ref(this);\n        m = r.m;\n        return *this;"))
good("g_wp_lock",(WP,"        if (!m.cb) return {};\n\n        basic_shared_ptr<CBF, T> ret;\n        if (!m.cb->inc_strong_ref_nz(&ret)) return ret;\n\n        ret.m = m;\n        return ret;","        basic_shared_ptr<CBF, T> ret;\n        auto* const c = m.cb;\n        if (c && c->inc_strong_ref_nz(&ret)) {\n            ret.m = cb_ptr_pair_type(c, m.ptr);\n        }\n        return ret;"))
good("g_wp_alias",(WP,"        if (!r) {\n            m.reset();\n            return;\n        }\n        init_from_copy(cb_ptr_pair_type(r.m.cb, aptr));","        m.reset();\n        if (r) init_from_copy(cb_ptr_pair_type(r.m.cb, aptr));"))
good("g_wp_alias_deleg",(WP,"basic_weak_ptr(const basic_weak_ptr<CBF, U>& r, T* aptr) noexcept {\n        if (!r) {\n            m.reset();\n            return;\n        }\n        init_from_copy(cb_ptr_pair_type(r.m.cb, aptr));\n    }","basic_weak_ptr(const basic_weak_ptr<CBF, U>& r, T* aptr) noexcept\n        : basic_weak_ptr(r.m.cb ? cb_ptr_pair_type(r.m.cb, aptr) : cb_ptr_pair_type(nullptr))\n    {}"))
good("g_sf",(SF,"        cb_ptr_pair<control_block_type, T> alias{m.cb, ptr};\n        sptr<T> ret;\n        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = alias;\n        return ret;","        sptr<T> ret;\n        if (!m.cb) return ret;\n        if (!m.cb->inc_strong_ref_nz(&ret)) return ret;\n        ret.m.cb = m.cb;\n        ret.m.ptr = ptr;\n        return ret;"),
 (SF,"        sptr<void> ret;\n        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = m;\n        return ret;","        return shared_from(m.ptr);"))
good("g_alloc",(AL,"        auto ret = ::operator new(n * sizeof(T), align_val);\n        return reinterpret_cast<T*>(ret);","        const size_t bytes = sizeof(T) * n;\n        return static_cast<T*>(::operator new(bytes, std::align_val_t(alignof(T))));"),(AL,"        auto del = reinterpret_cast<void*>(ptr);\n        ::operator delete(del, align_val);","        ::operator delete(ptr, align_val);"))
good("g_alloc_sized",(AL,"void deallocate(T* ptr, size_t) {","void deallocate(T* ptr, size_t n) {"),(AL,"::operator delete(del, align_val);","::operator delete(del, n * sizeof(T), align_val);"))
good("g_dd",(DD,"        delete p;","        if (p == nullptr) return;\n        delete p;"),(DD,"        delete[] ar;","        T* q = ar;\n        delete[] q;"))
good("g_os",(OS,"    out << ptr.get();\n    return out;",("    return out << ptr.get();",0)))
good("g_spin_for",(SL,"while (flag.test_and_set(std::memory_order_acquire)) /* spin */;","for (;;) {\n            if (!flag.test_and_set(std::memory_order_acquire)) return;\n        }"))
good("g_spin_bool",(SL,"std::atomic_flag flag = ATOMIC_FLAG_INIT;","std::atomic<bool> flag = {false};"),(SL,"while (flag.test_and_set(std::memory_order_acquire)) /* spin */;","while (flag.exchange(true, std::memory_order_acquire)) {\n            while (flag.load(std::memory_order_relaxed)) {}\n        }"),(SL,"flag.clear(std::memory_order_release);","flag.store(false, std::memory_order_release);"))
good("g_spin_cas",(SL,"std::atomic_flag flag = ATOMIC_FLAG_INIT;","std::atomic<int> flag = {0};"),(SL,"while (flag.test_and_set(std::memory_order_acquire)) /* spin */;","int e = 0;\n        while (!flag.compare_exchange_weak(e, 1, std::memory_order_acquire, std::memory_order_relaxed)) e = 0;"),(SL,"flag.clear(std::memory_order_release);","flag.store(0, std::memory_order_release);"))
good("g_spin_seq",(SL,"std::memory_order_acquire",""),(SL,"std::memory_order_release",""))
good("g_spin_trylock",(SL,"        while (flag.test_and_set(std::memory_order_acquire)) /* spin */;\n    }","        while (!try_lock()) {}\n    }\n    bool try_lock() noexcept { return !flag.test_and_set(std::memory_order_acquire); }"))
good("g_st_manual",(ST,"        impl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;","        m_spinlock.lock();\n        shared_pointer_type ret = m_ptr;\n        m_spinlock.unlock();\n        return ret;"),
 (ST,"        impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);\n    }\n\n","        swap_in(ptr);\n    }\n    void swap_in(shared_pointer_type& ptr) noexcept {\n        impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);\n    }\n\n"),
 (ST,"        {\n            impl::spinlock::lock_guard _l(m_spinlock);\n            m_ptr.swap(ptr);\n        }\n        return ptr;","        swap_in(ptr);\n        return ptr;"))
good("g_st_cas",(ST,"            if (m_ptr == expect) {\n                m_ptr.swap(ptr);\n                return true;\n            }\n            cur = m_ptr;\n        }\n        expect.swap(cur); // the old value of expect must not be released under the lock\n        return false;","            if (m_ptr != expect) {\n                cur = m_ptr;\n            }\n            else {\n                m_ptr.swap(ptr);\n                return true;\n            }\n        }\n        expect = std::move(cur);\n        return false;"))
good("g_st_cas_flag",(ST,"        shared_pointer_type cur;\n        {\n            impl::spinlock::lock_guard _l(m_spinlock);\n            if (m_ptr == expect) {\n                m_ptr.swap(ptr);\n                return true;\n            }\n            cur = m_ptr;\n        }\n        expect.swap(cur); // the old value of expect must not be released under the lock\n        return false;","        shared_pointer_type cur;\n        m_spinlock.lock();\n        const bool ok = m_ptr.get() == expect.get();\n        if (ok) m_ptr.swap(ptr);\n        else cur = m_ptr;\n        m_spinlock.unlock();\n        if (!ok) expect.swap(cur);\n        return ok;"))
good("g_up",(UP,"        auto old = m_ptr;\n        m_ptr = Ptr();\n        return old;","        return std::exchange(m_ptr, Ptr());"),(UP,"        auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            D::operator()(old);\n        }",("        pointer old = std::exchange(this->m_ptr, p);\n        if (!old) return;\n        get_deleter()(old);",0)),
 (UP,"        if (this->m_ptr) {\n            D::operator()(this->m_ptr);\n        }",("        if (!this->m_ptr) return;\n        D& d = *this;\n        d(this->m_ptr);",0)))
good("g_up_massign",(UP,"        reset(other.release());\n        get_deleter() = std::move(other.get_deleter());",("        pointer p = other.release();\n        reset(p);\n        D::operator=(std::move(other.get_deleter()));",0)))
good("g_up_nullassign",(UP,"        reset();\n        return *this;",("        reset(nullptr);\n        return *this;",0)))
good("g_up_cmp",(UP,"return u1.get() > u2.get(); }","return u2 < u1; }"),(UP,"return u1.get() != u2.get(); }","return !(u1 == u2); }"))
good("g_up_make",(UP,"    return unique_ptr<T>{new T(std::forward<Args>(args)...)};","    T* p = new T(std::forward<Args>(args)...);\n    unique_ptr<T> ret(p);\n    return ret;"))
good("g_x",(SH,"    if (owner.use_count() == 0) return {};\n    return std::shared_ptr<T>(owner, ptr);","    std::shared_ptr<T> ret;\n    if (owner.use_count() != 0) ret = std::shared_ptr<T>(owner, ptr);\n    return ret;"),
 (SH,"    return !a.owner_before(b) && !b.owner_before(a);",("    if (b.owner_before(a)) return false;\n    return !a.owner_before(b);",0)),
 (SH,"    std::weak_ptr<T> e;\n    return same_owner(ptr, e);","    return same_owner(ptr, std::weak_ptr<T>{});"))
good("g_x_cas",(SH,"            if (m_ptr == expect) {\n                m_ptr.swap(ptr);\n                return true;\n            }\n            cur = m_ptr;\n        }\n        expect.swap(cur);","            if (m_ptr == expect) {\n                std::swap(m_ptr, ptr);\n                return true;\n            }\n            cur = m_ptr;\n        }\n        expect = std::move(cur);"))
good("g_dtor_order",(CB,"virtual void destroy_resource() noexcept override { m_obj.~T(); }","virtual void destroy_resource() noexcept override { std::destroy_at(obj()); }"))
good("g_noop",(SP,"if (m.cb) m.cb->init_strong(this);","(void)0; if (m.cb) m.cb->init_strong(this);"),(AR,"while (rc != 0) {","while (rc != 0) { ; "))
# ---- second batch of behaviour-preserving edits
good("h_pp_order",(PP,"    CB* cb;\n    T* ptr;","    T* ptr;\n    CB* cb;"),(PP,": cb(cb), ptr(ptr) {}",": ptr(ptr), cb(cb) {}"),(PP,": cb(nullptr), ptr(nullptr) {}",": ptr(nullptr), cb(nullptr) {}"),(PP,"        : cb(r.cb)\n        , ptr(r.ptr)","        : ptr(r.ptr)\n        , cb(r.cb)"),(PP,": cb(r.cb), ptr(r.ptr) {",(": ptr(r.ptr), cb(r.cb) {",0)))
good("h_pp_exchange",(PP,": cb(r.cb), ptr(r.ptr) {\n        r.reset();\n    }",(": cb(std::exchange(r.cb, nullptr)), ptr(std::exchange(r.ptr, nullptr)) {}",0)),(PP,"        cb = r.cb;\n        ptr = r.ptr;\n        r.reset();",("        cb = std::exchange(r.cb, nullptr);\n        ptr = std::exchange(r.ptr, nullptr);",0)))
good("h_pp_self",(PP,"    cb_ptr_pair& operator=(cb_ptr_pair&& r) noexcept {\n","    cb_ptr_pair& operator=(cb_ptr_pair&& r) noexcept {\n        if (this == &r) return *this;\n"))
good("h_pp_init",(PP,"    cb_ptr_pair() noexcept = default;","    cb_ptr_pair() noexcept {}"),(PP,"    CB* cb;\n    T* ptr;","    CB* cb = nullptr;\n    T* ptr = nullptr;"))
good("h_cb_weakfirst_member",(CB,"    RC m_strong;\n    RC m_weak;","    RC m_weak;\n    RC m_strong;"))
good("h_rc_size_t",(AR,"std::atomic_uint32_t m_refs = {1};","std::atomic<uint64_t> m_refs = {1};"),(AR,"auto rc = m_refs.load(std::memory_order_acquire);","uint64_t rc = m_refs.load(std::memory_order_acquire);"),(AR,"uint32_t ",("uint64_t ",0)))
good("h_rc_name",(AR,"m_refs",("m_count",0)),(LR,"m_refs",("m_count",0)))
good("h_spin_ttas",(SL,"std::atomic_flag flag = ATOMIC_FLAG_INIT;","std::atomic<bool> flag{false};"),(SL,"        while (flag.test_and_set(std::memory_order_acquire)) /* spin */;","        for (;;) {\n            if (!flag.exchange(true, std::memory_order_acquire)) return;\n            while (flag.load(std::memory_order_relaxed)) /* spin */;\n        }"),(SL,"flag.clear(std::memory_order_release)","flag.store(false, std::memory_order_release)"))
good("h_spin_yield",(SL,"#include <atomic>","#include <atomic>\n#include <thread>"),(SL,"/* spin */;","std::this_thread::yield();"))
good("h_spin_pause",(SL,"/* spin */;","__builtin_ia32_pause();"))
good("h_spin_backoff",(SL,"        while (flag.test_and_set(std::memory_order_acquire)) /* spin */;","        for (int i = 1; flag.test_and_set(std::memory_order_acquire); i = i < 64 ? i * 2 : 64) {\n            for (int j = 0; j < i; ++j) __builtin_ia32_pause();\n        }"))
good("h_std_lock_guard",(SL,"#include <atomic>","#include <atomic>\n#include <mutex>"),(ST,"impl::spinlock::lock_guard _l(m_spinlock);",("std::lock_guard<impl::spinlock> _l(m_spinlock);",0)))
good("h_std_unique_lock",(SL,"#include <atomic>","#include <atomic>\n#include <mutex>"),(ST,"        {\n            impl::spinlock::lock_guard _l(m_spinlock);\n            m_ptr.swap(ptr);\n        }\n        return ptr;","        std::unique_lock<impl::spinlock> l(m_spinlock);\n        m_ptr.swap(ptr);\n        l.unlock();\n        return ptr;"))
good("h_assert",(CB,"#include \"allocator.hpp\"","#include \"allocator.hpp\"\n#include <cassert>"),(CB,"        m_strong.inc();\n","        auto n = m_strong.inc();\n        assert(n != 0); (void)n;\n"),(SP,"#include \"unique_ptr.hpp\"","#include \"unique_ptr.hpp\"\n#include <cassert>"),(SP,"        m = std::move(r.m);\n","        m = std::move(r.m);\n        assert(!r.m.cb);\n"))
good("h_storage_aligned",(CB,"    union {\n        T m_obj;\n    };","    alignas(T) unsigned char m_buf[sizeof(T)];"),(CB,"return std::addressof(m_obj);","return reinterpret_cast<T*>(m_buf);"),(CB,"{ m_obj.~T(); }","{ obj()->~T(); }"))
good("h_storage_launder",(CB,"return std::addressof(m_obj);","return std::launder(std::addressof(m_obj));"),(CB,"{ m_obj.~T(); }","{ obj()->~T(); }"))
good("h_cb_alloc_member",(CB,"final : public Base, private /*EBO*/ Alloc {\n","final : public Base {\n    Alloc m_alloc;\n"),(CB,"explicit control_block_resource(Alloc&& a) : Alloc(std::move(a)) {}","explicit control_block_resource(Alloc&& a) : m_alloc(std::move(a)) {}"),(CB,"get_self_alloc(*this); // slice","get_self_alloc(m_alloc);"))
good("h_cb_traits",(CB,"auto self = myalloc.allocate(1);","auto self = std::allocator_traits<self_alloc_type>::allocate(myalloc, 1);"),(CB,"myalloc.deallocate(this, 1);","std::allocator_traits<self_alloc_type>::deallocate(myalloc, this, 1);"))
good("h_cb_dec_early",(CB,"        if (m_weak.dec() == 0) {\n            destroy_self();\n        }","        if (m_weak.dec()) return;\n        destroy_self();"))
good("h_cb_guard",(CB,"        auto tmp = rsrc_type::create(std::move(a));\n        ::new (const_cast<void*>(static_cast<const volatile void*>(tmp->obj()))) T(std::forward<Args>(args)...);\n        auto cb = tmp.release();\n        return prepare_pair(cb, cb->obj());","        auto block = rsrc_type::create(std::move(a));\n        T* const p = ::new (static_cast<void*>(block->obj())) T(std::forward<Args>(args)...);\n        return prepare_pair<T>(block.release(), p);"))
good("h_cb_prep",(CB,"            if (ptr) {\n                const ebf_type* ebf = ptr;\n                ebf->m.cb = cb;\n                ebf->m.ptr = const_cast<std::remove_cv_t<T>*>(ptr);\n            }","            if (const ebf_type* ebf = ptr) ebf->m = cb_ptr_pair<cb_type, void>(cb, const_cast<std::remove_cv_t<T>*>(ptr));"))
good("h_sp_exchange",(SP,"        basic_shared_ptr().swap(*this); // become empty first: the release may destroy or use *this","        basic_shared_ptr old(std::move(*this));"))
good("h_sp_reset_local",(SP,"        basic_shared_ptr().swap(*this); // become empty first: the release may destroy or use *this","        basic_shared_ptr tmp;\n        tmp.swap(*this);"))
good("h_sp_member_init",(SP,"    basic_shared_ptr() noexcept : m(nullptr) {}","    basic_shared_ptr() noexcept : m(nullptr, nullptr) {}"))
good("h_sp_copy_init",(SP,"    basic_shared_ptr(const basic_shared_ptr& r) noexcept {\n        init_from_copy(r.m);","    basic_shared_ptr(const basic_shared_ptr& r) noexcept : m(r.m) {\n        if (m.cb) m.cb->inc_strong_ref(this);"))
good("h_sp_use_count",(SP,"        if (!m.cb) return 0;\n        return m.cb->strong_ref_count();","        return m.cb ? m.cb->strong_ref_count() : 0;"),(WP,"        if (!m.cb) return 0;\n        return m.cb->strong_ref_count();","        return m.cb ? m.cb->strong_ref_count() : 0;"))
good("h_sp_swap_self",(SP,"        if (m.cb != r.m.cb) {","        if (this == &r) return;\n        if (m.cb != r.m.cb) {"))
good("h_sp_cast",(SP,"        return make_aliased(owner, cast##_cast<T*>(owner.get())); \\","        T* const p = cast##_cast<T*>(owner.get()); \\\n        return make_aliased(owner, p); \\"))
good("h_sp_dyn",(SP,"    auto ptr = dynamic_cast<T*>(owner.get());\n    if (!ptr) return {};\n    return make_aliased(owner, ptr);","    if (auto ptr = dynamic_cast<T*>(owner.get())) return make_aliased(owner, ptr);\n    return basic_shared_ptr<CBF, T>();"))
good("h_sp_ctor_raw",(SP,"explicit basic_shared_ptr(U* p) : basic_shared_ptr(default_uptr<U>(p)) {}","explicit basic_shared_ptr(U* p) {\n        default_uptr<U> up(p);\n        init_new(CBF::make_uptr_cb(up));\n    }"))
good("h_wp_dtor",(WP,"    ~basic_weak_ptr() {\n        if (m.cb) m.cb->dec_weak_ref(this);","    ~basic_weak_ptr() {\n        reset();"))
good("h_wp_conv_assign",(WP,"    basic_weak_ptr& operator=(const basic_weak_ptr<CBF, U>& r) noexcept {\n        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(r.m);\n        return *this;","    basic_weak_ptr& operator=(const basic_weak_ptr<CBF, U>& r) noexcept {\n        return *this = basic_weak_ptr(r);"))
good("h_wp_lock",(WP,"        if (!m.cb) return {};\n\n        basic_shared_ptr<CBF, T> ret;\n        if (!m.cb->inc_strong_ref_nz(&ret)) return ret;\n\n        ret.m = m;\n        return ret;","        basic_shared_ptr<CBF, T> ret;\n        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) {\n            ret.m = m;\n        }\n        return ret;"))
good("h_wp_alias",(WP,"        if (!sptr.m.cb) {\n            m.reset();\n            return;\n        }\n        init_from_copy(cb_ptr_pair_type(sptr.m.cb, aptr));","        if (sptr.m.cb) init_from_copy(cb_ptr_pair_type(sptr.m.cb, aptr));\n        else m.reset();"))
good("h_sf_this",(SF,"    sptr<void> shared_from_this() {\n        sptr<void> ret;\n        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = m;\n        return ret;","    sptr<void> shared_from_this() {\n        return weak_from_this().lock();"))
good("h_sf_from",(SF,"        cb_ptr_pair<control_block_type, T> alias{m.cb, ptr};\n        sptr<T> ret;\n        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = alias;\n        return ret;","        sptr<T> ret;\n        if (!m.cb || !m.cb->inc_strong_ref_nz(&ret)) return ret;\n        ret.m.cb = m.cb;\n        ret.m.ptr = ptr;\n        return ret;"))
good("h_sf_weak",(SF,"        if (!m.cb) return {};\n        return wptr<T>(cb_ptr_pair<control_block_type, T>{m.cb, ptr});","        wptr<T> ret;\n        if (m.cb) ret = wptr<T>(cb_ptr_pair<control_block_type, T>{m.cb, ptr});\n        return ret;"))
good("h_st_store",(ST,"        impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);\n    }\n\n    shared_pointer_type exchange","        (void)exchange(std::move(ptr));\n    }\n\n    shared_pointer_type exchange"))
good("h_st_order",(ST,"    basic_shared_ptr<CBF, T> m_ptr;\n    mutable impl::spinlock m_spinlock;","    mutable impl::spinlock m_spinlock;\n    basic_shared_ptr<CBF, T> m_ptr;"))
good("h_st_cas",(ST,"        shared_pointer_type cur;\n        {\n            impl::spinlock::lock_guard _l(m_spinlock);\n            if (m_ptr == expect) {\n                m_ptr.swap(ptr);\n                return true;\n            }\n            cur = m_ptr;\n        }\n        expect.swap(cur); // the old value of expect must not be released under the lock\n        return false;","        bool ok;\n        shared_pointer_type cur;\n        {\n            impl::spinlock::lock_guard _l(m_spinlock);\n            ok = m_ptr.get() == expect.get();\n            if (ok) m_ptr.swap(ptr); else cur = m_ptr;\n        }\n        if (!ok) expect = std::move(cur);\n        return ok;"))
good("h_st_relock",(ST,"        impl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;","        shared_pointer_type ret;\n        {\n            impl::spinlock::lock_guard _l(m_spinlock);\n            ret = m_ptr;\n        }\n        return ret;"))
good("h_up_move",(UP,"        reset(other.release());\n        get_deleter() = std::move(other.get_deleter());",("        if (static_cast<void*>(this) == static_cast<void*>(&other)) { reset(other.release()); return *this; }\n        reset(other.release());\n        get_deleter() = std::move(other.get_deleter());",0)))
good("h_up_dtor",(UP,"        if (this->m_ptr) {\n            D::operator()(this->m_ptr);\n        }",("        pointer p = this->m_ptr;\n        if (p) D::operator()(p);",0)),(UP,"        if (this->m_ptr) {\n            (*m_deleter)(this->m_ptr);\n        }","        if (pointer p = get()) get_deleter()(p);"))
good("h_up_reset",(UP,"        auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {",("        pointer old = p;\n        std::swap(this->m_ptr, old);\n        if (old != nullptr) {",0)))
good("h_up_release",(UP,"        auto old = m_ptr;\n        m_ptr = Ptr();\n        return old;","        Ptr ret{};\n        std::swap(ret, m_ptr);\n        return ret;"))
good("h_up_make_array",(UP,"    return unique_ptr<T>{new std::remove_extent_t<T>[n]()};","    using E = std::remove_extent_t<T>;\n    E* p = new E[n]();\n    return unique_ptr<T>(p);"))
good("h_up_idx",(UP,"return m_ptr[i]; }","return *(m_ptr + i); }"))
good("h_up_swap",(UP,"        std::swap(m_ptr, other.m_ptr);","        Ptr t = m_ptr;\n        m_ptr = other.m_ptr;\n        other.m_ptr = t;"))
good("h_al_plain",(AL,"        auto ret = ::operator new(n * sizeof(T), align_val);\n        return reinterpret_cast<T*>(ret);","        return static_cast<T*>(::operator new(sizeof(T) * n, std::align_val_t(alignof(T))));"))
good("h_al_cond",(AL,"        auto ret = ::operator new(n * sizeof(T), align_val);","        void* ret;\n        if constexpr (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) ret = ::operator new(n * sizeof(T), align_val);\n        else ret = ::operator new(n * sizeof(T));"),(AL,"        ::operator delete(del, align_val);","        if constexpr (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) ::operator delete(del, align_val);\n        else ::operator delete(del);"))
good("h_x_no_owner",(SH,"    std::shared_ptr<T> e;\n    return same_owner(ptr, e);","    return same_owner(ptr, std::shared_ptr<T>());"),(SH,"    std::weak_ptr<T> e;\n    return same_owner(ptr, e);","    return same_owner(ptr, std::weak_ptr<void>());"))
good("h_x_shared_from",(SH,"        return std::shared_ptr<T>(shared_from_this(), ptr);","        auto self = shared_from_this();\n        return std::shared_ptr<T>(self, ptr);"))
good("h_x_same_owner",(SH,"    return !a.owner_before(b) && !b.owner_before(a);",("    return !(a.owner_before(b) || b.owner_before(a));",0)))
good("h_cmp_helper",(SP,"{ return s1.get() < s2.get(); }","{ auto a = s1.get(); auto b = s2.get(); return a < b; }"),(SP,"{ return s1.get() == s2.get(); }","{ return s2.get() == s1.get(); }"))
good("h_ctor_named",(S1,"","") ) if False else None
# ---- second batch of breaking edits
bad("j_make_brace","C14",(CB,"::new (const_cast<void*>(static_cast<const volatile void*>(tmp->obj()))) T(std::forward<Args>(args)...);","::new (const_cast<void*>(static_cast<const volatile void*>(tmp->obj()))) T{std::forward<Args>(args)...};"))
bad("j_umake_brace","C14",(UP,"new T(std::forward<Args>(args)...)","new T{std::forward<Args>(args)...}"))
bad("j_spin_bounded","C18",(SL,"while (flag.test_and_set(std::memory_order_acquire)) /* spin */;","for (int i = 0; i < 4000 && flag.test_and_set(std::memory_order_acquire); ++i) /* spin */;"))
bad("j_inc_bounded","C05 C04",(AR,"        while (rc != 0) {","        for (int i = 0; rc != 0 && i < 64; ++i) {"))
bad("j_inc_nz_reload","C05",(AR,"            if (m_refs.compare_exchange_weak(rc, rc + 1, std::memory_order_acq_rel, std::memory_order_relaxed)) {\n                return rc + 1;\n            }","            const auto cur = rc;\n            if (m_refs.compare_exchange_weak(rc, rc + 1, std::memory_order_acq_rel, std::memory_order_relaxed)) {\n                return rc + 1;\n            }\n            if (rc < cur) return 0; // owners are leaving"))
bad("j_inc_nz_max","C05",(AR,"        while (rc != 0) {","        while (rc != 0 && rc != uint32_t(-2)) {"))
bad("j_umakeptr_decay","C14",(UP,"std::remove_reference_t<T>",("std::decay_t<T>",0)))
bad("j_weak_from_shared_null","C08 C03",(WP,"        if (!sptr.m.cb) {\n            m.reset();\n            return;\n        }\n        init_from_copy(cb_ptr_pair_type(sptr.m.cb, aptr));","        if (!sptr) {\n            m.reset();\n            return;\n        }\n        init_from_copy(cb_ptr_pair_type(sptr.m.cb, aptr));"))
bad("j_weak_assign_shared_leak","C03",(WP,"    basic_weak_ptr& operator=(const basic_shared_ptr<CBF, U>& sptr) noexcept {\n        if (m.cb) m.cb->dec_weak_ref(this);","    basic_weak_ptr& operator=(const basic_shared_ptr<CBF, U>& sptr) noexcept {\n        if (m.cb && m.cb != sptr.m.cb) m.cb->dec_weak_ref(this);"))
bad("j_expired_ptr","C04",(WP,"return use_count() == 0;","return !m.ptr || use_count() == 0;"))
bad("j_expired_le1","C04",(WP,"return use_count() == 0;","return use_count() < 1 || !m.ptr;"))
bad("j_lock_retry","C04",(WP,"        if (!m.cb->inc_strong_ref_nz(&ret)) return ret;","        if (m.cb->strong_ref_count() == 0 || !m.cb->inc_strong_ref_nz(&ret)) return ret;\n        if (!m.ptr) return {};"))
bad("j_al_empty_align","C15",(AL,"        auto ret = ::operator new(n * sizeof(T), align_val);","        void* ret;\n        if constexpr (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) ret = ::operator new(n * sizeof(T), align_val);\n        else ret = ::operator new(n * sizeof(T));"))
bad("j_swap_class_deleter","C13",(UP,"if constexpr (!std::is_empty_v<D>) std::swap","if constexpr (!std::is_trivially_copyable_v<D>) std::swap"))
bad("j_massign_null","C13",(UP,"        reset(other.release());\n        get_deleter() = std::move(other.get_deleter());","        if (!other) { reset(); return *this; }\n        reset(other.release());\n        get_deleter() = std::move(other.get_deleter());"))
bad("j_ref_massign_order","C13",(UP,"        reset(other.release());\n        m_deleter = std::addressof(other.get_deleter());","        m_deleter = std::addressof(other.get_deleter());\n        reset(other.release());"))
bad("j_conv_massign_order","C13",(UP,"    template <typename U, typename D2>\n    unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {\n        reset(other.release());\n        get_deleter() = std::move(other.get_deleter());","    template <typename U, typename D2>\n    unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {\n        auto p = other.release();\n        get_deleter() = std::move(other.get_deleter());\n        reset(p);"))
bad("j_idx_int","C13",(UP,"return m_ptr[i]; }","return m_ptr[int(i)]; }"))
bad("j_sp_idx_int","C08",(SP,"{ return m.ptr[i]; }","{ return m.ptr[unsigned(i)]; }"))
bad("j_weak_from_expired","C16",(SF,"        if (!m.cb) return {};\n        return wptr<T>","        if (!m.cb || m.cb->strong_ref_count() == 0) return {};\n        return wptr<T>"))
bad("j_sft_const","C16",(SF,"    sptr<const void> shared_from_this() const {\n        sptr<const void> ret;\n        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = m;","    sptr<const void> shared_from_this() const {\n        sptr<const void> ret;\n        if (m.cb && m.cb->strong_ref_count() > 0) { m.cb->inc_strong_ref(&ret); ret.m = m; }"))
bad("j_wft_const","C16",(SF,"return this->weak_from(static_cast<const T*>(this));","return this->shared_from(static_cast<const T*>(this));"))
bad("j_prep_base","C16",(CB,"if constexpr (std::is_base_of_v<ebf_type, T>) {","if constexpr (std::is_base_of_v<ebf_type, T> && !std::is_abstract_v<T>) {"))
bad("j_dec_after_destroy","C02 C03",(CB,"            destroy_resource();\n            dec_weak_ref(src);","            if (m_weak.count() == 1) { destroy_resource(); destroy_self(); return; }\n            destroy_resource();\n            dec_weak_ref(src);"))
bad("j_x_alias_ptr","C20",(SH,"    if (owner.use_count() == 0) return {};\n    return std::shared_ptr<T>(owner, ptr);","    if (!owner) return {};\n    return std::shared_ptr<T>(owner, ptr);"))
bad("j_x_shared_from_const","C20",(SH,"return std::shared_ptr<T>(shared_from_this(), ptr);","return std::shared_ptr<T>(esd::weak_from_this().lock(), ptr);"))
bad("j_x_makeuptr_copy","C20",(SH,"new RRT(std::forward<T>(t))","new RRT(t)"))
bad("j_x_store_drop","C20",(SH,"    void store(sptr ptr) noexcept {\n        xmem::impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);","    void store(sptr ptr) noexcept {\n        xmem::impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr = std::move(ptr);"))
bad("j_x_load_unlocked","C20",(SH,"    sptr load() const noexcept {\n        xmem::impl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;","    sptr load() const noexcept {\n        if (!m_ptr) return {};\n        xmem::impl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;"))
bad("j_le_const","C19",(SP,"{ return s1.get() >= s2.get(); }","{ return !(s1.get() < s2.get()) || s1.owner() == s2.owner(); }"))
bad("j_wsame_use","C19",(WP,"[[nodiscard]] bool same_owner(const xmem::basic_shared_ptr<CBF, T1>& s1, const xmem::basic_weak_ptr<CBF, T2>& s2) {\n    return s1.owner() == s2.owner();","[[nodiscard]] bool same_owner(const xmem::basic_shared_ptr<CBF, T1>& s1, const xmem::basic_weak_ptr<CBF, T2>& s2) {\n    return s1.owner() == s2.owner() && !s2.expired();"))
bad("j_wno_owner","C19",(WP,"{ return !ptr.owner(); }","{ return ptr.use_count() == 0; }"))
bad("j_dyn_use_alias","C10",(SP,"    auto ptr = dynamic_cast<T*>(owner.get());\n    if (!ptr) return {};\n    return make_aliased(owner, ptr);","    auto ptr = dynamic_cast<T*>(owner.get());\n    return ptr ? basic_shared_ptr<CBF, T>(owner, ptr) : basic_shared_ptr<CBF, T>(owner, nullptr);"))
bad("j_reset_early","C11",(SP,"    void reset(U* u) {\n        operator=(default_uptr<U>(u));","    void reset(U* u) {\n        default_uptr<U> up(u);\n        reset();\n        operator=(std::move(up));"))
bad("j_conv_move_ctor","C07",(SP,"    basic_shared_ptr(basic_shared_ptr<CBF, U>&& r) noexcept {\n        init_from_move(r);","    basic_shared_ptr(basic_shared_ptr<CBF, U>&& r) noexcept {\n        init_from_copy(r.m);\n        r.reset();"))
bad("j_st_exch_twice","C17",(ST,"    shared_pointer_type exchange(shared_pointer_type ptr) noexcept {\n        {\n            impl::spinlock::lock_guard _l(m_spinlock);\n            m_ptr.swap(ptr);\n        }\n        return ptr;","    shared_pointer_type exchange(shared_pointer_type ptr) noexcept {\n        auto old = load();\n        store(std::move(ptr));\n        return old;"))
bad("j_st_cas_fast","C18",(ST,"        shared_pointer_type cur;\n        {","        shared_pointer_type cur = load();\n        if (cur != expect) { expect.swap(cur); return false; }\n        {"))
bad("j_lock_tas","C18",(SL,"        while (flag.test_and_set(std::memory_order_acquire)) /* spin */;","        while (flag.test(std::memory_order_acquire)) /* spin */;\n        flag.test_and_set(std::memory_order_acquire);") ) if False else None
bad("j_unlock_guard","C18",(SL,"~lock_guard() { m_sl.unlock(); }","~lock_guard() { if (m_sl.flag.test_and_set(std::memory_order_relaxed)) m_sl.unlock(); }"))
# ---- progress
bad("p_incnz_stale","C05 C04",(AR,"            if (m_refs.compare_exchange_weak(rc, rc + 1,","            auto seen = rc;\n            if (m_refs.compare_exchange_weak(seen, rc + 1,"))
bad("p_lock_seen","C18",(SL,"        while (flag.test_and_set(std::memory_order_acquire)) /* spin */;","        const bool busy = flag.test_and_set(std::memory_order_acquire);\n        while (busy) /* spin */;"))
bad("p_lock_turns","C18",(SL,"        while (flag.test_and_set(std::memory_order_acquire)) /* spin */;","        if (!flag.test_and_set(std::memory_order_acquire)) return;\n        do { flag.clear(std::memory_order_relaxed); } while (flag.test_and_set(std::memory_order_acquire));"))
good("p_incnz_strong",(AR,"compare_exchange_weak","compare_exchange_strong"))
good("p_incnz_reload",(AR,"        auto rc = m_refs.load(std::memory_order_acquire);\n        while (rc != 0) {\n            if (m_refs.compare_exchange_weak(rc, rc + 1, std::memory_order_acq_rel, std::memory_order_relaxed)) {\n                return rc + 1;\n            }\n        }\n        return 0;","        for (;;) {\n            auto rc = m_refs.load(std::memory_order_relaxed);\n            if (rc == 0) return 0;\n            if (m_refs.compare_exchange_strong(rc, rc + 1, std::memory_order_acq_rel, std::memory_order_relaxed)) return rc + 1;\n        }"))
good("p_lock_guarded",(SL,"        while (flag.test_and_set(std::memory_order_acquire)) /* spin */;","        for (unsigned n = 0; flag.test_and_set(std::memory_order_acquire); ++n) { for (volatile unsigned k = 0; k < (n < 4 ? 1u << n : 16u); k = k + 1) {} }"))
# ---- the xstd storage in C++20
I20="#if __cplusplus >= 202000L && defined(__cpp_lib_atomic_shared_ptr)\n"
_cas="        return m_holder.compare_exchange_strong(expect, std::move(ptr));\n"
bad("s20_cas_split","C20 C17",(SH,_cas,I20+"        auto cur = m_holder.load();\n        if (cur == expect) { m_holder.store(std::move(ptr)); return true; }\n        expect = std::move(cur);\n        return false;\n#else\n"+_cas+"#endif\n"))
bad("s20_cas_copy","C20",(SH,_cas,I20+"        auto e = expect;\n        return m_holder.compare_exchange_strong(e, std::move(ptr));\n#else\n"+_cas+"#endif\n"))
bad("s20_xchg_split","C20 C17",(SH,"return m_holder.exchange(std::move(ptr));","auto old = m_holder.load();\n        m_holder.store(std::move(ptr));\n        return old;"))
bad("s20_cas_weak","C20",(SH,_cas,I20+"        return m_holder.compare_exchange_weak(expect, std::move(ptr)) && expect;\n#else\n"+_cas+"#endif\n"))
good("s20_cas_orders",(SH,_cas,I20+"        return m_holder.compare_exchange_strong(expect, std::move(ptr), std::memory_order_acq_rel, std::memory_order_acquire);\n#else\n"+_cas+"#endif\n"))
good("s20_store_assign",(SH,"void store(shared_pointer_type ptr) noexcept { m_holder.store(std::move(ptr)); }","void store(shared_pointer_type ptr) noexcept { (void)m_holder.exchange(std::move(ptr)); }"))
good("s20_load_swap",(SH,"shared_pointer_type load() const noexcept { return m_holder.load(); }","shared_pointer_type load() const noexcept { auto r = m_holder.load(); return r; }"))
# ---- shared pointers to arrays
bad("arr_ctor_scalar","C02 C12 C14 C15",(SP,"basic_shared_ptr(default_uptr<U>(p))","basic_shared_ptr(unique_ptr<U>(p))"))
bad("arr_reset_scalar","C02 C12 C14 C15",(SP,"        operator=(default_uptr<U>(u));","        operator=(unique_ptr<U>(u));"))
bad("arr_delete_scalar","C02 C12 C15",(DD,"delete[] ar;","delete ar;"))
bad("arr_index","C14",(SP,"{ return m.ptr[i]; }","{ return m.ptr[int(i)]; }"))
good("arr_uptr",(SP,"basic_shared_ptr(default_uptr<U>(p))","basic_shared_ptr(unique_ptr<std::conditional_t<std::is_array_v<T>, T, U>>(p))")) if False else None
good("arr_reset_ctor",(SP,"        operator=(default_uptr<U>(u));","        basic_shared_ptr(u).swap(*this);"))
good("arr_null_elem",(SP,"basic_shared_ptr(unique_ptr<T, D>(nullptr, std::move(d)))","basic_shared_ptr(unique_ptr<element_type, D>(nullptr, std::move(d)))"))
