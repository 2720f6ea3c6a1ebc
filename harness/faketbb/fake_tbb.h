// The part of TBB's interface that matters here, on top of the controlled scheduler: every task may run on any
// worker, in any order the scheduler explores; ranges may be split anywhere TBB may split them.
#ifndef VERIF_FAKE_TBB
#define VERIF_FAKE_TBB
#include "sched/rt.hpp"
#include <algorithm>
#include <cstddef>
#include <functional>
#include <iterator>
#include <memory>
#include <mutex>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>
namespace tbb {
    struct split {};
    struct proportional_split {
        proportional_split(size_t = 1, size_t = 1) {}
        operator split() const { return split(); }
    };
    struct auto_partitioner {};
    struct simple_partitioner {};
    struct static_partitioner {};
    struct affinity_partitioner {};
    struct task_group_context {
        task_group_context(...) {}
    };
    template <typename V>
    class blocked_range {
    public:
        typedef V const_iterator;
        typedef size_t size_type;
        blocked_range(V b, V e, size_t g = 1) : _b(b), _e(e), _g(g) {}
        blocked_range(blocked_range& r, split) : _b(r._b + (r._e - r._b) / 2), _e(r._e), _g(r._g) { r._e = _b; }
        V begin() const { return _b; }
        V end() const { return _e; }
        size_t size() const { return size_t(_e - _b); }
        size_t grainsize() const { return _g; }
        bool empty() const { return !(_b < _e); }
        bool is_divisible() const { return _g < size(); }

    private:
        V _b, _e;
        size_t _g;
    };
    namespace fake {
        template <typename F>
        inline void run(size_t n, const F& f)
        {
            struct C {
                static void call(void* p, size_t i) { (*(const F*)p)(i); }
            };
            rt::run(&C::call, (void*)&f, n);
        }
        template <typename R, typename B>
        inline void for_range(R r, const B& body)
        {
            if (r.is_divisible() && rt::choose(2) == 0) {
                R right(r, split());
                R* parts[2] = {&r, &right};
                run(2, [&](size_t i) { for_range(*parts[i], body); });
            }
            else
                body(r);
        }
        // the value accumulated over r, starting with acc
        template <typename R, typename V, typename F, typename J>
        inline V reduce(R r, V acc, const V& id, const F& f, const J& join)
        {
            if (!r.is_divisible())
                return f(r, acc);
            int how = rt::choose(3);
            if (how == 2 || !rt::active())
                return f(r, acc);
            R right(r, split());
            if (how == 1) { // split, but the same body goes on with the right part
                V left = reduce(r, acc, id, f, join);
                return reduce(right, left, id, f, join);
            }
            V a = acc, b = id;
            run(2, [&](size_t i) {
                if (i == 0)
                    a = reduce(r, a, id, f, join);
                else
                    b = reduce(right, b, id, f, join);
            });
            return join(a, b);
        }
        template <typename R, typename B>
        inline void reduce_body(R r, B& body)
        {
            int how = r.is_divisible() && rt::active() ? rt::choose(3) : 2;
            if (how == 2) {
                body(r);
                return;
            }
            R right(r, split());
            if (how == 1) {
                reduce_body(r, body);
                reduce_body(right, body);
                return;
            }
            B other(body, split());
            run(2, [&](size_t i) {
                if (i == 0)
                    reduce_body(r, body);
                else
                    reduce_body(right, other);
            });
            body.join(other);
        }
    } // namespace fake
    // --- parallel_for
    template <typename I, typename F, typename... P>
    inline typename std::enable_if<std::is_integral<I>::value>::type parallel_for(I first, I last, I step, const F& f, P&&...)
    {
        if (!(first < last))
            return;
        size_t n = size_t((last - first - 1) / step) + 1;
        fake::run(n, [&](size_t i) { f(I(first + I(i) * step)); });
    }
    template <typename I, typename F, typename... P>
    inline typename std::enable_if<std::is_integral<I>::value && !std::is_integral<F>::value>::type parallel_for(I first, I last, const F& f, P&&...)
    {
        parallel_for(first, last, I(1), f);
    }
    template <typename R, typename B, typename... P>
    inline typename std::enable_if<!std::is_integral<R>::value>::type parallel_for(const R& r, const B& body, P&&...)
    {
        if (!r.empty())
            fake::for_range(R(r), body);
    }
    template <typename It, typename F>
    inline void parallel_for_each(It b, It e, const F& f)
    {
        std::vector<It> its;
        for (It i = b; i != e; ++i)
            its.push_back(i);
        fake::run(its.size(), [&](size_t i) { f(*its[i]); });
    }
    template <typename C, typename F>
    inline void parallel_for_each(C& c, const F& f)
    {
        parallel_for_each(std::begin(c), std::end(c), f);
    }
    // --- parallel_reduce
    template <typename R, typename V, typename F, typename J, typename... P>
    inline V parallel_reduce(const R& r, const V& id, const F& f, const J& join, P&&...)
    {
        if (r.empty())
            return id;
        return fake::reduce(R(r), V(id), id, f, join);
    }
    template <typename R, typename V, typename F, typename J, typename... P>
    inline V parallel_deterministic_reduce(const R& r, const V& id, const F& f, const J& join, P&&...)
    {
        return parallel_reduce(r, id, f, join);
    }
    template <typename R, typename B>
    inline void parallel_reduce(const R& r, B& body)
    {
        if (!r.empty())
            fake::reduce_body(R(r), body);
    }
    // --- parallel_sort: parts are sorted concurrently; equal elements may end in any order
    template <typename It, typename C>
    inline void parallel_sort(It b, It e, const C& comp)
    {
        typedef typename std::iterator_traits<It>::difference_type D;
        D n = e - b;
        if (n < 2)
            return;
        if (rt::active()) {
            int how = rt::choose(3);
            if (how == 1)
                std::reverse(b, e);
            else if (how == 2)
                std::rotate(b, b + n / 2, e);
        }
        It m = b + n / 2;
        fake::run(2, [&](size_t i) {
            if (i == 0)
                std::sort(b, m, comp);
            else
                std::sort(m, e, comp);
        });
        std::inplace_merge(b, m, e, comp);
    }
    template <typename It>
    inline void parallel_sort(It b, It e)
    {
        parallel_sort(b, e, std::less<typename std::iterator_traits<It>::value_type>());
    }
    template <typename C>
    inline void parallel_sort(C& c)
    {
        parallel_sort(c.begin(), c.end());
    }
    template <typename... F>
    inline void parallel_invoke(const F&... f)
    {
        std::function<void()> fs[] = {std::function<void()>(f)...};
        fake::run(sizeof...(f), [&](size_t i) { fs[i](); });
    }
    struct task_group {
        std::vector<std::function<void()>> fs;
        template <typename F>
        void run(const F& f) { fs.push_back(f); }
        int wait()
        {
            auto mine = std::move(fs);
            fs.clear();
            fake::run(mine.size(), [&](size_t i) { mine[i](); });
            return 1;
        }
        template <typename F>
        int run_and_wait(const F& f)
        {
            run(f);
            return wait();
        }
        ~task_group() { wait(); }
    };
    struct task_arena {
        static const int automatic = -1;
        task_arena(int = -1, unsigned = 1) {}
        void initialize(int = -1, unsigned = 1) {}
        template <typename F>
        auto execute(F&& f) -> decltype(f()) { return f(); }
        int max_concurrency() const { return 2; }
    };
    namespace this_task_arena {
        template <typename F>
        inline auto isolate(F&& f) -> decltype(f()) { return f(); }
        inline int current_thread_index() { return rt::self() < 0 ? 0 : rt::self(); }
        inline int max_concurrency() { return 2; }
    } // namespace this_task_arena
    namespace info {
        inline int default_concurrency() { return 2; }
    } // namespace info
    class global_control {
    public:
        enum parameter { max_allowed_parallelism,
            thread_stack_size,
            terminate_on_exception };
        global_control(parameter, size_t) {}
        static size_t active_value(parameter) { return 2; }
    };
    // --- containers
    template <typename T, typename A = void>
    class concurrent_vector {
        template <typename V, typename R>
        struct iter {
            typedef std::random_access_iterator_tag iterator_category;
            typedef T value_type;
            typedef std::ptrdiff_t difference_type;
            typedef R* pointer;
            typedef R& reference;
            V* v;
            difference_type i;
            iter(V* v_ = nullptr, difference_type i_ = 0) : v(v_), i(i_) {}
            template <typename V2, typename R2>
            iter(const iter<V2, R2>& o) : v(o.v), i(o.i) {}
            R& operator*() const { return (*v)[i]; }
            R* operator->() const { return &(*v)[i]; }
            R& operator[](difference_type k) const { return (*v)[i + k]; }
            iter& operator++()
            {
                ++i;
                return *this;
            }
            iter operator++(int)
            {
                iter r = *this;
                ++i;
                return r;
            }
            iter& operator--()
            {
                --i;
                return *this;
            }
            iter operator--(int)
            {
                iter r = *this;
                --i;
                return r;
            }
            iter& operator+=(difference_type k)
            {
                i += k;
                return *this;
            }
            iter& operator-=(difference_type k)
            {
                i -= k;
                return *this;
            }
            iter operator+(difference_type k) const { return iter(v, i + k); }
            iter operator-(difference_type k) const { return iter(v, i - k); }
            friend iter operator+(difference_type k, const iter& x) { return x + k; }
            template <typename V2, typename R2>
            difference_type operator-(const iter<V2, R2>& o) const { return i - o.i; }
            template <typename V2, typename R2>
            bool operator==(const iter<V2, R2>& o) const { return i == o.i; }
            template <typename V2, typename R2>
            bool operator!=(const iter<V2, R2>& o) const { return i != o.i; }
            template <typename V2, typename R2>
            bool operator<(const iter<V2, R2>& o) const { return i < o.i; }
            template <typename V2, typename R2>
            bool operator>(const iter<V2, R2>& o) const { return i > o.i; }
            template <typename V2, typename R2>
            bool operator<=(const iter<V2, R2>& o) const { return i <= o.i; }
            template <typename V2, typename R2>
            bool operator>=(const iter<V2, R2>& o) const { return i >= o.i; }
        };

    public:
        typedef T value_type;
        typedef T& reference;
        typedef const T& const_reference;
        typedef size_t size_type;
        typedef std::ptrdiff_t difference_type;
        typedef iter<concurrent_vector, T> iterator;
        typedef iter<const concurrent_vector, const T> const_iterator;
        concurrent_vector() {}
        explicit concurrent_vector(size_t n) { grow_by(n); }
        concurrent_vector(size_t n, const T& t) { grow_by(n, t); }
        template <typename It, typename = typename std::enable_if<!std::is_integral<It>::value>::type>
        concurrent_vector(It b, It e)
        {
            for (; b != e; ++b)
                push_back(*b);
        }
        concurrent_vector(const concurrent_vector& o) { *this = o; }
        concurrent_vector(concurrent_vector&& o) { _v.swap(o._v); }
        ~concurrent_vector() { clear(); }
        concurrent_vector& operator=(const concurrent_vector& o)
        {
            if (this != &o) {
                clear();
                for (size_t i = 0; i < o.size(); ++i)
                    push_back(o[i]);
            }
            return *this;
        }
        concurrent_vector& operator=(concurrent_vector&& o)
        {
            _v.swap(o._v);
            return *this;
        }
        // element slots are claimed atomically; elements themselves are ordinary memory
        template <typename... X>
        iterator emplace_back(X&&... x)
        {
            rt::point();
            size_t i = claim(1);
            set(i, new T(std::forward<X>(x)...));
            return iterator(this, i);
        }
        iterator push_back(const T& t) { return emplace_back(t); }
        iterator push_back(T&& t) { return emplace_back(std::move(t)); }
        iterator grow_by(size_t n)
        {
            rt::point();
            size_t i = claim(n);
            for (size_t k = 0; k < n; ++k)
                set(i + k, new T());
            return iterator(this, i);
        }
        iterator grow_by(size_t n, const T& t)
        {
            rt::point();
            size_t i = claim(n);
            for (size_t k = 0; k < n; ++k)
                set(i + k, new T(t));
            return iterator(this, i);
        }
        iterator grow_to_at_least(size_t n) { return size() < n ? grow_by(n - size()) : begin() + n; }
        void resize(size_t n)
        {
            while (size() > n) {
                delete get(size() - 1);
                rt::Ignore g;
                _v.pop_back();
            }
            if (size() < n)
                grow_by(n - size());
        }
        void reserve(size_t) {}
        void shrink_to_fit() {}
        size_t capacity() const { return size(); }
        size_t size() const
        {
            rt::point();
            rt::Ignore g;
            return _v.size();
        }
        bool empty() const { return size() == 0; }
        T& operator[](size_t i) { return *get(i); }
        const T& operator[](size_t i) const { return *get(i); }
        T& at(size_t i) { return *get(i); }
        const T& at(size_t i) const { return *get(i); }
        T& front() { return *get(0); }
        const T& front() const { return *get(0); }
        T& back() { return *get(size() - 1); }
        const T& back() const { return *get(size() - 1); }
        iterator begin() { return iterator(this, 0); }
        iterator end() { return iterator(this, size()); }
        const_iterator begin() const { return const_iterator(this, 0); }
        const_iterator end() const { return const_iterator(this, size()); }
        const_iterator cbegin() const { return begin(); }
        const_iterator cend() const { return end(); }
        void clear()
        {
            for (T* p : _v)
                delete p;
            rt::Ignore g;
            _v.clear();
        }
        void swap(concurrent_vector& o) { _v.swap(o._v); }

    private:
        std::vector<T*> _v;
        size_t claim(size_t n)
        {
            rt::Ignore g;
            size_t i = _v.size();
            _v.resize(i + n, nullptr);
            return i;
        }
        void set(size_t i, T* p)
        {
            rt::Ignore g;
            _v[i] = p;
        }
        T* get(size_t i) const
        {
            rt::Ignore g;
            return _v.at(i);
        }
    };
    template <typename T>
    class combinable {
        std::function<T()> _f;
        T* _v[8] = {};

    public:
        combinable() : _f([] { return T(); }) {}
        template <typename F>
        explicit combinable(F f) : _f(f) {}
        ~combinable()
        {
            for (T* p : _v)
                delete p;
        }
        T& local()
        {
            int i = rt::self() < 0 ? 0 : rt::self();
            rt::Ignore g;
            if (!_v[i])
                _v[i] = new T(_f());
            return *_v[i];
        }
        template <typename F>
        T combine(F f)
        {
            bool any = false;
            T r = _f();
            for (T* p : _v)
                if (p) {
                    r = any ? f(r, *p) : *p;
                    any = true;
                }
            return r;
        }
        template <typename F>
        void combine_each(F f)
        {
            for (T* p : _v)
                if (p)
                    f(*p);
        }
        void clear()
        {
            for (T*& p : _v) {
                delete p;
                p = nullptr;
            }
        }
    };
    template <typename T, typename... X>
    class enumerable_thread_specific : public combinable<T> {
    public:
        using combinable<T>::combinable;
        enumerable_thread_specific() {}
        explicit enumerable_thread_specific(const T& t) : combinable<T>([t] { return t; }) {}
    };
    // --- locks
    struct spin_mutex {
        void lock() { rt::lock(this); }
        bool try_lock() { return rt::try_lock(this); }
        void unlock() { rt::unlock(this); }
        struct scoped_lock {
            spin_mutex* m = nullptr;
            scoped_lock() {}
            scoped_lock(spin_mutex& x, bool = true) { acquire(x); }
            void acquire(spin_mutex& x, bool = true)
            {
                m = &x;
                m->lock();
            }
            void release()
            {
                m->unlock();
                m = nullptr;
            }
            ~scoped_lock()
            {
                if (m)
                    m->unlock();
            }
        };
    };
    typedef spin_mutex mutex;
    typedef spin_mutex queuing_mutex;
    typedef spin_mutex speculative_spin_mutex;
    typedef spin_mutex null_mutex_;
    typedef spin_mutex rw_mutex;
    typedef spin_mutex spin_rw_mutex;
    typedef spin_mutex queuing_rw_mutex;
} // namespace tbb
namespace oneapi {
    namespace tbb = ::tbb;
}
#endif
