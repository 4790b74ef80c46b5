// Type-erased access to the library under test: one table of functions per pattern and iterator kind.
#pragma once
#include <new>
#include <type_traits>
#include <utility>
#include "core.hpp"
#include <mregex.hpp>
#ifndef SIM_CALL
#define SIM_CALL 0
#endif
#ifndef SIM_LAZY
#define SIM_LAZY 0
#endif
#ifndef SIM_RES
#define SIM_RES 0
#endif

namespace sim
{
    // ------------------------------------------------------------------------------------------------ input kinds
    template<Kind K>
    struct Src
    {
        using iter = It<K>;
        static iter begin(Window const *w) { return {w, w->lo}; }
        static iter end(Window const *w) { return {w, w->hi}; }
        static int pos(iter const &i, Window const *w) { return !i.w ? -1 : i.w == w ? int(i.p - w->lo) : -2; }
    };
    template<>
    struct Src<PTR>
    {
        using iter = char const *;
        static iter begin(Window const *w) { return w->t->text + w->lo; }
        static iter end(Window const *w) { return w->t->text + w->hi; }
        static int pos(iter i, Window const *w) { return i ? int(i - begin(w)) : -1; }
    };
    template<>
    struct Src<STR>
    {
        using iter = std::string::const_iterator;
        static iter begin(Window const *w) { return iter(w->t->text + w->lo); }
        static iter end(Window const *w) { return iter(w->t->text + w->hi); }
        static int pos(iter i, Window const *w) { return i.base() ? int(i.base() - (w->t->text + w->lo)) : -1; }
    };
    template<>
    struct Src<REV>
    {
        using iter = std::reverse_iterator<It<BID>>;
        static iter begin(Window const *w) { return iter(It<BID>{w, w->hi}); }
        static iter end(Window const *w) { return iter(It<BID>{w, w->lo}); }
        static int pos(iter const &i, Window const *w) { auto b = i.base(); return !b.w ? -1 : b.w == w ? int(w->hi - b.p) : -2; }
    };

    struct NoNames
    {
        template<typename Res, typename F>
        static void each(Res const &, F const &) {}
        static constexpr char const *name_of(int) { return ""; }
    };

    // ------------------------------------------------------------------------------------------------ observing
    template<Kind K, typename Names, bool Api, typename Res>
    void observe(Res const &res, Window const *w, Obs &o)
    {
        constexpr std::size_t N = std::tuple_size<Res>::value;
        static_assert(N <= std::size_t(MAXG));
        LibRegion lib;                          // its iterators are the caller's: accessors are steps too
        o = Obs{};
        o.matched = res.matched();
        o.n = int(N);
        auto group = [&](int i, auto const &g) {
            o.b[i] = Src<K>::pos(g.begin(), w);
            o.e[i] = Src<K>::pos(g.end(), w);
            if (g.is_empty() != (o.b[i] == o.e[i])) o.inconsistent = "is_empty of a group";
            if (o.b[i] == -2 || o.e[i] == -2) o.inconsistent = "a group refers to another input";
            else if (o.e[i] < o.b[i]) o.inconsistent = "a group ends before it starts";
        };
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (group(int(I), res.template group<I>()), ...);
            if (o.inconsistent) return;         // its length could take for ever
            o.length = long(res.length());
            if constexpr (Api)
            {
                auto check = [&](int i, auto const &g, char const *what) {
                    if (Src<K>::pos(g.begin(), w) != o.b[i] || Src<K>::pos(g.end(), w) != o.e[i]) o.inconsistent = what;
                    if (o.b[i] >= 0 && o.e[i] >= o.b[i] && long(g.length()) != long(o.e[i] - o.b[i])) o.inconsistent = "length of a group";
                };
                auto text = [&](int i, std::string_view got, char const *what) {
                    UserRegion user;
                    auto all = w->view();
                    std::size_t n = o.b[i] < 0 ? 0 : std::size_t(o.e[i] - o.b[i]);
                    bool same = got.size() == n;
                    for (std::size_t j = 0; same && j < n; ++j)
                        same = got[j] == (K == REV ? all[all.size() - 1 - std::size_t(o.b[i]) - j] : all[std::size_t(o.b[i]) + j]);
                    if (!same) o.inconsistent = what;
                };
                auto chars = [&](int i, auto const &g) {
                    text(i, g.content(), "content of a group");
                    if constexpr (std::is_convertible_v<decltype(g), std::string_view>) text(i, g, "string_view of a group");
                    if constexpr (requires { g[0]; })
                        if (long n = o.e[i] - o.b[i]; n > 0 && n < 200)
                        {
                            std::string s;
                            for (long j = 0; j < n; ++j) { char c = g[std::size_t(j)]; UserRegion user; s.push_back(c); }
                            text(i, s, "operator[] of a group");
                        }
                };
                (chars(int(I), res.template group<I>()), ...);
                auto name = [&](int i, auto const &g) {
                    if constexpr (requires { g.name(); g.has_name(); })
                        if (g.name() != Names::name_of(i) || g.has_name() != !g.name().empty()) o.inconsistent = "name of a group";
                };
                (name(int(I), res.template group<I>()), ...);
                if constexpr (std::is_convertible_v<Res const &, std::string_view>) text(0, res, "string_view of a result");
                static_assert(Res::group_count == N && Res::is_view);
                (check(int(I), res.template get<I>(), "get<N>"), ...);
                auto copy = res;
                (check(int(I), copy.template group<I>(), "group<N> of a copy"), ...);
                (check(int(I), meta::get_group<I>(res), "get_group<N>"), ...);
                (check(int(I), copy.template get<I>(), "get<N> of a variable"), ...);
                (check(int(I), std::move(std::as_const(copy)).template group<I>(), "group<N> of a constant expiring result"), ...);
                (check(int(I), std::move(std::as_const(copy)).template get<I>(), "get<N> of a constant expiring result"), ...);
                (check(int(I), std::move(copy).template get<I>(), "get<N> of an expiring result"), ...);
                (check(int(I), std::move(copy).template group<I>(), "group<N> of an expiring result"), ...);
                int i = 0;
                copy = res;
                copy.for_each_group([&](auto const &g) { check(i++, g, "for_each_group"); });
                if (i != int(N)) o.inconsistent = "for_each_group visits another number of groups";
                i = 0;
                res.for_each_group([&](auto const &g) { check(i++, g, "for_each_group of a constant"); });
                if (i != int(N)) o.inconsistent = "for_each_group of a constant visits another number of groups";
                std::tuple<std::tuple_element_t<I, Res>...> parts{std::tuple_element_t<I, Res>(res.template get<I>())...};
                (check(int(I), std::get<I>(parts), "structured binding"), ...);
                Names::each(res, [&](int g, auto const &cap) { check(g, cap, "group by name"); });
            }
        }(std::make_index_sequence<N>{});
        if (bool(res) != o.matched || (res == o.matched) != true) o.inconsistent = "conversion to bool";
        if (Src<K>::pos(res.begin(), w) != o.b[0] || Src<K>::pos(res.end(), w) != o.e[0]) o.inconsistent = "begin/end";
    }

    // ------------------------------------------------------------------------------------------------ direct calls
    template<int M, typename R, typename... A>
    auto invoke_method(A &&...a)
    {
        if constexpr (M == 0) return R::match(std::forward<A>(a)...);
        else if constexpr (M == 1) return R::match_prefix(std::forward<A>(a)...);
        else return R::search(std::forward<A>(a)...);
    }
    template<int M, typename R, Kind K>
    auto invoke_form(int form, Window const *w)
    {
        auto b = Src<K>::begin(w), e = Src<K>::end(w);
        if (form == 1)
        {
            TapeRange<decltype(b)> const r{b, e};
            LibRegion lib;
            return invoke_method<M, R>(r);
        }
        if (form == 3)
        {
            TapeRange<decltype(b)> r{b, e};
            LibRegion lib;
            return invoke_method<M, R>(r);
        }
        if constexpr (std::is_same_v<decltype(invoke_method<M, R>(TapeRange<decltype(b)>{b, e})), decltype(invoke_method<M, R>(b, e))>)
            if (form == 4)
            {
                LibRegion lib;
                return invoke_method<M, R>(TapeRange<decltype(b)>{b, e});   // a view: need not outlive the call
            }
        if constexpr (K == PTR)
            if (form == 2)
            {
                LibRegion lib;
                return invoke_method<M, R>(std::string_view{b, std::size_t(e - b)});
            }
        LibRegion lib;
        return invoke_method<M, R>(b, e);
    }
    template<typename R, Kind K, typename Names, bool Api>
    void call_method(int method, int form, Window const *w, Obs &o)
    {
        switch (method)
        {
            case 0: observe<K, Names, Api>(invoke_form<0, R, K>(form, w), w, o); break;
            case 1: observe<K, Names, Api>(invoke_form<1, R, K>(form, w), w, o); break;
            default: observe<K, Names, Api>(invoke_form<2, R, K>(form, w), w, o); break;
        }
    }

    // ------------------------------------------------------------------------------------------------ lazy objects
    template<int M, typename R, typename... A>
    auto make_lazy(A &&...a)
    {
        if constexpr (M == 0) return R::tokenizer(a...);
        else if constexpr (M == 1) return R::searcher(a...);
        else if constexpr (M == 2) return R::tokenize(a...);
        else return R::find_all(a...);
    }
    template<int M, typename R, Kind K, typename Names>
    struct Lazy
    {
        using iter = typename Src<K>::iter;
        using T = decltype(make_lazy<M, R>(std::declval<iter>(), std::declval<iter>()));
        static T &ref(void *p) { return *static_cast<T *>(p); }
        static T const &cref(void const *p) { return *static_cast<T const *>(p); }

        static void create(void *p, Window const *w, int form)
        {
            auto b = Src<K>::begin(w), e = Src<K>::end(w);
            if (form == 1)
            {
                TapeRange<iter> const r{b, e};
                LibRegion lib;
                new (p) T(make_lazy<M, R>(r));
                return;
            }
            if (form == 3)
            {
                TapeRange<iter> r{b, e};
                LibRegion lib;
                new (p) T(make_lazy<M, R>(r));
                return;
            }
            if constexpr (K == PTR)
                if (form == 2)
                {
                    std::string_view const v{b, std::size_t(e - b)};
                    LibRegion lib;
                    new (p) T(make_lazy<M, R>(v));
                    return;
                }
            LibRegion lib;
            new (p) T(make_lazy<M, R>(b, e));
        }
        static void copy(void *p, void const *q) { LibRegion lib; new (p) T(cref(q)); }
        static void move(void *p, void *q) { LibRegion lib; new (p) T(std::move(ref(q))); }
        static void assign(void *p, void const *q) { LibRegion lib; ref(p) = cref(q); }
        static void move_assign(void *p, void *q) { LibRegion lib; ref(p) = std::move(ref(q)); }
        static void destroy(void *p) { LibRegion lib; ref(p).~T(); }
        static void pull(void *p, int how, Window const *w, Obs &o)
        {
            if constexpr (M < 2)
            {
                auto r = [&] { LibRegion lib; return how ? ref(p)() : ref(p).next(); }();
                observe<K, Names, false>(r, w, o);
            }
            else
            {
                {
                    LibRegion lib;
                    auto it = ref(p).begin();
                    if (how == 1) { auto old = it++; (void)old; }
                    else ++it;
                }
                current(p, how, w, o);
            }
        }
        static void current(void *p, int how, Window const *w, Obs &o)
        {
            if constexpr (M >= 2)
            {
                // the reference stays valid until the next pull
                auto const *r = [&] {
                    LibRegion lib;
                    auto it = ref(p).begin();
                    switch (how)
                    {
                        case 0: return &*it;
                        case 1: return it.operator->();
                        default: return &ref(p).current_result();
                    }
                }();
                observe<K, Names, false>(*r, w, o);
            }
        }
        static bool active(void *p, int how)
        {
            LibRegion lib;
            if constexpr (M < 2) return cref(p).active();
            else
            {
                auto it = ref(p).begin();
                switch (how)
                {
                    case 0: return it != ref(p).end();
                    case 1: return !(it == std::default_sentinel);
                    case 2: return static_cast<bool>(it);
                    default: return cref(p).active();
                }
            }
        }
        static int each(void *p, Window const *w, Obs *out, int max)
        {
            int n = 0;
            if constexpr (M >= 2)
            {
                LibRegion lib;
                for (auto &&r : ref(p))
                {
                    if (n < max) observe<K, Names, false>(r, w, out[n]);
                    if (++n > max) break;
                }
            }
            return n;
        }
#if SIM_RES & 16
        using V = decltype(R::match(std::declval<iter>(), std::declval<iter>()));
        static void take(void *p, int how, void *d)
        {
            LibRegion lib;
            if constexpr (M < 2) new (d) V(how ? ref(p)() : ref(p).next());
            else
            {
                auto it = ref(p).begin();
                if (how == 1) it++;
                else if (how != 3) ++it;
                if (how == 2) new (d) V(ref(p).current_result());
                else new (d) V(*it);
            }
        }
#endif
        static LazyVT vt()
        {
            LazyVT t{sizeof(T), create, copy, move, assign, move_assign, destroy, pull, current, active, each};
#if SIM_RES & 16
            t.take = take;
#endif
            return t;
        }
    };

}
#if SIM_RES
#include "results.hpp"
#endif
namespace sim
{
    template<typename R, typename Names, bool Api, Kind... K>
    void fill(Pattern &p)
    {
        auto one = [&]<Kind k>(std::integral_constant<Kind, k>) {
            p.has[k] = true;
            KindVT &v = p.kinds[k];
#if SIM_CALL
            v.call = call_method<R, k, Names, Api>;
#endif
#if SIM_LAZY
            v.lazy[0] = Lazy<0, R, k, Names>::vt();
            v.lazy[1] = Lazy<1, R, k, Names>::vt();
#if SIM_LAZY > 1
            v.lazy[2] = Lazy<2, R, k, Names>::vt();
            v.lazy[3] = Lazy<3, R, k, Names>::vt();
#endif
#endif
#if SIM_RES
            v.res = Results<R, k, Names>::vt();
#endif
            (void)v;
        };
        (one(std::integral_constant<Kind, K>{}), ...);
    }
}
