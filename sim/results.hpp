// Type-erased results. SIM_RES: 1 owning results, 2 streaming, 4 callbacks, 8 copying the text of views out,
// 16 histories of views
#pragma once
#include <deque>
#include <list>
#include <optional>
#include <ostream>
#include <string>
#include <vector>

namespace sim
{
    struct Tracked                                   // a value made by a transformer
    {
        CallLog *log;
        int value;
        Tracked(CallLog *l, int v) : log(l), value(v) { ++log->live; }
        Tracked(Tracked const &o) : log(o.log), value(o.value) { ++log->live; }
        Tracked(Tracked &&o) noexcept : log(o.log), value(o.value) { ++log->live; }
        Tracked &operator=(Tracked const &) = default;
        ~Tracked() { --log->live; }
    };

    struct Quiet                                     // what only the harness asks for does not fail
    {
        bool was;
        Quiet() : was(frame().faults_off) { frame().faults_off = true; }
        ~Quiet() { frame().faults_off = was; }
    };

    template<typename R, Kind K, typename Names>
    struct Results
    {
        using iter = typename Src<K>::iter;
        using V = decltype(R::match(std::declval<iter>(), std::declval<iter>()));
        using O = decltype(std::declval<V const &>().as_memory_owner());
        static constexpr std::size_t N = std::tuple_size<V>::value;
        static V &v(void *p) { return *static_cast<V *>(p); }
        static V const &cv(void const *p) { return *static_cast<V const *>(p); }
        static O &o(void *p) { return *static_cast<O *>(p); }
        static O const &co(void const *p) { return *static_cast<O const *>(p); }

        template<typename Res, typename F>
        static void with_group(Res &&r, int g, F const &f)
        {
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                ((int(I) == g ? (f(std::forward<Res>(r).template group<I>()), 0) : 0), ...);
            }(std::make_index_sequence<N>{});
        }

        // ------------------------------------------------------------------------------------------------ views
        static void view(void *p, int method, Window const *w)
        {
            switch (method)
            {
                case 0: new (p) V(invoke_form<0, R, K>(0, w)); return;
                case 1: new (p) V(invoke_form<1, R, K>(0, w)); return;
                default: new (p) V(invoke_form<2, R, K>(0, w)); return;
            }
        }
        static void view_obs(void const *p, Window const *w, Obs &ob) { observe<K, Names, false>(cv(p), w, ob); }
        static void view_copy(void *d, void const *s) { LibRegion lib; new (d) V(cv(s)); }
        static bool view_optional(void *d, void *s, int form)
        {
            LibRegion lib;
            auto opt = [&] {
                switch (form)
                {
                    case 0: return v(s).as_optional();
                    case 1: return cv(s).as_optional();
                    case 2: { V copy = cv(s); return std::move(copy).as_optional(); }
                    default: { V const copy = cv(s); return std::move(copy).as_optional(); }
                }
            }();
            if (opt) new (d) V(*opt);
            return opt.has_value();
        }
        static long length_of(auto const &r)
        {
            if (current_task() < 0) return long(r.length());
            Quiet quiet;
            return long(r.length());
        }
        template<typename Res>
        static void fill_text(Res const &r, Text &t, auto const &get)
        {
            t.matched = r.matched();
            t.n = int(N);
            t.length = length_of(r);
            [&]<std::size_t... I>(std::index_sequence<I...>) { (get(int(I), r.template group<I>()), ...); }(std::make_index_sequence<N>{});
        }
#if SIM_RES & 8
        static void view_text(void const *p, int how, Text &t)
        {
            LibRegion lib;
            fill_text(cv(p), t, [&](int i, auto const &g) {
                if (how == 0)
                {
                    auto c = g.content();
                    UserRegion user;
                    t.g[i].assign(c.begin(), c.end());
                }
                else
                {
                    meta::regex_capture c{g};
                    UserRegion user;
                    t.g[i].assign(c.begin(), c.end());
                }
            });
        }
        static void transform(void const *p, int own, Text &t)
        {
            auto copy = [](auto const &g) { return std::string(g.begin(), g.end()); };
            auto run = [&](auto const &r) {
                LibRegion lib;
                t.matched = r.matched();
                t.n = int(N);
                t.length = length_of(r);
                auto tuple = r.transform_groups(copy);
                UserRegion user;
                [&]<std::size_t... I>(std::index_sequence<I...>) { ((t.g[I] = std::get<I>(tuple)), ...); }(std::make_index_sequence<N>{});
            };
            if (own) run(co(p));
            else run(cv(p));
        }
#endif
        // ------------------------------------------------------------------------------------------------ owning results
#if SIM_RES & 1
        static void own_view(void *d, void const *s) { LibRegion lib; new (d) O(cv(s).as_memory_owner()); }
        template<int M, typename C>
        static void from_temp(void *d, C &&c)
        {
            LibRegion lib;
            if constexpr (std::is_same_v<O, decltype(invoke_method<M, R>(std::forward<C>(c)))>)
                new (d) O(invoke_method<M, R>(std::forward<C>(c)));
            else
            {
                new (d) O();
                violate("not-owning", "the result of matching an expiring string does not own its content");
            }
        }
        template<typename C>
        static void scrub(C &c) { for (auto &ch : c) ch = '#'; }
        static void own_temp(void *d, int method, int container, std::string_view s)
        {
            switch (container)
            {
                case 0:
                {
                    std::string c(s);
                    if (method == 0) from_temp<0>(d, std::move(c));
                    else if (method == 1) from_temp<1>(d, std::move(c));
                    else from_temp<2>(d, std::move(c));
                    scrub(c);
                    return;
                }
                case 1: { std::vector<char> c(s.begin(), s.end()); from_temp<0>(d, std::move(c)); scrub(c); return; }
                case 2: { std::list<char> c(s.begin(), s.end()); from_temp<1>(d, std::move(c)); scrub(c); return; }
                case 3: { std::deque<char> c(s.begin(), s.end()); from_temp<2>(d, std::move(c)); scrub(c); return; }
                default: { std::string const c(s); from_temp<2>(d, std::move(c)); return; }
            }
        }
        static void own_text(void const *p, Text &t)
        {
            O const &r = co(p);
            t = Text{};
            if (bool(r) != r.matched() || !(r == r.matched())) t.inconsistent = "conversion to bool";
            fill_text(r, t, [&](int i, auto const &g) {
                t.g[i] = g.content();
                if (g.length() != t.g[i].size()) t.inconsistent = "length of a group";
                if (g.is_empty() != t.g[i].empty()) t.inconsistent = "is_empty of a group";
                if (std::string(g.begin(), g.end()) != t.g[i]) t.inconsistent = "begin/end of a group";
                if (std::string_view(g) != t.g[i]) t.inconsistent = "string_view of a group";
                for (std::size_t k = 0; k < t.g[i].size(); ++k) if (g[k] != t.g[i][k]) t.inconsistent = "operator[] of a group";
            });
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                ((r.template get<I>().content() != t.g[I] ? (void)(t.inconsistent = "get<N>") : void()), ...);
                ((meta::get_group<I>(r).content() != t.g[I] ? (void)(t.inconsistent = "get_group<N>") : void()), ...);
                ((std::move(r).template group<I>().content() != t.g[I] ? (void)(t.inconsistent = "group<N> of a constant expiring result") : void()), ...);
                ((std::string(std::move(r).template get<I>().content()) != t.g[I] ? (void)(t.inconsistent = "get<N> of a constant expiring result") : void()), ...);
            }(std::make_index_sequence<N>{});
            Names::each(r, [&](int g, auto const &cap) { if (cap.content() != t.g[g]) t.inconsistent = "group by name"; });
            if (std::string(r.begin(), r.end()) != t.g[0]) t.inconsistent = "begin/end";
            if (std::string_view(r) != t.g[0]) t.inconsistent = "string_view";
            int i = 0;
            r.for_each_group([&](auto const &g) { if (i >= int(N) || g.content() != t.g[i]) t.inconsistent = "for_each_group"; ++i; });
            if (i != int(N)) t.inconsistent = "for_each_group";
        }
        static void own_copy(void *d, void const *s) { LibRegion lib; new (d) O(co(s)); }
        static void own_move(void *d, void *s) { LibRegion lib; new (d) O(std::move(o(s))); }
        static void own_assign(void *d, void const *s) { LibRegion lib; o(d) = co(s); }
        static void own_move_assign(void *d, void *s) { LibRegion lib; o(d) = std::move(o(s)); }
        static void own_destroy(void *p) { LibRegion lib; o(p).~O(); }
        static bool own_optional(void *d, void *s, int form)
        {
            LibRegion lib;
            auto opt = [&] {
                switch (form)
                {
                    case 0: return o(s).as_optional();
                    case 1: return co(s).as_optional();
                    case 2: return std::move(o(s)).as_optional();
                    default: return std::move(co(s)).as_optional();
                }
            }();
            if (opt) new (d) O(std::move(*opt));
            return opt.has_value();
        }
        static void own_edit(void *p, int group, int how, std::string_view s)
        {
            with_group(o(p), group, [&](auto &g) {
                if (how == 0) g.content().assign(s);
                else if (how == 1) for (auto &c : g) c = s.empty() ? '!' : s[0];
                else for (std::size_t i = 0; i < g.length(); ++i) g[i] = s.empty() ? '?' : s[0];
            });
        }
        static void own_take(void *p, int group, int how, std::string &out)
        {
            if (how == 0)
                with_group(std::move(o(p)), group, [&](auto &&g) { auto mine = std::move(g); out = mine.content(); });
            else if (how == 1)
                with_group(std::move(o(p)), group, [&](auto &&g) { out = std::string(std::move(g).content()); });
            else if (how == 3)
                [&]<std::size_t... I>(std::index_sequence<I...>) {
                    ((int(I) == group ? [&] { auto mine = std::move(o(p)).template get<I>(); out = mine.content(); }() : void()), ...);
                }(std::make_index_sequence<N>{});
            else if (how == 4)
                [&]<std::size_t... I>(std::index_sequence<I...>) {
                    ((int(I) == group ? [&] { auto mine = meta::get_group<I>(std::move(o(p))); out = mine.content(); }() : void()), ...);
                }(std::make_index_sequence<N>{});
            else
            {
                int i = 0;
                std::move(o(p)).for_each_group([&](auto &&g) { auto mine = std::move(g); if (i++ == group) out = mine.content(); });
            }
        }
#endif
        // ------------------------------------------------------------------------------------------------ streaming
#if SIM_RES & 2
        static void put(std::ostream &os, void const *p, int own, int group)
        {
            auto run = [&](auto const &r) {
                LibRegion lib;
                bool same = false;
                if (group < 0) same = &(os << r) == &os;
                else with_group(r, group, [&](auto const &g) { same = &(os << g) == &os; });
                if (!same) violate("wrong-stream", "writing returned another stream");
            };
            if (own) run(co(p));
            else run(cv(p));
        }
#endif
        // ------------------------------------------------------------------------------------------------ callbacks
#if SIM_RES & 4
        template<typename G>
        static void note(CallLog &log, G const &g)
        {
            UserRegion user;
            int i = log.calls < MAXG * 2 ? log.calls : MAXG * 2 - 1;
            if constexpr (requires { { g.content() } -> std::same_as<std::string const &>; })
                log.text[i] = g.content();
            else
            {
                log.b[i] = Src<K>::pos(g.begin(), log.w);
                log.e[i] = Src<K>::pos(g.end(), log.w);
            }
        }
        struct Visitor
        {
            CallLog *log;
            template<typename G>
            void operator()(G &&g) const
            {
                note(*log, g);
                int n = log->calls++;
                if (!log->at.empty() && n < int(log->at.size()) && log->at[std::size_t(n)] != static_cast<void const *>(std::addressof(g))) ++log->strangers;
                step(SK_CALLBACK, n);
                if (n == log->throw_at) throw UserError{log->token};
            }
        };
        struct Maker
        {
            CallLog *log;
            template<typename G>
            Tracked operator()(G const &g) const
            {
                note(*log, g);
                int n = log->calls++;
                if (!log->at.empty() && n < int(log->at.size()) && log->at[std::size_t(n)] != static_cast<void const *>(std::addressof(g))) ++log->strangers;
                step(SK_CALLBACK, n);
                if (n == log->throw_at) throw UserError{log->token};
                return Tracked(log, 1000 + n);
            }
        };
        template<typename Res>
        static void where(Res const &r, CallLog &log)
        {
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                (log.at.push_back(std::addressof(r.template group<I>())), ...);
            }(std::make_index_sequence<std::tuple_size_v<Res>>{});
        }
        static void visit(void *p, int own, int form, CallLog &log)
        {
            auto run = [&](auto &r) {
                Visitor visitor{&log};
                log.at.clear();
                if (form < 2) where(r, log);  // the visitor is shown the groups themselves
                LibRegion lib;
                switch (form)
                {
                    case 0: r.for_each_group(visitor); return;
                    case 1: std::as_const(r).for_each_group(visitor); return;
                    case 2: std::move(r).for_each_group(Visitor{&log}); return;
                    default: std::move(std::as_const(r)).for_each_group(std::as_const(visitor)); return;
                }
            };
            if (own) run(o(p));
            else run(v(p));
        }
        static void track(void const *p, int own, int form, CallLog &log)
        {
            auto run = [&](auto const &r) {
                Maker maker{&log};
                log.at.clear();
                where(r, log);
                LibRegion lib;
                auto t = [&] { return form & 1 ? r.transform_groups(Maker{&log}) : r.transform_groups(maker); }();
                static_assert(std::tuple_size_v<decltype(t)> == N);
                UserRegion user;
                int at = 0;
                std::apply([&](auto const &...x) { ((x.value != 1000 + at++ ? (void)violate("callback-order", "the value made from group %d is in place %d", x.value - 1000, at - 1) : void()), ...); }, t);
                if (log.live != int(N)) violate("live-objects", "%d values are alive, should be %d", log.live, int(N));
            };
            if (own) run(co(p));
            else run(cv(p));
        }
#endif
        // ------------------------------------------------------------------------------------------------ histories of views
#if SIM_RES & 16
        static void view_assign(void *d, void *s, int move)
        {
            LibRegion lib;
            if (move) v(d) = std::move(v(s));
            else v(d) = cv(s);
        }
        static void view_destroy(void *p) { LibRegion lib; v(p).~V(); }
        static void view_full(void const *p, Window const *w, Obs &ob) { observe<K, Names, true>(cv(p), w, ob); }
        static bool view_clear(void *p, int group, int how)
        {
            if constexpr (requires { v(p).template group<0>().clear(); })
            {
                int i = 0;
                LibRegion lib;
                if (how == 0) with_group(v(p), group, [&](auto &g) { g.clear(); });
                else v(p).for_each_group([&](auto &g) { if (i++ == group) g.clear(); });
                return true;
            }
            else return false;
        }
        static void view_use(void *p, int how)
        {
            LibRegion lib;
            auto seen = [](auto const &g) { step(SK_CALLBACK, int(g.is_empty())); };
            switch (how)
            {
                case 0: { auto own = cv(p).as_memory_owner(); break; }
                case 1: { auto own = v(p).as_memory_owner(); break; }
                case 2: cv(p).for_each_group(seen); break;
                case 3: v(p).for_each_group(seen); break;
                case 4: { auto t = cv(p).transform_groups([](auto const &g) { return g; }); break; }
                case 5: { auto o = v(p).as_optional(); break; }
                case 6: { auto o = cv(p).as_optional(); break; }
                case 7:
                {
                    auto all = [&]<std::size_t... I>(std::index_sequence<I...>) { return std::tuple{v(p).template group<I>()...}; }(std::make_index_sequence<N>{});
                    break;
                }
                default: { V other = cv(p); V third = std::move(other); other = third; break; }
            }
        }
        template<typename G>
        static auto text_of_group(G const &g, int how)
        {
            if constexpr (std::is_convertible_v<G const &, std::string_view>)
                return how ? std::string_view(g) : std::string_view(g.content());
            else
                return g.content();
        }
        static void view_hold(void const *a, void const *b, int group, int how, std::string out[3])
        {
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                ((int(I) == group ? [&] {
                    LibRegion lib;
                    auto &&x = text_of_group(cv(a).template group<I>(), how);
                    step(SK_CALLBACK, 0);
                    auto &&y = text_of_group(cv(b).template group<I>(), how);
                    auto &&z = text_of_group(cv(a).template group<(I + 1) % N>(), how);
                    step(SK_CALLBACK, 1);
                    UserRegion user;
                    out[0].assign(x.begin(), x.end());
                    out[1].assign(y.begin(), y.end());
                    out[2].assign(z.begin(), z.end());
                }() : void()), ...);
            }(std::make_index_sequence<N>{});
        }
        static void view_read(void const *p, int group, std::string &out)
        {
            with_group(cv(p), group, [&](auto const &g) {
                LibRegion lib;
                frame().read_lo = 1 << 30;
                frame().read_hi = -1;
                auto &&x = g.content();
                UserRegion user;
                out.assign(x.begin(), x.end());
            });
        }
#endif
        static ResVT vt()
        {
            ResVT t;
            t.view_size = sizeof(V);
            t.own_size = sizeof(O);
            t.view = view;
            t.view_obs = view_obs;
            t.view_copy = view_copy;
            t.view_optional = view_optional;
#if SIM_RES & 1
            t.own_view = own_view;
            t.own_temp = own_temp;
            t.own_text = own_text;
            t.own_copy = own_copy;
            t.own_move = own_move;
            t.own_assign = own_assign;
            t.own_move_assign = own_move_assign;
            t.own_destroy = own_destroy;
            t.own_optional = own_optional;
            t.own_edit = own_edit;
            t.own_take = own_take;
#endif
#if SIM_RES & 2
            t.put = put;
#endif
#if SIM_RES & 4
            t.visit = visit;
            t.track = track;
#endif
#if SIM_RES & 8
            t.view_text = view_text;
            t.transform = transform;
#endif
#if SIM_RES & 16
            t.view_assign = view_assign;
            t.view_destroy = view_destroy;
            t.view_full = view_full;
            t.view_clear = view_clear;
            t.view_use = view_use;
            t.view_hold = view_hold;
            t.view_read = view_read;
#endif
            return t;
        }
    };
}
