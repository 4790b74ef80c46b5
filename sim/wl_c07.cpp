// C07: exceptions from user callbacks and generators lose and repeat nothing.
#include <memory>
#include <optional>
#include "wl_common.hpp"
#include <mregex.hpp>

namespace sim
{
    namespace
    {
        enum { VISIT, TRACK, R_MAKE, R_NEXT, R_EACH, R_LOOK, R_COPY, R_ASSIGN, R_DROP, NCODES };
        constexpr int NSLOTS = 4;

        // ------------------------------------------------------------------------------------------ user generators
        // What the user's code does in the operation in progress. One operation of a task at a time; nested ones save it.
        struct Faults
        {
            int token = 0;
            long throw_call = -1, throw_copy = -1;        // which call of the generator, which copy of something of the user's
            long calls = 0, copies = 0;
            int thrown = 0;                              // exceptions thrown by the user's code
            bool after = false;                          // the user's code was called again after it had thrown
        };
        Faults *faults[32][16];                            // per task and nesting depth
        Faults *&now() { return faults[current_task() < 0 ? 31 : current_task()][task_depth() & 15]; }
        long live_values = 0, live_generators = 0;

        void maybe_throw_copy()
        {
            Faults *f = now();
            if (!f) return;
            if (f->thrown) f->after = true;
            if (f->copies++ == f->throw_copy) { ++f->thrown; throw UserError{f->token}; }
        }
        struct Value
        {
            int stream, n;
            bool some;
            Value(int stream, int n, bool some) : stream(stream), n(n), some(some) { ++live_values; }
            Value(Value const &o) : stream(o.stream), n(o.n), some(o.some) { UserRegion user; maybe_throw_copy(); ++live_values; }
            Value(Value &&o) noexcept : stream(o.stream), n(o.n), some(o.some) { o.n = -7; ++live_values; }
            Value &operator=(Value const &o) { UserRegion user; maybe_throw_copy(); stream = o.stream; n = o.n; some = o.some; return *this; }
            Value &operator=(Value &&o) noexcept { stream = o.stream; n = o.n; some = o.some; o.n = -7; return *this; }
            ~Value() { --live_values; stream = n = -9; }
            explicit operator bool() const { return some; }
        };
        // Delivers stream, 0 .. length-1, then a value that is false.
        struct GenBase
        {
            int stream, length, n = 0;
            GenBase(int s, int l) : stream(s), length(l) { ++live_generators; }
            GenBase(GenBase const &o) : stream(o.stream), length(o.length), n(o.n) { UserRegion user; maybe_throw_copy(); ++live_generators; }
            GenBase(GenBase &&o) noexcept : stream(o.stream), length(o.length), n(o.n) { ++live_generators; }
            GenBase &operator=(GenBase const &o) { UserRegion user; maybe_throw_copy(); stream = o.stream; length = o.length; n = o.n; return *this; }
            ~GenBase() { --live_generators; }
            void called() const
            {
                UserRegion user;
                Faults *f = now();
                if (!f) return;
                if (f->thrown) f->after = true;
                long c = f->calls++;
                {
                    LibRegion lib;                        // a step of the simulation
                    step(SK_CALLBACK, n);
                }
                if (c == f->throw_call) { ++f->thrown; throw UserError{f->token}; }
            }
        };
        struct GenValue : GenBase
        {
            using GenBase::GenBase;
            Value operator()() { called(); int i = n++; return Value(stream, i, i < length); }
        };
        struct GenConst : GenBase                         // returns something const, and the call operator is const for the adapter to pick up
        {
            using GenBase::GenBase;
            Value const operator()() { called(); int i = n++; return Value(stream, i, i < length); }
        };
        struct GenRef : GenBase                           // returns a reference to something of its own
        {
            Value v{0, -1, false};
            using GenBase::GenBase;
            Value const &operator()() { called(); int i = n++; v.stream = stream; v.n = i; v.some = i < length; return v; }
        };
        struct GenOptional : GenBase
        {
            using GenBase::GenBase;
            std::optional<Value> operator()()
            {
                called();
                int i = n++;
                if (i >= length) return std::nullopt;
                return Value(stream, i, true);
            }
        };
        struct GenPtr : GenBase
        {
            using GenBase::GenBase;
            std::shared_ptr<Value> operator()()
            {
                called();
                UserRegion user;
                int i = n++;
                return i < length ? std::make_shared<Value>(stream, i, true) : nullptr;
            }
        };
        bool is(Value const &v, int stream, int n) { return v.stream == stream && v.n == n && v.some; }
        bool is(std::optional<Value> const &v, int stream, int n) { return v && v->stream == stream && v->n == n; }
        bool is(std::shared_ptr<Value> const &v, int stream, int n) { return v && v->stream == stream && v->n == n; }

        struct RangeBase
        {
            virtual ~RangeBase() = default;
            virtual std::unique_ptr<RangeBase> copy() const = 0;
            virtual void assign(RangeBase const &) = 0;
            virtual void next(int how) = 0;
            virtual bool active(int how) = 0;
            virtual bool current_is(int how, int stream, int n) = 0;
            virtual int each(int stream, int from, int max) = 0;          // range-for; returns how many values it saw, -1: wrong ones
            int seen = 0;
        };
        template<typename G>
        struct Range final : RangeBase
        {
            meta::input_range_adapter<G> r;
            template<typename A>
            static meta::input_range_adapter<G> make(A &&a) { LibRegion lib; return meta::input_range_adapter<G>{std::forward<A>(a)}; }
            static meta::input_range_adapter<G> dup(meta::input_range_adapter<G> const &o) { LibRegion lib; return o; }
            template<typename A>
            explicit Range(A &&a) : r(make(std::forward<A>(a))) {}
            Range(Range const &o) : RangeBase(), r(dup(o.r)) {}
            std::unique_ptr<RangeBase> copy() const override { return std::make_unique<Range>(*this); }
            void assign(RangeBase const &o) override { LibRegion lib; r = static_cast<Range const &>(o).r; }
            void next(int how) override
            {
                LibRegion lib;
                switch (how % 3)
                {
                    case 0: { auto it = r.begin(); ++it; break; }
                    case 1: { auto it = r.begin(); it++; break; }
                    default: r.compute_next(); break;
                }
            }
            bool active(int how) override
            {
                LibRegion lib;
                switch (how % 4)
                {
                    case 0: return r.active();
                    case 1: return r.begin() != r.end();
                    case 2: return !(r.begin() == std::default_sentinel);
                    default: return static_cast<bool>(r.begin());
                }
            }
            bool current_is(int how, int stream, int n) override
            {
                LibRegion lib;
                auto it = r.begin();
                switch (how % 4)
                {
                    case 0: return is(*it, stream, n);
                    case 1: return is(*it.operator->(), stream, n);
                    case 2: return is(r.current_result(), stream, n);
                    default: return is(std::as_const(r).current_result(), stream, n);
                }
            }
            int each(int stream, int from, int max) override
            {
                seen = 0;
                LibRegion lib;
                for (auto const &v : r)
                {
                    if (!is(v, stream, from + seen)) return -1;
                    if (++seen >= max) break;
                }
                return seen;
            }
        };
        template<typename G>
        std::unique_ptr<RangeBase> make_range(int stream, int length, int form)
        {
            if (form == 0) return std::make_unique<Range<G>>(G{stream, length});
            if (form == 1)
            {
                G g{stream, length};
                return std::make_unique<Range<G>>(g);
            }
            G const g{stream, length};
            return std::make_unique<Range<G>>(g);
        }
        std::unique_ptr<RangeBase> make_range(int type, int stream, int length, int form)
        {
            switch (type)
            {
                case 0: return make_range<GenValue>(stream, length, form);
                case 1: return make_range<GenConst>(stream, length, form);
                case 2: return make_range<GenRef>(stream, length, form);
                case 3: return make_range<GenOptional>(stream, length, form);
                default: return make_range<GenPtr>(stream, length, form);
            }
        }
        char const *const type_names[] = {"values", "const values", "references", "optionals", "pointers"};

        struct Slot
        {
            std::unique_ptr<RangeBase> r;
            bool busy = false;
            int type = 0, stream = 0, length = 0, at = 0;      // at: the current element
        };
        Slot slots[NSLOTS];
        int streams = 0;
        struct Use
        {
            Slot &s;
            explicit Use(Slot &s) : s(s) { s.busy = true; }
            ~Use() { s.busy = false; }
        };

        void look(Slot &s, int how, char const *after)
        {
            bool want = s.at < s.length;
            if (s.r->active(how) != want)
                violate("wrong-value", "after %s, a range of %s that should be at element %d of %d is %s", after, type_names[s.type], s.at, s.length, want ? "at its end" : "still active");
            if (want && !s.r->current_is(how, s.stream, s.at))
                violate("wrong-value", "after %s, the current element of a range of %s is not element %d of %d", after, type_names[s.type], s.at, s.length);
            probe("range_element_checked");
        }

        // Runs something of the library with the user's code failing as planned. True: it completed.
        template<typename F>
        bool with_faults(char const *what, int token, long call, long copy, F const &f, long *calls = nullptr)
        {
            Faults fs;
            fs.token = token;
            fs.throw_call = call;
            fs.throw_copy = copy;
            Faults *&slot = now();
            Faults *saved = slot;
            slot = &fs;
            bool ok = false;
            int got = -1;
            try { f(); ok = true; }
            catch (UserError const &e) { got = e.token; }
            catch (...) { slot = saved; violate("wrong-exception", "%s: another exception than the user's came out", what); }
            slot = saved;
            if (calls) *calls = fs.calls;
            if (fs.thrown && ok) violate("swallowed", "%s: the user's exception did not reach the caller", what);
            if (!fs.thrown && !ok) violate("wrong-exception", "%s: an exception came out, but the user's code threw none", what);
            if (!ok && got != token) violate("wrong-exception", "%s: the exception that came out is not the one thrown", what);
            if (fs.thrown > 1 || fs.after) violate("called-again", "%s: the user's code was called again after it had thrown", what);
            if (fs.thrown) fired(fs.calls > fs.throw_call && fs.throw_call >= 0 ? "generator_throw" : "user_copy_throw");
            probe(fs.thrown ? "user_code_threw" : "user_code_completed");
            return ok;
        }

        // ------------------------------------------------------------------------------------------ plan
        void make_plan(Plan &p, Knobs &k, Rng &rng)
        {
            auto pats = pick_patterns(rng, 2);
            p.ntasks = draw_tasks(rng, 3);
            int ntapes = 1 + int(rng.below(3));
            auto const aim = common_tapes(p, rng, pats, ntapes, 40, rng.below(2));
            common_knobs(k, rng, p.ntasks > 1, rng.below(3) == 0);
            int id = 0;
            int const nslots = 1 + int(rng.below(NSLOTS));
            int const flavour = int(rng.below(3));           // callbacks, ranges, both
            auto add = [&](int task) {
                Op o;
                o.id = id++;
                o.task = task;
                bool range = flavour == 1 || (flavour == 2 && rng.below(2));
                if (!range) o.code = rng.below(2) ? VISIT : TRACK;
                else
                {
                    u32 r = rng.below(20);
                    o.code = r < 4 ? R_MAKE : r < 12 ? R_NEXT : r < 14 ? R_EACH : r < 16 ? R_LOOK : r < 18 ? R_COPY : r < 19 ? R_ASSIGN : R_DROP;
                }
                o.pat = rng.pick(pats);
                o.kind = pick_kind(rng, patterns()[std::size_t(o.pat)]);
                o.a[0] = range ? int(rng.below(unsigned(nslots))) : draw_method(rng);
                o.a[1] = range ? int(rng.below(unsigned(nslots))) : int(rng.below(4));
                o.a[2] = range ? int(rng.below(5)) : aim.pick(rng, o.pat, o.kind);
                o.a[3] = range ? int(rng.below(7)) : int(rng.below(2));            // length / owning
                o.a[4] = rng.below(3) ? int(rng.below(range ? 3 : 8)) : -1;         // throws at this call
                o.a[5] = range && rng.below(3) == 0 ? int(rng.below(3)) : -1;       // throws at this copy
                o.a[6] = int(rng.below(12));
                o.a[7] = int(rng.below(1000));
                p.ops.push_back(o);
            };
            for (int t = 0; t < p.ntasks; ++t)
                for (u32 n = 3 + rng.below(12); n-- > 0;) add(t);
            if (k.nest_1_in)
                for (u32 n = crowded(k, rng, 1 + rng.below(4), true); n-- > 0;) add(-1);
        }

        // ------------------------------------------------------------------------------------------ groups
        void check_log(CallLog const &log, Obs const &groups, std::string const &text, bool own, int expect_calls, char const *what, Pattern const &p)
        {
            if (log.calls != expect_calls)
                violate("call-count", "%s of pattern %s made %d calls, should be %d", what, show({p.text, p.len}).c_str(), log.calls, expect_calls);
            for (int i = 0; i < log.calls && i < groups.n; ++i)
            {
                bool empty = groups.b[i] == groups.e[i];
                bool bad;
                if (own) bad = log.text[i] != (empty ? "" : text.substr(std::size_t(groups.b[i]), std::size_t(groups.e[i] - groups.b[i])));
                else bad = empty ? log.b[i] != log.e[i] : (log.b[i] != groups.b[i] || log.e[i] != groups.e[i]);
                if (bad) violate("callback-order", "%s of pattern %s: call %d was not made with group %d", what, show({p.text, p.len}).c_str(), i, i);
            }
        }
        void exec_groups(Op const &op)
        {
            if (op.a[2] >= tape_count()) return;
            Pattern const &p = patterns()[std::size_t(op.pat)];
            ResVT const &vt = p.kinds[op.kind].res;
            Window const *w = window_for(op.a[2], 0, 0);
            std::string const text = oriented(w, op.kind);
            if (ask(p, op.kind, op.a[0], text).capped) { ++stats().skipped; return; }
            InFlight reading(w->t);
            Mem view(vt.view_size), own(vt.own_size);
            vt.view(view.p, op.a[0], w);
            Obs groups;
            vt.view_obs(view.p, w, groups);
            if (groups.inconsistent) return;
            Text const content = text_of(groups, text);
            bool const o = op.a[3];
            if (o) vt.own_view(own.p, view.p);
            void *r = o ? own.p : view.p;
            char const *what = op.code == VISIT ? "for_each_group" : "transform_groups";
            long const blocks = alloc_stats().live_blocks;
            int const tries = op.a[4] >= 0 ? 2 : 1;
            for (int i = 0; i < tries; ++i)
            {
                CallLog log;
                log.w = w;
                log.token = op.a[7] + i;
                log.throw_at = i == 0 && op.a[4] >= 0 ? op.a[4] % (groups.n + 1) : -1;     // may be never
                bool const fails = log.throw_at >= 0 && log.throw_at < groups.n;
                bool threw = false;
                try
                {
                    if (op.code == VISIT) vt.visit(r, o, op.a[1], log);
                    else vt.track(r, o, op.a[1], log);
                }
                catch (UserError const &e)
                {
                    threw = true;
                    if (e.token != log.token) violate("wrong-exception", "%s: the exception that came out is not the one thrown", what);
                }
                catch (...) { violate("wrong-exception", "%s: another exception than the user's came out", what); }
                if (threw != fails) violate(fails ? "swallowed" : "wrong-exception", "%s of pattern %s: the callback %s, the caller saw %s", what, show({p.text, p.len}).c_str(),
                                            fails ? "threw" : "did not throw", threw ? "an exception" : "none");
                if (threw) fired("callback_throw");
                probe(threw ? "callback_threw" : "callback_completed");
                if (log.strangers) violate("callback-order", "%s of pattern %s: the callback was not given the groups of the result but %d copies", what, show({p.text, p.len}).c_str(), log.strangers);
                check_log(log, groups, text, o, fails ? log.throw_at + 1 : groups.n, what, p);
                if (log.live != 0) violate("live-objects", "%s of pattern %s: %d values made by the callback were not destroyed exactly once", what, show({p.text, p.len}).c_str(), log.live);
                if (alloc_stats().live_blocks != blocks) violate("leak", "%s left %ld blocks allocated", what, alloc_stats().live_blocks - blocks);
                Obs again;
                vt.view_obs(view.p, w, again);
                if (!again.same(groups)) violate("result-changed", "%s changed the result it was made on", what);
                if (o)
                {
                    Text t;
                    vt.own_text(own.p, t);
                    note_result(t);
                    if (t.inconsistent || !(t == content)) violate("result-changed", "%s changed the owning result it was made on: %s, was %s", what, t.str().c_str(), content.str().c_str());
                }
            }
            note_result(groups);
            if (o) vt.own_destroy(own.p);
        }

        // ------------------------------------------------------------------------------------------ ranges
        void exec_range(Op const &op)
        {
            Slot &s = slots[op.a[0] % NSLOTS];
            Slot &t = slots[op.a[1] % NSLOTS];
            if (s.busy || t.busy) { probe("range_in_use"); return; }
            long const call = op.a[4], copy = op.a[5];
            switch (op.code)
            {
                case R_MAKE:
                {
                    Use use(s);
                    s.r.reset();
                    s.type = op.a[2] % 5;
                    s.length = op.a[3];
                    s.at = 0;
                    s.stream = ++streams;
                    bool ok = with_faults("creating a range", op.a[7], call, copy, [&] { s.r = make_range(s.type, s.stream, s.length, op.a[6] % 3); });
                    if (!ok) with_faults("creating a range again", op.a[7] + 1, -1, -1, [&] { s.r = make_range(s.type, s.stream, s.length, op.a[6] % 3); });
                    look(s, op.a[6], "creation");
                    break;
                }
                case R_NEXT:
                {
                    if (!s.r || s.at >= s.length) return;
                    Use use(s);
                    long calls = 0;
                    bool ok = with_faults("advancing a range", op.a[7], call, copy, [&] { s.r->next(op.a[6]); }, &calls);
                    if (calls != 1) violate("call-count", "advancing a range of %s at element %d of %d called its generator %ld times", type_names[s.type], s.at, s.length, calls);
                    if (ok) ++s.at;
                    // what a generator returns as constant or by reference is copied into the range: that copy may fail after the value was generated
                    else if ((s.type == 1 || s.type == 2) && copy >= 0) { s.r.reset(); return; }
                    look(s, op.a[6] + 1, ok ? "advancing" : "a failed advance");
                    break;
                }
                case R_EACH:
                {
                    if (!s.r) return;
                    Use use(s);
                    if (s.at < s.length)
                    {
                        int const max = op.a[6] % 3 ? 1000 : 1 + op.a[6] / 3;
                        int n = 0;
                        bool ok = with_faults("range-for", op.a[7], call, -1, [&] { n = s.r->each(s.stream, s.at, max); });
                        if (n < 0) violate("wrong-value", "range-for over a range of %s at element %d of %d: it delivered something else at its iteration %d", type_names[s.type], s.at, s.length, s.r->seen);
                        // seen counts the elements delivered; the last one is still the current one after a break or an exception
                        int seen = s.r->seen;
                        if (ok && seen < max && s.at + seen != s.length)
                            violate("wrong-value", "range-for over a range of %s at element %d of %d ended after %d iterations", type_names[s.type], s.at, s.length, seen);
                        if (ok && seen < max) s.at += seen;
                        else s.at += seen - 1;
                    }
                    look(s, op.a[6] + 2, "range-for");
                    break;
                }
                case R_LOOK:
                    if (!s.r) return;
                    { Use use(s); look(s, op.a[6], "nothing"); }
                    break;
                case R_COPY:
                {
                    if (!t.r || &s == &t) return;
                    Use use(s), use2(t);
                    s.r.reset();
                    bool ok = with_faults("copying a range", op.a[7], call, copy, [&] { s.r = t.r->copy(); });
                    if (!ok) with_faults("copying a range again", op.a[7] + 1, -1, -1, [&] { s.r = t.r->copy(); });
                    s.type = t.type; s.length = t.length; s.at = t.at; s.stream = t.stream;
                    look(s, op.a[6], "copying");
                    look(t, op.a[6], "being copied");
                    break;
                }
                case R_ASSIGN:
                {
                    if (!t.r || !s.r || &s == &t || s.type != t.type) return;
                    Use use(s), use2(t);
                    bool ok = with_faults("assigning a range", op.a[7], call, copy, [&] { s.r->assign(*t.r); });
                    if (!ok) with_faults("assigning a range again", op.a[7] + 1, -1, -1, [&] { s.r->assign(*t.r); });
                    s.length = t.length; s.at = t.at; s.stream = t.stream;
                    look(s, op.a[6], "assignment");
                    look(t, op.a[6], "being assigned from");
                    break;
                }
                case R_DROP: { Use use(s); s.r.reset(); break; }
            }
            log_value(u64(s.at) * 31 + u64(s.length));
        }
        void exec(Op const &op)
        {
            if (op.code <= TRACK) exec_groups(op);
            else exec_range(op);
        }
        void begin()
        {
            for (auto &row : faults) for (auto &f : row) f = nullptr;
            for (auto &s : slots) { s.r.reset(); s.busy = false; s.at = s.length = 0; }
            live_values = live_generators = 0;
            streams = 0;
        }
        void finish()
        {
            for (auto &s : slots)
            {
                if (s.r && !s.busy) look(s, 0, "everything");
                s.r.reset();
            }
            if (live_values != 0) violate("live-objects", "%ld values made by generators were not destroyed exactly once", live_values);
            if (live_generators != 0) violate("live-objects", "%ld copies of generators were not destroyed exactly once", live_generators);
        }
    }
    Workload const &workload()
    {
        static Workload const w{"C07", make_plan, begin, exec, finish, true, false};
        return w;
    }
}
