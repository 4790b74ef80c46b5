// C05: allocation failure never corrupts, leaks or kills; views need no memory.
#include <functional>
#include <new>
#include "wl_common.hpp"

namespace sim
{
    namespace
    {
        enum { CALL, PULLS, OWN_VIEW, OWN_TEMP, OWN_COPY, OWN_ASSIGN, OWN_OPTIONAL, VIEW_OPTIONAL, VIEW_TEXT, TRANSFORM, NCODES };
        char const *const names[NCODES] = {"a view-returning call", "pulling", "as_memory_owner", "matching a temporary", "copying an owning result",
                                           "assigning an owning result", "as_optional of an owning result", "as_optional of a view", "content()", "transform_groups"};

        void make_plan(Plan &p, Knobs &k, Rng &rng)
        {
            auto pats = pick_patterns(rng, 2);
            p.ntasks = draw_tasks(rng, 3);
            int ntapes = 1 + int(rng.below(3));
            auto const aim = common_tapes(p, rng, pats, ntapes, -draw_length(rng, 150), true);
            common_knobs(k, rng, p.ntasks > 1, rng.below(3) == 0);
            int id = 0;
            auto call = [&](int task) {
                Op o;
                o.id = id++;
                o.task = task;
                o.code = int(rng.below(NCODES));
                o.pat = rng.pick(pats);
                o.kind = pick_kind(rng, patterns()[std::size_t(o.pat)]);
                o.a[0] = draw_method(rng);              // method
                o.a[1] = int(rng.below(5));                  // form, container
                o.a[2] = aim.pick(rng, o.pat, o.kind);
                o.a[3] = int(rng.below(2));                  // transform an owning result
                o.a[4] = int(rng.below(5));                  // 0 all, 1 n-th, 2 from the n-th, 3 some, 4 two rounds of n-th
                o.a[5] = int(rng.below(12));
                o.a[6] = int(rng.below(65536));
                p.ops.push_back(o);
            };
            for (int t = 0; t < p.ntasks; ++t)
                for (u32 n = 2 + rng.below(6); n-- > 0;) call(t);
            if (k.nest_1_in)
                for (u32 n = crowded(k, rng, 1 + rng.below(3), true); n-- > 0;) call(-1);
        }

        enum class Out { OK, NOMEM };

        void disarm(Frame &f)
        {
            f.fail_all_allocs = false;
            f.fail_alloc_at = f.fail_alloc_from = ~0ull;
            f.fail_alloc_mask = 0;
            f.allocs_armed = false;
        }
        // Runs f with the allocations of the library failing as the plan says. The n-th is relative to what f needed before.
        Out with_faults(Op const &op, int round, u64 needed, std::function<void()> const &run)
        {
            Frame &f = frame();
            f.allocs = 0;
            f.nomem = 0;
            u64 n = needed ? u64(op.a[5] + round) % needed : 0;
            switch (op.a[4])
            {
                case 0: f.fail_all_allocs = true; break;
                case 2: f.fail_alloc_from = n; break;
                case 3: f.fail_alloc_mask = unsigned(op.a[6]); break;
                default: f.fail_alloc_at = n; break;
            }
            f.allocs_armed = true;
            Out out = Out::OK;
            try { run(); }
            catch (std::bad_alloc const &) { out = Out::NOMEM; }
            catch (...)
            {
                disarm(f);
                violate("wrong-exception", "%s reported an allocation failure with another exception than std::bad_alloc", names[op.code]);
            }
            disarm(f);
            if (out == Out::NOMEM && !f.nomem) violate("spurious-failure", "%s reported an allocation failure, but no allocation failed", names[op.code]);
            probe(f.nomem ? (out == Out::NOMEM ? "failure_reported" : "failure_survived") : "no_allocation_needed");
            return out;
        }
        u64 count_allocs(std::function<void()> const &run)
        {
            Frame &f = frame();
            f.allocs = 0;
            f.allocs_armed = true;
            run();
            disarm(f);
            return f.allocs;
        }

        void exec(Op const &op)
        {
            if (op.a[2] >= tape_count()) return;
            Pattern const &p = patterns()[std::size_t(op.pat)];
            ResVT const &vt = p.kinds[op.kind].res;
            Window const *w = window_for(op.a[2], 0, 0);
            std::string const before(w->view());
            std::string const text = oriented(w, op.kind);
            int method = op.a[0];
            if (op.code == OWN_TEMP && op.a[1] >= 1) method = op.a[1] == 4 ? 2 : op.a[1] - 1;
            if (ask(p, op.kind, method, text).capped) { ++stats().skipped; return; }
            InFlight reading(w->t);
            long const live = alloc_stats().live_blocks;
            auto leaks = [&](char const *when) {
                if (alloc_stats().live_blocks != live)
                    violate("leak", "%s: %ld blocks allocated by the library are left after %s", names[op.code], alloc_stats().live_blocks - live, when);
            };
            auto input_same = [&] { if (w->view() != before) violate("input-changed", "%s changed the input", names[op.code]); };

            if (op.code == CALL || op.code == PULLS)
            {
                Obs normal[6], got[6];
                int n = 1;
                auto run = [&](Obs *out) {
                    if (op.code == CALL) { p.kinds[op.kind].call(op.a[0], op.a[1], w, out[0]); return; }
                    LazyVT const &lz = p.kinds[op.kind].lazy[op.a[6] % 4];
                    Mem m(lz.size);
                    lz.create(m.p, w, op.a[1]);
                    for (int i = 0; i < 4; ++i) lz.pull(m.p, i & 1, w, out[i]);
                    lz.destroy(m.p);
                };
                if (op.code == PULLS)
                {
                    n = 4;
                    int from = 0;
                    for (int i = 0; i < 5; ++i)
                    {
                        auto r = ask(p, op.kind, op.a[6] % 2 ? model::SEARCH : model::PREFIX, text, from);
                        if (r.capped) { ++stats().skipped; return; }
                        if (!r.matched || r.end[0] == r.begin[0]) break;
                        from = r.end[0];
                    }
                }
                run(normal);
                Frame &f = frame();
                f.fail_all_allocs = true;
                f.allocs_armed = true;
                f.nomem = 0;
                try { run(got); }
                catch (...) { disarm(f); violate("needs-memory", "%s failed because memory allocation fails", names[op.code]); }
                disarm(f);
                probe("view_without_memory");
                for (int i = 0; i < n; ++i)
                {
                    note_result(got[i]);
                    if (!normal[i].same(got[i]))
                        violate("needs-memory", "%s of pattern %s on %s gives %s when memory allocation fails, normally %s", names[op.code], show({p.text, p.len}).c_str(),
                                show(text).c_str(), got[i].str().c_str(), normal[i].str().c_str());
                }
                leaks("the call");
                input_same();
                return;
            }

            // the source, made without faults
            Mem view(vt.view_size);
            vt.view(view.p, method, w);
            Obs view_before;
            vt.view_obs(view.p, w, view_before);
            Text const want = text_of(view_before, text);
            bool need_own = op.code == OWN_COPY || op.code == OWN_ASSIGN || op.code == OWN_OPTIONAL || (op.code == TRANSFORM && op.a[3]);
            Mem own(vt.own_size), target(vt.own_size), vtarget(vt.view_size);
            if (need_own) vt.own_view(own.p, view.p);
            long const live_src = alloc_stats().live_blocks;

            // one attempt; what it made is compared and destroyed
            Text got;
            auto attempt = [&]() {
                bool made = false;
                got = Text{};
                auto finish = [&] { if (made) vt.own_text(target.p, got); };
                switch (op.code)
                {
                    case OWN_VIEW: vt.own_view(target.p, view.p); made = true; break;
                    case OWN_TEMP: vt.own_temp(target.p, method, op.a[1], text); made = true; break;
                    case OWN_COPY: vt.own_copy(target.p, own.p); made = true; break;
                    case OWN_ASSIGN:
                    {
                        // onto a result of something else, made without faults
                        Frame &f = frame();
                        bool armed = f.allocs_armed;
                        f.allocs_armed = false;
                        vt.own_temp(target.p, 0, 0, "");
                        f.allocs_armed = armed;
                        struct Kill { ResVT const &vt; void *p; bool on = true; ~Kill() { if (on) vt.own_destroy(p); } } kill{vt, target.p};
                        vt.own_assign(target.p, own.p);
                        kill.on = false;
                        made = true;
                        break;
                    }
                    case OWN_OPTIONAL:
                    {
                        int form = op.a[1] % 4;
                        if (form != 2) made = vt.own_optional(target.p, own.p, form);
                        else
                        {
                            Frame &f = frame();
                            bool armed = f.allocs_armed;
                            f.allocs_armed = false;
                            Mem copy(vt.own_size);
                            vt.own_copy(copy.p, own.p);
                            f.allocs_armed = armed;
                            struct Kill { ResVT const &vt; void *p; ~Kill() { vt.own_destroy(p); } } kill{vt, copy.p};
                            made = vt.own_optional(target.p, copy.p, form);
                        }
                        if (!made) { got.matched = false; got.n = want.n; }
                        break;
                    }
                    case VIEW_OPTIONAL:
                    {
                        bool has = vt.view_optional(vtarget.p, view.p, op.a[1] % 4);
                        Obs o;
                        if (has) { vt.view_obs(vtarget.p, w, o); got = text_of(o, text); }
                        else { got.matched = false; got.n = want.n; }
                        break;
                    }
                    case VIEW_TEXT: vt.view_text(view.p, op.a[1] & 1, got); break;
                    case TRANSFORM: vt.transform(op.a[3] ? own.p : view.p, op.a[3], got); break;
                }
                bool armed = frame().allocs_armed;
                frame().allocs_armed = false;
                finish();
                if (made) vt.own_destroy(target.p);
                frame().allocs_armed = armed;
            };
            auto check = [&](char const *when) {
                note_result(got);
                if (got.inconsistent) violate("wrong-content", "%s %s: accessors disagree (%s)", names[op.code], when, got.inconsistent);
                Text expect = want;
                if (!want.matched && (op.code == OWN_OPTIONAL || op.code == VIEW_OPTIONAL)) { for (auto &g : expect.g) g.clear(); expect.length = 0; }
                if (!(got == expect))
                    violate("wrong-content", "%s of pattern %s on %s %s gives %s, should be %s", names[op.code], show({p.text, p.len}).c_str(), show(text).c_str(), when,
                            got.str().c_str(), expect.str().c_str());
            };
            auto sources_same = [&] {
                Obs o;
                vt.view_obs(view.p, w, o);
                if (!o.same(view_before)) violate("source-changed", "%s changed the view it was applied to", names[op.code]);
                if (need_own)
                {
                    Text t;
                    vt.own_text(own.p, t);
                    if (!(t == want)) violate("source-changed", "%s changed the result it was applied to", names[op.code]);
                }
                input_same();
                if (alloc_stats().live_blocks != live_src)
                    violate("leak", "%s: %ld blocks allocated by the library are left", names[op.code], alloc_stats().live_blocks - live_src);
            };
            u64 needed = count_allocs(attempt);
            check("without faults");
            sources_same();
            if (needed) probe("operations_that_allocate");
            for (int round = 0; round < (op.a[4] == 4 ? int(std::min<u64>(needed, 6)) : 1); ++round)
            {
                if (with_faults(op, round, needed, attempt) == Out::OK) check("with failing allocations");
                sources_same();
            }
            attempt();
            check("after memory became available");
            sources_same();
            if (need_own) vt.own_destroy(own.p);
            leaks("everything was destroyed");
        }
        void nothing() {}
    }
    Workload const &workload()
    {
        static Workload const w{"C05", make_plan, nothing, exec, nothing, true, false};
        return w;
    }
}
