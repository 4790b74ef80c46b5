// C09: every call finishes on its own, whatever the others do.
#include "wl_common.hpp"

namespace sim
{
    namespace
    {
        enum { CALL, DRAIN, EACH };
        // Accesses to the input allowed per step of the model (see DESIGN.md for how far real executions stay below).
        constexpr u64 PER_STEP = 50, FIXED = 4000;
        u64 worst = 0;                                     // accesses per model step seen so far, in hundredths

        void make_plan(Plan &p, Knobs &k, Rng &rng)
        {
            auto pats = pick_patterns(rng, 3);
            p.ntasks = draw_tasks(rng, 4);
            int ntapes = 1 + int(rng.below(unsigned(p.ntasks) + 1));
            auto const aim = common_tapes(p, rng, pats, ntapes, 40, rng.below(2));
            common_knobs(k, rng, p.ntasks > 1, rng.below(4) == 0);
            static constexpr u32 rates[] = {0, 1, 3, 10, 30, 100, 300};
            if (p.ntasks > 1)
            {
                k.stall_1_in = rates[rng.below(7)];
                k.abandon_1_in = rng.below(2) ? rates[rng.below(7)] : 0;
            }
            int id = 0;
            auto call = [&](int task) {
                Op o;
                o.id = id++;
                o.task = task;
                u32 r = rng.below(8);
                o.code = r < 4 ? CALL : r < 6 ? DRAIN : EACH;
                o.pat = rng.pick(pats);
                o.kind = pick_kind(rng, patterns()[std::size_t(o.pat)]);
                o.a[0] = int(rng.below(o.code == CALL ? 3 : 2));
                o.a[1] = int(rng.below(5));
                o.a[2] = aim.pick(rng, o.pat, o.kind);
                o.a[3] = int(rng.below(4));                // pulls after the end
                p.ops.push_back(o);
            };
            for (int t = 0; t < p.ntasks; ++t)
                for (u32 n = 1 + rng.below(4); n-- > 0;) call(t);
            if (k.nest_1_in)
                for (u32 n = crowded(k, rng, 1 + rng.below(4), true); n-- > 0;) call(-1);
        }

        void set_budget(u64 model_steps, std::size_t len)
        {
            Frame &f = frame();
            f.budget = f.steps + PER_STEP * (model_steps + len) + FIXED;
        }
        void measure(u64 used, u64 model_steps, std::size_t len)
        {
            u64 r = used * 100 / (model_steps + len + FIXED / PER_STEP);
            if (r > worst) worst = r;
        }

        void exec(Op const &op)
        {
            if (op.a[2] >= tape_count()) return;
            Pattern const &p = patterns()[std::size_t(op.pat)];
            Window const *w = window_for(op.a[2], 0, 0);
            std::string const text = oriented(w, op.kind);
            InFlight reading(w->t);
            if (op.code == CALL)
            {
                auto want = ask(p, op.kind, op.a[0], text);
                if (want.capped) { ++stats().skipped; return; }
                set_budget(want.steps, text.size());
                Obs got;
                p.kinds[op.kind].call(op.a[0], op.a[1], w, got);
                note_result(got);
                measure(frame().steps, want.steps, text.size());
                probe("calls_completed");
                return;
            }
            // a whole sequence of pulls; the model only says how much work it is
            u64 steps = 0;
            for (int from = 0;;)
            {
                auto r = ask(p, op.kind, op.a[0] ? model::SEARCH : model::PREFIX, text, from);
                steps += r.steps + 1;
                if (r.capped || steps > 300'000 + 6 * text.size()) { ++stats().skipped; return; }
                if (!r.matched || r.end[0] == r.begin[0]) break;
                from = r.end[0];
            }
            set_budget(steps, text.size());
            int const limit = int(text.size()) + 2;
            LazyVT const &vt = p.kinds[op.kind].lazy[op.code == DRAIN ? op.a[0] : op.a[0] + 2];
            Mem m(vt.size);
            vt.create(m.p, w, op.a[1]);
            int n = 0;
            if (op.code == DRAIN)
            {
                Obs o;
                do
                {
                    vt.pull(m.p, n & 1, w, o);
                    note_result(o);
                    if (++n > limit)
                        violate("no-end", "a %s of pattern %s on %s delivered %d matches and goes on", op.a[0] ? "searcher" : "tokenizer", show({p.text, p.len}).c_str(), show(text).c_str(), n);
                } while (o.matched);
                measure(frame().steps, steps, text.size());
                set_budget(steps, text.size());
                for (int i = 0; i < op.a[3]; ++i) { vt.pull(m.p, i & 1, w, o); note_result(o); }
                probe("sequences_completed");
            }
            else
            {
                static Obs many[4][8];
                n = vt.each(m.p, w, many[current_task() & 3], 0 + 8);
                // each() stops after 9; longer ones are pulled by hand
                while (n > 8 && vt.active(m.p, 0))
                {
                    Obs o;
                    vt.pull(m.p, 0, w, o);
                    if (++n > limit)
                        violate("no-end", "a %s range of pattern %s on %s delivered %d matches and goes on", op.a[0] ? "find_all" : "tokenize", show({p.text, p.len}).c_str(), show(text).c_str(), n);
                }
                measure(frame().steps, steps, text.size());
                probe("ranges_completed");
            }
            vt.destroy(m.p);
        }
        void begin() {}
        void finish() { if (getenv("SIM_WORST")) fprintf(stderr, "worst %llu\n", (unsigned long long)worst); }
    }
    Workload const &workload()
    {
        static Workload const w{"C09", make_plan, begin, exec, finish, true, false};
        return w;
    }
}
