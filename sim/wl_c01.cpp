// C01: calls in flight never influence each other's answers.
#include "wl_common.hpp"

namespace sim
{
    namespace
    {
        enum { CALL, REWRITE };

        void make_plan(Plan &p, Knobs &k, Rng &rng)
        {
            auto pats = pick_patterns(rng, 3);
            p.ntasks = draw_tasks(rng, 4);
            int ntapes = 1 + int(rng.below(unsigned(p.ntasks) + 1));
            auto const aim = common_tapes(p, rng, pats, ntapes, 44);
            int spare = int(p.texts.size());
            for (int i = 0; i < 3; ++i) p.texts.push_back(gen_text(rng, patterns()[std::size_t(rng.pick(pats))], 44));
            common_knobs(k, rng, p.ntasks > 1, true);
            int id = 0;
            auto call = [&](int task) {
                Op o;
                o.id = id++;
                o.task = task;
                o.code = CALL;
                o.pat = rng.pick(pats);
                o.kind = pick_kind(rng, patterns()[std::size_t(o.pat)]);
                o.a[0] = draw_method(rng);
                o.a[1] = int(rng.below(5));
                o.a[2] = aim.pick(rng, o.pat, o.kind);
                if (rng.below(4) == 0) o.a[3] = int(rng.below(4));
                if (rng.below(4) == 0) o.a[4] = int(rng.below(4));
                p.ops.push_back(o);
            };
            for (int t = 0; t < p.ntasks; ++t)
                for (u32 n = 1 + rng.below(p.ntasks > 5 ? 2 : 4); n-- > 0;)
                {
                    if (rng.below(4) == 0)
                    {
                        Op o;
                        o.id = id++;
                        o.task = t;
                        o.code = REWRITE;
                        o.a[0] = int(rng.below(unsigned(ntapes)));
                        o.a[1] = spare + int(rng.below(3));
                        o.a[2] = int(rng.below(2));
                        Op again = p.ops.empty() ? o : p.ops.back();
                        if (again.code == CALL && again.task == t && rng.below(2))
                        {
                            // the same call on the same place with another text
                            o.a[0] = again.a[2];
                            p.ops.push_back(o);
                            again.id = id++;
                            p.ops.push_back(again);
                            continue;
                        }
                        p.ops.push_back(o);
                    }
                    call(t);
                }
            if (k.nest_1_in)
                for (u32 n = crowded(k, rng, 1 + rng.below(k.nest_depth > 2 ? 14 : 5), true); n-- > 0;) call(-1);
        }

        void exec(Op const &op)
        {
            if (op.code == REWRITE) { do_rewrite(op); return; }
            if (op.a[2] >= tape_count()) return;
            Pattern const &p = patterns()[std::size_t(op.pat)];
            Window const *w = window_for(op.a[2], op.a[3], op.a[4]);
            std::string text = oriented(w, op.kind);
            auto want = ask(p, op.kind, op.a[0], text);
            if (want.capped) { ++stats().skipped; return; }
            Obs got;
            {
                InFlight reading(w->t);
                p.kinds[op.kind].call(op.a[0], op.a[1], w, got);
            }
            note_result(got);
            probe(want.matched ? "calls_matched" : "calls_failed");
            if (want.matched && want.end[0] == want.begin[0]) probe("calls_matched_empty");
            if (task_depth()) probe("nested_call_checked");
            std::string d = differs(got, want, p.ref.groups());
            if (!d.empty())
            {
                static char const *names[] = {"match", "match_prefix", "search"};
                violate("wrong-answer", "%s of pattern %s (flags %u) on %s: %s", names[op.a[0]], show({p.text, p.len}).c_str(), p.flags, show(text).c_str(), d.c_str());
            }
        }
        void nothing() {}
    }
    Workload const &workload()
    {
        static Workload const w{"C01", make_plan, nothing, exec, nothing, true, false};
        return w;
    }
}
