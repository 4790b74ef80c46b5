// C04: only the given input is ever touched, even when it changes under the reader.
#include <cstdlib>
#include "wl_common.hpp"

namespace sim
{
    namespace
    {
        enum { CALL, PULLS, REWRITE, SCRIBBLE };

        void make_plan(Plan &p, Knobs &k, Rng &rng)
        {
            auto pats = pick_patterns(rng, 3);
            p.ntasks = draw_tasks(rng, 3);
            int ntapes = 1 + int(rng.below(unsigned(p.ntasks) + 1));
            auto const aim = common_tapes(p, rng, pats, ntapes, 40, rng.below(2));
            int spare = int(p.texts.size());
            for (int i = 0; i < 3; ++i) p.texts.push_back(gen_text(rng, patterns()[std::size_t(rng.pick(pats))], 40));
            common_knobs(k, rng, p.ntasks > 1, rng.below(3) == 0);
            static constexpr u32 rates[] = {0, 1, 2, 3, 5, 9, 20, 60};
            k.mutate_1_in = rates[rng.below(8)];
            int id = 0;
            auto call = [&](int task) {
                Op o;
                o.id = id++;
                o.task = task;
                o.code = rng.below(4) ? CALL : PULLS;
                o.pat = rng.pick(pats);
                o.kind = pick_kind(rng, patterns()[std::size_t(o.pat)]);
                o.a[0] = o.code == CALL ? draw_method(rng) : int(rng.below(2));
                o.a[1] = int(rng.below(5));
                o.a[2] = aim.pick(rng, o.pat, o.kind);
                if (rng.below(2) == 0) o.a[3] = int(rng.below(6));
                if (rng.below(2) == 0) o.a[4] = int(rng.below(6));
                o.a[5] = 1 + int(rng.below(5));
                p.ops.push_back(o);
            };
            for (int t = 0; t < p.ntasks; ++t)
                for (u32 n = 1 + rng.below(4); n-- > 0;)
                {
                    u32 r = rng.below(6);
                    if (r < 2)
                    {
                        Op o;
                        o.id = id++;
                        o.task = t;
                        o.code = r ? REWRITE : SCRIBBLE;
                        o.a[0] = int(rng.below(unsigned(ntapes)));
                        o.a[1] = spare + int(rng.below(3));
                        o.a[2] = int(rng.below(30));
                        p.ops.push_back(o);
                    }
                    call(t);
                }
            if (k.nest_1_in)
                for (u32 n = crowded(k, rng, 1 + rng.below(4), true); n-- > 0;) call(-1);
        }

        void check(Op const &op, Obs const &o, Window const *w)
        {
            Pattern const &p = patterns()[std::size_t(op.pat)];
            if (o.inconsistent) violate("bad-range", "pattern %s: %s", show({p.text, p.len}).c_str(), o.inconsistent);
            for (int i = 0; i < o.n; ++i)
            {
                if (o.b[i] == -1 && o.e[i] == -1) continue;
                if (o.b[i] < 0 || o.e[i] > w->size() || o.b[i] > o.e[i])
                    violate("bad-range", "pattern %s: group %d is [%d,%d), the input has %d characters", show({p.text, p.len}).c_str(), i, o.b[i], o.e[i], w->size());
            }
            if (frame().mutations) probe("checked_after_mid_call_write");
        }

        void exec(Op const &op)
        {
            if (op.a[0] >= tape_count() && op.code >= REWRITE) return;
            if (op.code == REWRITE) { do_rewrite(op); return; }
            if (op.code == SCRIBBLE)         // in place, also while others read
            {
                if (op.a[1] >= int(plan().texts.size())) return;
                Tape &t = tape(op.a[0]);
                auto const &src = plan().texts[std::size_t(op.a[1])];
                if (t.in_flight) probe("scribbled_on_input_in_use");
                for (int i = 0; i < int(src.size()) && op.a[2] + i < t.len; ++i) t.text[op.a[2] + i] = src[std::size_t(i)];
                return;
            }
            if (op.a[2] >= tape_count()) return;
            Pattern const &p = patterns()[std::size_t(op.pat)];
            int cut_front = op.a[3], cut_back = op.a[4];
            if (op.kind == PTR || op.kind == STR)
            {
                // raw pointers are only watched where the inaccessible page is
                if (tape(op.a[2]).placement == 0) cut_back = 0;
                else cut_front = 0;
            }
            Window const *w = window_for(op.a[2], cut_front, cut_back);
            std::string const text = oriented(w, op.kind);
            for (int from = 0, i = 0; i < (op.code == CALL ? 1 : op.a[5]); ++i)
            {
                auto cost = ask(p, op.kind, op.code == CALL ? model::Method(op.a[0]) : op.a[0] ? model::SEARCH : model::PREFIX, text, from);
                if (cost.capped) { ++stats().skipped; return; }
                if (!cost.matched || cost.end[0] == cost.begin[0]) break;
                from = cost.end[0];
            }
            frame().soft_budget = 300'000 + 20 * text.size();   // text written meanwhile can make backtracking explode: that is not what is checked here
            InFlight reading(w->t);
            if (op.code == CALL)
            {
                Obs o;
                p.kinds[op.kind].call(op.a[0], op.a[1], w, o);
                note_result(o);
                check(op, o, w);
                return;
            }
            LazyVT const &vt = p.kinds[op.kind].lazy[op.a[0]];
            if (!vt.create) return;
            void *mem = std::malloc(vt.size);
            vt.create(mem, w, op.a[1]);
            for (int i = 0; i < op.a[5]; ++i)
            {
                Obs o;
                vt.pull(mem, i & 1, w, o);
                note_result(o);
                check(op, o, w);
            }
            vt.destroy(mem);
            std::free(mem);
        }
        void nothing() {}
    }
    Workload const &workload()
    {
        static Workload const w{"C04", make_plan, nothing, exec, nothing, true, true};
        return w;
    }
}
