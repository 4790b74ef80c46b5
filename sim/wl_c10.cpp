// C10: a failing input is never turned into an answer.
#include <ostream>
#include <streambuf>
#include "wl_common.hpp"

namespace sim
{
    namespace
    {
        enum { CALL, PULLS, OWN_VIEW, VIEW_TEXT, PUT, TRANSFORM, NCODES };
        char const *const names[NCODES] = {"a call", "a pull", "as_memory_owner", "copying a group out", "writing to a stream", "transform_groups"};

        struct Sink final : std::streambuf
        {
            std::string got;
            int_type overflow(int_type c) override { UserRegion user; got.push_back(char(c)); return c; }
            std::streamsize xsputn(char const *s, std::streamsize n) override { UserRegion user; got.append(s, std::size_t(n)); return n; }
        };

        void make_plan(Plan &p, Knobs &k, Rng &rng)
        {
            auto pats = pick_patterns(rng, 2);
            p.ntasks = draw_tasks(rng, 3);
            int ntapes = 1 + int(rng.below(3));
            bool const big = rng.below(3) == 0;
            auto const aim = common_tapes(p, rng, pats, ntapes, big ? -draw_length(rng, 100) : 40, big || rng.below(2));
            common_knobs(k, rng, p.ntasks > 1, false);
            static constexpr u32 rates[] = {0, 0, 3, 10, 30, 100, 300};
            k.throw_1_in = rates[rng.below(7)];
            int id = 0;
            auto add = [&](int task) {
                Op o;
                o.id = id++;
                o.task = task;
                u32 r = rng.below(8);
                o.code = r < 2 ? CALL : r < 3 ? PULLS : r < 5 ? OWN_VIEW : r < 6 ? VIEW_TEXT : r < 7 ? PUT : TRANSFORM;
                o.pat = rng.pick(pats);
                o.kind = pick_kind(rng, patterns()[std::size_t(o.pat)]);
                o.a[0] = draw_method(rng);                       // method
                if (o.code > PULLS && rng.below(2)) o.a[0] = 2;
                o.a[1] = int(rng.below(5));                           // form
                o.a[2] = aim.pick(rng, o.pat, o.kind);
                o.a[3] = rng.below(3) ? int(rng.below(10000)) : -1;   // fails at this access (modulo how many there are), -1: when the scheduler says so
                o.a[4] = int(rng.below(2));                           // and ever after
                o.a[5] = int(rng.below(8));                           // group
                o.a[6] = 1 + int(rng.below(4));                       // pulls
                p.ops.push_back(o);
            };
            for (int t = 0; t < p.ntasks; ++t)
                for (u32 n = 2 + rng.below(8); n-- > 0;) add(t);
        }

        void disarm()
        {
            Frame &f = frame();
            f.faults_off = true;
            f.throw_at = ~0ull;
            f.throw_always = false;
        }
        // Runs something that reads the input while it may fail. True: completed.
        template<typename F>
        bool with_faults(Op const &op, u64 accesses, F const &f)
        {
            Frame &fr = frame();
            u64 const thrown_before = fr.throws;
            if (op.a[3] >= 0) { fr.throw_at = fr.steps + (accesses ? u64(op.a[3]) % accesses : 0); fr.throw_always = op.a[4]; }
            fr.faults_off = false;
            fr.throw_reads_only = op.code > PULLS;
            fr.may_die = op.code <= PULLS;
            bool ok = false;
            try { f(); ok = true; }
            catch (InputError const &) {}
            catch (...) { disarm(); violate("wrong-exception", "%s: the input failed and another exception came out", names[op.code]); }
            disarm();
            fr.may_die = false;
            bool const thrown = fr.throws != thrown_before;
            if (ok && thrown) violate("failure-hidden", "%s of pattern %s completed although reading its input failed", names[op.code],
                                      show({patterns()[std::size_t(op.pat)].text, patterns()[std::size_t(op.pat)].len}).c_str());
            if (!ok && !thrown) violate("wrong-exception", "%s reported a failure of the input, which did not fail", names[op.code]);
            probe(thrown ? "failure_reached_caller" : "input_did_not_fail");
            return ok;
        }

        void exec(Op const &op)
        {
            if (op.a[2] >= tape_count()) return;
            Pattern const &p = patterns()[std::size_t(op.pat)];
            KindVT const &kv = p.kinds[op.kind];
            ResVT const &vt = kv.res;
            Window const *w = window_for(op.a[2], 0, 0);
            std::string const text = oriented(w, op.kind);
            Frame &f = frame();
            disarm();
            InFlight reading(w->t);
            if (op.code == CALL || op.code == PULLS)
            {
                int const n = op.code == CALL ? 1 : op.a[6];
                for (int from = 0, i = 0; i < n; ++i)
                {
                    auto cost = ask(p, op.kind, op.code == CALL ? model::Method(op.a[0]) : op.a[0] % 2 ? model::SEARCH : model::PREFIX, text, from);
                    if (cost.capped) { ++stats().skipped; return; }
                    if (!cost.matched || cost.end[0] == cost.begin[0]) break;
                    from = cost.end[0];
                }
                Obs normal[4], got[4];
                int failed_at = -1;
                auto run = [&](Obs *out, bool faults, u64 accesses) {
                    if (op.code == CALL)
                    {
                        // the result is only looked at when the input works again
                        Mem v(vt.view_size);
                        bool ok = true;
                        if (faults) ok = with_faults(op, accesses, [&] { vt.view(v.p, op.a[0], w); });
                        else vt.view(v.p, op.a[0], w);
                        if (ok) vt.view_obs(v.p, w, out[0]);
                        else failed_at = 0;
                        return;
                    }
                    LazyVT const &lz = kv.lazy[op.a[0] % 2];
                    Mem m(lz.size);
                    lz.create(m.p, w, op.a[1]);
                    for (int i = 0; i < n && failed_at < 0; ++i)
                    {
                        if (!faults) { lz.pull(m.p, i & 1, w, out[i]); continue; }
                        // pull() observes its result as well; the failure may hit that, which is reported like a failed pull
                        if (!with_faults(op, accesses, [&] { lz.pull(m.p, i & 1, w, out[i]); })) failed_at = i;
                    }
                    lz.destroy(m.p);
                };
                u64 before = f.steps;
                run(normal, false, 0);
                u64 accesses = f.steps - before;
                run(got, true, accesses);
                for (int i = 0; i < (failed_at < 0 ? n : failed_at); ++i)
                {
                    note_result(got[i]);
                    if (!got[i].same(normal[i]))
                        violate("wrong-answer", "%s of pattern %s on %s gives %s, normally %s", names[op.code], show({p.text, p.len}).c_str(), show(text).c_str(), got[i].str().c_str(), normal[i].str().c_str());
                }
                return;
            }
            if (op.kind == CONT) return;         // contiguous text is copied as memory, which cannot fail
            if (ask(p, op.kind, op.a[0], text).capped) { ++stats().skipped; return; }
            Mem view(vt.view_size), own(vt.own_size);
            vt.view(view.p, op.a[0], w);
            Obs groups;
            vt.view_obs(view.p, w, groups);
            if (groups.inconsistent) return;
            Text const content = text_of(groups, text);
            long const blocks = alloc_stats().live_blocks;
            int const group = op.a[5] % (groups.n + 1) - 1;
            Text got;
            auto attempt = [&] {
                got = Text{};
                switch (op.code)
                {
                    case OWN_VIEW:
                        vt.own_view(own.p, view.p);
                        {
                            bool was = frame().faults_off;
                            frame().faults_off = true;
                            vt.own_text(own.p, got);
                            vt.own_destroy(own.p);
                            frame().faults_off = was;
                        }
                        break;
                    case VIEW_TEXT: vt.view_text(view.p, op.a[1] & 1, got); break;
                    case TRANSFORM: vt.transform(view.p, 0, got); break;
                    case PUT:
                    {
                        Sink sink;
                        std::ostream os(&sink);
                        std::string const &want = content.g[group < 0 ? 0 : group];
                        try { vt.put(os, view.p, 0, group); }
                        catch (...)
                        {
                            if (want.compare(0, sink.got.size(), sink.got) != 0)
                                violate("wrong-text", "writing to a stream: the input failed, and the stream received %s, not a beginning of %s", show(sink.got).c_str(), show(want).c_str());
                            throw;
                        }
                        got = content;
                        got.g[group < 0 ? 0 : group] = sink.got;
                        break;
                    }
                }
            };
            auto check = [&](char const *when) {
                note_result(got);
                if (got.inconsistent || !(got == content))
                    violate("wrong-text", "%s of pattern %s on %s %s gives %s, should be %s", names[op.code], show({p.text, p.len}).c_str(), show(text).c_str(), when, got.str().c_str(), content.str().c_str());
                Obs again;
                vt.view_obs(view.p, w, again);
                if (!again.same(groups)) violate("result-changed", "%s changed the result", names[op.code]);
                if (alloc_stats().live_blocks != blocks) violate("leak", "%s left %ld blocks allocated", names[op.code], alloc_stats().live_blocks - blocks);
            };
            u64 before = f.steps;
            attempt();
            u64 accesses = f.steps - before;
            check("normally");
            if (!with_faults(op, accesses, attempt)) { got = content; check("after a failure"); }
            else check("with an input that may fail");
            attempt();
            check("after the input recovered");
        }
        void nothing() {}
    }
    Workload const &workload()
    {
        static Workload const w{"C10", make_plan, nothing, exec, nothing, false, false};
        return w;
    }
}
