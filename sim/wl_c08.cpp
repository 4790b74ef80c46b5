// C08: streaming a result writes exactly its text, or stops at the stream's error.
#include <ostream>
#include <streambuf>
#include "wl_common.hpp"

namespace sim
{
    namespace
    {
        struct SinkError { int token; };

        // Where the characters go. Fails as told, counting characters it was asked to drain or to accept.
        struct Sink final : std::streambuf
        {
            enum Mode { NEVER, REFUSE, THROW };
            std::string buf, drained;
            int mode = NEVER, sync_mode = NEVER;
            long fail_at = -1, sync_at = -1;         // number of accepted characters, number of the sync
            bool once = false, short_writes = false;
            long syncs = 0;
            int failures = 0, after = 0;             // after: characters offered after a failure
            int token = 0;

            explicit Sink(int size) : buf(std::size_t(size), '\0')
            {
                if (size) setp(buf.data(), buf.data() + size);
            }
            std::string arrived() const { return drained + std::string(pbase(), std::size_t(pptr() - pbase())); }
            void tick() { LibRegion lib; step(SK_OUT, int(drained.size())); }
            bool failing(long room) const { return mode != NEVER && long(drained.size()) + room > fail_at && !(once && failures); }
            [[noreturn]] void fail_hard() { throw SinkError{token}; }

            int_type overflow(int_type c) override
            {
                UserRegion user;
                tick();
                if (failures) ++after;
                long pending = pptr() - pbase();
                bool has = !traits_type::eq_int_type(c, traits_type::eof());
                if (failing(pending + (has ? 1 : 0)))
                {
                    ++failures;
                    if (mode == THROW) fail_hard();
                    return traits_type::eof();
                }
                drain();
                if (has)
                {
                    if (buf.empty()) drained.push_back(traits_type::to_char_type(c));
                    else { *pptr() = traits_type::to_char_type(c); pbump(1); }
                }
                return traits_type::not_eof(c);
            }
            void drain()
            {
                drained.append(pbase(), std::size_t(pptr() - pbase()));
                if (!buf.empty()) setp(buf.data(), buf.data() + buf.size());
            }
            std::streamsize xsputn(char const *s, std::streamsize n) override
            {
                UserRegion user;
                if (n > 0 && failures) ++after;
                std::streamsize i = 0;
                for (; i < n; ++i)
                {
                    tick();
                    if (pptr() < epptr()) { *pptr() = s[i]; pbump(1); continue; }
                    if (traits_type::eq_int_type(overflow(traits_type::to_int_type(s[i])), traits_type::eof())) break;
                }
                return i;
            }
            int sync() override
            {
                UserRegion user;
                tick();
                long n = syncs++;
                if (sync_mode != NEVER && n == sync_at)
                {
                    ++failures;
                    return -1;
                }
                drain();
                return 0;
            }
        };

        void make_plan(Plan &p, Knobs &k, Rng &rng)
        {
            auto pats = pick_patterns(rng, 2);
            p.ntasks = draw_tasks(rng, 3);
            int ntapes = 1 + int(rng.below(3));
            bool const big = rng.below(4) == 0;
            auto const aim = common_tapes(p, rng, pats, ntapes, big ? -draw_length(rng, 150) : 40, big);
            common_knobs(k, rng, p.ntasks > 1, rng.below(4) == 0);
            int id = 0;
            auto add = [&](int task) {
                Op o;
                o.id = id++;
                o.task = task;
                o.pat = rng.pick(pats);
                o.kind = pick_kind(rng, patterns()[std::size_t(o.pat)]);
                o.a[0] = draw_method(rng);                          // method
                o.a[1] = int(rng.below(2));                              // owning
                o.a[2] = aim.pick(rng, o.pat, o.kind);
                o.a[3] = rng.below(2) ? 0 : 1 + int(rng.below(rng.below(8) ? 20 : 3000));      // buffer size
                o.a[4] = int(rng.below(6));                              // 0,1 no failure, 2 refuses, 3 throws, 4 sync fails, 5 has failed before
                o.a[5] = int(rng.below(4) ? rng.below(12) : rng.below(rng.below(2) ? 150 : 6000));
                o.a[6] = int(rng.below(4096));                           // what is written; once; unitbuf; exception mask
                o.a[7] = int(rng.below(1000));
                p.ops.push_back(o);
            };
            for (int t = 0; t < p.ntasks; ++t)
                for (u32 n = 2 + rng.below(7); n-- > 0;) add(t);
            if (k.nest_1_in)
                for (u32 n = crowded(k, rng, 1 + rng.below(3), true); n-- > 0;) add(-1);
        }

        void exec(Op const &op)
        {
            if (op.a[2] >= tape_count()) return;
            Pattern const &p = patterns()[std::size_t(op.pat)];
            ResVT const &vt = p.kinds[op.kind].res;
            Window const *w = window_for(op.a[2], 0, 0);
            std::string const text = oriented(w, op.kind);
            if (ask(p, op.kind, op.a[0], text).capped) { ++stats().skipped; return; }
            InFlight reading(w->t);
            Mem view(vt.view_size), own(vt.own_size);
            vt.view(view.p, op.a[0], w);
            Obs groups;
            vt.view_obs(view.p, w, groups);
            if (groups.inconsistent) return;
            Text const content = text_of(groups, text);
            bool const o = op.a[1];
            if (o) vt.own_view(own.p, view.p);
            void const *r = o ? own.p : view.p;
            long const blocks = alloc_stats().live_blocks;

            // what is written, one after the other, to the same stream
            int items[3], n = 1 + (op.a[6] & 1) + ((op.a[6] >> 1) & 1);
            for (int i = 0; i < n; ++i)
            {
                int x = (op.a[6] >> (2 + i)) % (groups.n + 1);
                items[i] = (op.a[6] >> 5 & 1) && i == 0 ? -1 : x - 1;
            }
            bool const once = op.a[6] >> 6 & 1, unit = (op.a[6] >> 7 & 1) || op.a[4] == 4;
            auto mask = std::ios_base::goodbit;
            if (op.a[6] >> 8 & 1) mask |= std::ios_base::badbit;
            if (op.a[6] >> 9 & 1) mask |= std::ios_base::failbit;
            if (op.a[4] == 4) mask &= ~std::ios_base::badbit;     // the standard library cannot report this one by throwing

            auto describe = [&] {
                std::string s = "writing";
                for (int i = 0; i < n; ++i) s += items[i] < 0 ? " the result" : " group " + std::to_string(items[i]);
                s += o ? " of an owning result" : " of a result";
                s += " of pattern " + show({p.text, p.len}) + " on " + show(text);
                return s;
            };
            for (int attempt = 0; attempt < 2; ++attempt)
            {
                int const fault = attempt == 0 ? op.a[4] : 0;
                Sink sink(attempt == 0 ? op.a[3] : 7);
                sink.token = op.a[7];
                if (fault == 2 || fault == 3) { sink.mode = fault == 2 ? Sink::REFUSE : Sink::THROW; sink.fail_at = op.a[5]; sink.once = once; }
                if (fault == 4) { sink.sync_mode = Sink::REFUSE; sink.sync_at = op.a[5]; }
                std::ostream os(&sink);
                if (unit) os.setf(std::ios_base::unitbuf);
                auto const before_state = fault == 5 ? (op.a[5] % 3 == 0 ? std::ios_base::failbit : op.a[5] % 3 == 1 ? std::ios_base::badbit : std::ios_base::eofbit) : std::ios_base::goodbit;
                if (fault == 5) os.setstate(before_state);
                else if (attempt == 0) os.exceptions(mask);
                std::string expect;
                bool threw = false, ours = false;
                int done = 0;
                try
                {
                    for (; done < n; ++done)
                    {
                        expect += items[done] < 0 ? content.g[0] : content.g[items[done]];
                        vt.put(os, r, o, items[done]);
                    }
                }
                catch (SinkError const &e) { threw = ours = true; if (e.token != sink.token) violate("wrong-exception", "%s: another exception came out", describe().c_str()); }
                catch (std::ios_base::failure const &) { threw = true; }
                catch (...) { violate("wrong-exception", "%s: an exception that nobody threw came out", describe().c_str()); }
                std::string const got = sink.arrived();
                log_value(got.size());
                auto const state = os.rdstate();
                bool const failed = sink.failures > 0 || fault == 5;
                if (sink.failures) { fired(fault == 4 ? "sync_failure" : fault == 3 ? "stream_throw" : "stream_refuse"); if (once) probe("transient_stream_failure"); }
                if (fault == 5) fired("stream_already_failed");
                if (os.exceptions() != (attempt == 0 && fault != 5 ? mask : std::ios_base::goodbit))
                    violate("wrong-state", "%s changed which failures the stream throws", describe().c_str());
                if (!failed)
                {
                    if (threw) violate("wrong-exception", "%s: an exception came out although the stream did not fail", describe().c_str());
                    if (got != expect) violate("wrong-text", "%s: the stream received %s, should be %s", describe().c_str(), show(got).c_str(), show(expect).c_str());
                    if (state != std::ios_base::goodbit) violate("wrong-state", "%s: the stream did not fail but shows a failure", describe().c_str());
                    probe(expect.empty() ? "wrote_nothing" : "wrote_all");
                }
                else
                {
                    std::string const limit = fault == 5 ? "" : expect;
                    if (limit.compare(0, got.size(), got) != 0 || got.size() > limit.size())
                        violate("wrong-text", "%s: the stream failed, and received %s, which is not a beginning of %s", describe().c_str(), show(got).c_str(), show(limit).c_str());
                    if (sink.after) violate("sent-after-failure", "%s: more characters were sent to a stream that had failed", describe().c_str());
                    if (state == std::ios_base::goodbit) violate("wrong-state", "%s: the stream failed but does not show it", describe().c_str());
                    bool const should = ((attempt == 0 && fault != 5 ? mask : std::ios_base::goodbit) & state) != 0;
                    if (threw != should) violate("wrong-exception", "%s: the stream failed and %s throw, but the caller saw %s", describe().c_str(), should ? "should" : "should not", threw ? "an exception" : "none");
                    probe(threw ? "failure_thrown" : "failure_shown");
                }
                if (alloc_stats().live_blocks != blocks) violate("leak", "%s left %ld blocks allocated", describe().c_str(), alloc_stats().live_blocks - blocks);
                Obs again;
                vt.view_obs(view.p, w, again);
                if (!again.same(groups)) violate("result-changed", "%s changed the result", describe().c_str());
                if (o)
                {
                    Text t;
                    vt.own_text(own.p, t);
                    if (t.inconsistent || !(t == content)) violate("result-changed", "%s changed the result", describe().c_str());
                }
            }
            if (o) vt.own_destroy(own.p);
        }
        void nothing() {}
    }
    Workload const &workload()
    {
        static Workload const w{"C08", make_plan, nothing, exec, nothing, true, false};
        return w;
    }
}
