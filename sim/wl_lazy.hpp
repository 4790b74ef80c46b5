// Histories over lazy tokenizers, searchers and match ranges. LAZY_WRITES: the text changes between pulls, and reads are counted (C03).
#include <cstdlib>
#include <sys/mman.h>
#include "wl_common.hpp"

namespace sim
{
    namespace
    {
        enum { MAKE, PULL, ACTIVE, CURRENT, COPY, MOVE, ASSIGN, DROP, EACH, DRAIN, WRITE, NCODES };
        char const *const lazy_names[4] = {"tokenizer", "searcher", "tokenize range", "find_all range"};
        constexpr int NSLOTS = 80;

        struct Slot
        {
            bool live = false, busy = false, unknown = false;
            void *mem = nullptr;
            std::size_t cap = 0;
            int pat = -1, kind = 0, m = 0;
            Window const *w = nullptr;
            // what the model says
            int cur = 0;
            bool active = true;             // of the underlying generator
            model::Result last;             // of a range
            u64 pulls = 0;
        };
        Slot slots[NSLOTS];
        Obs many[64];

        LazyVT const &vt(Slot const &s) { return patterns()[std::size_t(s.pat)].kinds[s.kind].lazy[s.m]; }
        Pattern const &pat(Slot const &s) { return patterns()[std::size_t(s.pat)]; }

        void reserve(Slot &s, std::size_t n)
        {
            if (s.cap >= n) return;
            std::free(s.mem);
            s.mem = std::malloc(n);
            s.cap = n;
        }

        struct Use                            // the object is being operated on
        {
            Slot &s;
            explicit Use(Slot &s) : s(s) { s.busy = true; }
            ~Use() { s.busy = false; }
        };

        // Guards the text of un-instrumented kinds while an operation that may not read it runs.
        struct NoReading
        {
            Tape *t = nullptr;
            u64 derefs_before;
            char const *what;
            NoReading(Slot const &s, char const *what) : derefs_before(frame().derefs), what(what)
            {
#if LAZY_WRITES
                if ((s.kind == PTR || s.kind == STR) && !s.w->t->in_flight)
                {
                    t = s.w->t;
                    mprotect(t->page, TAPE_CAP, PROT_NONE);
                    probe("input_made_unreadable");
                }
#else
                (void)s;
#endif
            }
            ~NoReading() { if (t) mprotect(t->page, TAPE_CAP, PROT_READ | PROT_WRITE); }
            void check(Slot const &s) const
            {
#if LAZY_WRITES
                if (frame().derefs != derefs_before)
                    violate("reads", "%s of a %s read %llu characters of the input", what, lazy_names[s.m], (unsigned long long)(frame().derefs - derefs_before));
                if (s.kind != PTR && s.kind != STR) probe("no_read_checked");
#else
                (void)s;
#endif
            }
        };

        // Advances the model: what the next pull must deliver, on the text as it is now.
        model::Result advance(Slot &s, std::string const &text)
        {
            model::Result r;
            for (int i = 0; i < MAXG; ++i) r.begin[i] = r.end[i] = -1;
            if (!s.active) return r;
            r = ask(pat(s), s.kind, s.m % 2 ? model::SEARCH : model::PREFIX, text, s.cur);
            if (r.capped) { s.unknown = true; return r; }
            s.active = r.matched && r.end[0] > r.begin[0];
            if (r.matched) s.cur = r.end[0];
            return r;
        }
        void compare(Slot const &s, Obs const &o, model::Result const &want, char const *what, std::string const &text)
        {
            std::string d = differs(o, want, pat(s).ref.groups());
            if (!d.empty())
                violate("wrong-sequence", "%s number %llu of a %s of pattern %s (flags %u) on %s: %s", what, (unsigned long long)s.pulls, lazy_names[s.m],
                        show({pat(s).text, pat(s).len}).c_str(), pat(s).flags, show(text).c_str(), d.c_str());
        }

        void destroy(Slot &s)
        {
            if (!s.live) return;
            Use use(s);
            NoReading no(s, "destruction");
            vt(s).destroy(s.mem);
            no.check(s);
            s.live = false;
        }
        void check_active(Slot &s, int how)
        {
            bool want = s.m < 2 ? s.active : s.last.matched;
            NoReading no(s, "an activity or end test");
            bool got = vt(s).active(s.mem, how);
            no.check(s);
            if (got != want)
                violate("wrong-activity", "%s of pattern %s after %llu pulls is %s", lazy_names[s.m], show({pat(s).text, pat(s).len}).c_str(),
                        (unsigned long long)s.pulls, got ? "still active" : "not active");
        }
        bool pull(Slot &s, int how)
        {
            std::string text = oriented(s.w, s.kind);
            Slot ahead = s;
            auto want = advance(ahead, text);
            if (want.capped) { s.unknown = true; ++stats().skipped; return false; }
            bool was_active = s.active;
            Obs o;
            {
                InFlight reading(s.w->t);
                vt(s).pull(s.mem, how, s.w, o);
            }
            s.cur = ahead.cur;
            s.active = ahead.active;
            s.last = want;
            ++s.pulls;
            note_result(o);
            if (!was_active) probe("pull_after_end");
            else if (want.matched) probe(s.pulls > 1 ? "pull_matched_again" : "pull_matched");
            if (want.matched && want.end[0] == want.begin[0]) probe("pull_matched_empty");
            compare(s, o, want, "pull", text);
            return want.matched;
        }

        void exec(Op const &op)
        {
            if (op.code == WRITE)
            {
                // text a[1] is written over tape a[0] from offset a[2]; positions stay valid
                int tp = op.a[0];
                if (tp >= tape_count() || op.a[1] >= int(plan().texts.size())) return;
                Tape &t = tape(tp);
                if (t.in_flight) { probe("write_skipped_input_in_use"); return; }
                auto const &src = plan().texts[std::size_t(op.a[1])];
                for (int i = 0; i < int(src.size()) && op.a[2] + i < t.len; ++i) t.text[op.a[2] + i] = src[std::size_t(i)];
                log_value(u64(tp));
                probe("text_written_between_pulls");
                return;
            }
            Slot &s = slots[op.a[0] % NSLOTS];
            if (s.busy) { probe("object_in_use"); return; }
            if (op.code == MAKE)
            {
                if (op.a[2] >= tape_count()) return;
                Pattern const &p = patterns()[std::size_t(op.pat)];
                if (!p.kinds[op.kind].lazy[op.a[1]].create) return;
                destroy(s);
                s.pat = op.pat;
                s.kind = op.kind;
                s.m = op.a[1];
                s.w = window_for(op.a[2], op.a[3], op.a[4]);
                s.cur = 0;
                s.active = true;
                s.unknown = false;
                s.pulls = 0;
                for (int i = 0; i < MAXG; ++i) s.last.begin[i] = s.last.end[i] = -1;
                s.last.matched = false;
                reserve(s, vt(s).size);
                Use use(s);
                if (s.m < 2)
                {
                    NoReading no(s, "creation");
                    vt(s).create(s.mem, s.w, op.a[5]);
                    no.check(s);
                    s.live = true;
                    return;
                }
                std::string text = oriented(s.w, s.kind);
                auto want = advance(s, text);
                if (want.capped) { ++stats().skipped; return; }
                {
                    InFlight reading(s.w->t);
                    vt(s).create(s.mem, s.w, op.a[5]);
                }
                s.last = want;
                s.live = true;
                return;
            }
            if (!s.live || s.unknown) return;
            switch (op.code)
            {
                case PULL: { Use use(s); pull(s, op.a[1]); return; }
                case DRAIN:
                {
                    Use use(s);
                    int n = 0;
                    int const most = op.a[2] ? 70000 : 700;
                    while (pull(s, op.a[1]) && ++n < most) {}
                    if (n > 40) probe("long_sequence");
                    if (n > 65536) probe("more_than_65536_pulls");
                    if (s.unknown) return;
                    check_active(s, op.a[1]);
                    pull(s, 0);
                    return;
                }
                case ACTIVE: { Use use(s); check_active(s, op.a[1]); return; }
                case CURRENT:
                {
                    if (s.m < 2) return;
                    Use use(s);
                    Obs o;
                    {
                        NoReading no(s, "looking at the current element");
                        vt(s).current(s.mem, op.a[1], s.w, o);
                        no.check(s);
                    }
                    compare(s, o, s.last, "current element", oriented(s.w, s.kind));
                    return;
                }
                case EACH:
                {
                    if (s.m < 2) return;
                    Use use(s);
                    // range-for: the current element first, then pulls until one fails
                    std::string text = oriented(s.w, s.kind);
                    std::vector<model::Result> want;
                    Slot ahead = s;
                    while (ahead.last.matched && want.size() < 60)
                    {
                        want.push_back(ahead.last);
                        ahead.last = advance(ahead, text);
                        ++ahead.pulls;
                        if (ahead.unknown) { s.unknown = true; return; }
                    }
                    if (want.size() >= 60) return;
                    int n;
                    std::vector<Obs> got(64);
                    {
                        InFlight reading(s.w->t);
                        n = vt(s).each(s.mem, s.w, got.data(), 62);
                    }
                    if (n != int(want.size()))
                        violate("wrong-sequence", "range-for over a %s of pattern %s on %s delivered %d elements, should be %zu", lazy_names[s.m],
                                show({pat(s).text, pat(s).len}).c_str(), show(text).c_str(), n, want.size());
                    for (int i = 0; i < n; ++i) compare(s, got[std::size_t(i)], want[std::size_t(i)], "range-for element", text);
                    s.cur = ahead.cur; s.active = ahead.active; s.last = ahead.last; s.pulls = ahead.pulls;
                    probe("range_for");
                    return;
                }
                case DROP: destroy(s); return;
                case COPY: case MOVE:
                {
                    Slot &d = slots[op.a[1] % NSLOTS];
                    if (&d == &s || d.busy) return;
                    destroy(d);
                    void *mem = d.mem;
                    std::size_t cap = d.cap;
                    d = s;
                    d.mem = mem;
                    d.cap = cap;
                    d.live = false;
                    reserve(d, vt(s).size);
                    Use use(s), use2(d);
                    NoReading no(s, op.code == COPY ? "a copy" : "a move");
                    if (op.code == COPY) vt(s).copy(d.mem, s.mem);
                    else vt(s).move(d.mem, s.mem);
                    no.check(s);
                    d.live = true;
                    if (op.code == MOVE) { vt(s).destroy(s.mem); s.live = false; }
                    if (s.pulls) probe("copied_after_pull");
                    return;
                }
                case ASSIGN:
                {
                    Slot &d = slots[op.a[1] % NSLOTS];
                    if (d.busy || !d.live || d.pat != s.pat || d.kind != s.kind || d.m != s.m) return;
                    if (&d == &s && op.a[2]) return;
                    {
                        Use use(s), use2(d);
                        NoReading no(s, "an assignment");
                        if (op.a[2]) vt(s).move_assign(d.mem, s.mem);
                        else vt(s).assign(d.mem, s.mem);
                        no.check(s);
                    }
                    probe(&d == &s ? "self_assigned" : "assigned");
                    if (&d != &s)
                    {
                        d.w = s.w; d.cur = s.cur; d.active = s.active; d.last = s.last; d.pulls = s.pulls; d.unknown = s.unknown;
                        if (op.a[2]) destroy(s);
                    }
                    d.busy = s.busy = false;
                    return;
                }
                default: return;
            }
        }

        // One object pulled more often than 16 bits can count.
        bool marathon(Plan &p, Rng &rng, int which)
        {
            Pattern const &pt = patterns()[std::size_t(which)];
            if (!pt.ref.flat() || pt.ref.big() > 2) return false;
            int const kind = pick_kind(rng, pt);
            if (kind == FWD || kind == REV) return false;
            std::string unit, text;
            for (int tries = 0; unit.empty() || unit.size() > 2; ++tries)
            {
                std::vector<std::string> caps;
                unit.clear();
                model::sample(pt.ref.root(), rng, unit, caps);
                if (tries > 20) return false;
            }
            if (rng.below(2)) unit += " ,x\n"[rng.below(4)];
            if (unit.size() == 1 && rng.below(2)) unit += " ,x\n"[rng.below(4)];
            while (text.size() < 40) text += unit;
            int const m = int(rng.below(4));
            // must deliver about one match per unit
            int from = 0, n = 0;
            for (; n < 10; ++n)
            {
                auto r = pt.ref.run(m % 2 ? model::SEARCH : model::PREFIX, text, from);
                if (r.capped || !r.matched || r.end[0] == r.begin[0] || r.end[0] - from > 4) return false;
                from = r.end[0];
            }
            int const want = std::min(TAPE_CAP - 8, (65536 + 5 + int(rng.below(500))) * from / n + 8);
            while (int(text.size()) < want) text += unit;
            p.texts.push_back(text);
            p.tapes.emplace_back(0, 0);
            p.ntasks = 1;
            auto op = [&](int code) -> Op & {
                Op o;
                o.id = int(p.ops.size());
                o.task = 0;
                o.code = code;
                p.ops.push_back(o);
                return p.ops.back();
            };
            Op &make = op(MAKE);
            make.pat = which;
            make.kind = kind;
            make.a[1] = m;
            make.a[5] = int(rng.below(4));
            Op &drain = op(DRAIN);
            drain.a[1] = int(rng.below(4));
            drain.a[2] = 1;
            op(ACTIVE);
            op(PULL);
            return true;
        }

        void make_plan(Plan &p, Knobs &k, Rng &rng)
        {
            auto pats = pick_patterns(rng, 2);
            if (rng.below(700) == 0 && marathon(p, rng, pats[0])) return;
            p.ntasks = draw_tasks(rng, 3);
            int ntapes = 1 + int(rng.below(3));
            auto const aim = common_tapes(p, rng, pats, ntapes, 60, true);
            int spare = int(p.texts.size());
            for (int i = 0; i < 5; ++i)
                p.texts.push_back(i == 0 ? std::string(1 + rng.below(30), rng.below(2) ? ' ' : '\n') : gen_text(rng, patterns()[std::size_t(rng.pick(pats))], -40));
            common_knobs(k, rng, p.ntasks > 1, true);
            // few types, so that objects of one type meet
            struct Type { int pat, kind, m; } types[3];
            int ntypes = 1 + int(rng.below(3));
            for (int i = 0; i < ntypes; ++i)
            {
                types[i].pat = rng.pick(pats);
                types[i].kind = pick_kind(rng, patterns()[std::size_t(types[i].pat)]);
                types[i].m = int(rng.below(4));
            }
            int used = k.crowd ? NSLOTS - int(rng.below(30)) : 2 + int(rng.below(6));
            int id = 0;
            auto op = [&](int task, int code) -> Op & {
                Op o;
                o.id = id++;
                o.task = task;
                o.code = code;
                o.a[0] = int(rng.below(unsigned(used)));
                auto const &ty = types[rng.below(unsigned(ntypes))];
                if (code == MAKE)
                {
                    o.pat = ty.pat;
                    o.kind = ty.kind;
                    o.a[1] = ty.m;
                    o.a[2] = aim.pick(rng, o.pat, o.kind);
                    if (rng.below(5) == 0) o.a[3] = int(rng.below(4));
                    if (rng.below(5) == 0) o.a[4] = int(rng.below(4));
                    o.a[5] = int(rng.below(4));
                }
                else o.a[1] = int(rng.below(4));
                if (code == COPY || code == MOVE || code == ASSIGN) { o.a[1] = int(rng.below(unsigned(used))); o.a[2] = int(rng.below(2)); }
                if (code == WRITE)
                {
                    o.a[0] = int(rng.below(unsigned(ntapes)));
                    o.a[1] = spare + int(rng.below(5));
                    o.a[2] = int(rng.below(std::max<std::size_t>(1, p.texts[std::size_t(o.a[0])].size())));
                }
                p.ops.push_back(o);
                return p.ops.back();
            };
            auto any = [&](int task) {
                u32 r = rng.below(LAZY_WRITES ? 130 : 100);
                if (r < 12) op(task, MAKE);
                else if (r < 52) op(task, PULL);
                else if (r < 60) op(task, ACTIVE);
                else if (r < 67) op(task, CURRENT);
                else if (r < 77) op(task, COPY);
                else if (r < 81) op(task, MOVE);
                else if (r < 88) op(task, ASSIGN);
                else if (r < 91) op(task, DROP);
                else if (r < 94) op(task, EACH);
                else if (r < 100) op(task, DRAIN);
                else op(task, WRITE);
            };
            for (int t = 0; t < p.ntasks; ++t)
            {
                for (u32 n = k.crowd ? u32(used) : 1 + rng.below(2); n-- > 0;) op(t, MAKE).a[0] = (t * 2 + int(n)) % used;
                for (u32 n = crowded(k, rng, 3 + rng.below(18)); n-- > 0;) any(t);
            }
            if (k.nest_1_in)
                for (u32 n = 1 + rng.below(6); n-- > 0;) any(-1);
        }

        void begin()
        {
            for (auto &s : slots) { s.live = s.busy = s.unknown = false; }
        }
        void finish()
        {
            // objects still alive at the end are simply forgotten: they own nothing
        }
    }
    Workload const &workload()
    {
        static Workload const w{LAZY_WRITES ? "C03" : "C02", make_plan, begin, exec, finish, true, false};
        return w;
    }
}
