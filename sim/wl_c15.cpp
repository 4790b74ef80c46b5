// C15: a result that only views its input goes on designating what it matched, whatever happens later.
#include "wl_common.hpp"

namespace sim
{
    namespace
    {
        enum { CALL, MAKE, TAKE, PEEK, LCOPY, LDROP, COPY, MOVE, ASSIGN, MOVE_ASSIGN, OPTIONAL, CLEAR, USE, HOLD, READ, DROP, WRITE, NCODES };
        char const *const code_names[NCODES] = {"a call", "creating a lazy matcher", "pulling another result", "copying a range's element", "copying a lazy matcher",
                                                "destroying a lazy matcher", "copying a result", "moving a result", "assigning a result", "move-assigning a result", "as_optional",
                                                "clearing a group of a result", "using a result", "holding two texts", "reading a group", "destroying a result", "writing to the input"};
        char const *const lazy_names[4] = {"tokenizer", "searcher", "tokenize range", "find_all range"};
        constexpr int NSLOTS = 32, NLAZY = 24;

        struct Slot
        {
            bool live = false, busy = false;
            void *mem = nullptr;
            std::size_t cap = 0;
            int pat = -1, kind = 0;
            Window const *w = nullptr;
            Obs want;
            char const *origin = "";
        };
        struct Source                        // a lazy tokenizer, searcher or range
        {
            bool live = false, busy = false;
            void *mem = nullptr;
            std::size_t cap = 0;
            int pat = -1, kind = 0, m = 0;
            Window const *w = nullptr;
            int cur = 0;                     // what the model says
            bool active = true;
            model::Result last;
        };
        Slot slots[NSLOTS];
        Source sources[NLAZY];

        Pattern const &pattern(int i) { return patterns()[std::size_t(i)]; }
        ResVT const &vt(Slot const &s) { return pattern(s.pat).kinds[s.kind].res; }
        LazyVT const &lvt(Source const &s) { return pattern(s.pat).kinds[s.kind].lazy[s.m]; }
        bool same_type(Slot const &a, Slot const &b) { return a.pat == b.pat && a.kind == b.kind; }
        template<typename S>
        void reserve(S &s, std::size_t n)
        {
            if (s.cap >= n) return;
            std::free(s.mem);
            s.mem = std::malloc(n);
            s.cap = n;
        }
        template<typename S>
        struct Use
        {
            S &s;
            explicit Use(S &s) : s(s) { s.busy = true; }
            ~Use() { s.busy = false; }
        };
        void scribble(void *p, std::size_t n) { memset(p, 0xb7, n); }

        void drop(Slot &s)
        {
            if (!s.live) return;
            Use<Slot> use(s);
            s.live = false;
            vt(s).view_destroy(s.mem);
            scribble(s.mem, vt(s).view_size);
        }
        void drop(Source &s)
        {
            if (!s.live) return;
            Use<Source> use(s);
            s.live = false;
            lvt(s).destroy(s.mem);
            scribble(s.mem, lvt(s).size);
        }
        void start(Slot &s, int pat, int kind, Window const *w)
        {
            drop(s);
            s.pat = pat;
            s.kind = kind;
            s.w = w;
            reserve(s, vt(s).view_size);
            scribble(s.mem, vt(s).view_size);
        }
        std::string described(Slot const &s)
        {
            return "a result of pattern " + show({pattern(s.pat).text, pattern(s.pat).len}) + " (" + s.origin + ")";
        }
        std::string group_text(Slot const &s, int g)
        {
            std::string all = oriented(s.w, s.kind);
            return s.want.b[g] < 0 || s.want.e[g] <= s.want.b[g] ? "" : all.substr(std::size_t(s.want.b[g]), std::size_t(s.want.e[g] - s.want.b[g]));
        }

        void look(Slot &s, bool full, char const *after)
        {
            Use<Slot> use(s);
            InFlight reading(s.w->t);
            Obs o;
            if (full) vt(s).view_full(s.mem, s.w, o);
            else vt(s).view_obs(s.mem, s.w, o);
            note_result(o);
            if (o.inconsistent)
                violate("changed", "%s, after %s: %s is not what it should be (%s)", described(s).c_str(), after, o.inconsistent, o.str().c_str());
            if (!o.same(s.want))
                violate("changed", "%s, after %s, is %s, should be %s", described(s).c_str(), after, o.str().c_str(), s.want.str().c_str());
            probe(full ? "checked_through_every_accessor" : "checked");
        }
        void look_all(int full, char const *after)
        {
            for (int i = 0; i < NSLOTS; ++i)
                if (slots[i].live && !slots[i].busy) look(slots[i], (full >> (i % 3)) & 1, after);
        }
        // The first look at a result: what it is from now on.
        void first(Slot &s, model::Result const &want, char const *origin, std::string const &text)
        {
            s.origin = origin;
            vt(s).view_obs(s.mem, s.w, s.want);
            note_result(s.want);
            s.live = true;
            std::string d = differs(s.want, want, pattern(s.pat).ref.groups());
            if (!d.empty()) violate("changed", "%s, on %s: %s", described(s).c_str(), show(text).c_str(), d.c_str());
            probe(want.matched ? "made_matched" : "made_unmatched");
        }
        model::Result next_of(Source const &s, std::string const &text)
        {
            model::Result r;
            for (int i = 0; i < MAXG; ++i) r.begin[i] = r.end[i] = -1;
            if (!s.active) return r;
            return ask(pattern(s.pat), s.kind, s.m % 2 ? model::SEARCH : model::PREFIX, text, s.cur);
        }
        void advanced(Source &s, model::Result const &r)
        {
            s.active = s.active && r.matched && r.end[0] > r.begin[0];
            if (r.matched) s.cur = r.end[0];
            s.last = r;
        }

        void exec(Op const &op)
        {
            Slot &d = slots[op.a[0] % NSLOTS];
            Slot &s = slots[op.a[1] % NSLOTS];
            Source &l = sources[op.a[5] % NLAZY];
            switch (op.code)
            {
                case CALL:
                {
                    if (op.a[2] >= tape_count() || d.busy) return;
                    Window const *w = window_for(op.a[2], op.a[6] & 3, op.a[6] >> 2 & 3);
                    std::string const text = oriented(w, op.kind);
                    auto want = ask(pattern(op.pat), op.kind, op.a[3], text);
                    if (want.capped) { ++stats().skipped; return; }
                    InFlight reading(w->t);
                    start(d, op.pat, op.kind, w);
                    Use<Slot> use(d);
                    vt(d).view(d.mem, op.a[3], w);
                    first(d, want, "of a call", text);
                    break;
                }
                case MAKE:
                {
                    if (op.a[2] >= tape_count() || l.busy) return;
                    drop(l);
                    l.pat = op.pat;
                    l.kind = op.kind;
                    l.m = op.a[3] % 4;
                    l.w = window_for(op.a[2], op.a[6] & 3, op.a[6] >> 2 & 3);
                    l.cur = 0;
                    l.active = true;
                    std::string const text = oriented(l.w, l.kind);
                    model::Result want;
                    if (l.m >= 2)
                    {
                        want = next_of(l, text);
                        if (want.capped) { ++stats().skipped; return; }
                    }
                    reserve(l, lvt(l).size);
                    Use<Source> use(l);
                    InFlight reading(l.w->t);
                    lvt(l).create(l.mem, l.w, op.a[4] % 4);
                    if (l.m >= 2) advanced(l, want);
                    l.live = true;
                    break;
                }
                case TAKE:
                case PEEK:
                {
                    if (!l.live || l.busy || d.busy || (op.code == PEEK && l.m < 2)) return;
                    std::string const text = oriented(l.w, l.kind);
                    model::Result want;
                    if (op.code == PEEK) want = l.last;
                    else
                    {
                        want = next_of(l, text);
                        if (want.capped) { ++stats().skipped; drop(l); return; }
                    }
                    InFlight reading(l.w->t);
                    Use<Source> use2(l);
                    start(d, l.pat, l.kind, l.w);
                    Use<Slot> use(d);
                    lvt(l).take(l.mem, op.code == PEEK ? 3 : op.a[4] % 3, d.mem);
                    if (op.code == TAKE) advanced(l, want);
                    static char const *const how[4] = {"pulled from a tokenizer", "pulled from a searcher", "an element of a tokenize range", "an element of a find_all range"};
                    first(d, want, how[l.m], text);
                    break;
                }
                case LCOPY:
                {
                    Source &t = sources[op.a[6] % NLAZY];
                    if (&t == &l || !l.live || l.busy || t.busy) return;
                    drop(t);
                    void *mem = t.mem;
                    std::size_t cap = t.cap;
                    t = l;
                    t.mem = mem;
                    t.cap = cap;
                    t.live = false;
                    reserve(t, lvt(l).size);
                    Use<Source> use(l), use2(t);
                    if (op.a[4] & 1) lvt(l).copy(t.mem, l.mem);
                    else lvt(l).move(t.mem, l.mem);
                    t.live = true;
                    if (!(op.a[4] & 1)) { l.busy = false; drop(l); }
                    break;
                }
                case LDROP:
                    if (l.busy || !l.live) return;
                    drop(l);
                    probe("source_destroyed");
                    break;
                case COPY:
                case MOVE:
                    if (&d == &s || d.busy || s.busy || !s.live) return;
                    {
                        Use<Slot> use2(s);
                        start(d, s.pat, s.kind, s.w);
                        Use<Slot> use(d);
                        vt(d).view_copy(d.mem, s.mem);
                        d.want = s.want;
                        d.origin = op.code == COPY ? "a copy" : "a copy of one destroyed since";
                        d.live = true;
                    }
                    if (op.code == MOVE) drop(s);
                    break;
                case ASSIGN:
                case MOVE_ASSIGN:
                    if (d.busy || s.busy || !s.live || !d.live || !same_type(s, d)) return;
                    if (&d == &s && op.code == MOVE_ASSIGN) return;
                    {
                        Use<Slot> use(d), use2(s);
                        vt(d).view_assign(d.mem, s.mem, op.code == MOVE_ASSIGN);
                    }
                    s.busy = d.busy = false;
                    d.want = s.want;
                    d.w = s.w;
                    probe(&d == &s ? "self_assigned" : "assigned");
                    if (&d != &s) d.origin = "assigned";
                    if (op.code == MOVE_ASSIGN) drop(s);
                    break;
                case OPTIONAL:
                {
                    if (&d == &s || d.busy || s.busy || !s.live) return;
                    Use<Slot> use2(s);
                    start(d, s.pat, s.kind, s.w);
                    Use<Slot> use(d);
                    bool const has = vt(d).view_optional(d.mem, s.mem, op.a[4] % 4);
                    if (has != s.want.matched) violate("changed", "as_optional of %s gives %s", described(s).c_str(), has ? "a value" : "no value");
                    d.want = s.want;
                    d.origin = "from an optional";
                    d.live = has;
                    break;
                }
                case CLEAR:
                {
                    // of a copy, which then differs from the original in that group only
                    if (&d == &s || d.busy || s.busy || !s.live) return;
                    Use<Slot> use2(s);
                    start(d, s.pat, s.kind, s.w);
                    Use<Slot> use(d);
                    vt(d).view_copy(d.mem, s.mem);
                    d.want = s.want;
                    d.live = true;
                    d.origin = "a copy with a cleared group";
                    int const g = op.a[6] % d.want.n;
                    if (!vt(d).view_clear(d.mem, g, op.a[4] & 1)) break;
                    Obs o;                    // where the empty group is does not matter
                    vt(d).view_obs(d.mem, d.w, o);
                    d.want.b[g] = d.want.e[g] = o.b[g];
                    if (g == 0) d.want.length = 0;
                    probe("group_cleared");
                    break;
                }
                case USE:
                {
                    if (!s.live || s.busy) return;
                    Use<Slot> use(s);
                    InFlight reading(s.w->t);
                    vt(s).view_use(s.mem, op.a[6] % 9);
                    break;
                }
                case HOLD:
                {
                    if (!s.live || s.busy || !d.live || d.busy || !same_type(s, d)) return;
                    {
                        Use<Slot> use(s), use2(d);
                        InFlight reading(s.w->t), reading2(d.w->t);
                        int const g = op.a[6] % s.want.n;
                        std::string got[3];
                        vt(s).view_hold(s.mem, d.mem, g, op.a[4] & 1, got);
                        std::string const want[3] = {group_text(s, g), group_text(d, g), group_text(s, (g + 1) % s.want.n)};
                        for (int i = 0; i < 3; ++i)
                            if (got[i] != want[i])
                                violate("changed", "of three texts held at once, number %d of %s is %s, should be %s", i + 1, described(i == 1 ? d : s).c_str(), show(got[i]).c_str(),
                                        show(want[i]).c_str());
                        probe("texts_held");
                    }
                    d.busy = s.busy = false;
                    break;
                }
                case READ:
                {
                    if (!s.live || s.busy) return;
                    Use<Slot> use(s);
                    InFlight reading(s.w->t);
                    int const g = op.a[6] % s.want.n;
                    std::string got;
                    vt(s).view_read(s.mem, g, got);
                    Frame const &f = frame();
                    if (f.read_hi >= 0)
                    {
                        int lo = f.read_lo - s.w->lo, hi = f.read_hi - s.w->lo;
                        if (s.kind == REV) { lo = s.w->hi - 1 - f.read_hi; hi = s.w->hi - 1 - f.read_lo; }
                        if (lo < s.want.b[g] || hi >= s.want.e[g])
                            violate("reads", "the text of group %d of %s is at [%d,%d), positions %d to %d were read", g, described(s).c_str(), s.want.b[g], s.want.e[g], lo, hi);
                        probe("reads_inside_group_checked");
                    }
                    if (got != group_text(s, g))
                        violate("changed", "the text of group %d of %s is %s, should be %s", g, described(s).c_str(), show(got).c_str(), show(group_text(s, g)).c_str());
                    break;
                }
                case DROP:
                    if (d.busy) return;
                    drop(d);
                    break;
                case WRITE:
                {
                    // text a[1] is written over tape a[2] from offset a[6]; positions stay valid
                    if (op.a[2] >= tape_count() || op.a[1] >= int(plan().texts.size())) return;
                    Tape &t = tape(op.a[2]);
                    if (t.in_flight) { probe("write_skipped_input_in_use"); return; }
                    auto const &src = plan().texts[std::size_t(op.a[1])];
                    for (int i = 0; i < int(src.size()) && op.a[6] + i < t.len; ++i) t.text[op.a[6] + i] = src[std::size_t(i)];
                    log_value(u64(op.a[2]));
                    probe("text_written");
                    break;
                }
            }
            look_all(op.a[7], code_names[op.code]);
        }

        void make_plan(Plan &p, Knobs &k, Rng &rng)
        {
            auto pats = pick_patterns(rng, 2);
            std::vector<int> kinds;
            for (int i : pats) kinds.push_back(pick_kind(rng, pattern(i)));
            p.ntasks = draw_tasks(rng, 3);
            int ntapes = 1 + int(rng.below(3));
            bool const big = rng.below(4) == 0;
            auto const aim = common_tapes(p, rng, pats, ntapes, big ? -draw_length(rng, 150) : 50, true);
            int const spare = int(p.texts.size());
            for (int i = 0; i < 3; ++i)
                p.texts.push_back(rng.below(2) ? gen_text(rng, pattern(rng.pick(pats)), -40) : gen_text_long(rng, pattern(rng.pick(pats)), 100));
            common_knobs(k, rng, p.ntasks > 1, rng.below(3) == 0);
            int const nslots = 2 + int(rng.below(k.crowd ? NSLOTS - 1 : 7)), nlazy = 1 + int(rng.below(k.crowd ? NLAZY : 4));
            u32 const full = rng.below(8);
            int id = 0;
            auto add = [&](int task, int code = -1) -> Op & {
                Op o;
                o.id = id++;
                o.task = task;
                static constexpr int weights[NCODES] = {5, 3, 12, 3, 2, 1, 3, 2, 2, 1, 2, 2, 3, 3, 3, 1, 4};
                if (code < 0)
                {
                    u32 total = 0;
                    for (int x : weights) total += u32(x);
                    u32 r = rng.below(total);
                    for (code = 0; r >= u32(weights[code]); ++code) r -= u32(weights[code]);
                }
                o.code = code;
                u32 which = rng.below(pats.size());
                o.pat = pats[which];
                o.kind = kinds[which];
                o.a[0] = int(rng.below(unsigned(nslots)));       // destination
                o.a[1] = int(rng.below(unsigned(nslots)));       // source
                o.a[2] = aim.pick(rng, o.pat, o.kind);
                o.a[3] = code == CALL ? draw_method(rng) : int(rng.below(4));
                o.a[4] = int(rng.below(4));                      // form, how
                o.a[5] = int(rng.below(unsigned(nlazy)));
                o.a[6] = code == CALL || code == MAKE ? (rng.below(4) == 0 ? int(rng.below(16)) : 0) : int(rng.below(MAXG * 9));
                if (code == LCOPY) o.a[6] = int(rng.below(unsigned(nlazy)));
                if (code == WRITE)
                {
                    o.a[1] = spare + int(rng.below(3));
                    o.a[6] = int(rng.below(std::max<std::size_t>(1, p.texts[std::size_t(o.a[2])].size())));
                }
                o.a[7] = rng.below(3) == 0 ? int(full) : 0;      // which are looked at through every accessor afterwards
                p.ops.push_back(o);
                return p.ops.back();
            };
            for (int t = 0; t < p.ntasks; ++t)
            {
                add(t, MAKE).a[5] = t % nlazy;
                for (u32 n = crowded(k, rng, 4 + rng.below(p.ntasks > 5 ? 6 : 14)); n-- > 0;) add(t);
            }
            if (k.nest_1_in)
                for (u32 n = 1 + rng.below(5); n-- > 0;) add(-1);
        }

        void begin()
        {
            for (auto &s : slots) s.live = s.busy = false;
            for (auto &s : sources) s.live = s.busy = false;
        }
        void finish()
        {
            for (auto &s : sources)
                if (s.live && !s.busy) drop(s);
            look_all(7, "every lazy matcher was destroyed");
            for (int i = 0; i < tape_count(); ++i) memset(tape(i).text, 'q', std::size_t(tape(i).len));
            look_all(7, "all inputs were overwritten");
            for (auto &s : slots)
                if (s.live && !s.busy)
                {
                    drop(s);
                    look_all(0, "destroying another result");
                }
        }
    }
    Workload const &workload()
    {
        static Workload const w{"C15", make_plan, begin, exec, finish, true, false};
        return w;
    }
}
