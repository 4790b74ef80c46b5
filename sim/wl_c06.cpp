// C06: owning results survive whatever happens to the input they came from.
#include "wl_common.hpp"

namespace sim
{
    namespace
    {
        enum { MAKE_VIEW, MAKE_TEMP, COPY, MOVE, ASSIGN, MOVE_ASSIGN, OPTIONAL, EDIT, TAKE, DROP, REWRITE, SCRUB, TRANSFORM, NCODES };
        constexpr int NSLOTS = 40;

        struct Slot
        {
            bool live = false, busy = false, gone = false;    // gone: moved from, may only be assigned or destroyed
            void *mem = nullptr;
            std::size_t cap = 0;
            int pat = -1, kind = 0;
            Text want;
            char const *origin = "";
        };
        Slot slots[NSLOTS];

        ResVT const &vt(Slot const &s) { return patterns()[std::size_t(s.pat)].kinds[s.kind].res; }
        bool same_type(Slot const &a, Slot const &b) { return a.pat == b.pat && a.kind == b.kind; }
        void reserve(Slot &s, std::size_t n)
        {
            if (s.cap >= n) return;
            std::free(s.mem);
            s.mem = std::malloc(n);
            s.cap = n;
        }
        struct Use
        {
            Slot &s;
            explicit Use(Slot &s) : s(s) { s.busy = true; }
            ~Use() { s.busy = false; }
        };
        void drop(Slot &s)
        {
            if (!s.live) return;
            Use use(s);
            vt(s).own_destroy(s.mem);
            memset(s.mem, 0xee, vt(s).own_size);
            s.live = false;
        }
        void start(Slot &s, int pat, int kind)
        {
            drop(s);
            s.pat = pat;
            s.kind = kind;
            s.gone = false;
            reserve(s, vt(s).own_size);
        }
        void look(Slot &s, char const *after)
        {
            Text t;
            vt(s).own_text(s.mem, t);
            note_result(t);
            Pattern const &p = patterns()[std::size_t(s.pat)];
            if (t.inconsistent)
                violate("changed", "an owning result of pattern %s (%s), after %s: %s is not what it should be (%s)", show({p.text, p.len}).c_str(), s.origin, after, t.inconsistent, t.str().c_str());
            if (!(t == s.want))
                violate("changed", "an owning result of pattern %s (%s), after %s, holds %s, should be %s", show({p.text, p.len}).c_str(), s.origin, after, t.str().c_str(),
                        s.want.str().c_str());
            probe("content_checked");
        }
        void look_all(char const *after)
        {
            for (auto &s : slots)
                if (s.live && !s.gone && !s.busy) look(s, after);
        }

        void make_plan(Plan &p, Knobs &k, Rng &rng)
        {
            auto pats = pick_patterns(rng, 2);
            std::vector<int> kinds;
            for (int i : pats) kinds.push_back(pick_kind(rng, patterns()[std::size_t(i)]));
            p.ntasks = draw_tasks(rng, 3);
            int ntapes = 1 + int(rng.below(3));
            bool const big = rng.below(2);
            auto const aim = common_tapes(p, rng, pats, ntapes, big ? -draw_length(rng, 150) : 40, big);
            int const spare = int(p.texts.size());
            for (int i = 0; i < 3; ++i)
                p.texts.push_back(rng.below(2) ? gen_text(rng, patterns()[std::size_t(rng.pick(pats))], 40) : gen_text_long(rng, patterns()[std::size_t(rng.pick(pats))], 100));
            common_knobs(k, rng, p.ntasks > 1, rng.below(4) == 0);
            int const nslots = 2 + int(rng.below(k.crowd ? NSLOTS - 1 : 5));
            int id = 0;
            auto add = [&](int task) {
                Op o;
                o.id = id++;
                o.task = task;
                u32 r = rng.below(32);
                o.code = r < 6 ? MAKE_VIEW : r < 12 ? MAKE_TEMP : r < 15 ? COPY : r < 17 ? MOVE : r < 19 ? ASSIGN : r < 21 ? MOVE_ASSIGN : r < 23 ? OPTIONAL
                         : r < 25 ? EDIT : r < 26 ? TAKE : r < 27 ? DROP : r < 30 ? REWRITE : r < 31 ? SCRUB : TRANSFORM;
                u32 which = rng.below(pats.size());
                o.pat = pats[which];
                o.kind = kinds[which];
                o.a[0] = int(rng.below(unsigned(nslots)));       // destination
                o.a[1] = int(rng.below(unsigned(nslots)));       // source
                o.a[2] = aim.pick(rng, o.pat, o.kind);
                o.a[3] = draw_method(rng);                  // method
                o.a[4] = int(rng.below(5));                      // container, form, how
                o.a[5] = int(rng.below(MAXG));                   // group
                o.a[6] = spare + int(rng.below(3));              // text
                p.ops.push_back(o);
            };
            for (int t = 0; t < p.ntasks; ++t)
                for (u32 n = crowded(k, rng, 4 + rng.below(12)); n-- > 0;) add(t);
            if (k.nest_1_in)
                for (u32 n = 1 + rng.below(4); n-- > 0;) add(-1);
        }

        char const *const code_names[NCODES] = {"converting a view", "matching a temporary", "copying", "moving", "assigning", "move-assigning", "as_optional",
                                                "editing", "taking a group out", "destroying", "rewriting an input", "overwriting an input", "transform_groups"};

        void exec(Op const &op)
        {
            Slot &d = slots[op.a[0] % NSLOTS];
            Slot &s = slots[op.a[1] % NSLOTS];
            Pattern const &p = patterns()[std::size_t(op.pat)];
            std::string const &other = plan().texts[std::size_t(op.a[6]) % plan().texts.size()];
            switch (op.code)
            {
                case MAKE_VIEW:
                case MAKE_TEMP:
                {
                    if (op.a[2] >= tape_count() || d.busy) return;
                    Window const *w = window_for(op.a[2], 0, 0);
                    std::string const text = oriented(w, op.kind);
                    int method = op.a[3];
                    if (op.code == MAKE_TEMP && op.a[4] >= 1) method = op.a[4] == 4 ? 2 : op.a[4] - 1;
                    if (ask(p, op.kind, method, text).capped) { ++stats().skipped; return; }
                    start(d, op.pat, op.kind);
                    Use use(d);
                    Mem view(vt(d).view_size);
                    {
                        InFlight reading(w->t);
                        vt(d).view(view.p, method, w);
                        Obs o;
                        vt(d).view_obs(view.p, w, o);
                        if (o.inconsistent) { probe("view_inconsistent"); return; }
                        d.want = text_of(o, text);
                        if (op.code == MAKE_VIEW) vt(d).own_view(d.mem, view.p);
                    }
                    if (op.code == MAKE_TEMP)
                    {
                        static char const *const from[] = {"from an expiring string", "from an expiring vector", "from an expiring list", "from an expiring deque", "from an expiring constant string"};
                        vt(d).own_temp(d.mem, method, op.a[4], text);
                        d.origin = from[op.a[4]];
                    }
                    else d.origin = "from a view";
                    memset(view.p, 0xee, vt(d).view_size);
                    d.live = true;
                    probe(d.want.matched ? "made_matched" : "made_unmatched");
                    break;
                }
                case COPY:
                case MOVE:
                    if (&d == &s || d.busy || s.busy || !s.live || s.gone) return;
                    start(d, s.pat, s.kind);
                    {
                        Use use(d), use2(s);
                        if (op.code == COPY) vt(d).own_copy(d.mem, s.mem);
                        else { vt(d).own_move(d.mem, s.mem); s.gone = true; }
                    }
                    d.live = true;
                    d.want = s.want;
                    d.origin = op.code == COPY ? "a copy" : "moved into";
                    break;
                case ASSIGN:
                case MOVE_ASSIGN:
                    if (d.busy || s.busy || !s.live || s.gone || !d.live || !same_type(s, d)) return;
                    if (&d == &s && op.code == MOVE_ASSIGN) return;
                    {
                        Use use(d), use2(s);
                        if (op.code == ASSIGN) vt(d).own_assign(d.mem, s.mem);
                        else { vt(d).own_move_assign(d.mem, s.mem); s.gone = true; }
                    }
                    s.busy = d.busy = false;
                    probe(&d == &s ? "self_assigned" : d.gone ? "assigned_to_moved_from" : "assigned");
                    d.want = s.want;
                    d.gone = false;
                    d.origin = "assigned";
                    break;
                case OPTIONAL:
                {
                    if (&d == &s || d.busy || s.busy || !s.live || s.gone) return;
                    int form = op.a[4] % 4;
                    start(d, s.pat, s.kind);
                    Use use(d), use2(s);
                    bool has = vt(d).own_optional(d.mem, s.mem, form);
                    if (has != s.want.matched) violate("changed", "as_optional of a result that %s gives %s", s.want.matched ? "matched" : "did not match", has ? "a value" : "no value");
                    if (form == 2) s.gone = true;
                    d.live = has;
                    d.want = s.want;
                    d.origin = "from an optional";
                    break;
                }
                case EDIT:
                {
                    if (!d.live || d.gone || d.busy) return;
                    int group = op.a[5] % d.want.n, how = op.a[4] % 3;
                    std::string by = other.substr(0, 60);
                    Use use(d);
                    vt(d).own_edit(d.mem, group, how, by);
                    std::string &g = d.want.g[group];
                    if (how == 0) g = by;
                    else g.assign(g.size(), by.empty() ? (how == 1 ? '!' : '?') : by[0]);
                    if (group == 0) d.want.length = long(g.size());
                    break;
                }
                case TAKE:
                {
                    if (!d.live || d.gone || d.busy) return;
                    int group = op.a[5] % d.want.n;
                    Use use(d);
                    std::string out;
                    vt(d).own_take(d.mem, group, op.a[4] % 5, out);
                    d.gone = true;
                    if (out != d.want.g[group])
                        violate("changed", "group %d taken out of an owning result of pattern %s (%s) is %s, should be %s", group, show({p.text, p.len}).c_str(), d.origin, show(out).c_str(),
                                show(d.want.g[group]).c_str());
                    break;
                }
                case DROP:
                    if (d.busy) return;
                    drop(d);
                    break;
                case REWRITE:
                {
                    Op r = op;
                    r.a[0] = op.a[2];
                    r.a[1] = op.a[6];
                    r.a[2] = op.a[6] & 1;
                    do_rewrite(r);
                    break;
                }
                case SCRUB:
                {
                    if (op.a[2] >= tape_count() || tape(op.a[2]).in_flight) return;
                    Tape &t = tape(op.a[2]);
                    memset(t.text, '#', std::size_t(t.len));
                    probe("input_overwritten");
                    break;
                }
                case TRANSFORM:
                {
                    if (!d.live || d.gone || d.busy) return;
                    Use use(d);
                    Text t;
                    vt(d).transform(d.mem, 1, t);
                    if (!(t == d.want)) violate("changed", "transform_groups of an owning result (%s) sees %s, should be %s", d.origin, t.str().c_str(), d.want.str().c_str());
                    break;
                }
            }
            look_all(code_names[op.code]);
        }
        void begin()
        {
            for (auto &s : slots) { s.live = s.busy = s.gone = false; }
        }
        void finish()
        {
            // every input is gone for good
            for (int i = 0; i < tape_count(); ++i) memset(tape(i).text, 0xdd, std::size_t(tape(i).len));
            look_all("all inputs were overwritten");
            for (auto &s : slots)
            {
                if (!s.live || s.busy) continue;
                vt(s).own_destroy(s.mem);
                s.live = false;
                look_all("destroying another result");
            }
        }
    }
    Workload const &workload()
    {
        static Workload const w{"C06", make_plan, begin, exec, finish, true, false};
        return w;
    }
}
