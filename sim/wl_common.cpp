#include "wl_common.hpp"

namespace sim
{
    static std::map<Pattern const *, std::string> alphabets;

    // Around and above the limits of 15, 16 and 17 bits.
    std::string gen_text_huge(Rng &rng, Pattern const &p)
    {
        if (p.ref.big() > int(LONG_TEXT))
        {
            // one run that just suffices, so that a search does not try tens of thousands of places
            std::string s, t;
            if (rng.below(3) == 0) s.append(rng.below(8), 'a');
            std::vector<std::string> caps;
            model::sample_len = p.ref.big() + 5;
            model::sample_rep = 1 << 20;
            model::sample(p.ref.root(), rng, t, caps);
            model::sample_len = 60;
            model::sample_rep = 5;
            s += t;
            if (rng.below(2)) s.append(rng.below(8), 'a');
            return s;
        }
        static constexpr u32 limits[] = {32768, 65536, 65536, 70000};
        int const len = int(limits[rng.below(4)] - 8 + rng.below(rng.below(2) ? 16 : 3000));
        bool const one_run = rng.below(2);
        std::string s;
        int tries = 0;
        do
        {
            model::sample_len = len;
            model::sample_rep = one_run ? len * 2 : 30;
            std::vector<std::string> caps;
            std::string t;
            model::sample(p.ref.root(), rng, t, caps);
            s += t;
            if (rng.below(8) == 0) s.push_back(" ,\nx"[rng.below(4)]);
        } while (int(s.size()) < len && ++tries < len && !(one_run && tries > 6));
        model::sample_len = 60;
        model::sample_rep = 5;
        if (int(s.size()) > TAPE_CAP) s.resize(TAPE_CAP);
        return s;
    }

    std::string gen_text(Rng &rng, Pattern const &p, int max_len)
    {
        // now and then much longer ones
        int far = max_len < 0 ? 0 : int(rng.below(64));
        if (max_len < 0) max_len = -max_len;
        bool const big = p.ref.big() > 16;
        if (p.ref.flat() && (p.ref.big() > int(LONG_TEXT) ? rng.below(300) == 0 : far == 4 && rng.below(60) == 0)) return gen_text_huge(rng, p);
        bool longer = far == 1 || far == 2 || far == 3;
        if (big && !longer && far && rng.below(2)) { longer = true; far = 5; max_len = std::max(max_len, 3 * std::min(p.ref.big(), 1000)); }
        if (longer) max_len = far == 1 ? std::max(max_len, 1000) : std::max(max_len, 260);
        bool const exact = far == 5;
        struct Far
        {
            Far(bool on, int rep) { if (on) { model::sample_len = 1000; model::sample_rep = rep; } }
            ~Far() { model::sample_len = 60; model::sample_rep = 5; }
        } set_far(longer, far == 1 ? 400 : 60);
        if (exact) model::sample_len = 3000;
        std::string &alpha = alphabets[&p];
        if (alpha.empty()) alpha = p.ref.alphabet();
        static constexpr char extra[] = " aZ_09\n\r\0\x7f\x80\xff-";
        auto noise = [&](std::string &s, int n) {
            for (int i = 0; i < n; ++i)
                s.push_back(rng.below(8) ? alpha[rng.below(alpha.size())] : rng.below(3) ? extra[rng.below(sizeof extra - 1)] : char(rng.below(256)));
        };
        auto one = [&](std::string &s) {
            std::vector<std::string> caps;
            std::string t;
            model::sample(p.ref.root(), rng, t, caps);
            s += t;
        };
        std::string s;
        switch (rng.below(10))
        {
            case 0: case 1: one(s); break;
            case 2: case 3: noise(s, int(rng.below(4))); one(s); noise(s, int(rng.below(4))); break;
            case 4: case 5: case 6:
                for (u32 i = rng.below(5); i-- > 0;) { one(s); if (rng.below(2)) noise(s, int(rng.below(3))); }
                break;
            case 7: noise(s, int(rng.below(12))); break;
            case 8: noise(s, int(rng.below(30))); one(s); break;
            default: if (rng.below(3)) { one(s); one(s); } break;
        }
        if (longer && !exact)
            while (int(s.size()) < max_len && rng.below(30))
            {
                auto before = s.size();
                one(s);
                if (rng.below(4) == 0 || s.size() == before) noise(s, 1 + int(rng.below(3)));
            }
        for (u32 edits = rng.below(4) == 0 ? 1 + rng.below(3) : 0; edits-- > 0 && !s.empty();)
        {
            u32 at = rng.below(s.size());
            switch (rng.below(5))
            {
                case 0: s.erase(at, 1); break;
                case 1: s.insert(at, 1, alpha[rng.below(alpha.size())]); break;
                case 2: s[at] = alpha[rng.below(alpha.size())]; break;
                case 3: s[at] = char(s[at] ^ 0x20); break;
                default: s.insert(at, s.substr(at, 1 + rng.below(4))); break;
            }
        }
        if (int(s.size()) > max_len) s.resize(std::size_t(max_len));
        return s;
    }

    std::string gen_text_long(Rng &rng, Pattern const &p, int max_len)
    {
        model::sample_len = max_len;
        model::sample_rep = 2 + int(rng.below(unsigned(std::max(40, max_len / 3))));
        std::string s;
        std::vector<std::string> caps;
        model::sample(p.ref.root(), rng, s, caps);
        model::sample_len = 60;
        model::sample_rep = 5;
        if (rng.below(4) == 0) s.insert(0, rng.below(4), "a 1\n"[rng.below(4)]);
        if (rng.below(4) == 0) s.append(rng.below(4), "a 1\n"[rng.below(4)]);
        if (int(s.size()) > max_len) s.resize(std::size_t(max_len));
        return s;
    }

    int draw_tasks(Rng &rng, int usual)
    {
        return rng.below(40) ? 1 + int(rng.below(unsigned(usual))) : 5 + int(rng.below(16));
    }

    std::vector<int> pick_patterns(Rng &rng, int max_count)
    {
        std::vector<int> r;
        int n = 1 + int(rng.below(unsigned(max_count)));
        for (int i = 0; i < n; ++i) r.push_back(int(rng.below(patterns().size())));
        return r;
    }
    int pick_kind(Rng &rng, Pattern const &p)
    {
        int c[NKINDS], n = 0;
        for (int k = 0; k < NKINDS; ++k) if (p.has[k]) c[n++] = k;
        return c[rng.below(unsigned(n))];
    }

    std::string differs(Obs const &o, model::Result const &m, int groups)
    {
        if (o.inconsistent) return std::string("inconsistent result: ") + o.inconsistent;
        if (o.matched != m.matched) return m.matched ? "did not match, but the pattern matches" : "matched, but the pattern does not match";
        if (o.n != groups) return "reports " + std::to_string(o.n) + " groups, the pattern has " + std::to_string(groups);
        for (int i = 0; i < o.n; ++i)
        {
            bool expect_empty = m.begin[i] == m.end[i];
            bool bad = expect_empty ? o.b[i] != o.e[i] : (o.b[i] != m.begin[i] || o.e[i] != m.end[i]);
            if (i == 0 && m.matched && o.b[0] != m.begin[0]) bad = true;
            if (bad)
                return "group " + std::to_string(i) + " is [" + std::to_string(o.b[i]) + "," + std::to_string(o.e[i]) + "), should be [" +
                       std::to_string(m.begin[i]) + "," + std::to_string(m.end[i]) + ")";
        }
        if (o.length != (m.matched ? m.end[0] - m.begin[0] : 0)) return "length is " + std::to_string(o.length);
        return "";
    }

    std::string show(std::string_view s) { return "'" + escape(s.substr(0, 1500)) + (s.size() > 1500 ? "'..." : "'"); }

    int Aim::pick(Rng &rng, int pat, int kind) const
    {
        int n = int(what.size());
        if (rng.below(4) == 0) return int(rng.below(unsigned(n)));
        int from = int(rng.below(unsigned(n)));
        for (int i = 0; i < n; ++i)
            if (what[std::size_t((from + i) % n)] == std::pair(pat, kind == REV)) return (from + i) % n;
        for (int i = 0; i < n; ++i)
            if (what[std::size_t((from + i) % n)].first == pat) return (from + i) % n;
        return from;
    }
    int draw_method(Rng &rng)
    {
        static constexpr int m[] = {0, 1, 1, 2, 2, 2};
        return m[rng.below(6)];
    }
    int draw_length(Rng &rng, int usual)
    {
        u32 r = rng.below(200);
        return r < 20 ? 600 : r < 26 ? 5000 : r < 27 ? 70000 : usual;
    }

    Aim common_tapes(Plan &p, Rng &rng, std::vector<int> const &pats, int count, int max_len, bool dense)
    {
        Aim aim;
        for (int i = 0; i < count; ++i)
        {
            int const which = i < int(pats.size()) ? pats[std::size_t(i)] : rng.pick(pats);
            auto const &pt = patterns()[std::size_t(which)];
            std::string s;
            u32 again = rng.below(5);                 // mostly insists on a text with a match
        retry:
            if (dense && max_len < 0)                 // long captures
            {
                int len = -max_len;
                if (len > int(LONG_TEXT) && !pt.ref.flat()) len = 600;
                s = rng.below(4) ? gen_text_long(rng, pt, len) : gen_text(rng, pt, 44);
            }
            else
            {
                s = gen_text(rng, pt, max_len);
                if (dense && s.size() < LONG_TEXT && pt.ref.big() <= 16 && rng.below(3))
                {
                    // several matches in a row
                    s = rng.below(4) ? "" : s.substr(0, rng.below(6));
                    for (u32 n = 2 + rng.below(8); n-- > 0 && int(s.size()) < max_len;)
                    {
                        std::vector<std::string> caps;
                        std::string t;
                        model::sample(pt.ref.root(), rng, t, caps);
                        s += t;
                        if (rng.below(6) == 0) s.push_back(" ,\nx"[rng.below(4)]);
                    }
                    if (int(s.size()) > max_len) s.resize(std::size_t(max_len));
                }
            }
            if (again && s.size() < LONG_TEXT)
            {
                --again;
                if (auto r = pt.ref.run(model::SEARCH, s); !r.matched || r.end[0] == r.begin[0]) goto retry;
            }
            bool const back = pt.has[REV] && rng.below(4) == 0;
            if (back) std::reverse(s.begin(), s.end());
            aim.what.emplace_back(which, back);
            p.texts.push_back(std::move(s));
            p.tapes.emplace_back(int(p.texts.size()) - 1, int(rng.below(3)));
        }
        return aim;
    }

    void common_knobs(Knobs &k, Rng &rng, bool yields, bool nest)
    {
        static constexpr u32 rates[] = {0, 1, 2, 4, 8, 16, 40, 100};
        if (yields) k.yield_1_in = rates[rng.below(8)];
        static constexpr u32 nests[] = {0, 0, 3, 10, 30, 100};
        if (nest) k.nest_1_in = nests[rng.below(6)];
        if (rng.below(6) == 0) k.nest_depth = 8;
        if (rng.below(500) == 0)
        {
            k.crowd = true;
            probe("crowd");
            static constexpr int depths[] = {2, 120, 1000};
            if (nest) { k.nest_1_in = 1 + rng.below(8); k.nest_depth = depths[rng.below(3)]; }
        }
    }

    void do_rewrite(Op const &op)
    {
        int tp = op.a[0];
        if (tp >= tape_count() || op.a[1] >= int(plan().texts.size())) return;
        if (tape(tp).in_flight) { probe("rewrite_skipped_input_in_use"); return; }
        std::string text = plan().texts[std::size_t(op.a[1])];
        if (op.a[2] && !text.empty())                // another text of the same length in the same place
        {
            std::size_t n = std::size_t(tape(tp).len);
            while (text.size() < n) text += text;
            text.resize(n);
            probe("input_rewritten_same_length");
        }
        set_tape(tp, text);
        probe("input_rewritten");
    }
}
