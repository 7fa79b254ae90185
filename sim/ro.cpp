// Worlds without a cluster: the status report file (C18), provider options (C20).
#include "report.hpp"
#include "world.hpp"
#include "wsrep/provider_options.hpp"
#include <cmath>
#include <limits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <time.h>

namespace ro
{
    // ---- JSON -----------------------------------------------------------------
    namespace
    {
        struct Parser
        {
            const std::string& s;
            size_t i = 0;
            std::string err;
            explicit Parser(const std::string& x) : s(x) { }
            bool bad(const char* e) { if (err.empty()) err = std::string(e) + " at " + std::to_string(i); return false; }
            void ws() { while (i < s.size() && strchr(" \t\r\n", s[i]) && s[i]) ++i; }
            bool str(std::string& o)
            {
                if (i >= s.size() || s[i] != '"') return bad("string expected");
                ++i;
                for (;;)
                {
                    if (i >= s.size()) return bad("end of data in a string");
                    unsigned char c = static_cast<unsigned char>(s[i]);
                    if (c == '"') { ++i; return true; }
                    if (c < 0x20) return bad("control character in a string");
                    if (c != '\\') { o += s[i++]; continue; }
                    ++i;
                    if (i >= s.size()) return bad("end of data in a string");
                    switch (s[i])
                    {
                    case '"': case '\\': case '/': o += s[i]; break;
                    case 'b': o += '\b'; break;
                    case 'f': o += '\f'; break;
                    case 'n': o += '\n'; break;
                    case 'r': o += '\r'; break;
                    case 't': o += '\t'; break;
                    case 'u':
                    {
                        if (i + 4 >= s.size()) return bad("end of data in a string");
                        unsigned v = 0;
                        for (int k = 1; k <= 4; ++k)
                        {
                            char h = s[i + size_t(k)];
                            if (!isxdigit(static_cast<unsigned char>(h))) return bad("bad unicode escape");
                            v = v * 16 + unsigned(h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
                        }
                        i += 4;
                        if (v < 0x80) o += char(v);
                        else if (v < 0x800) { o += char(0xc0 | (v >> 6)); o += char(0x80 | (v & 63)); }
                        else { o += char(0xe0 | (v >> 12)); o += char(0x80 | ((v >> 6) & 63)); o += char(0x80 | (v & 63)); }
                        break;
                    }
                    default: return bad("bad escape");
                    }
                    ++i;
                }
            }
            bool val(Json& j, int depth = 0)
            {
                if (depth > 50) return bad("too deep");
                ws();
                if (i >= s.size()) return bad("end of data");
                char c = s[i];
                if (c == '{')
                {
                    j.t = Json::O; ++i; ws();
                    if (i < s.size() && s[i] == '}') { ++i; return true; }
                    for (;;)
                    {
                        ws();
                        std::string k;
                        if (!str(k)) return false;
                        ws();
                        if (i >= s.size() || s[i] != ':') return bad("colon expected");
                        ++i;
                        Json v;
                        if (!val(v, depth + 1)) return false;
                        if (j.get(k)) return bad("duplicate name");
                        j.obj.push_back(std::make_pair(k, v));
                        ws();
                        if (i < s.size() && s[i] == ',') { ++i; continue; }
                        if (i < s.size() && s[i] == '}') { ++i; return true; }
                        return bad("comma or brace expected");
                    }
                }
                if (c == '[')
                {
                    j.t = Json::A; ++i; ws();
                    if (i < s.size() && s[i] == ']') { ++i; return true; }
                    for (;;)
                    {
                        Json v;
                        if (!val(v, depth + 1)) return false;
                        j.arr.push_back(v);
                        ws();
                        if (i < s.size() && s[i] == ',') { ++i; continue; }
                        if (i < s.size() && s[i] == ']') { ++i; return true; }
                        return bad("comma or bracket expected");
                    }
                }
                if (c == '"') { j.t = Json::S; return str(j.str); }
                for (const char* w : { "true", "false", "null" })
                    if (s.compare(i, strlen(w), w) == 0) { j.t = Json::B; j.str = w; i += strlen(w); return true; }
                size_t b = i;
                if (i < s.size() && s[i] == '-') ++i;
                if (i >= s.size() || !isdigit(static_cast<unsigned char>(s[i]))) return bad("value expected");
                while (i < s.size() && (isalnum(static_cast<unsigned char>(s[i])) || strchr("+-.", s[i])) && s[i]) ++i;
                std::string n = s.substr(b, i - b);
                char* e = 0;
                j.t = Json::N;
                j.num = strtod(n.c_str(), &e);
                if (*e || n.find_first_of("xXpPnNiI") != std::string::npos) return bad("bad number");
                return true;
            }
        };
    }
    bool parse_json(const std::string& s, Json& j, std::string& err)
    {
        Parser p(s);
        if (!p.val(j)) { err = p.err; return false; }
        p.ws();
        if (p.i != s.size()) { err = "data after the end at " + std::to_string(p.i); return false; }
        return true;
    }
    std::string Json::canon() const
    {
        std::ostringstream os;
        os.precision(17);
        switch (t)
        {
        case N: os << num; break;
        case S: os << '"' << str << '"'; break;
        case B: os << str; break;
        case A: os << '['; for (auto& a : arr) os << a.canon() << ','; os << ']'; break;
        case O: os << '{'; for (auto& o : obj) os << o.first << ':' << o.second.canon() << ','; os << '}'; break;
        }
        return os.str();
    }
    std::string quote(const std::string& s)
    {
        std::string r = "\"";
        for (char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (static_cast<unsigned char>(c) < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r + "\"";
    }
    static double real_now()
    {
        struct timespec t;
        clock_gettime(CLOCK_REALTIME, &t);
        return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
    }

    // ---- report file ---------------------------------------------------------------
    static const char* const indefinite = "{ \"from\": -1, \"to\": -1, \"total\": -1, \"done\": -1, \"indefinite\": -1 }";
    static const char* const steady = "{ \"from\": -1, \"to\": -1, \"total\": 0, \"done\": 0, \"indefinite\": -1 }";

    static std::map<std::string, Report*> live;      // current reporter of each file
    void reset_reports() { simfs::reset(); live.clear(); }

    void RepMutex::lock()
    {
        sim::mutex::lock();
        auto i = rep.calls.find(sim::current());
        if (i != rep.calls.end() && !i->second->linear) rep.linearize(*i->second);
    }
    Report::Report(const std::string& p, size_t mm, bool old_file)
        : path(p), max_msg(mm), m(*this), exists(old_file)
    {
        Version v0;
        v0.state = "DISCONNECTED"; v0.comment = "Disconnected"; v0.progress = indefinite;
        v.push_back(v0);
        simfs::Fs& fs = *simfs::FS;
        auto dead = live.find(path);
        if (dead != live.end())
            for (auto f = fs.fds.begin(); f != fs.fds.end();) { if (sim::group_killed(f->second.group)) f = fs.fds.erase(f); else ++f; }
        live[path] = this;
        fs.on_change = [](const std::string& s) { auto i = live.find(s); if (i != live.end()) i->second->change(s); };
        fs.on_fault = [](const char* w) { for (auto& r : live) r.second->fault(w); };
        for (auto& n : fs.names) if (n.first != path) leftover.insert(n.first);
        creator = sim::current();
        rep.reset(new wsrep::reporter(m, path, mm));
        constructing = false;
        SIM_CHECK("C18", "report-missing", shown || init_faulted, "no report was written when the reporter was created");
    }
    void Report::fault(const char* w)
    {
        if (constructing && creator == sim::current()) init_faulted = true;
        auto i = calls.find(sim::current());
        if (i != calls.end()) i->second->faulted = true;
        if (std::string(w) == "unlink") unlink_failed = true;
    }
    void Report::linearize(Call& c)
    {
        c.linear = true;
        Version n = v.back();
        bool changed = false;
        if (c.k == Call::STATE)
        {
            typedef wsrep::server_state SS;
            std::string st, co;
            switch (c.state)
            {
            case SS::s_disconnected: st = "DISCONNECTED"; co = "Disconnected"; initialized = false; sub_joining = 0; break;
            case SS::s_initializing: st = sub_joining ? "JOINING" : "DISCONNECTED"; co = "Initializing"; break;
            case SS::s_initialized:
                st = sub_joining ? "JOINING" : "DISCONNECTED"; co = sub_joining ? "Receiving IST" : "Connecting"; initialized = true; break;
            case SS::s_connected: st = "CONNECTED"; co = "Waiting"; break;
            case SS::s_joiner: st = "JOINING"; co = initialized ? "Receiving state" : "Receiving SST"; sub_joining = 1; break;
            case SS::s_joined: st = "JOINED"; co = "Syncing"; break;
            case SS::s_donor: st = "DONOR"; co = "Donating SST"; break;
            case SS::s_synced: st = "SYNCED"; co = "Operational"; break;
            case SS::s_disconnecting: st = "DISCONNECTING"; co = "Disconnecting"; sub_joining = 0; break;
            }
            if (st != n.state || co != n.comment)
            {
                changed = true;
                n.state = st; n.comment = co;
                n.progress = st == "SYNCED" ? steady : indefinite;
            }
            cur = c.state;
        }
        else if (c.k == Call::PROGRESS)
        {
            if (n.state != "SYNCED" && n.progress != c.text) { changed = true; n.progress = c.text; }
        }
        else
        {
            std::deque<Msg>& q = c.k == Call::EVENT ? n.events : c.error ? n.errors : n.warnings;
            if (c.k == Call::EVENT || q.empty() || q.back().text != c.text)
            {
                changed = true;
                q.push_back(Msg{c.ts, c.begin, 0, c.text});
                while (q.size() > max_msg) q.pop_front();
            }
        }
        if (changed) v.push_back(n);
        c.changed = changed;
        c.version = v.size() - 1;
        SIM_EV("report version " << c.version << (changed ? "" : " unchanged"));
    }
    static std::string match(const Version& v, const Json& j)
    {
        const Json* st = j.get("status");
        if (!st) return "no status";
        auto is = [&](const char* k, const std::string& want) { const Json* x = st->get(k); return x && x->t == Json::S && x->str == want; };
        if (!is("state", v.state)) return "state";
        if (!is("comment", v.comment)) return "comment";
        Json p; std::string e;
        if (!parse_json(v.progress, p, e)) return "model";
        if (!st->get("progress") || st->get("progress")->canon() != p.canon()) return "progress";
        for (int k = 0; k < 3; ++k)
        {
            const char* name = k == 0 ? "errors" : k == 1 ? "warnings" : "events";
            const std::deque<Msg>& q = k == 0 ? v.errors : k == 1 ? v.warnings : v.events;
            const Json* a = j.get(name);
            if (!a || a->t != Json::A) return std::string("no ") + name;
            if (a->arr.size() != q.size()) return name;
            for (size_t i = 0; i < q.size(); ++i)
            {
                const Json& m = a->arr[i];
                const Json* ts = m.get("timestamp");
                const Json* tx = m.get(k == 2 ? "event" : "msg");
                if (!ts || ts->t != Json::N || !tx) return std::string(name) + " entry";
                if (k == 2)
                {
                    Json ev;
                    if (!parse_json(q[i].text, ev, e) || tx->canon() != ev.canon()) return std::string(name) + " text";
                }
                else if (tx->t != Json::S || tx->str != q[i].text) return std::string(name) + " text";
                if (q[i].ts > 0 ? std::fabs(ts->num - q[i].ts) > 1e-6 * std::fabs(q[i].ts)
                    : (ts->num < q[i].lo - 1e-3 || ts->num > real_now() + 1e-3))
                    return std::string(name) + " time";
            }
        }
        const Json* ts = j.get("timestamp");
        const Json* d = j.get("date");
        if (!ts || ts->t != Json::N || !d || d->t != Json::S) return "timestamp";
        return "";
    }
    void Report::change(const std::string& p)
    {
        if (p != path) return;
        auto i = simfs::FS->names.find(path);
        if (i == simfs::FS->names.end())
        {
            SIM_CHECK("C18", "report-vanished", !exists, "the report file disappeared");
            return;
        }
        const std::string& d = i->second->data;
        Json j;
        std::string err;
        if (!parse_json(d, j, err))
        {
            sim::violation("C18", "report-malformed", "the report file is not a complete report (" + err + "), " + std::to_string(d.size()) + " bytes: ..." + (d.size() > 60 ? d.substr(d.size() - 60) : d));
            return;
        }
        for (const char* k : { "errors", "warnings", "events" })
            if (j.get(k))
                SIM_CHECK("C18", "report-unbounded", j.get(k)->arr.size() <= max_msg, "report has " << j.get(k)->arr.size() << " " << k << ", limit is " << max_msg);
        std::string why;
        for (size_t k = v.size(); k > visible; --k)
        {
            std::string w = match(v[k - 1], j);
            if (w.empty())
            {
                visible = k - 1;
                shown = exists = true;
                sim::probe("report");
                SIM_EV("report shows " << visible << " of " << v.size() - 1);
                return;
            }
            if (why.empty()) why = w;
        }
        for (size_t k = visible; k > 0; --k)
            if (match(v[k - 1], j).empty())
            {
                sim::violation("C18", "report-goes-back", "the file shows an older report than before: version " + std::to_string(k - 1) + " after " + std::to_string(visible));
                return;
            }
        sim::violation("C18", "report-wrong", "the report shows something that was not reported (" + why + "): " + d);
    }
    void Report::run(Call& c, std::function<void()> fn)
    {
        c.begin = real_now();
        calls[sim::current()] = &c;
        fn();
        calls.erase(sim::current());
        SIM_CHECK("C18", "report-not-locked", c.linear, "reported without taking the lock");
        // a repetition writes nothing, also when the first report could not be written
        if (!c.changed) { }
        else if (!c.faulted)
            SIM_CHECK("C18", "report-stale", visible >= c.version && shown,
                      "the call returned but the file shows version " << visible << ", not " << c.version);
        else sim::probe("report-failed");
        idle_check(sim::current_group());
    }
    void Report::idle_check(int group)
    {
        if (!calls.empty()) return;
        int fds = simfs::FS->open_fds(group);
        SIM_CHECK("C18", "report-fd-leak", fds == 0, fds << " files are left open");
        if (unlink_failed) return;
        for (auto& n : simfs::FS->names)
            if (n.first != path && !leftover.count(n.first) && n.first.compare(0, path.size(), path) == 0)
            {
                leftover.insert(n.first);
                sim::violation("C18", "report-stray-file", "temporary file is left behind: " + n.first);
            }
    }
    void Report::state(int s)
    { Call c; c.k = Call::STATE; c.state = s; run(c, [&]{ rep->report_state(static_cast<enum wsrep::server_state::state>(s)); }); }
    void Report::progress(const std::string& t)
    { Call c; c.k = Call::PROGRESS; c.text = t; run(c, [&]{ rep->report_progress(t); }); }
    void Report::event(const std::string& t)
    { Call c; c.k = Call::EVENT; c.text = t; run(c, [&]{ rep->report_event(t); }); }
    void Report::msg(bool e, const std::string& t, double ts)
    { Call c; c.k = Call::MSG; c.error = e; c.text = t; c.ts = ts; run(c, [&]{ rep->report_log_msg(e ? wsrep::reporter::error : wsrep::reporter::warning, t, ts); }); }

    static std::string text(int depth = 0)
    {
        static const char* const piece[] = { "a", "node", " ", "\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", "\x01", "\x1f", "\x7f",
            "\xc3\xa4", "\xe2\x82\xac", "\\\"", "\\n", "'", "{", "}", "0", "\\u0041" };
        std::string s;
        uint32_t n = sim::choose(5, "text-len");
        for (uint32_t i = 0; i < n; ++i) s += piece[sim::choose(sizeof piece / sizeof *piece, "text")];
        if (sim::chance(0.02, "long-text")) s += std::string(5000, 'x');
        return s;
    }
    // next state of the documented life cycle
    static int next_state(int s, bool& init_done, bool sst_first)
    {
        typedef wsrep::server_state SS;
        switch (s)
        {
        case SS::s_disconnected: return sst_first || init_done ? SS::s_connected : SS::s_initializing;
        case SS::s_initializing: init_done = true; return SS::s_initialized;
        case SS::s_initialized: return sst_first ? SS::s_joined : SS::s_connected;
        case SS::s_connected: { int x[] = { SS::s_joiner, SS::s_joined, SS::s_disconnecting, SS::s_connected }; return x[sim::choose(4, "next")]; }
        case SS::s_joiner:
            if (sim::chance(0.2, "joiner-leaves")) return SS::s_disconnecting;
            return sst_first && !init_done ? SS::s_initializing : SS::s_joined;
        case SS::s_joined: { int x[] = { SS::s_synced, SS::s_synced, SS::s_disconnecting }; return x[sim::choose(3, "next")]; }
        case SS::s_donor: { int x[] = { SS::s_joined, SS::s_joined, SS::s_disconnecting }; return x[sim::choose(3, "next")]; }
        case SS::s_synced: { int x[] = { SS::s_donor, SS::s_disconnecting, SS::s_joined, SS::s_synced }; return x[sim::choose(4, "next")]; }
        default: return SS::s_disconnected;
        }
    }
    static std::string progress_text()
    {
        std::ostringstream os;
        int tot = int(sim::choose(4, "total")) * 100;
        os << "{ \"from\": " << sim::choose(6, "from") << ", \"to\": " << sim::choose(6, "to") << ", \"total\": " << tot
           << ", \"done\": " << (tot ? sim::choose(uint32_t(tot) + 1, "done") : 0) << ", \"indefinite\": -1 }";
        return os.str();
    }
    static std::string event_text()
    {
        std::string a = text(), b = text();
        if (a.find('\x7f') != std::string::npos) a = "x";
        return "{ \"status\": " + quote(a) + ", \"message\": " + quote(b) + " }";
    }
    void reporter_scenario(const std::string& prop)
    {
        if (sim::choose(4, "world") == 3) return w::cluster_scenario(prop);
        reset_reports();
        simfs::Fs& fs = *simfs::FS;
        auto pick = [](std::initializer_list<double> l, const char* tag) { return l.begin()[sim::choose(uint32_t(l.size()), tag)]; };
        sim::set_preempt(pick({0.05, 0.2, 0.5}, "preempt"), pick({0, 0.001, 0.01, 0.05}, "preempt-bb"));
        const double p_fault = pick({0, 0, 0.05, 0.2, 0.5}, "p_fs");
        const bool full = sim::chance(0.3, "full-disk");
        const bool sst_first = sim::chance(0.5, "sst_first");
        fs.slow = sim::chance(0.3, "slow");
        const size_t max_msg = sim::choose(5, "max_msg") == 0 ? 0 : sim::range(1, 4, "max_msg2");
        const int lives = int(1 + sim::choose(3, "lives"));
        bool old = false;
        const std::string path = "/simfs/node/report.json";
        for (int life = 0; life < lives; ++life)
        {
            fs.p_fault = p_fault;
            const int group = 10 + life;
            Report* r = 0;
            bool made = false, finished = false;
            int running = 0;
            sim::wait_queue wq("reporters");
            auto worker = [&](int kind)
            {
                bool init_done = false;
                int st = wsrep::server_state::s_disconnected;
                const int ops = int(1 + sim::choose(8, "ops"));
                std::string last;
                for (int i = 0; i < ops; ++i)
                {
                    if (kind == 0)
                    {
                        st = next_state(st, init_done, sst_first);
                        r->state(st);
                        // the server never repeats its initialization states
                        if (st != wsrep::server_state::s_initializing && st != wsrep::server_state::s_initialized && sim::chance(0.1, "again")) r->state(st);
                    }
                    else switch (sim::choose(kind == 1 ? 2 : 4, "op"))
                    {
                    case 0: r->progress(progress_text()); break;
                    case 1: r->event(event_text()); break;
                    default:
                    {
                        std::string t = text();
                        if (last.size() && sim::chance(0.4, "derived"))
                        {
                            // the text of the last message as it is quoted in the file, or the same again
                            t = sim::chance(0.5, "same") ? last : quote(last).substr(1, quote(last).size() - 2);
                        }
                        last = t;
                        r->msg(sim::chance(0.5, "error"), t, sim::chance(0.3, "ts") ? 1600000000.0 + sim::choose(60000, "ts") / 1000.0 : 0);
                    }
                    }
                    if (sim::chance(0.3, "pause")) sim::sleep_us(sim::range(1, 5000, "pause-us"));
                }
                if (--running == 0) { finished = true; wq.wake_all(); }
            };
            sim::spawn("starter", group, [&]
            {
                r = new Report(path, max_msg, old);
                made = true;
                const int n = int(1 + sim::choose(4, "reporters"));
                running = n;
                for (int k = 0; k < n; ++k) sim::spawn("reporter" + std::to_string(k), group, [&worker, k]{ worker(k); });
            });
            const bool crash = life + 1 < lives && sim::chance(0.5, "crash");
            if (full) sim::spawn("disk", group, [&]
            {
                for (int k = 0; k < 3; ++k)
                {
                    sim::sleep_us(sim::range(1, 30, "full-at") * 1000);
                    fs.full = true; sim::note_fault("fs-disk-full");
                    sim::sleep_us(sim::range(1, 10, "full-for") * 1000);
                    fs.full = false;
                }
            });
            if (crash)
            {
                sim::sleep_us(sim::range(0, 20000, "crash-at"));
                sim::kill_group(group);
                sim::note_fault("process-crash");
                SIM_EV("crash");
                fs.fds.clear();
                if (r && r->exists) old = true;
                if (!r && fs.names.count(path)) old = true;
            }
            else
            {
                while (!finished) wq.wait();
                sim::kill_group(group);
                fs.full = false;
                // disk works again: the next report shows everything
                fs.p_fault = 0;
                r->msg(true, "final " + std::to_string(life), 0);
                if (r->max_msg > 0 || true)
                    SIM_CHECK("C18", "report-stale", r->visible + 1 == r->v.size(), "the last report is not the current one");
                old = true;
                r->idle_check(0);
                r->rep.reset();
            }
            fs.full = false;
            // what monitoring reads now is complete
            auto i = fs.names.find(path);
            if (old)
            {
                Json j; std::string err;
                SIM_CHECK("C18", "report-vanished", i != fs.names.end(), "no report file after restart or crash");
                if (i != fs.names.end())
                    SIM_CHECK("C18", "report-malformed", parse_json(i->second->data, j, err), "report after crash is not complete: " << err);
            }
            if (i != fs.names.end()) sim::state_hash(sim::hash_str(i->second->data));
        }
    }
}
