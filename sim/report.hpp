// Reference model and checker of one status report file.
#pragma once
#include "core.hpp"
#include "fs.hpp"
#include "wsrep/reporter.hpp"
#include <memory>

namespace ro
{
    struct Json
    {
        enum T { N, S, A, O, B } t = N;
        double num = 0;
        std::string str;
        std::vector<Json> arr;
        std::vector<std::pair<std::string, Json>> obj;
        const Json* get(const std::string& k) const
        { for (auto& p : obj) if (p.first == k) return &p.second; return 0; }
        std::string canon() const;
    };
    bool parse_json(const std::string&, Json&, std::string& err);
    std::string quote(const std::string&);

    struct Msg { double ts; double lo, hi; std::string text; };
    struct Version
    {
        std::deque<Msg> errors, warnings, events;
        std::string state, comment, progress;
    };
    struct Call
    {
        enum K { STATE, PROGRESS, EVENT, MSG } k = STATE;
        int state = 0;
        bool error = false;
        std::string text;
        double ts = 0;
        double begin = 0;
        bool linear = false, faulted = false, changed = false;
        size_t version = 0;
    };
    struct Report;
    void reset_reports();
    struct RepMutex : sim::mutex
    {
        explicit RepMutex(Report& r) : rep(r) { }
        Report& rep;
        void lock() WSREP_OVERRIDE;
    };
    // One reporter with its file. Restart creates a new one on the same path.
    struct Report
    {
        Report(const std::string& path, size_t max_msg, bool old_file);
        std::string path;
        size_t max_msg;
        RepMutex m;
        std::unique_ptr<wsrep::reporter> rep;
        std::vector<Version> v;
        size_t visible = 0;            // newest version the file shows
        bool shown = false;            // file shows a report of this reporter
        bool exists;                   // file has shown some report
        bool init_faulted = false, constructing = true, unlink_failed = false;
        sim::fiber* creator = 0;
        int sub_joining = 0;           // reference state
        bool initialized = false;
        int cur = -1;
        std::map<sim::fiber*, Call*> calls;
        std::set<std::string> leftover;      // files of a crashed reporter
        void state(int s);
        void progress(const std::string&);
        void event(const std::string&);
        void msg(bool error, const std::string&, double ts);
        void linearize(Call&);
        void change(const std::string& p);
        void fault(const char* what);
        void run(Call&, std::function<void()>);
        void idle_check(int group);
    };
}
