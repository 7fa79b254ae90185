// Simulated files for paths below /simfs/: inodes, names, descriptors, faults.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>

namespace simfs
{
    struct Inode { std::string data; };
    typedef std::shared_ptr<Inode> InodeP;
    struct Fs
    {
        std::map<std::string, InodeP> names;
        struct Fd { InodeP node; size_t pos; bool append; int group; };
        std::map<int, Fd> fds;
        int next_fd = 1 << 20;
        uint32_t next_tmp = 0;
        bool full = false;                       // no space left
        double p_fault = 0;
        bool slow = false;
        std::function<void(const std::string& path)> on_change;   // content or name changed
        std::function<void(const char* what)> on_fault;           // an operation failed
        int open_fds(int group) const { int n = 0; for (auto& f : fds) n += f.second.group == group; return n; }
    };
    extern Fs* FS;                               // 0: no simulated files
    void reset();
}
