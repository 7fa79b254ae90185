#include "world.hpp"
#include <algorithm>
#include <cstring>

namespace w
{
    World* W = 0;

    wsrep::id group_id() { return wsrep::id("group-uuid-00001"); }
    wsrep::gtid gtid_of(seq_t s) { return wsrep::gtid(group_id(), wsrep::seqno(s)); }

    std::string enc(const Op& o)
    {
        std::ostringstream os;
        os << "S " << o.t << " " << o.r << " " << o.old << " " << o.val << " " << o.gap << "\n";
        return os.str();
    }
    std::vector<Op> dec(const std::string& s)
    {
        std::vector<Op> ret;
        std::istringstream is(s);
        std::string k;
        while (is >> k)
        {
            if (k == "P" || k == "C") continue;    // XA PREPARE, other events
            Op o;
            if (k != "S" || !(is >> o.t >> o.r >> o.old >> o.val >> o.gap))
            {
                sim::violation("C05,C01", "garbled-writeset", "write set data cannot be decoded: '" + s + "'");
                break;
            }
            ret.push_back(o);
        }
        return ret;
    }
    std::string enc(const Ddl& d)
    {
        std::ostringstream os;
        os << "D " << d.t << " " << d.val << " " << d.trunc;
        return os.str();
    }
    Ddl dec_ddl(const std::string& s)
    {
        std::istringstream is(s);
        std::string k;
        Ddl d;
        is >> k >> d.t >> d.val >> d.trunc;
        return d;
    }

    static void expand(const std::vector<K>& keys, std::map<std::string, bool>& out)
    {
        for (const K& k : keys)
        {
            std::string p;
            for (size_t i = 0; i < k.parts.size(); ++i)
            {
                p += k.parts[i] + "/";
                bool excl = (i + 1 == k.parts.size()) && k.excl;
                bool& e = out[p];
                e = e || excl;
            }
        }
    }
    bool keys_conflict(const std::vector<K>& a, const std::vector<K>& b)
    {
        if (a.empty() || b.empty()) return false;
        std::map<std::string, bool> ea, eb;
        expand(a, ea);
        expand(b, eb);
        for (auto& i : ea)
        {
            auto j = eb.find(i.first);
            if (j != eb.end() && (i.second || j->second)) return true;
        }
        return false;
    }

    void Model::apply_ops(const std::vector<Op>& ops, const Entry& e)
    {
        for (const Op& o : ops)
        {
            int64_t& v = rows[std::make_pair(o.t, o.r)];
            SIM_CHECK("C01", "stale-write", v == o.old,
                      "write set " << e.seqno << " of trx " << e.trx << " overwrites row " << o.t << "/" << o.r
                      << " value " << v << " but transaction had read " << o.old
                      << " (certification keys did not protect it)");
            v = o.val;
        }
    }

    void Model::apply(const Entry& e)
    {
        SrKey key(e.origin, e.trx);
        switch (e.kind)
        {
        case WS:
            if (!e.cert_ok)
            {
                if (!(e.flags & F::start_transaction)) live.erase(key);
                break;
            }
            if (e.flags & F::rollback) { live.erase(key); break; }
            if (e.flags & F::commit)
            {
                if (e.flags & F::start_transaction)
                {
                    if (e.vote == 1) break;
                    apply_ops(dec(e.data), e);
                    committed.insert(e.trx);
                }
                else
                {
                    auto i = live.find(key);
                    if (i != live.end())
                    {
                        if (e.vote != 1)
                        {
                            apply_ops(i->second.ops, e);
                            apply_ops(dec(e.data), e);
                            committed.insert(e.trx);
                        }
                        live.erase(key);
                    }
                }
                break;
            }
            // fragment
            if (!(e.flags & F::start_transaction) && !live.count(key)) break;
            if (e.vote == 1) { live.erase(key); break; }
            {
                SrTrx& t = live[key];
                auto ops = dec(e.data);
                t.ops.insert(t.ops.end(), ops.begin(), ops.end());
                for (auto& o : ops) t.tables.insert(o.t);
                t.frags[e.seqno] = e.data;
                if (e.flags & F::prepare) { t.prepared = true; t.xid = e.xid; }
            }
            break;
        case TOI:
            if (!e.cert_ok) break;
            if (!(e.flags & F::commit)) { nbo_open.insert(e.seqno); break; }
            if (!(e.flags & F::start_transaction)) { nbo_open.erase(e.nbo_begin); break; }
            {
                Ddl d = dec_ddl(e.data);
                for (auto i = live.begin(); i != live.end(); )
                {
                    if (!i->second.prepared && i->second.tables.count(d.t)) i = live.erase(i);
                    else ++i;
                }
                if (e.vote == 1) break;
                tver[d.t] = d.val;
                if (d.trunc)
                {
                    for (auto i = rows.begin(); i != rows.end(); )
                        if (i->first.first == d.t) i = rows.erase(i); else ++i;
                }
            }
            break;
        case VIEW:
        {
            bool equal = (e.members.size() == members.size());
            for (auto& m : e.members)
                if (std::find(members.begin(), members.end(), m) == members.end()) equal = false;
            for (auto i = live.begin(); i != live.end(); )
            {
                bool member = std::find(e.members.begin(), e.members.end(), i->first.first) != e.members.end();
                if (!i->second.prepared && (equal || !member)) i = live.erase(i);
                else ++i;
            }
            members = e.members;
            break;
        }
        }
    }

    std::string Model::rows_str() const
    {
        std::ostringstream os;
        for (auto& i : rows) if (i.second) os << i.first.first << "/" << i.first.second << "=" << i.second << " ";
        for (auto& i : tver) os << "v" << i.first << "=" << i.second << " ";
        return os.str();
    }

    Entry& World::append(Entry e)
    {
        e.seqno = last() + 1;
        // certification
        if (e.kind == WS && !(e.flags & F::rollback) && e.cert_ok)
        {
            for (seq_t i = e.seqno - 1; i > e.last_seen && i > 0; --i)
            {
                Entry& o = at(i);
                if (o.kind == VIEW || !o.cert_ok) continue;
                if (o.kind == WS && ((o.flags & F::rollback) ||
                                     (o.origin == e.origin && o.trx == e.trx))) continue;
                if (keys_conflict(e.keys, o.keys)) { e.cert_ok = false; break; }
            }
        }
        e.barrier = (e.kind != WS) || e.vote == 1 || (e.flags & (F::pa_unsafe | F::rollback)) ||
            (!e.cert_ok && !(e.flags & F::start_transaction));
        if (e.barrier) e.depends_on = e.seqno - 1;
        else
        {
            e.depends_on = 0;
            for (seq_t i = e.seqno - 1; i > 0; --i)
            {
                Entry& o = at(i);
                bool dep = o.barrier;
                if (!dep && o.cert_ok)
                {
                    dep = keys_conflict(e.keys, o.keys) || (o.origin == e.origin && o.trx == e.trx);
                    for (auto& g : o.gaps) if (e.gaps.count(g)) dep = true;
                }
                if (dep) { e.depends_on = i; break; }
            }
        }
        model.apply(e);
        e.after = std::make_shared<Model>(model);
        log.push_back(e);
        Entry& r = log.back();
        SIM_EV("log " << r.seqno << " kind=" << r.kind << " trx=" << r.trx << " flags=" << r.flags
               << " cert=" << r.cert_ok << " ls=" << r.last_seen << " dep=" << r.depends_on
               << " bytes=" << r.data.size() << " members=" << r.members.size());
        if (r.kind == WS && !r.phantom)
        {
            TrxInfo& ti = trxs[r.trx];
            if (r.flags & F::rollback)
            {
                if (!r.by_xid) ++ti.rollback_events;
                SIM_CHECK("C07", "duplicate-rollback-event", ti.rollback_events <= 1 || r.by_xid,
                          "rollback event for transaction " << r.trx << " replicated " << ti.rollback_events << " times");
                sim::probe("rollback-event");
            }
            else
            {
                SIM_CHECK("C07,C01", "fragment-after-rollback", ti.rollback_events == 0,
                          "write set of transaction " << r.trx << " replicated after its rollback event");
                if (!r.by_xid) ti.replicated += r.data;
                if (r.flags & F::commit)
                {
                    ++ti.commit_entries;
                    ti.commit_seqno = r.seqno;
                    if (model.committed.count(r.trx))
                    {
                        SIM_CHECK("C01,C16", "ghost-commit", ti.claim != C_FAILED,
                                  "transaction " << r.trx << " was reported failed but is committed by write set " << r.seqno);
                        SIM_CHECK("C01", "double-commit", ti.commit_entries == 1 || ti.xa,
                                  "transaction " << r.trx << " committed twice");
                        SIM_CHECK("C05,C01", "replicated-data", r.by_xid || ti.replicated == ti.full,
                                  "transaction " << r.trx << " generated [" << ti.full << "] but replicated [" << ti.replicated << "]");
                    }
                    SIM_CHECK("C05", "commit-flags", bool(r.flags & F::start_transaction) == (ti.frags == 0) || r.by_xid,
                              "commit write set " << r.seqno << " of trx " << r.trx << " flags " << r.flags
                              << " after " << ti.frags << " fragments");
                    SIM_CHECK("C05,C02", "commit-pa-unsafe", !ti.frags || r.by_xid || (r.flags & F::pa_unsafe),
                              "commit write set " << r.seqno << " of streaming trx " << r.trx << " is marked safe for parallel applying");
                    if (ti.frags) sim::probe("sr-commit");
                }
                else
                {
                    SIM_CHECK("C05", "fragment-flags", bool(r.flags & F::start_transaction) == (ti.frags == 0),
                              "fragment " << r.seqno << " of trx " << r.trx << " flags " << r.flags
                              << " after " << ti.frags << " fragments");
                    SIM_CHECK("C05", "fragment-after-commit", ti.commit_entries == 0,
                              "fragment " << r.seqno << " after commit of trx " << r.trx);
                    ++ti.frags;
                    sim::probe("fragment");
                }
            }
        }
        if (!r.cert_ok) sim::probe("cert-failed");
        for (auto& n : nodes) { n->recv_wq.wake_all(); n->mon_wq.wake_all(); }
        log_wq.wake_all();
        return r;
    }

    Node* World::node_of(const wsrep::id& id)
    {
        auto i = uuid_node.find(id);
        if (i == uuid_node.end()) return 0;
        Node* n = nodes[size_t(i->second)].get();
        return n->uuid == id ? n : 0;
    }

    wsrep::view make_view(const Entry& e, const wsrep::id& own)
    {
        std::vector<wsrep::view::member> ms;
        ssize_t own_index = -1;
        for (size_t i = 0; i < e.members.size(); ++i)
        {
            if (e.members[i] == own) own_index = ssize_t(i);
            ms.push_back(wsrep::view::member(e.members[i], "n", "a"));
        }
        return wsrep::view(gtid_of(e.seqno), wsrep::seqno(e.seqno), wsrep::view::primary, 0,
                           own_index, 1, ms);
    }

    // Decide which component is primary after any change of connectivity or
    // membership, order a view if needed.
    void World::recompute_groups(const std::string& why, bool force_view)
    {
        again:
        std::map<int, std::vector<Node*>> comps;
        for (auto& n : nodes) if (n->up && n->connected) comps[n->component].push_back(n.get());
        std::vector<wsrep::id> voters;
        for (auto& u : prim) if (uuid_node.count(u)) voters.push_back(u);
        std::vector<Node*>* pc = 0;
        for (auto& c : comps)
        {
            size_t cnt = 0;
            for (Node* n : c.second)
                if (std::find(voters.begin(), voters.end(), n->uuid) != voters.end()) ++cnt;
            if (cnt * 2 > voters.size() && cnt > 0) pc = &c.second;
        }
        if (!pc && force_view)
        {
            for (auto& c : comps) pc = &c.second;
        }
        if (pc && !force_view)
        {
            // Primary component needs a member which has the state.
            bool state = false;
            for (Node* n : *pc) if (!n->fresh && !n->wait_st) state = true;
            if (!state) pc = 0;
        }
        bool had = has_prim;
        seq_t before = last();
        for (auto& n : nodes)
        {
            if (!n->up || !n->connected) continue;
            bool in = pc && std::find(pc->begin(), pc->end(), n.get()) != pc->end();
            if (!in && n->in_prim)
            {
                if (n->fresh || n->wait_st || !n->joined)
                {
                    // Joiner which loses primary component gives up.
                    crash_node(*n, "joiner lost primary");
                    goto again;
                }
                n->in_prim = false;
                n->joined = false;
                n->donating = false;
                n->sync_pending = false;
                n->np_points.push_back(before);
                SIM_EV("node " << n->idx << " non-primary after " << before);
            }
        }
        if (!pc) { has_prim = false; if (had) SIM_EV("primary lost: " << why); }
        else
        {
            std::vector<wsrep::id> members;
            for (Node* n : *pc) members.push_back(n->uuid);
            for (auto& p : phantoms) members.push_back(p);
            const std::vector<wsrep::id>& pm(model.members);
            bool equal = members.size() == pm.size();
            for (auto& m : members) if (std::find(pm.begin(), pm.end(), m) == pm.end()) equal = false;
            if (!equal || !had || force_view)
            {
                prim = members;
                has_prim = true;
                Entry e;
                e.kind = VIEW;
                e.members = members;
                e.trx = 0;
                Entry& r = append(e);
                SIM_EV("view " << r.seqno << " " << why << " members " << members.size());
                for (Node* n : *pc)
                {
                    if (!n->in_prim)
                    {
                        n->in_prim = true;
                        n->join_view = r.seqno;
                    }
                }
                if (equal) sim::probe("equal-views");
            }
        }
        for (auto& n : nodes) { n->recv_wq.wake_all(); n->mon_wq.wake_all(); }
        log_wq.wake_all();
    }
}
