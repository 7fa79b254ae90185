From 80fd1e179dbbbcf31670f3941556f9d82e621547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:22 +0000
Subject: [PATCH 01/40] fix: do not report timeout from entering TOI if no
 deadline was given

poll_enter_toi() set timed_out whenever no deadline was given, so that any
provider failure was reported to the client as e_timeout_error without
the provider status.
---
 src/client_state.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index a5995cd..a64f834 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -572,6 +572,7 @@ wsrep::client_state::poll_enter_toi(
                     << ","
                     << wait_until.time_since_epoch().count());
     enum wsrep::provider::status status;
+    const bool has_deadline(wait_until.time_since_epoch().count() != 0);
     timed_out = false;
     wsrep::ws_meta poll_meta; // tmp var for polling, as enter_toi may clear meta arg on errors
     do
@@ -599,11 +600,11 @@ wsrep::client_state::poll_enter_toi(
             ::usleep(300000);
         }
         lock.lock();
-        timed_out = !(wait_until.time_since_epoch().count() &&
-                      wsrep::clock::now() < wait_until);
+        timed_out = has_deadline && wsrep::clock::now() >= wait_until;
     }
     while ((status == wsrep::provider::error_certification_failed ||
             status == wsrep::provider::error_connection_failed) &&
+           has_deadline &&
            not timed_out &&
            not client_service_.interrupted(lock));
     meta = poll_meta;
-- 
2.43.0


From 077aa83c2c4353909fcea5bce81ae9184d991131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:22 +0000
Subject: [PATCH 02/40] fix: tolerate BF abort during failing fragment or
 commit certification

A transaction may be BF aborted while the client state mutex is released in
certify_fragment() and certify_commit(). Several error paths changed the
state to s_must_abort unconditionally, which is not allowed from
s_must_abort. The path for empty fragment changed the state back to
s_executing, losing the BF abort.
---
 src/transaction.cpp | 55 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 6647cfc..8c5ab70 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1521,7 +1521,10 @@ int wsrep::transaction::certify_fragment(
             << status << " ("
             << wsrep::provider::to_string(status) << ")";
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         return 1;
     }
 
@@ -1530,7 +1533,10 @@ int wsrep::transaction::certify_fragment(
     if (client_service_.prepare_fragment_for_replication(data, log_position))
     {
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
@@ -1540,6 +1546,11 @@ int wsrep::transaction::certify_fragment(
     {
         wsrep::log_warning() << "Attempt to replicate empty data buffer";
         lock.lock();
+        if (state() == s_must_abort)
+        {
+            client_state_.override_error(wsrep::e_deadlock_error);
+            return 1;
+        }
         state(lock, s_executing);
         return 0;
     }
@@ -1548,7 +1559,10 @@ int wsrep::transaction::certify_fragment(
                                wsrep::const_buffer(data.data(), data.size())))
     {
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
@@ -1796,7 +1810,10 @@ int wsrep::transaction::certify_commit(
         if (!is_xa())
         {
             lock.lock();
-            state(lock, s_must_abort);
+            if (state() != s_must_abort)
+            {
+                state(lock, s_must_abort);
+            }
             return 1;
         }
     }
@@ -1879,11 +1896,17 @@ int wsrep::transaction::certify_commit(
         break;
     case wsrep::provider::error_warning:
         assert(ordered() == false);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     case wsrep::provider::error_transaction_missing:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         // The execution should never reach this point if the
         // transaction has not generated any keys or data.
         wsrep::log_warning() << "Transaction was missing in provider";
@@ -1906,7 +1929,10 @@ int wsrep::transaction::certify_commit(
         client_state_.override_error(wsrep::e_deadlock_error);
         break;
     case wsrep::provider::error_size_exceeded:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     case wsrep::provider::error_connection_failed:
@@ -1945,19 +1971,28 @@ int wsrep::transaction::certify_commit(
         break;
     case wsrep::provider::error_fatal:
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_service_.emergency_shutdown();
         break;
     case wsrep::provider::error_not_implemented:
     case wsrep::provider::error_not_allowed:
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         wsrep::log_warning() << "Certification operation was not allowed: "
                              << "id: " << id().get()
                              << " flags: " << std::hex << flags() << std::dec;
         break;
     default:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     }
-- 
2.43.0


From 3b7035f613c9c7178b765a5448cfa3888df5ffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:22 +0000
Subject: [PATCH 03/40] fix: set client error if commit fails to replicate
 pending rollback events

certify_commit() aborted the transaction without setting error for client,
which violated an assertion in before_prepare() and left the client without
an error code.
---
 src/transaction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 8c5ab70..0f52daa 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1814,6 +1814,7 @@ int wsrep::transaction::certify_commit(
             {
                 state(lock, s_must_abort);
             }
+            client_state_.override_error(wsrep::e_error_during_commit, status);
             return 1;
         }
     }
-- 
2.43.0


From ab1cb47765bf9086a89bc98042b74e53e0ad0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:22 +0000
Subject: [PATCH 04/40] fix: abort transaction if statement is not allowed for
 streaming on commit

before_prepare() returned an error but left the transaction in s_executing
state, which violated an assertion at the end of before_prepare().
---
 src/transaction.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 0f52daa..7bac7f7 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -306,10 +306,19 @@ int wsrep::transaction::before_prepare(wsrep::unique_lock<wsrep::mutex>& lock,
             lock.unlock();
             if (client_service_.statement_allowed_for_streaming() == false)
             {
-                client_state_.override_error(
-                    wsrep::e_error_during_commit,
-                    wsrep::provider::error_not_allowed);
-                ret = 1;
+                lock.lock();
+                if (state() == s_must_abort)
+                {
+                    client_state_.override_error(wsrep::e_deadlock_error);
+                }
+                else
+                {
+                    client_state_.override_error(
+                        wsrep::e_error_during_commit,
+                        wsrep::provider::error_not_allowed);
+                    state(lock, s_must_abort);
+                }
+                return 1;
             }
             else if (!is_xa())
             {
-- 
2.43.0


From e705c14e297481c5671f001d15707b701f62a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 05/40] fix: do not interrupt state waiter because of spurious
 wakeup

A thread waiting for a server state while the server is still disconnected
(e.g. waiting for initialization after connect()) was interrupted if its
condition variable wait returned before the state had changed at all.
---
 src/server_state.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index c727dba..9124c26 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1395,14 +1395,18 @@ void wsrep::server_state::wait_until_state(
     enum wsrep::server_state::state state) const
 {
     ++state_waiters_[state];
+    const std::vector<enum state>::size_type hist_size(state_hist_.size());
     while (state_ != state)
     {
         cond_.wait(lock);
         // If the waiter waits for any other state than disconnecting
         // or disconnected and the state has been changed to disconnecting,
-        // this usually means that some error was encountered 
+        // this usually means that some error was encountered. The wakeup
+        // alone does not tell that, the state must have been changed
+        // after the waiting started.
         if (state != s_disconnecting && state != s_disconnected
-            && (state_ == s_disconnecting || state_ == s_disconnected))
+            && (state_ == s_disconnecting || state_ == s_disconnected)
+            && state_hist_.size() != hist_size)
         {
           --state_waiters_[state];
             throw wsrep::runtime_error("State wait was interrupted");
-- 
2.43.0


From a115dd94dfc8d4c56705eaf3da0e2cc82448759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:24 +0000
Subject: [PATCH 06/40] fix: set client error if fragment fails to replicate
 pending rollback events

Unlike other failures in certify_fragment(), the failure to replicate pending
rollback events did not set error for client, and the rolled back
transaction could be reported as success.
---
 src/transaction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 7bac7f7..7bcf975 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1534,6 +1534,7 @@ int wsrep::transaction::certify_fragment(
         {
             state(lock, s_must_abort);
         }
+        client_state_.override_error(wsrep::e_deadlock_error, status);
         return 1;
     }
 
-- 
2.43.0


From bd18fe062781c579cbc34a61a498373f85045788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:37 +0000
Subject: [PATCH 07/40] fix: keep total order BF abort flag if victim is
 aborted again

A second total_order_bf_abort() call on a victim which was already BF aborted
in total order cleared the flag, so that fragments of the streaming victim
were not removed from fragment storage in after_rollback().
---
 src/transaction.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 7bcf975..11a33c5 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1130,13 +1130,15 @@ bool wsrep::transaction::total_order_bf_abort(
 {
     /* We must set this flag before entering bf_abort() in order
      * to streaming_rollback() work correctly. The flag will be
-     * unset if BF abort was not allowed. Note that we rely in
+     * restored if BF abort was not allowed, as the victim may have
+     * been already BF aborted in total order. Note that we rely in
      * bf_abort() not to release lock if the BF abort is not allowed. */
+    const bool already_bf_aborted(bf_aborted_in_total_order_);
     bf_aborted_in_total_order_ = true;
     bool ret(bf_abort(lock, bf_seqno, victim_ctx));
     if (not ret)
     {
-        bf_aborted_in_total_order_ = false;
+        bf_aborted_in_total_order_ = already_bf_aborted;
     }
     return ret;
 }
-- 
2.43.0


From cc7d46a69126074d67fe16c5705760c2de6bdf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:17 +0000
Subject: [PATCH 08/40] fix: do not wait for streaming rollback of BF abort
 victim which is already rolling back

---
 src/transaction.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 11a33c5..ac088ed 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1079,9 +1079,12 @@ bool wsrep::transaction::bf_abort(
         // replicated before the victim starts to roll back and release locks.
         // In other states the BF abort will be detected outside of
         // storage engine operations and streaming rollback will be
-        // handled from before_rollback() call.
+        // handled from before_rollback() call. If the victim is already
+        // in streaming rollback, it must be left alone: it may complete
+        // the rollback and start a new transaction while waited for.
         if (client_state_.mode() == wsrep::client_state::m_local &&
-            is_streaming() && state_at_enter == s_executing)
+            is_streaming() && state_at_enter == s_executing &&
+            not streaming_rollback_in_progress_)
         {
             streaming_rollback(lock);
         }
-- 
2.43.0


From f0cbbd3c9323fd144c63502a5bb73acda9e44dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:32 +0000
Subject: [PATCH 09/40] fix: notify view handler when streaming client is
 converted to applier

---
 src/server_state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 9124c26..d6b0faf 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1182,6 +1182,7 @@ void wsrep::server_state::convert_streaming_client_to_applier(
     else
     {
         streaming_clients_.erase(i);
+        cond_.notify_all();
     }
 
     // Convert to applier only if the state is not disconnected. In
-- 
2.43.0


From 9a7198b95ca8064dc1f5eb00b6b2878bbfc05695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:51 +0000
Subject: [PATCH 10/40] fix: do not publish partial status report, remove
 temporary file on failure

---
 src/reporter.cpp | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index 3b21a19..9565c01 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -284,18 +284,39 @@ wsrep::reporter::write_file(double const tstamp)
                   << "': " << strerror(errno) << " (" << errno << ")\n";
         return;
     }
-    ssize_t err(write(fd, str.c_str(), str.length()));
-    close(fd);
-    if (err < 0)
+    int err(0);
+    size_t written(0);
+    while (written < str.length())
+    {
+        ssize_t const ret(write(fd, str.c_str() + written,
+                                str.length() - written));
+        if (ret < 0)
+        {
+            if (errno == EINTR) continue;
+            err = errno;
+            break;
+        }
+        written += size_t(ret);
+    }
+    if (close(fd) && !err) err = errno;
+    if (err)
     {
         std::cerr << "Could not write " << str.length()
                   << " bytes to temporary file '"
-                  << template_ << "': " << strerror(errno)
-                  << " (" << errno << ")\n";
+                  << template_ << "': " << strerror(err)
+                  << " (" << err << ")\n";
+        unlink(template_);
         return;
     }
 
-    rename(template_, file_name_.c_str());
+    if (rename(template_, file_name_.c_str()))
+    {
+        err = errno;
+        std::cerr << "Could not rename temporary file '" << template_
+                  << "' to '" << file_name_ << "': " << strerror(err)
+                  << " (" << err << ")\n";
+        unlink(template_);
+    }
 }
 
 void
-- 
2.43.0


From 1c8a6c0b1c5a003a27ca9da914dbabaa4b100958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:51 +0000
Subject: [PATCH 11/40] fix: compare escaped text when suppressing repeated log
 messages in report

---
 src/reporter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index 9565c01..d390159 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -374,17 +374,19 @@ wsrep::reporter::report_log_msg(log_level const    lvl,
 {
     std::deque<log_msg_t>& deque(lvl == error ? err_msg_ : warn_msg_);
 
+    /* Log messages are not expected to be json formatted, so we escape
+       the message strings here to keep the report file well formatted. */
+    std::string const escaped(escape_json(msg));
+
     wsrep::unique_lock<wsrep::mutex> lock(mutex_);
 
-    if (deque.empty() || msg != deque.back().msg)
+    if (deque.empty() || escaped != deque.back().msg)
     {
         if (deque.size() == max_msg_) deque.pop_front();
 
         if (tstamp <= undefined) tstamp = timestamp();
 
-        /* Log messages are not expected to be json formatted, so we escape
-           the message strings here to keep the report file well formatted. */
-        log_msg_t entry({tstamp, escape_json(msg)});
+        log_msg_t entry({tstamp, escaped});
         deque.push_back(entry);
         write_file(tstamp);
     }
-- 
2.43.0


From 432a5d158a494c293241b008cca9dcaf4fc303a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:05 +0000
Subject: [PATCH 12/40] fix: do not pop from empty message history if report
 keeps no messages

---
 src/reporter.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index d390159..df86b66 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -359,11 +359,11 @@ void
 wsrep::reporter::report_event(const std::string& json)
 {
     wsrep::unique_lock<wsrep::mutex> lock(mutex_);
-    if (events_.size() == max_msg_)
+    events_.push_back({timestamp(), json});
+    if (events_.size() > max_msg_)
     {
         events_.pop_front();
     }
-    events_.push_back({timestamp(), json});
     write_file(timestamp());
 }
 
@@ -382,12 +382,11 @@ wsrep::reporter::report_log_msg(log_level const    lvl,
 
     if (deque.empty() || escaped != deque.back().msg)
     {
-        if (deque.size() == max_msg_) deque.pop_front();
-
         if (tstamp <= undefined) tstamp = timestamp();
 
         log_msg_t entry({tstamp, escaped});
         deque.push_back(entry);
+        if (deque.size() > max_msg_) deque.pop_front();
         write_file(tstamp);
     }
 }
-- 
2.43.0


From 079cfbfa233bcd44dcd25e5712861f140c6c3089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:48 +0000
Subject: [PATCH 13/40] fix: report states of initialized server which rejoins
 primary component

---
 src/reporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index df86b66..89a63dd 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -96,7 +96,7 @@ wsrep::reporter::substate_map(enum wsrep::server_state::state const state)
     case wsrep::server_state::s_initializing:
         if (s_disconnected_disconnected == state_)
             return s_disconnected_initializing;
-        else if (s_joining_sst == state_)
+        else if (s_joining_sst == state_ || s_joining_initialized == state_)
             return s_joining_initializing;
         else if (s_joining_initializing == state_)
             return s_joining_initializing; // continuation
-- 
2.43.0


From f659830be7cbed664c64bcd0bc3bc551319e0f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:21 +0000
Subject: [PATCH 14/40] fix: wake up waiting pausers when pausing the provider
 fails

---
 src/server_state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index d6b0faf..ee3364e 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -576,6 +576,7 @@ wsrep::seqno wsrep::server_state::pause()
     if (pause_seqno_.is_undefined())
     {
         --pause_count_;
+        cond_.notify_all();
     }
     return pause_seqno_;
 }
-- 
2.43.0


From 1058d43906660fd511736f86e9fe13443279b4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:21 +0000
Subject: [PATCH 15/40] fix: do not resync after failed pause if desync did not
 succeed

---
 src/server_state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index ee3364e..1f029b7 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -622,7 +622,10 @@ wsrep::seqno wsrep::server_state::desync_and_pause()
     if (ret.is_undefined())
     {
         wsrep::log_warning() << "Failed to pause provider";
-        resync();
+        if (desync_successful)
+        {
+            resync();
+        }
         return wsrep::seqno::undefined();
     }
     else
-- 
2.43.0


From c0320a1a47f897e5f3c5ff03f428133b6df2221d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:46 +0000
Subject: [PATCH 16/40] fix: allow state transfer to end while server is
 disconnecting

---
 src/server_state.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 1f029b7..7d6ad6a 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -713,7 +713,9 @@ try
     wsrep::log_info() << "SST received";
     wsrep::gtid gtid(wsrep::gtid::undefined());
     wsrep::unique_lock<wsrep::mutex> lock(mutex_);
-    assert(state_ == s_joiner || state_ == s_initialized);
+    // The server may have started to disconnect during the transfer.
+    assert(state_ == s_joiner || state_ == s_initialized ||
+           state_ == s_disconnecting);
 
     // Run initialization only if the SST was successful.
     // In case of SST failure the system is in undefined state
-- 
2.43.0


From 408639d36b402d55e7186048cd9269ac65706474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:46 +0000
Subject: [PATCH 17/40] fix: interrupt state wait which is started when server
 is disconnecting

---
 src/server_state.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 7d6ad6a..2878168 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1405,19 +1405,20 @@ void wsrep::server_state::wait_until_state(
     const std::vector<enum state>::size_type hist_size(state_hist_.size());
     while (state_ != state)
     {
-        cond_.wait(lock);
         // If the waiter waits for any other state than disconnecting
-        // or disconnected and the state has been changed to disconnecting,
-        // this usually means that some error was encountered. The wakeup
-        // alone does not tell that, the state must have been changed
-        // after the waiting started.
+        // or disconnected and the state is disconnecting, this usually
+        // means that some error was encountered. Disconnected is the
+        // initial state of the server, so it interrupts the wait only if
+        // the state has been changed after the waiting started.
         if (state != s_disconnecting && state != s_disconnected
-            && (state_ == s_disconnecting || state_ == s_disconnected)
-            && state_hist_.size() != hist_size)
+            && (state_ == s_disconnecting ||
+                (state_ == s_disconnected &&
+                 state_hist_.size() != hist_size)))
         {
           --state_waiters_[state];
             throw wsrep::runtime_error("State wait was interrupted");
         }
+        cond_.wait(lock);
     }
     --state_waiters_[state];
     cond_.notify_all();
-- 
2.43.0


From cd517395d6473968d0d22e9f2ed501669090e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:46 +0000
Subject: [PATCH 18/40] fix: do not lose state waiter if the state has been
 left already

---
 src/server_state.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 2878168..356c2f7 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1403,7 +1403,11 @@ void wsrep::server_state::wait_until_state(
 {
     ++state_waiters_[state];
     const std::vector<enum state>::size_type hist_size(state_hist_.size());
-    while (state_ != state)
+    // The state may already have been left for a following state before
+    // the waiter gets control, consult the history of states in that case.
+    while (state_ != state &&
+           std::find(state_hist_.begin() + std::ptrdiff_t(hist_size),
+                     state_hist_.end(), state) == state_hist_.end())
     {
         // If the waiter waits for any other state than disconnecting
         // or disconnected and the state is disconnecting, this usually
-- 
2.43.0


From cfc7bda250e7303c5bebb0b08a0447042e0e6128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:46 +0000
Subject: [PATCH 19/40] fix: do not change state if server is initialized after
 it disconnected

---
 src/server_state.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 356c2f7..862b121 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -829,7 +829,12 @@ void wsrep::server_state::initialized()
     init_initialized_ = true;
     if (server_service_.sst_before_init())
     {
-        state(lock, s_initialized);
+        // The server may have been disconnected from the cluster
+        // during the initialization.
+        if (state(lock) != s_disconnected)
+        {
+            state(lock, s_initialized);
+        }
     }
     else
     {
-- 
2.43.0


From c5e1484228ad322acfdf1947b54ba9ae04f7a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:22 +0000
Subject: [PATCH 20/40] fix: replay only XA transactions which were aborted in
 prepared state

XA transaction which was BF aborted before it was prepared is rolled
back, but streaming one was handed over to an applier as if it had
been prepared.
---
 src/transaction.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index ac088ed..4d092f9 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -494,7 +494,7 @@ int wsrep::transaction::before_commit(const wsrep::provider::seq_cb* seq_cb)
         {
             assert(state() == s_must_abort);
             if (certified() ||
-                (is_xa() && is_streaming()))
+                (is_xa() && bf_abort_state_ == s_prepared))
             {
                 state(lock, s_must_replay);
             }
@@ -955,7 +955,10 @@ void wsrep::transaction::after_command_must_abort(
     assert(active());
     assert(state_ == s_must_abort);
 
-    if (is_xa() && is_streaming())
+    // Only prepared XA is replayed, streaming XA which was aborted
+    // before prepare has been rolled back in the cluster.
+    const bool replay(is_xa() && bf_abort_state_ == s_prepared);
+    if (replay)
     {
         state(lock, s_must_replay);
     }
@@ -964,7 +967,7 @@ void wsrep::transaction::after_command_must_abort(
     client_service_.bf_rollback();
     lock.lock();
 
-    if (is_xa() && is_streaming())
+    if (replay)
     {
         xa_replay(lock);
     }
-- 
2.43.0


From e08be3179875e14e72f7e3a5e39c0ac6b838d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:22 +0000
Subject: [PATCH 21/40] fix: reset error if prepared XA transaction survives a
 failed command

---
 src/client_state.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index a64f834..c2fed9c 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -217,7 +217,11 @@ void wsrep::client_state::after_command_after_result()
         transaction_.after_command_must_abort(lock);
         assert(transaction_.state() == wsrep::transaction::s_aborted);
     }
-    else if (transaction_.active() == false && not keep_command_error_)
+
+    if ((transaction_.active() == false ||
+         // Failed attempt to finish prepared XA, client may retry
+         transaction_.state() == wsrep::transaction::s_prepared) &&
+        not keep_command_error_)
     {
         current_error_ = wsrep::e_success;
         current_error_status_ = wsrep::provider::success;
-- 
2.43.0


From 0421b7d8f388ba943455c925ee8f774b6428e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:22 +0000
Subject: [PATCH 22/40] fix: keep fragments of prepared XA transaction which
 will be replayed

---
 src/transaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 4d092f9..ec7ec5d 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -773,7 +773,7 @@ int wsrep::transaction::after_rollback()
     // We assume that the application does not let the TOI
     // to proceed until this method returns, e.g. by holding
     // MDL locks. It is not clear how to enforce that though.
-    if (is_streaming() && bf_aborted_in_total_order_)
+    if (state() == s_aborting && is_streaming() && bf_aborted_in_total_order_)
     {
         remove_fragments_in_storage_service_scope(lock);
     }
-- 
2.43.0


From 489345c742c4906912445277aa6cf04e49105bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:22 +0000
Subject: [PATCH 23/40] fix: do not roll back prepared XA transaction after
 failed statement

If an attempt to finish prepared XA transaction failed and it was BF
aborted before the end of the statement, the transaction was rolled back
although nobody decided so.
---
 src/transaction.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index ec7ec5d..ac67785 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -876,6 +876,14 @@ int wsrep::transaction::after_statement(wsrep::unique_lock<wsrep::mutex>& lock)
         assert(is_streaming() == false);
         break;
     case s_must_abort:
+        if (is_xa() && bf_abort_state_ == s_prepared)
+        {
+            // The statement could not finish the prepared XA, for example
+            // because of lost connection. It must stay prepared.
+            after_command_must_abort(lock);
+            break;
+        }
+        WSREP_FALLTHROUGH;
     case s_cert_failed:
         // Error may be set already. For example, if fragment size
         // exceeded the maximum size in certify_fragment(), then
-- 
2.43.0


From ab2652a757bc5935a48510100bf77a873512311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:22 +0000
Subject: [PATCH 24/40] fix: do not assert that applier exists when XA is
 decided by xid

---
 src/transaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index ac67785..bf8b0f8 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1207,7 +1207,7 @@ int wsrep::transaction::commit_or_rollback_by_xid(const wsrep::xid& xid,
 
     if (!sa)
     {
-        assert(sa);
+        // The applier may be closed any time if the server disconnects.
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
-- 
2.43.0


From 68695e120bae66a09a7c8f7a9d6c7bfab7195030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:22 +0000
Subject: [PATCH 25/40] fix: handle BF abort of prepared XA transaction in
 xa_detach()

---
 src/transaction.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index bf8b0f8..aabe58d 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1264,16 +1264,29 @@ int wsrep::transaction::commit_or_rollback_by_xid(const wsrep::xid& xid,
 void wsrep::transaction::xa_detach()
 {
     debug_log_state("xa_detach enter");
+    wsrep::unique_lock<wsrep::mutex> lock(client_state_.mutex_);
     assert(state() == s_prepared ||
            client_state_.state() == wsrep::client_state::s_quitting);
+    if (state() == s_must_abort && bf_abort_state_ == s_prepared)
+    {
+        // BF aborted before the transaction was detached, the
+        // transaction is handed over to the applier via replay.
+        after_command_must_abort(lock);
+        debug_log_state("xa_detach leave");
+        return;
+    }
     if (state() == s_prepared)
     {
+        // The applier must take over the transaction in prepared state,
+        // do not let BF abort in before that.
+        is_bf_immutable_ = true;
+        lock.unlock();
         wsrep::server_state& server_state(client_state_.server_state());
         server_state.convert_streaming_client_to_applier(&client_state_);
         client_service_.store_globals();
         client_service_.cleanup_transaction();
+        lock.lock();
     }
-    wsrep::unique_lock<wsrep::mutex> lock(client_state_.mutex_);
     streaming_context_.cleanup();
     state(lock, s_aborting);
     state(lock, s_aborted);
-- 
2.43.0


From be10f979cb013dd8b18fd7381b328ba05b24a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:22 +0000
Subject: [PATCH 26/40] fix: do not leave XA transaction prepared in client
 after failed replay

The transaction is owned by the streaming applier after the failure.
---
 src/transaction.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index aabe58d..4fad855 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1353,9 +1353,13 @@ int wsrep::transaction::xa_replay_commit(wsrep::unique_lock<wsrep::mutex>& lock)
     default:
         log_warning() << "Failed to commit by xid during replay";
         // Commit by xid failed, return a commit
-        // error and let the client retry
-        state(lock, s_preparing);
-        state(lock, s_prepared);
+        // error and let the client retry by xid.
+        // The prepared transaction is now owned by
+        // the streaming applier.
+        state(lock, s_aborted);
+        streaming_context_.cleanup();
+        provider().release(ws_handle_);
+        cleanup();
         client_state_.override_error(wsrep::e_error_during_commit, status);
     }
 
-- 
2.43.0


From b1fb737a1b3eef36fe74c8b7189aade0f5667d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:22 +0000
Subject: [PATCH 27/40] fix: replay prepared XA which is BF aborted during
 commit certification

The replayed transaction commits, so error must not be set, and
nothing allows to roll back prepared transaction.
---
 src/transaction.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 4fad855..0121f53 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1820,12 +1820,16 @@ int wsrep::transaction::certify_commit(
 
     assert(lock.owns_lock());
 
+    if (is_xa() && state() == s_must_abort)
+    {
+        // BF aborted after prepare, the commit will be completed
+        // by replaying, so no error yet.
+        state(lock, s_must_replay);
+        return 1;
+    }
+
     if (abort_or_interrupt(lock))
     {
-        if (is_xa() && state() == s_must_abort)
-        {
-            state(lock, s_must_replay);
-        }
         return 1;
     }
 
@@ -1969,6 +1973,13 @@ int wsrep::transaction::certify_commit(
         state(lock, s_must_replay);
         break;
     case wsrep::provider::error_certification_failed:
+        if (is_xa() && state() == s_must_abort)
+        {
+            // BF aborted before the commit fragment was replicated.
+            // Prepared XA must not be rolled back.
+            state(lock, s_must_replay);
+            break;
+        }
         state(lock, s_cert_failed);
         client_state_.override_error(wsrep::e_deadlock_error);
         break;
@@ -1990,7 +2001,10 @@ int wsrep::transaction::certify_commit(
             {
                 state(lock, s_must_replay);
             }
-            client_state_.override_error(wsrep::e_deadlock_error);
+            else
+            {
+                client_state_.override_error(wsrep::e_deadlock_error);
+            }
         }
         else
         {
-- 
2.43.0


From d7adaa73d8ea8aa9d3f568df879e35e453bf0cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:22 +0000
Subject: [PATCH 28/40] fix: replicate rollback of XA transaction after total
 order BF abort

The prepare fragment may have been replicated already.
---
 src/transaction.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 0121f53..d681883 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -2129,7 +2129,14 @@ void wsrep::transaction::streaming_rollback(
             client_state_.server_state_.convert_streaming_client_to_applier(
                 &client_state_);
             lock.lock();
+        }
 
+        // The rollback fragment is needed after total order BF abort too
+        // if the prepare fragment of XA may have been replicated: other
+        // nodes keep prepared transactions over configuration changes.
+        if (not bf_aborted_in_total_order_ ||
+            (is_xa() && wsrep::prepares_transaction(flags())))
+        {
             enum wsrep::provider::status status(provider().rollback(id_));
             if (status)
             {
-- 
2.43.0


From 709fbd475fcffdbc30d57d679a81b27285313f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:50 +0000
Subject: [PATCH 29/40] fix: do not commit a streaming transaction if appending
 its keys fails

---
 src/transaction.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index d681883..8808775 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -354,9 +354,18 @@ int wsrep::transaction::before_prepare(wsrep::unique_lock<wsrep::mutex>& lock,
                 // Force fragment replication on XA prepare
                 flags(flags() | wsrep::provider::flag::prepare);
                 pa_unsafe(true);
-                append_sr_keys_for_commit();
-                const bool force_streaming_step = true;
-                ret = streaming_step(lock, force_streaming_step);
+                if (append_sr_keys_for_commit())
+                {
+                    state(lock, s_must_abort);
+                    client_state_.override_error(
+                        wsrep::e_error_during_commit);
+                    ret = 1;
+                }
+                else
+                {
+                    const bool force_streaming_step = true;
+                    ret = streaming_step(lock, force_streaming_step);
+                }
                 if (ret == 0)
                 {
                     assert(state() == s_executing);
@@ -1868,9 +1877,17 @@ int wsrep::transaction::certify_commit(
 
     if (is_streaming())
     {
-        if (!is_xa())
+        if (!is_xa() && append_sr_keys_for_commit())
         {
-            append_sr_keys_for_commit();
+            // Without the keys the commit would not be certified
+            // against all of the changes done by the transaction.
+            lock.lock();
+            if (state() != s_must_abort)
+            {
+                state(lock, s_must_abort);
+            }
+            client_state_.override_error(wsrep::e_error_during_commit);
+            return 1;
         }
         pa_unsafe(true);
     }
-- 
2.43.0


From 0bcac5c1dcd998bb44a2b0d1c01288e0d70b30e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:09 +0000
Subject: [PATCH 30/40] fix: pause() of the provider adapter takes an error
 code for a position

The provider returns a negative error code if it could not be paused, the
caller checks only for undefined seqno.
---
 src/wsrep_provider_v26.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wsrep_provider_v26.cpp b/src/wsrep_provider_v26.cpp
index 953c615..a061d0a 100644
--- a/src/wsrep_provider_v26.cpp
+++ b/src/wsrep_provider_v26.cpp
@@ -888,7 +888,9 @@ int wsrep::wsrep_provider_v26::resync()
 
 wsrep::seqno wsrep::wsrep_provider_v26::pause()
 {
-    return wsrep::seqno(wsrep_->pause(wsrep_));
+    // Negative value other than undefined seqno is an error code.
+    wsrep_seqno_t const ret(wsrep_->pause(wsrep_));
+    return (ret < 0 ? wsrep::seqno::undefined() : seqno_from_native(ret));
 }
 
 int wsrep::wsrep_provider_v26::resume()
-- 
2.43.0


From c72b5ca7735a86a0376fba5a699de5e2b416e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:09 +0000
Subject: [PATCH 31/40] fix: free, deinitialize and unload the provider if its
 construction fails

The destructor is not run for a provider whose constructor throws: services
stayed initialized and the library loaded.
---
 src/wsrep_provider_v26.cpp | 41 ++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/wsrep_provider_v26.cpp b/src/wsrep_provider_v26.cpp
index a061d0a..0e5954c 100644
--- a/src/wsrep_provider_v26.cpp
+++ b/src/wsrep_provider_v26.cpp
@@ -815,28 +815,39 @@ wsrep::wsrep_provider_v26::wsrep_provider_v26(
         throw wsrep::runtime_error("Failed to load wsrep library");
     }
 
-    init_services(services);
-
-    if (wsrep_->init(wsrep_, &init_args) != WSREP_OK)
+    try
     {
-        throw wsrep::runtime_error("Failed to initialize wsrep provider");
-    }
+        init_services(services);
 
-    if (encryption_enabled)
-    {
-        const std::vector<unsigned char>& key = server_state.get_encryption_key();
-        if (key.size())
+        if (wsrep_->init(wsrep_, &init_args) != WSREP_OK)
+        {
+            throw wsrep::runtime_error("Failed to initialize wsrep provider");
+        }
+
+        if (encryption_enabled)
         {
-            wsrep::const_buffer const_key(key.data(), key.size());
-            enum status const retval(enc_set_key(const_key));
-            if (retval != success)
+            const std::vector<unsigned char>& key = server_state.get_encryption_key();
+            if (key.size())
             {
-                std::string msg("Failed to set encryption key: ");
-                msg += to_string(retval);
-                throw wsrep::runtime_error(msg);
+                wsrep::const_buffer const_key(key.data(), key.size());
+                enum status const retval(enc_set_key(const_key));
+                if (retval != success)
+                {
+                    std::string msg("Failed to set encryption key: ");
+                    msg += to_string(retval);
+                    throw wsrep::runtime_error(msg);
+                }
             }
         }
     }
+    catch (...)
+    {
+        // Destructor will not be called for partially constructed object.
+        wsrep_->free(wsrep_);
+        deinit_services();
+        wsrep_unload(wsrep_);
+        throw;
+    }
 }
 
 wsrep::wsrep_provider_v26::~wsrep_provider_v26()
-- 
2.43.0


From d5d454f8950df9cda10bb9cc9d83121c5728e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:09 +0000
Subject: [PATCH 32/40] fix: failing initialization of the thread service fails
 the loading of the provider

The result of the provider was ignored, and a failure of after_init() left the
service initialized.
---
 src/wsrep_provider_v26.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wsrep_provider_v26.cpp b/src/wsrep_provider_v26.cpp
index 0e5954c..94d3108 100644
--- a/src/wsrep_provider_v26.cpp
+++ b/src/wsrep_provider_v26.cpp
@@ -609,10 +609,15 @@ namespace
                 wsrep::log_error() << "Thread service before init failed";
                 return 1;
             }
-            wsrep::thread_service_v1_init(dlh, thread_service);
+            if (wsrep::thread_service_v1_init(dlh, thread_service))
+            {
+                wsrep::log_error() << "Thread service init failed";
+                return 1;
+            }
             if (thread_service->after_init())
             {
                 wsrep::log_error() << "Thread service after init failed";
+                wsrep::thread_service_v1_deinit(dlh);
                 return 1;
             }
         }
-- 
2.43.0


From b7c091dd858646f1891026566fa5c9646e263c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:09 +0000
Subject: [PATCH 33/40] fix: service which fails to initialize in one provider
 is not taken from the others

The implementation behind the callbacks is shared by all providers of the
process, it was reset although another provider was using it.
---
 src/allowlist_service_v1.cpp          | 5 ++++-
 src/connection_monitor_service_v1.cpp | 5 ++++-
 src/thread_service_v1.cpp             | 5 ++++-
 src/tls_service_v1.cpp                | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/allowlist_service_v1.cpp b/src/allowlist_service_v1.cpp
index 9e7bf2a..86e89e4 100644
--- a/src/allowlist_service_v1.cpp
+++ b/src/allowlist_service_v1.cpp
@@ -97,7 +97,10 @@ int wsrep::allowlist_service_v1_init(void* dlh,
              &wsrep_allowlist_service_v1::allowlist_service_callbacks,
              "allowlist service v1")))
     {
-        wsrep_allowlist_service_v1::allowlist_service_impl = 0;
+        if (wsrep_allowlist_service_v1::use_count == 0)
+        {
+            wsrep_allowlist_service_v1::allowlist_service_impl = 0;
+        }
     }
     else
     {
diff --git a/src/connection_monitor_service_v1.cpp b/src/connection_monitor_service_v1.cpp
index 406f454..730f84c 100644
--- a/src/connection_monitor_service_v1.cpp
+++ b/src/connection_monitor_service_v1.cpp
@@ -118,7 +118,10 @@ int wsrep::connection_monitor_service_v1_init(void* dlh,
              &wsrep_connection_monitor_service_v1::connection_monitor_service_callbacks,
              "connection monitor service v1")))
     {
-        wsrep_connection_monitor_service_v1::connection_monitor_service_impl = 0;
+        if (wsrep_connection_monitor_service_v1::use_count == 0)
+        {
+            wsrep_connection_monitor_service_v1::connection_monitor_service_impl = 0;
+        }
     }
     else
     {
diff --git a/src/thread_service_v1.cpp b/src/thread_service_v1.cpp
index ee81ba3..69f7b7d 100644
--- a/src/thread_service_v1.cpp
+++ b/src/thread_service_v1.cpp
@@ -263,7 +263,10 @@ int wsrep::thread_service_v1_init(void* dlh,
              &wsrep_thread_service_v1::thread_service_callbacks,
              "thread service v1")))
     {
-        wsrep_thread_service_v1::thread_service_impl = 0;
+        if (wsrep_thread_service_v1::use_count == 0)
+        {
+            wsrep_thread_service_v1::thread_service_impl = 0;
+        }
     }
     else
     {
diff --git a/src/tls_service_v1.cpp b/src/tls_service_v1.cpp
index 8746a76..b548f23 100644
--- a/src/tls_service_v1.cpp
+++ b/src/tls_service_v1.cpp
@@ -210,7 +210,10 @@ int wsrep::tls_service_v1_init(void* dlh,
              &wsrep_tls_service_v1::tls_service_callbacks,
              "tls service v1")))
     {
-        wsrep_tls_service_v1::tls_service_impl = 0;
+        if (wsrep_tls_service_v1::use_count == 0)
+        {
+            wsrep_tls_service_v1::tls_service_impl = 0;
+        }
     }
     else
     {
-- 
2.43.0


From 364e74d5d72eeccb43fa29ef2657652160d12d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:09 +0000
Subject: [PATCH 34/40] fix: log rollback event if adopting transaction for
 fragment removal fails

---
 src/server_state.cpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 862b121..0f388d0 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -246,26 +246,29 @@ static int rollback_fragment(wsrep::server_state& server_state,
         discard_streaming_applier(server_state, high_priority_service,
                                   streaming_applier, ws_meta);
 
-        if (adopt_error == 0)
+        if (adopt_error)
         {
-            if (remove_fragments)
+            // Clean up the transaction which could not be started for
+            // fragment removal, the event itself is logged below.
+            high_priority_service.after_apply();
+        }
+        if (adopt_error == 0 && remove_fragments)
+        {
+            ret = high_priority_service.remove_fragments(ws_meta);
+            ret = ret || high_priority_service.commit(ws_handle, ws_meta);
+            if (ret)
             {
-                ret = high_priority_service.remove_fragments(ws_meta);
-                ret = ret || high_priority_service.commit(ws_handle, ws_meta);
-                if (ret)
-                {
-                    high_priority_service.rollback(ws_handle, ws_meta);
-                }
-                high_priority_service.after_apply();
+                high_priority_service.rollback(ws_handle, ws_meta);
             }
-            else
+            high_priority_service.after_apply();
+        }
+        else
+        {
+            if (ws_meta.ordered())
             {
-                if (ws_meta.ordered())
-                {
-                    wsrep::mutable_buffer no_error;
-                    ret = high_priority_service.log_dummy_write_set(
-                        ws_handle, ws_meta, no_error);
-                }
+                wsrep::mutable_buffer no_error;
+                ret = high_priority_service.log_dummy_write_set(
+                    ws_handle, ws_meta, no_error);
             }
         }
     }
-- 
2.43.0


From b078670c81afe5532aca45575b9b55de9d5554a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:10 +0000
Subject: [PATCH 35/40] fix: send rollback fragment if BF aborted in total
 order during conversion to applier

---
 src/transaction.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 8808775..07de064 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -2120,6 +2120,7 @@ void wsrep::transaction::streaming_rollback(
 
     if (streaming_context_.rolled_back() == false)
     {
+        bool converted(false);
         // Note that streaming_context_ must not be cleaned up in this
         // method. This is because the owning thread may still be executing
         // fragment removal on commit, which will access fragment
@@ -2146,12 +2147,15 @@ void wsrep::transaction::streaming_rollback(
             client_state_.server_state_.convert_streaming_client_to_applier(
                 &client_state_);
             lock.lock();
+            converted = true;
         }
 
-        // The rollback fragment is needed after total order BF abort too
+        // The rollback fragment is needed to release the streaming applier
+        // even if the transaction was BF aborted in total order during the
+        // conversion. It is needed after total order BF abort too
         // if the prepare fragment of XA may have been replicated: other
         // nodes keep prepared transactions over configuration changes.
-        if (not bf_aborted_in_total_order_ ||
+        if (converted ||
             (is_xa() && wsrep::prepares_transaction(flags())))
         {
             enum wsrep::provider::status status(provider().rollback(id_));
-- 
2.43.0


From e053d7862235f62ba2e00cafb36f2eb704fdd979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:10 +0000
Subject: [PATCH 36/40] fix: do not read streaming context of BF abort victim
 which is replicating

---
 src/transaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 07de064..3c901ef 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1103,7 +1103,7 @@ bool wsrep::transaction::bf_abort(
         // in streaming rollback, it must be left alone: it may complete
         // the rollback and start a new transaction while waited for.
         if (client_state_.mode() == wsrep::client_state::m_local &&
-            is_streaming() && state_at_enter == s_executing &&
+            state_at_enter == s_executing && is_streaming() &&
             not streaming_rollback_in_progress_)
         {
             streaming_rollback(lock);
-- 
2.43.0


From db58b74caf5ccad3d12c681ffd96c42d62f959f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:10 +0000
Subject: [PATCH 37/40] fix: do not access streaming applier which may be
 closed concurrently in commit_or_rollback_by_xid()

---
 include/wsrep/server_state.hpp | 11 +++++++++++
 src/server_state.cpp           | 18 ++++++++++++++++++
 src/transaction.cpp            | 10 ++++------
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/include/wsrep/server_state.hpp b/include/wsrep/server_state.hpp
index 632d43b..3543210 100644
--- a/include/wsrep/server_state.hpp
+++ b/include/wsrep/server_state.hpp
@@ -272,6 +272,17 @@ namespace wsrep
         wsrep::high_priority_service* find_streaming_applier(
             const wsrep::xid& xid) const;
 
+        /**
+         * Find server and transaction ids of a streaming applier
+         * matching xid. Unlike the applier itself, the ids remain
+         * valid if the applier is closed.
+         *
+         * @return True if the applier was found, otherwise false.
+         */
+        bool find_streaming_applier(const wsrep::xid& xid,
+                                    wsrep::id& server_id,
+                                    wsrep::transaction_id& transaction_id) const;
+
         /**
          * Queue a rollback fragment the transaction with given id
          */
diff --git a/src/server_state.cpp b/src/server_state.cpp
index 0f388d0..796dd33 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1319,6 +1319,24 @@ wsrep::high_priority_service* wsrep::server_state::find_streaming_applier(
     return NULL;
 }
 
+bool wsrep::server_state::find_streaming_applier(
+    const wsrep::xid& xid,
+    wsrep::id& server_id,
+    wsrep::transaction_id& transaction_id) const
+{
+    wsrep::unique_lock<wsrep::mutex> lock(mutex_);
+    for (const auto& i : streaming_appliers_)
+    {
+        if (i.second->transaction().xid() == xid)
+        {
+            server_id = i.first.first;
+            transaction_id = i.first.second;
+            return true;
+        }
+    }
+    return false;
+}
+
 //////////////////////////////////////////////////////////////////////////////
 //                              Private                                     //
 //////////////////////////////////////////////////////////////////////////////
diff --git a/src/transaction.cpp b/src/transaction.cpp
index 3c901ef..afb31f8 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1212,9 +1212,9 @@ int wsrep::transaction::commit_or_rollback_by_xid(const wsrep::xid& xid,
     debug_log_state("commit_or_rollback_by_xid enter");
     wsrep::unique_lock<wsrep::mutex> lock(client_state_.mutex_);
     wsrep::server_state& server_state(client_state_.server_state());
-    wsrep::high_priority_service* sa(server_state.find_streaming_applier(xid));
-
-    if (!sa)
+    wsrep::id server_id;
+    wsrep::transaction_id transaction_id;
+    if (!server_state.find_streaming_applier(xid, server_id, transaction_id))
     {
         // The applier may be closed any time if the server disconnects.
         client_state_.override_error(wsrep::e_error_during_commit);
@@ -1230,9 +1230,7 @@ int wsrep::transaction::commit_or_rollback_by_xid(const wsrep::xid& xid,
         flags(wsrep::provider::flag::rollback);
     }
     pa_unsafe(true);
-    wsrep::stid stid(sa->transaction().server_id(),
-                     sa->transaction().id(),
-                     client_state_.id());
+    wsrep::stid stid(server_id, transaction_id, client_state_.id());
     wsrep::ws_meta meta(stid);
 
     const enum wsrep::provider::status cert_ret(
-- 
2.43.0


From a3c10510bb3410d3aaa56ab225b88b9f2a4081c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:14 +0000
Subject: [PATCH 38/40] fix: do not BF abort another transaction of client in
 close_orphaned_sr_transactions()

---
 src/server_state.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 796dd33..2567968 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1545,7 +1545,17 @@ void wsrep::server_state::close_orphaned_sr_transactions(
             // remains unlocked, so it should not be accessed after
             // the bf abort call.
             lock.unlock();
-            client_state.total_order_bf_abort(current_view_.view_seqno());
+            {
+                // The client may have finished the transaction and
+                // started another one meanwhile.
+                wsrep::unique_lock<wsrep::mutex> client_lock(
+                    client_state.mutex());
+                if (client_state.transaction().id() == transaction_id)
+                {
+                    client_state.total_order_bf_abort(
+                        client_lock, current_view_.view_seqno());
+                }
+            }
             lock.lock();
             streaming_clients_map::const_iterator found_i;
             while ((found_i = streaming_clients_.find(client_id)) !=
-- 
2.43.0


From 1babffb22f0773ae9bab4bf2f7d775f969c685f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:57 +0000
Subject: [PATCH 39/40] fix: do not mask failed rollback of streaming applier

If the rollback of a fragment which failed to apply failed, the return
value was overwritten by logging a dummy write set, which was also done
on a context which was not clean.
---
 src/server_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 2567968..e55f6b8 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -120,8 +120,8 @@ static int apply_fragment(wsrep::server_state& server_state,
             }
             else
             {
-                ret = streaming_applier->log_dummy_write_set(ws_handle,
-                                                             ws_meta, err);
+                ret = ret || streaming_applier->log_dummy_write_set(
+                    ws_handle, ws_meta, err);
             }
         }
     }
-- 
2.43.0


From b4a73d94c3dd6ec83b51dcd7a2d75eca5f2e0505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:57 +0000
Subject: [PATCH 40/40] fix: handle failure to start transaction for streaming
 applier

The return value of start_transaction() was ignored when applying the
first fragment, so the fragment was applied outside of a transaction.
Discard the streaming applier and return the error.
---
 src/server_state.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index e55f6b8..95c27a4 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -360,13 +360,23 @@ static int apply_write_set(wsrep::server_state& server_state,
                 high_priority_service));
         server_state.start_streaming_applier(
             ws_meta.server_id(), ws_meta.transaction_id(), sa);
-        sa->start_transaction(ws_handle, ws_meta);
-        ret = apply_fragment(server_state,
-                             high_priority_service,
-                             sa,
-                             ws_handle,
-                             ws_meta,
-                             data);
+        ret = sa->start_transaction(ws_handle, ws_meta);
+        if (ret)
+        {
+            discard_streaming_applier(server_state,
+                                      high_priority_service,
+                                      sa,
+                                      ws_meta);
+        }
+        else
+        {
+            ret = apply_fragment(server_state,
+                                 high_priority_service,
+                                 sa,
+                                 ws_handle,
+                                 ws_meta,
+                                 data);
+        }
     }
     else if (ws_meta.flags() == 0 || ws_meta.flags() == wsrep::provider::flag::pa_unsafe ||
              wsrep::prepares_transaction(ws_meta.flags()))
-- 
2.43.0

