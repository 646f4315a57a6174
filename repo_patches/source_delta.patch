From ae11943a1e109eccf528b801b4a57c79dd570d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 01/62] fix: a moved-from buffer kept its size without storage
 and crashed on reuse

---
 src/include/cppev/buffer.h | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/include/cppev/buffer.h b/src/include/cppev/buffer.h
index d2ff8a9..e605eef 100644
--- a/src/include/cppev/buffer.h
+++ b/src/include/cppev/buffer.h
@@ -49,9 +49,24 @@ public:
         return *this;
     }
 
-    buffer(buffer &&other) noexcept = default;
+    buffer(buffer &&other) noexcept
+    : cap_(other.cap_), start_(other.start_), offset_(other.offset_), buffer_(std::move(other.buffer_))
+    {
+        other.reset();
+    }
 
-    buffer &operator=(buffer &&other) = default;
+    buffer &operator=(buffer &&other) noexcept
+    {
+        if (&other != this)
+        {
+            this->cap_ = other.cap_;
+            this->start_ = other.start_;
+            this->offset_ = other.offset_;
+            this->buffer_ = std::move(other.buffer_);
+            other.reset();
+        }
+        return *this;
+    }
 
     ~buffer() = default;
 
@@ -129,7 +144,10 @@ public:
     // Clear buffer
     void clear() noexcept
     {
-        memset(buffer_.get(), 0, cap_);
+        if (cap_)
+        {
+            memset(buffer_.get(), 0, cap_);
+        }
         start_ = 0;
         offset_ = 0;
     }
@@ -207,9 +225,20 @@ private:
             this->start_ = other.start_;
             this->offset_ = other.offset_;
             this->buffer_ = std::make_unique<char[]>(cap_);
-            memcpy(this->buffer_.get(), other.buffer_.get(), cap_);
+            if (cap_)
+            {
+                memcpy(this->buffer_.get(), other.buffer_.get(), cap_);
+            }
         }
     }
+
+    // Buffer without heap storage, used for the moved-from buffer
+    void reset() noexcept
+    {
+        cap_ = 0;
+        start_ = 0;
+        offset_ = 0;
+    }
 };
 
 }   // namespace cppev
-- 
2.43.0


From 14f21a893b27454918f2424bbc96bdc7a59d498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 02/62] fix: moving a handle replaced its unsent bytes by the
 moved-from read buffer

---
 src/include/cppev/nio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/cppev/nio.h b/src/include/cppev/nio.h
index c1f4c88..24f1ea3 100644
--- a/src/include/cppev/nio.h
+++ b/src/include/cppev/nio.h
@@ -160,7 +160,7 @@ protected:
         this->fd_ = other.fd_;
         this->closed_ = other.closed_;
         this->rbuffer_ = std::move(other.rbuffer_);
-        this->wbuffer_ = std::move(other.rbuffer_);
+        this->wbuffer_ = std::move(other.wbuffer_);
         this->evlp_ = other.evlp_;
 
         other.fd_ = -1;
-- 
2.43.0


From cb0bc48e1b71d9e44e18cd1579132cf05a6654f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 03/62] fix: move assignment leaked the open descriptor and a
 repeated close could hit an unrelated one

---
 src/include/cppev/nio.h | 8 +++++---
 src/lib/nio.cc          | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/cppev/nio.h b/src/include/cppev/nio.h
index 24f1ea3..820ba1f 100644
--- a/src/include/cppev/nio.h
+++ b/src/include/cppev/nio.h
@@ -141,10 +141,10 @@ public:
 
 protected:
     // File descriptor
-    int fd_;
+    int fd_ = -1;
 
     // Whether closed
-    bool closed_;
+    bool closed_ = true;
 
     // Read buffer
     buffer rbuffer_;
@@ -153,10 +153,12 @@ protected:
     buffer wbuffer_;
 
     // One nio belongs to one event loop
-    event_loop *evlp_;
+    event_loop *evlp_ = nullptr;
 
     void move(nio &&other) noexcept
     {
+        // Descriptor owned before move assignment
+        close();
         this->fd_ = other.fd_;
         this->closed_ = other.closed_;
         this->rbuffer_ = std::move(other.rbuffer_);
diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index bbecc9f..f0d45c4 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -21,7 +21,7 @@ namespace cppev
 
 void nio::close() noexcept
 {
-    if (fd_ != -1)
+    if (!closed_ && fd_ != -1)
     {
         ::close(fd_);
     }
-- 
2.43.0


From 3cdadf1e79e3fc74246643881dd2cdcea6221e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 04/62] fix: read end of a fifo leaked when opening the write
 end failed

---
 src/lib/nio.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index f0d45c4..bf6b8c0 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -746,6 +746,7 @@ std::vector<std::shared_ptr<nstream>> get_fifos(const std::string &path)
     {
         throw_system_error("open error");
     }
+    std::shared_ptr<nstream> reader = std::make_shared<nstream>(fdr);
     int fdw = open(path.c_str(), O_WRONLY | O_NONBLOCK);
     if (fdw == -1)
     {
@@ -753,7 +754,7 @@ std::vector<std::shared_ptr<nstream>> get_fifos(const std::string &path)
     }
     std::vector<std::shared_ptr<nstream>> fifos =
     {
-        std::make_shared<nstream>(fdr),
+        reader,
         std::make_shared<nstream>(fdw),
     };
     return fifos;
-- 
2.43.0


From d61a371a5c8d193131fb759890f30daca7f1695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 05/62] fix: a connection lost to a timeout or an unreachable
 host raised an exception instead of the reset flag

---
 src/lib/nio.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index bf6b8c0..801b8ac 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -54,6 +54,24 @@ void nio::set_io_block()
     }
 }
 
+// Whether the error tells that the connection is broken
+static bool is_connection_broken(int err) noexcept
+{
+    switch (err)
+    {
+    case ECONNRESET :
+    case ECONNABORTED :
+    case ECONNREFUSED :
+    case ETIMEDOUT :
+    case EHOSTUNREACH :
+    case ENETUNREACH :
+    case ENETDOWN :
+        return true;
+    default :
+        return false;
+    }
+}
+
 int nstream::read_chunk(int len)
 {
     rbuffer().resize(rbuffer().offset_ + len);
@@ -76,7 +94,7 @@ int nstream::read_chunk(int len)
             {
                 break;
             }
-            else if (errno == ECONNRESET)
+            else if (is_connection_broken(errno))
             {
                 reset_ = true;
                 break;
@@ -115,7 +133,7 @@ int nstream::write_chunk(int len)
                 eop_ = true;
                 break;
             }
-            else if (errno == ECONNRESET)
+            else if (is_connection_broken(errno))
             {
                 reset_ = true;
                 break;
-- 
2.43.0


From 0039f0321e412289dace7898e7546b02fe722ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 06/62] fix: shutdown of one direction also shut down the other

---
 src/lib/nio.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 801b8ac..9c1e69c 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -516,14 +516,17 @@ void nsocktcp::shutdown(shut_mode howto) noexcept
     case shut_mode::shut_rd :
     {
         ::shutdown(fd_, SHUT_RD);
+        break;
     }
     case shut_mode::shut_wr :
     {
         ::shutdown(fd_, SHUT_WR);
+        break;
     }
     case shut_mode::shut_rdwr :
     {
         ::shutdown(fd_, SHUT_RDWR);
+        break;
     }
     default: ;
     }
-- 
2.43.0


From cdcfa5a6d2338919af92df96bc8bfa3cc832ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 07/62] fix: over-long unix paths and out-of-range ports were
 silently altered

---
 src/lib/nio.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 9c1e69c..c97dd97 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -200,6 +200,10 @@ const std::unordered_map<family, int, enum_hash> nsock::faddr_len_ =
 
 static void set_ip_port(sockaddr_storage &addr, const char *ip, int port)
 {
+    if (port < 0 || port > 65535)
+    {
+        throw_logic_error(std::string("port out of range : ").append(std::to_string(port)));
+    }
     switch (addr.ss_family)
     {
     case AF_INET :
@@ -256,6 +260,10 @@ static void set_ip_port(sockaddr_storage &addr, const char *ip, int port)
 static void set_path(sockaddr_storage &addr, const char *path)
 {
     sockaddr_un *ap = (sockaddr_un *)(&addr);
+    if (strlen(path) >= sizeof(ap->sun_path))
+    {
+        throw_logic_error(std::string("unix domain path too long : ").append(path));
+    }
     strncpy(ap->sun_path, path, sizeof(ap->sun_path) - 1);
 }
 
-- 
2.43.0


From 1ac41990f291b3842379a2bc3286286e58ce5b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 08/62] fix: an aborted or interrupted accept raised an error
 and dropped accepted connections

---
 src/lib/nio.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index c97dd97..0417e3d 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -657,6 +657,20 @@ std::vector<std::shared_ptr<nsocktcp>> nsocktcp::accept(int batch)
             {
                 break;
             }
+            else if (errno == EINTR)
+            {
+                --i;
+            }
+            else if (errno == EPROTO || is_connection_broken(errno))
+            {
+                // Only the pending connection is lost
+                --i;
+            }
+            else if (sockfds.size())
+            {
+                // Connections already accepted shall not be dropped
+                break;
+            }
             else
             {
                 throw_system_error("accept error");
-- 
2.43.0


From 38b786ba33accdf83358be17da7b7163b8db1499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 09/62] fix: udp errors corrupted the buffers, empty datagrams
 were errors, unread data truncated datagrams

---
 src/lib/nio.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 0417e3d..9b0ea0b 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -692,9 +692,11 @@ std::tuple<std::string, int, family> nsockudp::recv()
 {
     sockaddr_storage addr;
     socklen_t len = faddr_len_.at(family_);
+    memset(&addr, 0, sizeof(addr));
+    rbuffer().resize(rbuffer().offset_ + sysconfig::udp_buffer_size);
     int ret = recvfrom(fd_, rbuffer().buffer_.get() + rbuffer().offset_,
         rbuffer().cap_ - rbuffer().offset_, 0, (sockaddr *)&addr, &len);
-    if (ret == 0)
+    if (ret == -1)
     {
         throw_system_error("recvfrom error");
     }
@@ -709,11 +711,12 @@ std::tuple<std::string, int, family> nsockudp::recv()
 void nsockudp::send(const char *ip, int port)
 {
     sockaddr_storage addr;
+    memset(&addr, 0, sizeof(addr));
     addr.ss_family = fmap_.at(family_);
     set_ip_port(addr, ip, port);
     int ret = sendto(fd_, wbuffer().buffer_.get() + wbuffer().start_, wbuffer().size(),
         0, (sockaddr *)&addr, faddr_len_.at(family_));
-    if (ret == 0)
+    if (ret == -1)
     {
         throw_system_error("sendto error");
     }
@@ -723,11 +726,12 @@ void nsockudp::send(const char *ip, int port)
 void nsockudp::send_unix(const char *path)
 {
     sockaddr_storage addr;
+    memset(&addr, 0, sizeof(addr));
     addr.ss_family = fmap_.at(family_);
     set_path(addr, path);
     int ret = sendto(fd_, wbuffer().buffer_.get() + wbuffer().start_, wbuffer().size(),
         0, (sockaddr *)&addr, SUN_LEN((sockaddr_un *)&addr));
-    if (ret == 0)
+    if (ret == -1)
     {
         throw_system_error("sendto error");
     }
-- 
2.43.0


From 5f90ca2af94e7916b4d7f507174848364d0ca403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 10/62] fix: stop flag of the event loop was a data race

---
 src/include/cppev/event_loop.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/event_loop.h b/src/include/cppev/event_loop.h
index 0edb3ef..434cdb0 100644
--- a/src/include/cppev/event_loop.h
+++ b/src/include/cppev/event_loop.h
@@ -7,6 +7,7 @@
 #include <queue>
 #include <tuple>
 #include <mutex>
+#include <atomic>
 #include <functional>
 #include "cppev/nio.h"
 #include "cppev/sysconfig.h"
@@ -136,7 +137,7 @@ private:
     std::unordered_map<int, fd_event> fd_events_;
 
     // Whether loop forever shall be stopped
-    bool stop_;
+    std::atomic<bool> stop_;
 };
 
 }   // namespace cppev
-- 
2.43.0


From b628209c74d8d19f45377794bdf1369cf29924b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 11/62] fix: event loop load was read without the lock

---
 src/include/cppev/event_loop.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/event_loop.h b/src/include/cppev/event_loop.h
index 434cdb0..d95750f 100644
--- a/src/include/cppev/event_loop.h
+++ b/src/include/cppev/event_loop.h
@@ -69,6 +69,7 @@ public:
 
     int ev_loads() const noexcept
     {
+        std::unique_lock<std::mutex> lock(lock_);
         return fds_.size();
     }
 
@@ -116,7 +117,7 @@ public:
 
 private:
     // Used for registering callback for event loop
-    std::mutex lock_;
+    mutable std::mutex lock_;
 
     // Event watcher fd
     int ev_fd_;
-- 
2.43.0


From b6b5cf446f2fc51286b3db12e3582a6b0ee46bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 12/62] fix: a failed registration left its handler in the
 event loop

---
 src/lib/event_loop_epoll.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index 5c57d32..3b47218 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -5,6 +5,7 @@
 #include <exception>
 #include <memory>
 #include <cassert>
+#include <cstring>
 #include <tuple>
 #include <iostream>
 #include <thread>
@@ -87,15 +88,12 @@ void event_loop::fd_register(const std::shared_ptr<nio> &iop, fd_event ev_type,
     }
     log::info << log::endl;
 #endif  // CPPEV_DEBUG
-    iop->set_evlp(*this);
-    if (handler)
-    {
-        std::unique_lock<std::mutex> lock(lock_);
-        fds_.emplace(iop->fd(), std::make_tuple(prio, iop, std::make_shared<fd_event_handler>(handler), ev_type));
-    }
+    // Events cannot be dispatched until the registration is completed
+    std::unique_lock<std::mutex> lock(lock_);
     if (activate)
     {
         struct epoll_event ev;
+        memset(&ev, 0, sizeof(ev));
         ev.data.fd = iop->fd();
         ev.events = fd_map_to_sys(ev_type);
         if (epoll_ctl(ev_fd_, EPOLL_CTL_ADD, iop->fd(), &ev) < 0)
@@ -103,6 +101,11 @@ void event_loop::fd_register(const std::shared_ptr<nio> &iop, fd_event ev_type,
             throw_system_error(std::string("epoll_ctl add error for fd ").append(std::to_string(iop->fd())));
         }
     }
+    iop->set_evlp(*this);
+    if (handler)
+    {
+        fds_.emplace(iop->fd(), std::make_tuple(prio, iop, std::make_shared<fd_event_handler>(handler), ev_type));
+    }
 }
 
 void event_loop::fd_remove(const std::shared_ptr<nio> &iop, bool clean, bool deactivate)
-- 
2.43.0


From 8136618e07a556996e1251d112daedffae433c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 13/62] fix: hang-up and error without data never reached the
 handler and spun the event loop

---
 src/include/cppev/event_loop.h |  2 +-
 src/lib/event_loop_epoll.cc    | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/include/cppev/event_loop.h b/src/include/cppev/event_loop.h
index d95750f..414f53f 100644
--- a/src/include/cppev/event_loop.h
+++ b/src/include/cppev/event_loop.h
@@ -134,7 +134,7 @@ private:
     // Tuple : priority, nio, callback
     std::priority_queue<std::tuple<int, std::shared_ptr<nio>, std::shared_ptr<fd_event_handler>> > fd_cbs_;
 
-    // Activate events, used for kqueue only
+    // Activate events
     std::unordered_map<int, fd_event> fd_events_;
 
     // Whether loop forever shall be stopped
diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index 3b47218..9babe26 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -30,7 +30,9 @@ static uint32_t fd_map_to_sys(fd_event ev)
     return flags;
 }
 
-static fd_event fd_map_to_event(uint32_t ev)
+// @param ev        events returned by epoll
+// @param activated events that fd is activated for
+static fd_event fd_map_to_event(uint32_t ev, fd_event activated)
 {
     fd_event flags = static_cast<fd_event>(0);
     if (ev & EPOLLIN)
@@ -41,6 +43,11 @@ static fd_event fd_map_to_event(uint32_t ev)
     {
         flags = flags | fd_event::fd_writable;
     }
+    if (ev & (EPOLLERR | EPOLLHUP))
+    {
+        // Neither reading nor writing will block
+        flags = flags | activated;
+    }
     return flags;
 }
 
@@ -100,6 +107,7 @@ void event_loop::fd_register(const std::shared_ptr<nio> &iop, fd_event ev_type,
         {
             throw_system_error(std::string("epoll_ctl add error for fd ").append(std::to_string(iop->fd())));
         }
+        fd_events_[iop->fd()] = ev_type;
     }
     iop->set_evlp(*this);
     if (handler)
@@ -162,7 +170,7 @@ void event_loop::loop_once(int timeout)
         auto begin = range.first, end = range.second;
         while (begin != end)
         {
-            if (static_cast<bool>(std::get<3>(begin->second) & fd_map_to_event(evs[i].events)))
+            if (static_cast<bool>(std::get<3>(begin->second) & fd_map_to_event(evs[i].events, fd_events_[fd])))
             {
 #ifdef CPPEV_DEBUG
                 log::info << "Enqueue ";
-- 
2.43.0


From 6a11a0ca2f1c76a68413adf00be1fc9cd2cc93c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 14/62] fix: handlers of a descriptor removed earlier in the
 same pass were still invoked

---
 src/include/cppev/event_loop.h |  3 +++
 src/lib/event_loop_epoll.cc    | 27 +++++++++++++++++++++++++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/include/cppev/event_loop.h b/src/include/cppev/event_loop.h
index 414f53f..34693f5 100644
--- a/src/include/cppev/event_loop.h
+++ b/src/include/cppev/event_loop.h
@@ -134,6 +134,9 @@ private:
     // Tuple : priority, nio, callback
     std::priority_queue<std::tuple<int, std::shared_ptr<nio>, std::shared_ptr<fd_event_handler>> > fd_cbs_;
 
+    // Whether handler of the ready fd is not removed by previous handlers
+    bool is_alive(const std::shared_ptr<nio> &iop, const std::shared_ptr<fd_event_handler> &handler);
+
     // Activate events
     std::unordered_map<int, fd_event> fd_events_;
 
diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index 9babe26..d793dbc 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -139,20 +139,40 @@ void event_loop::fd_remove(const std::shared_ptr<nio> &iop, bool clean, bool dea
     }
     log::info << log::endl;
 #endif  // CPPEV_DEBUG
+    std::unique_lock<std::mutex> lock(lock_);
     if (deactivate)
     {
         if (epoll_ctl(ev_fd_, EPOLL_CTL_DEL, iop->fd(), nullptr) < 0)
         {
             throw_system_error(std::string("epoll_ctl del error for fd ").append(std::to_string(iop->fd())));
         }
+        fd_events_.erase(iop->fd());
     }
     if (clean)
     {
-        std::unique_lock<std::mutex> lock(lock_);
         fds_.erase(iop->fd());
     }
 }
 
+bool event_loop::is_alive(const std::shared_ptr<nio> &iop, const std::shared_ptr<fd_event_handler> &handler)
+{
+    std::unique_lock<std::mutex> lock(lock_);
+    auto activated = fd_events_.find(iop->fd());
+    if (activated == fd_events_.end())
+    {
+        return false;
+    }
+    auto range = fds_.equal_range(iop->fd());
+    for (auto iter = range.first; iter != range.second; ++iter)
+    {
+        if (std::get<2>(iter->second) == handler)
+        {
+            return static_cast<bool>(std::get<3>(iter->second) & activated->second);
+        }
+    }
+    return false;
+}
+
 void event_loop::loop_once(int timeout)
 {
     // 1. Add to priority queue
@@ -198,7 +218,10 @@ void event_loop::loop_once(int timeout)
     {
         auto ev = fd_cbs_.top();
         fd_cbs_.pop();
-        (*std::get<2>(ev))(std::get<1>(ev));
+        if (is_alive(std::get<1>(ev), std::get<2>(ev)))
+        {
+            (*std::get<2>(ev))(std::get<1>(ev));
+        }
     }
 
 }
-- 
2.43.0


From 19ce76edf84f79e2be7dcdd49aea6aa2030b5fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 15/62] fix: writing a lot or closing from on_accept/on_connect
 killed the process

---
 src/lib/tcp.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 7361feb..d0d3942 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -115,10 +115,10 @@ void iohandler::on_acpt_writable(const std::shared_ptr<nio> &iop)
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
     iopt->evlp().fd_remove(iop, true);
-    // The sequence CANNOT be changed, since on_accept may call async_write
+    // The sequence CANNOT be changed, since on_accept may call async_write or safely_close
     iopt->evlp().fd_register(iop, fd_event::fd_writable, iohandler::on_writable, false);
-    dp->on_accept(iopt);
     iopt->evlp().fd_register(iop, fd_event::fd_readable, iohandler::on_readable, true);
+    dp->on_accept(iopt);
 }
 
 void iohandler::on_cont_writable(const std::shared_ptr<nio> &iop)
@@ -141,10 +141,10 @@ void iohandler::on_cont_writable(const std::shared_ptr<nio> &iop)
         return;
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iop->evlp().data());
-    // The sequence CANNOT be changed since on_connect may call aysnc_write
+    // The sequence CANNOT be changed since on_connect may call async_write or safely_close
     iopt->evlp().fd_register(iop, fd_event::fd_writable, iohandler::on_writable, false);
-    dp->on_connect(iopt);
     iopt->evlp().fd_register(iop, fd_event::fd_readable, iohandler::on_readable, true);
+    dp->on_connect(iopt);
 }
 
 void iohandler::run_impl()
-- 
2.43.0


From 3767424b74945f7466787274ce1f64f0788a4fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 16/62] fix: closing a connection from its handlers while the
 peer closed it killed the process

---
 src/lib/tcp.cc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index d0d3942..d983903 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -49,6 +49,10 @@ void async_write(const std::shared_ptr<nsocktcp> &iopt)
 
 void safely_close(const std::shared_ptr<nsocktcp> &iopt)
 {
+    if (iopt->is_closed())
+    {
+        return;
+    }
     std::shared_ptr<nio> iop = std::static_pointer_cast<nio>(iopt);
     // epoll/kqueue will remove fd when it's closed
     iopt->evlp().fd_remove(iop, true, false);
@@ -74,10 +78,18 @@ void iohandler::on_readable(const std::shared_ptr<nio> &iop)
     iopt->read_all();
     dp->on_read_complete(iopt);
     iopt->rbuffer().clear();
+    if (iopt->is_closed())
+    {
+        // Closed by the handler
+        return;
+    }
     if (iopt->eof() || iopt->is_reset())
     {
         dp->on_closed(iopt);
-        iopt->evlp().fd_remove(iop, true);
+        if (!iopt->is_closed())
+        {
+            iopt->evlp().fd_remove(iop, true);
+        }
     }
 }
 
@@ -99,10 +111,18 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
             iopt->evlp().fd_register(iop, fd_event::fd_readable);
         }
     }
+    if (iopt->is_closed())
+    {
+        // Closed by the handler
+        return;
+    }
     if (iopt->eop() || iopt->is_reset())
     {
         dp->on_closed(iopt);
-        iopt->evlp().fd_remove(iop, true);
+        if (!iopt->is_closed())
+        {
+            iopt->evlp().fd_remove(iop, true);
+        }
     }
 }
 
-- 
2.43.0


From 6d392a1d8a91bda33726ffd727c7a97af6461c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 17/62] fix: an asynchronous write from on_write_complete that
 did not finish at once killed the process

---
 src/lib/tcp.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index d983903..c7bf5fc 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -105,11 +105,9 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
     if (0 == iopt->wbuffer().size())
     {
         iopt->evlp().fd_remove(iop, false);
+        // The sequence CANNOT be changed, since on_write_complete may call async_write or safely_close
+        iopt->evlp().fd_register(iop, fd_event::fd_readable);
         dp->on_write_complete(iopt);
-        if (!iopt->is_closed())
-        {
-            iopt->evlp().fd_register(iop, fd_event::fd_readable);
-        }
     }
     if (iopt->is_closed())
     {
-- 
2.43.0


From ba793c136a77883ceb367476495e7f8042406670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 18/62] fix: running out of descriptors while accepting killed
 the process

---
 src/lib/tcp.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index c7bf5fc..d15890f 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -1,4 +1,7 @@
 #include "cppev/tcp.h"
+#include <chrono>
+#include <system_error>
+#include <thread>
 
 namespace cppev
 {
@@ -199,7 +202,18 @@ void acceptor::on_acpt_readable(const std::shared_ptr<nio> &iop)
     {
         throw_logic_error("dynamic_pointer_cast error");
     }
-    std::vector<std::shared_ptr<nsocktcp>> conns = iopt->accept();
+    std::vector<std::shared_ptr<nsocktcp>> conns;
+    try
+    {
+        conns = iopt->accept();
+    }
+    catch (const std::system_error &e)
+    {
+        // Such as out of descriptors, pending connections will be accepted when resources permit
+        log::error << "listening socket " << iopt->fd() << " : " << e.what() << log::endl;
+        std::this_thread::sleep_for(std::chrono::milliseconds(10));
+        return;
+    }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
 
     for (auto &conn : conns)
-- 
2.43.0


From 407c03cc0ca78d84a38e6a4ebbbb19f2678126f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 19/62] fix: concurrent connection requests raced on the
 wake-up pipe

---
 src/lib/tcp.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index d15890f..7622ca7 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -255,10 +255,9 @@ void connector::add(const std::string &ip, int port, family f, int t)
         {
             hosts_[h] = t;
         }
+        wrp_->wbuffer().put_string("0");
+        wrp_->write_all(1);
     }
-
-    wrp_->wbuffer().put_string("0");
-    wrp_->write_all(1);
 }
 
 void connector::add_unix(const std::string &path, int t)
@@ -275,6 +274,7 @@ void connector::on_pipe_readable(const std::shared_ptr<nio> &iop)
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iops->evlp().data());
     iops->read_all(1);
+    iops->rbuffer().clear();
 
     std::unordered_map<std::tuple<std::string, int, family>, int, host_hash> hosts;
     connector *pseudo_this = reinterpret_cast<connector *>(iops->evlp().back());
-- 
2.43.0


From a6b94cf3d64c392a3ecca67487f9003d3c8ca263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 20/62] fix: a malformed target killed the tcp client

---
 src/lib/tcp.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 7622ca7..a1ab307 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -287,15 +287,24 @@ void connector::on_pipe_readable(const std::shared_ptr<nio> &iop)
     {
         for (int i = 0; i < iter->second; ++i)
         {
-            std::shared_ptr<nsocktcp> sock = nio_factory::get_nsocktcp(std::get<2>(iter->first));
-            bool succeed;
-            if (std::get<2>(iter->first) == family::local)
+            std::shared_ptr<nsocktcp> sock;
+            bool succeed = false;
+            try
             {
-                succeed = sock->connect_unix(std::get<0>(iter->first));
+                sock = nio_factory::get_nsocktcp(std::get<2>(iter->first));
+                if (std::get<2>(iter->first) == family::local)
+                {
+                    succeed = sock->connect_unix(std::get<0>(iter->first));
+                }
+                else
+                {
+                    succeed = sock->connect(std::get<0>(iter->first), std::get<1>(iter->first));
+                }
             }
-            else
+            catch (const std::exception &e)
             {
-                succeed = sock->connect(std::get<0>(iter->first), std::get<1>(iter->first));
+                // Such as malformed address or out of descriptors
+                log::error << "connect : " << e.what() << log::endl;
             }
             if (succeed)
             {
-- 
2.43.0


From a1010ca0a01461daffa4dc2527bf65b06a56895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 21/62] fix: subprocess pipes leaked in the parent and were
 inherited by children, which never saw end of input

---
 src/include/cppev/subprocess.h |  3 +++
 src/lib/subprocess.cc          | 48 ++++++++++++++++++++--------------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/include/cppev/subprocess.h b/src/include/cppev/subprocess.h
index 6e1a59d..2402f31 100644
--- a/src/include/cppev/subprocess.h
+++ b/src/include/cppev/subprocess.h
@@ -79,6 +79,9 @@ private:
 
     std::unique_ptr<nstream> stdin_;
 
+    // Read end of stdin pipe
+    std::unique_ptr<nstream> stdin_rd_;
+
     std::unique_ptr<nstream> stdout_;
 
     std::unique_ptr<nstream> stderr_;
diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 4749909..f7e93a1 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -5,6 +5,7 @@
 #include <set>
 #include <sys/wait.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <signal.h>
 #include <thread>
 
@@ -27,32 +28,39 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 
 }   // namespace subprocess
 
-subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
-: cmd_(cmd), env_(env)
+// Pipe that will not be inherited by subprocesses
+static void open_pipe(std::unique_ptr<nstream> &rd, std::unique_ptr<nstream> &wr)
 {
     int fds[2];
-    int zero, one, two;
-
-    if (pipe(fds) < 0)
+#ifdef __linux__
+    if (pipe2(fds, O_CLOEXEC) < 0)
     {
         throw_system_error("pipe error");
     }
-    zero = fds[0];
-    stdin_ = std::make_unique<nstream>(fds[1]);
-
+#else
     if (pipe(fds) < 0)
     {
         throw_system_error("pipe error");
     }
-    one = fds[1];
-    stdout_ = std::make_unique<nstream>(fds[0]);
+    fcntl(fds[0], F_SETFD, FD_CLOEXEC);
+    fcntl(fds[1], F_SETFD, FD_CLOEXEC);
+#endif
+    rd = std::make_unique<nstream>(fds[0]);
+    wr = std::make_unique<nstream>(fds[1]);
+}
 
-    if (pipe(fds) < 0)
-    {
-        throw_system_error("pipe error");
-    }
-    two = fds[1];
-    stderr_ = std::make_unique<nstream>(fds[0]);
+subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
+: cmd_(cmd), env_(env)
+{
+    // Ends used by the child, stdin is also kept in the parent, thus writing to
+    // subprocess that has terminated doesn't raise SIGPIPE
+    std::unique_ptr<nstream> one, two;
+    open_pipe(stdin_rd_, stdin_);
+    open_pipe(stdout_, one);
+    open_pipe(stderr_, two);
+    stdin_rd_->set_io_block();
+    one->set_io_block();
+    two->set_io_block();
 
     pid_t pid = fork();
 
@@ -63,9 +71,11 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
     if (pid == 0)
     {
-        dup2(zero, STDIN_FILENO);
-        dup2(one, STDOUT_FILENO);
-        dup2(two, STDERR_FILENO);
+        dup2(stdin_rd_->fd(), STDIN_FILENO);
+        dup2(one->fd(), STDOUT_FILENO);
+        dup2(two->fd(), STDERR_FILENO);
+        // In case of dup2 to itself
+        fcntl(STDIN_FILENO, F_SETFD, 0);
 
         std::vector<std::string> cmd_with_args = split(cmd_, " ");
         std::string cmd_with_path = cmd_with_args[0];
-- 
2.43.0


From b7d80be5338639ec53dbd672d9588bbda9cbc85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 22/62] fix: polling a subprocess that has been waited for
 killed the caller

---
 src/include/cppev/subprocess.h |  3 +++
 src/lib/subprocess.cc          | 11 ++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/include/cppev/subprocess.h b/src/include/cppev/subprocess.h
index 2402f31..c39c78e 100644
--- a/src/include/cppev/subprocess.h
+++ b/src/include/cppev/subprocess.h
@@ -88,6 +88,9 @@ private:
 
     pid_t pid_;
 
+    // Whether subprocess has been reaped
+    bool terminated_;
+
     int returncode_;
 };
 
diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index f7e93a1..0a68ae9 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -50,7 +50,7 @@ static void open_pipe(std::unique_ptr<nstream> &rd, std::unique_ptr<nstream> &wr
 }
 
 subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
-: cmd_(cmd), env_(env)
+: cmd_(cmd), env_(env), terminated_(false), returncode_(-1)
 {
     // Ends used by the child, stdin is also kept in the parent, thus writing to
     // subprocess that has terminated doesn't raise SIGPIPE
@@ -105,12 +105,17 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
 bool subp_open::poll()
 {
+    if (terminated_)
+    {
+        return true;
+    }
     int ret = waitpid(pid_, &returncode_, WNOHANG);
     if (ret == -1)
     {
-        _exit(-1);
+        throw_system_error("waitpid error");
     }
-    return ret != 0;
+    terminated_ = (ret != 0);
+    return terminated_;
 }
 
 void subp_open::wait()
-- 
2.43.0


From 64037c11f187faae9916a9da779738a295c37921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 23/62] fix: failing to fork a subprocess killed the caller

---
 src/lib/subprocess.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 0a68ae9..f782577 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -66,7 +66,7 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
     if (pid == -1)
     {
-        _exit(-1);
+        throw_system_error("fork error");
     }
 
     if (pid == 0)
-- 
2.43.0


From 60a7bb5d95d1baacf2a7e78201d3abda92a716f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 24/62] fix: pending input of a subprocess was not written by
 later communicate() calls

---
 src/lib/subprocess.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index f782577..871efa4 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -131,8 +131,9 @@ void subp_open::communicate(const char *input, int len)
     if (input != nullptr && len != 0)
     {
         stdin_->wbuffer().produce(input, len);
-        stdin_->write_all();
     }
+    // Input of previous calls may still be pending
+    stdin_->write_all();
 }
 
 void subp_open::communicate()
-- 
2.43.0


From 2d9c79fce153b5180bee1b281a5817e7d1d0af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 25/62] fix: exec_cmd truncated output at the first zero byte

---
 src/include/cppev/subprocess.h | 2 ++
 src/lib/subprocess.cc          | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/subprocess.h b/src/include/cppev/subprocess.h
index c39c78e..ae866b5 100644
--- a/src/include/cppev/subprocess.h
+++ b/src/include/cppev/subprocess.h
@@ -20,6 +20,8 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 
 class subp_open final
 {
+    friend std::tuple<int, std::string, std::string> subprocess::exec_cmd(
+        const std::string &cmd, const std::vector<std::string> &env);
 public:
     explicit subp_open(const std::string &cmd, const std::vector<std::string> &env);
 
diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 871efa4..26f7fe8 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -23,7 +23,11 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 {
     subp_open subp(cmd, env);
     subp.wait();
-    return std::make_tuple(subp.returncode(), subp.stdout(), subp.stderr());
+    // Output may contain '\0'
+    const buffer &out = subp.stdout_->rbuffer();
+    const buffer &err = subp.stderr_->rbuffer();
+    return std::make_tuple(subp.returncode(), std::string(out.rawbuf(), out.size()),
+        std::string(err.rawbuf(), err.size()));
 }
 
 }   // namespace subprocess
-- 
2.43.0


From 79301cb5116f53ce6c45075553975c56f595ee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 26/62] fix: stripping removed non-matching text of the same
 length as the strip chars

---
 src/lib/utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index a4c507c..3e555d5 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -446,7 +446,7 @@ static std::string do_strip(const std::string &str, const std::string &chars, co
         {
             bool eq = true;
             size_t j = chars.size() - 1;
-            for (size_t i = r - 1; i > r - chars.size() - 1; --i)
+            for (size_t i = r; i-- > r - chars.size(); )
             {
                 if (str[i] != chars[j--])
                 {
-- 
2.43.0


From 43b24882fc47778970ad33126e886bbebcfb35b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 27/62] fix: joining an empty list terminated the process

---
 src/lib/utils.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 3e555d5..01f218f 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -389,7 +389,10 @@ std::string join(const std::vector<std::string> &str_arr, const std::string &sep
     {
         size += str_arr[i].size();
     }
-    size += sep.size() * (str_arr.size() - 1);
+    if (str_arr.size())
+    {
+        size += sep.size() * (str_arr.size() - 1);
+    }
     ret.reserve(size);
     for (size_t i = 0; i < str_arr.size(); ++i)
     {
-- 
2.43.0


From 434c62bfda6125252f2c5a0f78e7b22bdc5822bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 28/62] fix: thread id was stale in forked processes

---
 src/lib/utils.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 01f218f..a5468e0 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -312,15 +312,13 @@ bool thread_check_signal_pending(int sig)
 
 tid_t gettid() noexcept
 {
-    thread_local tid_t thr_id = 0;
-    if (thr_id == 0)
-    {
+    // Cannot be cached, since it changes after fork
+    tid_t thr_id = 0;
 #ifdef __linux__
-        thr_id = syscall(SYS_gettid);
+    thr_id = syscall(SYS_gettid);
 #elif defined(__APPLE__)
-        pthread_threadid_np(0, &thr_id);
+    pthread_threadid_np(0, &thr_id);
 #endif  // __linux__
-    }
     return thr_id;
 }
 
-- 
2.43.0


From ce49e9e09af5b14bff565ad0358d53c4472d00cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 29/62] fix: checking a process of another user raised an error

---
 src/lib/utils.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index a5468e0..10250f9 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -157,6 +157,11 @@ bool check_process(pid_t pid)
         {
             return false;
         }
+        if (errno == EPERM)
+        {
+            // Exists but belongs to another user
+            return true;
+        }
         throw_system_error("kill error");
     }
     return true;
-- 
2.43.0


From 39e9d93c6addcfab70f2b2cd9c67b13dd1263419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 30/62] fix: one-time fence released only one of its waiters
 and its flag was a data race

---
 src/include/cppev/lock.h | 2 +-
 src/lib/lock.cc          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/cppev/lock.h b/src/include/cppev/lock.h
index d62bf86..8f1152e 100644
--- a/src/include/cppev/lock.h
+++ b/src/include/cppev/lock.h
@@ -111,7 +111,7 @@ public:
     bool ok() const noexcept;
 
 private:
-    bool ok_;
+    std::atomic<bool> ok_;
 
     pshared_lock lock_;
 
diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index b87c2d9..cb08c37 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -225,7 +225,7 @@ void pshared_one_time_fence::wait()
         std::unique_lock<pshared_lock> lock(lock_);
         if (!ok_)
         {
-            cond_.wait(lock, [this](){ return ok_; });
+            cond_.wait(lock, [this]() { return ok_.load(); });
         }
     }
 }
@@ -236,7 +236,7 @@ void pshared_one_time_fence::notify()
     {
         std::unique_lock<pshared_lock> lock(lock_);
         ok_ = true;
-        cond_.notify_one();
+        cond_.notify_all();
     }
 }
 
-- 
2.43.0


From 7956a4b897e1b17dfbb26953faaa16ecbe00e970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 31/62] fix: an arrival too many stranded the waiters of a
 barrier

---
 src/lib/lock.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index cb08c37..099e6b6 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -254,18 +254,18 @@ pshared_barrier::pshared_barrier(int count)
 void pshared_barrier::wait()
 {
     std::unique_lock<pshared_lock> lock(lock_);
+    if (count_ <= 0)
+    {
+        throw_logic_error("too many threads waited in the barrier");
+    }
     --count_;
     if (count_ == 0)
     {
         cond_.notify_all();
     }
-    else if (count_ > 0)
-    {
-        cond_.wait(lock, [this]() { return count_ == 0; });
-    }
     else
     {
-        throw_logic_error("too many threads waited in the barrier");
+        cond_.wait(lock, [this]() { return count_ == 0; });
     }
 }
 
-- 
2.43.0


From 1ae87aae1201528a37da09b05336ba00572aefda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 32/62] fix: read and write lock guards released twice after
 unlock and leaked the lock on move assignment

---
 src/include/cppev/lock.h | 10 +++++
 src/lib/lock.cc          | 96 +++++++++++++++++++++++++++++++---------
 2 files changed, 84 insertions(+), 22 deletions(-)

diff --git a/src/include/cppev/lock.h b/src/include/cppev/lock.h
index 8f1152e..3fc998b 100644
--- a/src/include/cppev/lock.h
+++ b/src/include/cppev/lock.h
@@ -184,6 +184,11 @@ public:
 
 private:
     pshared_rwlock *rwlock_;
+
+    // Whether the lock is held by this guard
+    bool owned_;
+
+    void release() noexcept;
 };
 
 class wrlockguard final
@@ -204,6 +209,11 @@ public:
 
 private:
     pshared_rwlock *rwlock_;
+
+    // Whether the lock is held by this guard
+    bool owned_;
+
+    void release() noexcept;
 };
 
 }   // namespace cppev
diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index 099e6b6..780220d 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -360,92 +360,144 @@ bool pshared_rwlock::try_wrlock()
 
 
 rdlockguard::rdlockguard(pshared_rwlock &lock)
-: rwlock_(&lock)
+: rwlock_(&lock), owned_(false)
 {
     rwlock_->rdlock();
+    owned_ = true;
 }
 
 rdlockguard::rdlockguard(rdlockguard &&other) noexcept
 {
     this->rwlock_ = other.rwlock_;
+    this->owned_ = other.owned_;
     other.rwlock_ = nullptr;
+    other.owned_ = false;
 }
 
 rdlockguard &rdlockguard::operator=(rdlockguard &&other) noexcept
 {
+    if (&other == this)
+    {
+        return *this;
+    }
+    release();
     this->rwlock_ = other.rwlock_;
+    this->owned_ = other.owned_;
     other.rwlock_ = nullptr;
+    other.owned_ = false;
 
     return *this;
 }
 
 rdlockguard::~rdlockguard() noexcept
 {
-    if (rwlock_ != nullptr)
-    {
-        try
-        {
-            rwlock_->unlock();
-        }
-        catch(...)
-        {
-        }
-    }
+    release();
 }
 
 void rdlockguard::lock()
 {
+    if (rwlock_ == nullptr || owned_)
+    {
+        throw_logic_error("rdlockguard has no lock or has already locked");
+    }
     rwlock_->rdlock();
+    owned_ = true;
 }
 
 void rdlockguard::unlock()
 {
+    if (!owned_)
+    {
+        throw_logic_error("rdlockguard has not locked");
+    }
     rwlock_->unlock();
+    owned_ = false;
+}
+
+void rdlockguard::release() noexcept
+{
+    if (owned_)
+    {
+        try
+        {
+            rwlock_->unlock();
+        }
+        catch(...)
+        {
+        }
+        owned_ = false;
+    }
 }
 
 
 wrlockguard::wrlockguard(pshared_rwlock &lock)
-: rwlock_(&lock)
+: rwlock_(&lock), owned_(false)
 {
     rwlock_->wrlock();
+    owned_ = true;
 }
 
 wrlockguard::wrlockguard(wrlockguard &&other) noexcept
 {
     this->rwlock_ = other.rwlock_;
+    this->owned_ = other.owned_;
     other.rwlock_ = nullptr;
+    other.owned_ = false;
 }
 
 wrlockguard &wrlockguard::operator=(wrlockguard &&other) noexcept
 {
+    if (&other == this)
+    {
+        return *this;
+    }
+    release();
     this->rwlock_ = other.rwlock_;
+    this->owned_ = other.owned_;
     other.rwlock_ = nullptr;
+    other.owned_ = false;
 
     return *this;
 }
 
 wrlockguard::~wrlockguard() noexcept
 {
-    if (rwlock_ != nullptr)
-    {
-        try
-        {
-            rwlock_->unlock();
-        }
-        catch(...)
-        {
-        }
-    }
+    release();
 }
 
 void wrlockguard::lock()
 {
+    if (rwlock_ == nullptr || owned_)
+    {
+        throw_logic_error("wrlockguard has no lock or has already locked");
+    }
     rwlock_->wrlock();
+    owned_ = true;
 }
 
 void wrlockguard::unlock()
 {
+    if (!owned_)
+    {
+        throw_logic_error("wrlockguard has not locked");
+    }
     rwlock_->unlock();
+    owned_ = false;
+}
+
+void wrlockguard::release() noexcept
+{
+    if (owned_)
+    {
+        try
+        {
+            rwlock_->unlock();
+        }
+        catch(...)
+        {
+        }
+        owned_ = false;
+    }
 }
 
 }   // namespace cppev
\ No newline at end of file
-- 
2.43.0


From 165f60bc4bd6527ed8b5908b6de2c019451530c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:37 +0000
Subject: [PATCH 33/62] fix: shared memory openers could crash on the unsized
 object or lose writes to the creator's clearing

---
 src/lib/ipc.cc | 72 ++++++++++++++++++++++++++------------------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 9224798..bd8654c 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -1,8 +1,8 @@
 #include "cppev/ipc.h"
-#include <cstring>
 #include <fcntl.h>
 #include <unistd.h>
 #include <sys/mman.h>
+#include <sys/stat.h>
 
 namespace cppev
 {
@@ -11,56 +11,58 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
 : name_(name), size_(size), ptr_(nullptr), creator_(false)
 {
     int fd = -1;
-    fd = shm_open(name_.c_str(), O_RDWR, mode);
-    if (fd < 0)
+    while (true)
     {
-        if (errno == ENOENT)
+        fd = shm_open(name_.c_str(), O_RDWR, mode);
+        if (fd >= 0)
         {
-            fd = shm_open(name_.c_str(), O_RDWR | O_CREAT | O_EXCL, mode);
-            if (fd < 0)
-            {
-                if (errno == EEXIST)
-                {
-                    fd = shm_open(name_.c_str(), O_RDWR, mode);
-                    if (fd < 0)
-                    {
-                        throw_system_error("shm_open error");
-                    }
-                }
-                else
-                {
-                    throw_system_error("shm_open error");
-                }
-            }
-            else
-            {
-                creator_ = true;
-            }
+            break;
         }
-        else
+        if (errno != ENOENT)
+        {
+            throw_system_error("shm_open error");
+        }
+        fd = shm_open(name_.c_str(), O_RDWR | O_CREAT | O_EXCL, mode);
+        if (fd >= 0)
+        {
+            creator_ = true;
+            break;
+        }
+        // Retry if it's created by others, it may also be unlinked by then
+        if (errno != EEXIST)
         {
             throw_system_error("shm_open error");
         }
     }
 
-    if (creator_)
+    try
     {
-        int ret = ftruncate(fd, size_);
-        if (ret == -1)
+        // Creator may have not set the size yet, extended bytes read as zero
+        struct stat st;
+        if (fstat(fd, &st) == -1)
+        {
+            throw_system_error("fstat error");
+        }
+        if (st.st_size < size_ && ftruncate(fd, size_) == -1)
         {
             throw_system_error("ftruncate error");
         }
+        ptr_ = mmap(nullptr, size_, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
+        if (ptr_ == MAP_FAILED)
+        {
+            throw_system_error("mmap error");
+        }
     }
-    ptr_ = mmap(nullptr, size_, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
-    if (ptr_ == MAP_FAILED)
+    catch (...)
     {
-        throw_system_error("mmap error");
+        close(fd);
+        if (creator_)
+        {
+            shm_unlink(name_.c_str());
+        }
+        throw;
     }
     close(fd);
-    if (creator_)
-    {
-        memset(ptr_, 0, size_);
-    }
 }
 
 shared_memory::~shared_memory() noexcept
-- 
2.43.0


From 74a2c45117e1cfba069ee91a62bd1ae957dbdc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:37 +0000
Subject: [PATCH 34/62] fix: opening a semaphore failed when it was unlinked
 concurrently

---
 src/lib/ipc.cc | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index bd8654c..91a90a9 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -86,33 +86,25 @@ void shared_memory::unlink()
 semaphore::semaphore(const std::string &name, mode_t mode)
 : name_(name), sem_(nullptr), creator_(false)
 {
-    sem_ = sem_open(name_.c_str(), 0);
-    if (sem_ == SEM_FAILED)
+    while (true)
     {
-        if (errno == ENOENT)
-        {
-            sem_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, mode, 0);
-            if (sem_ == SEM_FAILED)
-            {
-                if (errno == EEXIST)
-                {
-                    sem_ = sem_open(name_.c_str(), 0);
-                    if (sem_ == SEM_FAILED)
-                    {
-                        throw_system_error("sem_open error");
-                    }
-                }
-                else
-                {
-                    throw_system_error("sem_open error");
-                }
-            }
-            else
-            {
-                creator_ = true;
-            }
+        sem_ = sem_open(name_.c_str(), 0);
+        if (sem_ != SEM_FAILED)
+        {
+            break;
         }
-        else
+        if (errno != ENOENT)
+        {
+            throw_system_error("sem_open error");
+        }
+        sem_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, mode, 0);
+        if (sem_ != SEM_FAILED)
+        {
+            creator_ = true;
+            break;
+        }
+        // Retry if it's created by others, it may also be unlinked by then
+        if (errno != EEXIST)
         {
             throw_system_error("sem_open error");
         }
-- 
2.43.0


From 22fbd07c8f40c3ce34517312b03b21f5b429b820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:37 +0000
Subject: [PATCH 35/62] fix: a signal interrupting a semaphore acquisition lost
 permits already acquired

---
 src/lib/ipc.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 91a90a9..88e6943 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -139,8 +139,12 @@ void semaphore::acquire(int count)
 {
     for (int i = 0; i < count; ++i)
     {
-        if (sem_wait(sem_) == -1)
+        while (sem_wait(sem_) == -1)
         {
+            if (errno == EINTR)
+            {
+                continue;
+            }
             throw_system_error("sem_wait error");
         }
     }
-- 
2.43.0


From c449e4ce551da09d84bd01cb5c03d837e7202e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:37 +0000
Subject: [PATCH 36/62] fix: move assignment leaked the shared memory mapping
 and the semaphore handle

---
 src/include/cppev/ipc.h |  8 ++++++++
 src/lib/ipc.cc          | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/include/cppev/ipc.h b/src/include/cppev/ipc.h
index 459b076..e853d78 100644
--- a/src/include/cppev/ipc.h
+++ b/src/include/cppev/ipc.h
@@ -31,6 +31,7 @@ public:
         {
             return *this;
         }
+        release_handle();
         move(std::forward<shared_memory>(other));
         return *this;
     }
@@ -66,6 +67,9 @@ public:
     }
 
 private:
+    // Unmap the memory if it's mapped
+    void release_handle() noexcept;
+
     void move(shared_memory &&other) noexcept
     {
         this->name_ = other.name_;
@@ -111,6 +115,7 @@ public:
         {
             return *this;
         }
+        release_handle();
         move(std::forward<semaphore>(other));
         return *this;
     }
@@ -131,6 +136,9 @@ public:
     }
 
 private:
+    // Close the semaphore if it's open
+    void release_handle() noexcept;
+
     void move(semaphore &&other) noexcept
     {
         this->name_ = other.name_;
diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 88e6943..9eb4fdf 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -66,6 +66,11 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
 }
 
 shared_memory::~shared_memory() noexcept
+{
+    release_handle();
+}
+
+void shared_memory::release_handle() noexcept
 {
     if (ptr_ != nullptr && size_ != 0)
     {
@@ -112,6 +117,11 @@ semaphore::semaphore(const std::string &name, mode_t mode)
 }
 
 semaphore::~semaphore() noexcept
+{
+    release_handle();
+}
+
+void semaphore::release_handle() noexcept
 {
     if (sem_ != SEM_FAILED)
     {
-- 
2.43.0


From c8345a2a2aabceacdd93704bdcdbd3c324449d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:01 +0000
Subject: [PATCH 37/62] fix: only the first thread of a pool got arguments that
 were passed by value

---
 src/include/cppev/thread_pool.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/thread_pool.h b/src/include/cppev/thread_pool.h
index 8581af9..875229b 100644
--- a/src/include/cppev/thread_pool.h
+++ b/src/include/cppev/thread_pool.h
@@ -25,7 +25,7 @@ public:
     {
         for (int i = 0; i < thr_num; ++i)
         {
-            thrs_.push_back(std::make_unique<Runnable>(std::forward<Args>(args)...));
+            thrs_.push_back(std::make_unique<Runnable>(pass<Args>(args)...));
         }
     }
 
@@ -84,6 +84,22 @@ public:
 
 protected:
     std::vector<std::unique_ptr<Runnable>> thrs_;
+
+private:
+    // Every thread gets its own copy of an argument passed by value, since moving it to
+    // the first thread leaves nothing for the others
+    template <typename Arg>
+    static decltype(auto) pass(std::remove_reference_t<Arg> &arg)
+    {
+        if constexpr (!std::is_reference<Arg>::value && std::is_copy_constructible<Arg>::value)
+        {
+            return Arg(arg);
+        }
+        else
+        {
+            return std::forward<Arg>(arg);
+        }
+    }
 };
 
 namespace task_queue
-- 
2.43.0


From 1b6772a8f725d5cdf2f17b21e668c94f8091cda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:01 +0000
Subject: [PATCH 38/62] fix: async logger lost lines or hung when it was
 destroyed

---
 src/lib/async_logger.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index fad5cd3..fab49b2 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -34,7 +34,10 @@ async_logger::~async_logger()
     {
         return;
     }
-    stop_ = true;
+    {
+        std::unique_lock<std::recursive_mutex> lock(lock_);
+        stop_ = true;
+    }
     cond_.notify_one();
     join();
 }
@@ -112,7 +115,7 @@ async_logger &async_logger::operator<<(const async_logger &)
 
 void async_logger::run_impl()
 {
-    while (!stop_)
+    while (true)
     {
         int prev = -1;
         {
@@ -126,6 +129,11 @@ void async_logger::run_impl()
                     }
                 );
             }
+            if (0 == buffers_[curr_].size())
+            {
+                // Stopped and nothing is left
+                break;
+            }
             prev = curr_;
             curr_ = 1 - curr_;
         }
-- 
2.43.0


From ee881e59b446a6f40bf381c656abf374fc4a8713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:01 +0000
Subject: [PATCH 39/62] fix: async logger lost output when write was partial or
 interrupted

---
 src/lib/async_logger.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index fab49b2..061fce2 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -7,7 +7,9 @@
 #include <string>
 #include <unordered_set>
 #include <cassert>
+#include <cerrno>
 #include <unistd.h>
+#include <poll.h>
 #include "cppev/utils.h"
 #include "cppev/sysconfig.h"
 #include "cppev/async_logger.h"
@@ -140,10 +142,22 @@ void async_logger::run_impl()
 
         buffer &buf = buffers_[prev];
 
-        if (buf.size())
+        while (buf.size())
         {
-            write(level_, buf.rawbuf(), buf.size());
-            buf.clear();
+            int len = write(level_, buf.rawbuf(), buf.size());
+            if (len >= 0)
+            {
+                buf.consume(len);
+            }
+            else if (errno == EAGAIN || errno == EWOULDBLOCK)
+            {
+                struct pollfd pfd = { level_, POLLOUT, 0 };
+                poll(&pfd, 1, -1);
+            }
+            else if (errno != EINTR)
+            {
+                buf.clear();
+            }
         }
     }
 }
-- 
2.43.0


From 4fce933d24402463f3750af82c9ddccf9d0b708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:01 +0000
Subject: [PATCH 40/62] fix: async logger truncated strings at the first zero
 byte

---
 src/lib/async_logger.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index 061fce2..19d6b10 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -44,9 +44,9 @@ async_logger::~async_logger()
     join();
 }
 
-async_logger &async_logger::operator<<(const std::string &str)
+async_logger &async_logger::operator<<(const char *str)
 {
-    return (*this) << str.c_str();
+    return (*this) << std::string(str);
 }
 
 async_logger &async_logger::operator<<(long x)
@@ -91,7 +91,7 @@ void async_logger::write_header(buffer &buf)
     buf.put_string(ss.str());
 }
 
-async_logger &async_logger::operator<<(const char *str)
+async_logger &async_logger::operator<<(const std::string &str)
 {
     lock_.lock();
     if (0 == recur_level_++)
-- 
2.43.0


From 6e2a5914dcfce61194456f4c8976a9ffeda7eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:10 +0000
Subject: [PATCH 41/62] fix: stop flag of the timed scheduler was a data race

---
 src/include/cppev/scheduler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/scheduler.h b/src/include/cppev/scheduler.h
index 3294926..01b5e77 100644
--- a/src/include/cppev/scheduler.h
+++ b/src/include/cppev/scheduler.h
@@ -12,6 +12,7 @@
 #include <map>
 #include <thread>
 #include <algorithm>
+#include <atomic>
 #include "cppev/utils.h"
 
 namespace cppev
@@ -153,7 +154,7 @@ public:
 
 private:
     // whether thread shall stop
-    bool stop_;
+    std::atomic<bool> stop_;
 
     // time interval in nanoseconds
     int64_t interval_;
-- 
2.43.0


From a4c80309177967e0925ffb3ed6dc7e0ff42d3310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:37 +0000
Subject: [PATCH 42/62] fix: timed scheduler never started for frequencies
 whose intervals have a huge common multiple

---
 src/include/cppev/scheduler.h | 64 ++++++++++-------------------------
 1 file changed, 17 insertions(+), 47 deletions(-)

diff --git a/src/include/cppev/scheduler.h b/src/include/cppev/scheduler.h
index 01b5e77..b85d112 100644
--- a/src/include/cppev/scheduler.h
+++ b/src/include/cppev/scheduler.h
@@ -9,7 +9,6 @@
 #include <chrono>
 #include <memory>
 #include <string>
-#include <map>
 #include <thread>
 #include <algorithm>
 #include <atomic>
@@ -53,32 +52,12 @@ public:
             timer_tasks_heap.push({ std::get<1>(timer_tasks[i]) , i });
         }
 
-        std::vector<int64_t> intervals;
-        for (size_t i = 0; i < timer_tasks.size(); ++i)
-        {
-            intervals.push_back(1'000'000'000 / std::get<0>(timer_tasks[i]));
-        }
-        int64_t lcm = intervals[0];
-        int64_t gcd = intervals[0];
-        if (intervals.size() >= 2)
-        {
-            lcm = least_common_multiple(intervals);
-            gcd = greatest_common_divisor(intervals);
-        }
-        interval_ = lcm;
-
         while (!timer_tasks_heap.empty())
         {
             size_t idx = std::get<1>(timer_tasks_heap.top());
             timer_tasks_heap.pop();
             timer_handlers_.push_back(std::get<2>(timer_tasks[idx]));
-            for (int64_t stamp = 0; stamp < lcm; stamp += gcd)
-            {
-                if (stamp % intervals[idx] == 0)
-                {
-                    tasks_[stamp].push_back(timer_handlers_.size() - 1);
-                }
-            }
+            intervals_.push_back(1'000'000'000 / std::get<0>(timer_tasks[idx]));
         }
 
         thr_ = std::thread(
@@ -94,35 +73,29 @@ public:
                     tp_curr = ceil_time_point<Clock>(tp_curr);
                     std::this_thread::sleep_until(tp_curr);
                 }
+                auto tp_start = tp_curr;
+                // Next trigger of each handler, relative to the start
+                std::vector<int64_t> nexts(timer_handlers_.size(), 0);
+                int64_t curr = 0;
                 while(!stop_)
                 {
-                    for (auto iter = tasks_.cbegin(); !stop_ && (iter != tasks_.cend()); )
+                    for (size_t idx = 0; idx < timer_handlers_.size(); ++idx)
                     {
-                        auto curr = iter;
-                        auto next = ++iter;
-
-                        int64_t span;
-                        if (next == tasks_.cend())
-                        {
-                            span = interval_ - curr->first;
-                        }
-                        else
-                        {
-                            span = next->first - curr->first;
-                        }
-
-                        for (auto idx : curr->second)
+                        if (nexts[idx] == curr)
                         {
                             timer_handlers_[idx](tp_curr.time_since_epoch());
+                            nexts[idx] += intervals_[idx];
                         }
+                    }
 
-                        auto tp_next = tp_curr + std::chrono::nanoseconds(span);
+                    curr = *std::min_element(nexts.cbegin(), nexts.cend());
 
-                        std::this_thread::sleep_until(tp_next);
+                    auto tp_next = tp_start + std::chrono::nanoseconds(curr);
 
-                        tp_curr = std::chrono::time_point_cast<
-                            typename decltype(tp_curr)::duration>(tp_next);
-                    }
+                    std::this_thread::sleep_until(tp_next);
+
+                    tp_curr = std::chrono::time_point_cast<
+                        typename decltype(tp_curr)::duration>(tp_next);
                 }
                 for (const auto &task : exit_tasks)
                 {
@@ -156,14 +129,11 @@ private:
     // whether thread shall stop
     std::atomic<bool> stop_;
 
-    // time interval in nanoseconds
-    int64_t interval_;
-
     // timed task handlers, discending priority order
     std::vector<timed_task_handler> timer_handlers_;
 
-    // timepoint -> timed handler index
-    std::map<int64_t, std::vector<size_t>> tasks_;
+    // timed task intervals in nanoseconds
+    std::vector<int64_t> intervals_;
 
     // backend thread executing tasks
     std::thread thr_;
-- 
2.43.0


From 7a4dbba2e7f9b65d41fed813d4a8e10e7d151380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 43/62] fix: a handler that throws left the other handlers of
 its pass to the next pass

---
 src/lib/event_loop_epoll.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib/event_loop_epoll.cc b/src/lib/event_loop_epoll.cc
index d793dbc..9dd8f81 100644
--- a/src/lib/event_loop_epoll.cc
+++ b/src/lib/event_loop_epoll.cc
@@ -220,7 +220,16 @@ void event_loop::loop_once(int timeout)
         fd_cbs_.pop();
         if (is_alive(std::get<1>(ev), std::get<2>(ev)))
         {
-            (*std::get<2>(ev))(std::get<1>(ev));
+            try
+            {
+                (*std::get<2>(ev))(std::get<1>(ev));
+            }
+            catch (...)
+            {
+                // Handlers not invoked yet belong to this pass only
+                fd_cbs_ = decltype(fd_cbs_)();
+                throw;
+            }
         }
     }
 
-- 
2.43.0


From 132d9fa00f1576d25a874302e9cc1b44b013907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 44/62] fix: event loop pointer of a handle was a data race
 between handlers and registrations

---
 src/include/cppev/nio.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/include/cppev/nio.h b/src/include/cppev/nio.h
index 820ba1f..8ee245a 100644
--- a/src/include/cppev/nio.h
+++ b/src/include/cppev/nio.h
@@ -8,6 +8,7 @@
 #include <memory>
 #include <exception>
 #include <unistd.h>
+#include <atomic>
 #include <climits>
 #include <iostream>
 #include "cppev/utils.h"
@@ -113,12 +114,12 @@ public:
 
     const event_loop &evlp() const noexcept
     {
-        return *evlp_;
+        return *evlp_.load();
     }
 
     event_loop &evlp() noexcept
     {
-        return *evlp_;
+        return *evlp_.load();
     }
 
     void set_evlp(event_loop &evlp) noexcept
@@ -153,7 +154,7 @@ protected:
     buffer wbuffer_;
 
     // One nio belongs to one event loop
-    event_loop *evlp_ = nullptr;
+    std::atomic<event_loop *> evlp_{nullptr};
 
     void move(nio &&other) noexcept
     {
@@ -163,7 +164,7 @@ protected:
         this->closed_ = other.closed_;
         this->rbuffer_ = std::move(other.rbuffer_);
         this->wbuffer_ = std::move(other.wbuffer_);
-        this->evlp_ = other.evlp_;
+        this->evlp_ = other.evlp_.load();
 
         other.fd_ = -1;
         other.closed_ = true;
-- 
2.43.0


From 88f7fa61e95ff957185635dbcecc81f7ca23e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 45/62] fix: chains of asynchronous writes from
 on_write_complete overflowed the stack

---
 src/lib/tcp.cc | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index a1ab307..545dfe3 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -34,13 +34,52 @@ event_loop *tp_shared_data::minloads_get_evlp()
 }
 
 
+// Connection whose on_write_complete is being executed, on_write_complete may call async_write which
+// completes at once, the repeated callbacks are executed one after another to avoid recursion
+struct write_completion
+{
+    const nsocktcp *conn;
+    int times;
+    write_completion *outer;
+};
+
+static thread_local write_completion *curr_completion = nullptr;
+
+static void write_complete(tp_shared_data *dp, const std::shared_ptr<nsocktcp> &iopt)
+{
+    for (write_completion *wc = curr_completion; wc != nullptr; wc = wc->outer)
+    {
+        if (wc->conn == iopt.get())
+        {
+            ++wc->times;
+            return;
+        }
+    }
+    write_completion wc = {iopt.get(), 1, curr_completion};
+    curr_completion = &wc;
+    // Callback will be executed by on_writable if there's data left
+    while (wc.times-- > 0 && !iopt->is_closed() && 0 == iopt->wbuffer().size())
+    {
+        try
+        {
+            dp->on_write_complete(iopt);
+        }
+        catch (...)
+        {
+            curr_completion = wc.outer;
+            throw;
+        }
+    }
+    curr_completion = wc.outer;
+}
+
 void async_write(const std::shared_ptr<nsocktcp> &iopt)
 {
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
     iopt->write_all();
     if (0 == iopt->wbuffer().size())
     {
-        dp->on_write_complete(iopt);
+        write_complete(dp, iopt);
     }
     else
     {
@@ -110,7 +149,7 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
         iopt->evlp().fd_remove(iop, false);
         // The sequence CANNOT be changed, since on_write_complete may call async_write or safely_close
         iopt->evlp().fd_register(iop, fd_event::fd_readable);
-        dp->on_write_complete(iopt);
+        write_complete(dp, iopt);
     }
     if (iopt->is_closed())
     {
-- 
2.43.0


From d9b31ebacc56125714abbf29e4b292f4cfc0ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 46/62] fix: a connection was no longer read after an
 asynchronous write completed a previous one

---
 src/include/cppev/event_loop.h | 8 ++++++++
 src/lib/tcp.cc                 | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/event_loop.h b/src/include/cppev/event_loop.h
index 34693f5..569c2ba 100644
--- a/src/include/cppev/event_loop.h
+++ b/src/include/cppev/event_loop.h
@@ -89,6 +89,14 @@ public:
     //                      the io-multiplexing api may cause program get killed when fd is closed)
     void fd_remove(const std::shared_ptr<nio> &iop, bool clean = true, bool deactivate = true);
 
+    // Whether fd is registered to os io-multiplexing api for the event
+    bool fd_activated(const std::shared_ptr<nio> &iop, fd_event ev_type) const
+    {
+        std::unique_lock<std::mutex> lock(lock_);
+        auto iter = fd_events_.find(iop->fd());
+        return iter != fd_events_.end() && static_cast<bool>(iter->second & ev_type);
+    }
+
     // Wait for events, only loop once, timeout unit is millisecond
     void loop_once(int timeout = -1);
 
diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 545dfe3..9c94d4e 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -77,13 +77,19 @@ void async_write(const std::shared_ptr<nsocktcp> &iopt)
 {
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iopt->evlp().data());
     iopt->write_all();
+    std::shared_ptr<nio> iop = std::static_pointer_cast<nio>(iopt);
     if (0 == iopt->wbuffer().size())
     {
+        if (iopt->evlp().fd_activated(iop, fd_event::fd_writable))
+        {
+            // Rest of a previous asynchronous write has been written, too
+            iopt->evlp().fd_remove(iop, false);
+            iopt->evlp().fd_register(iop, fd_event::fd_readable);
+        }
         write_complete(dp, iopt);
     }
     else
     {
-        std::shared_ptr<nio> iop = std::static_pointer_cast<nio>(iopt);
         iopt->evlp().fd_remove(iop, false);
         iopt->evlp().fd_register(iop, fd_event::fd_writable);
     }
-- 
2.43.0


From 219ed740aa277cccc89cb4a4d9766415527bd0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 47/62] fix: a peer sending without pause kept a worker from
 its other connections and from shutdown

---
 src/lib/tcp.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 9c94d4e..3044014 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -123,7 +123,14 @@ void iohandler::on_readable(const std::shared_ptr<nio> &iop)
         throw_logic_error("dynamic_pointer_cast error");
     }
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iop->evlp().data());
-    iopt->read_all();
+    // Peer may send faster than it's read, other connections of the worker shall not wait for it forever
+    for (int i = 0; i < 1024; ++i)
+    {
+        if (iopt->read_chunk(sysconfig::buffer_io_step) != sysconfig::buffer_io_step)
+        {
+            break;
+        }
+    }
     dp->on_read_complete(iopt);
     iopt->rbuffer().clear();
     if (iopt->is_closed())
-- 
2.43.0


From 0f51e8f3226997a35aaf11e0a309f98ed4c1bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 48/62] fix: run of a tcp_server dereferenced null after a
 failed listen

---
 src/lib/tcp.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 3044014..ab706de 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -406,14 +406,16 @@ tcp_server::tcp_server(int thr_num, void *external_data)
 
 void tcp_server::listen(int port, family f, const char *ip)
 {
-    acpts_.push_back(std::make_unique<acceptor>(&data_));
-    acpts_.back()->listen(port, f, ip);
+    auto acpt = std::make_unique<acceptor>(&data_);
+    acpt->listen(port, f, ip);
+    acpts_.push_back(std::move(acpt));
 }
 
 void tcp_server::listen_unix(const std::string &path, bool remove)
 {
-    acpts_.push_back(std::make_unique<acceptor>(&data_));
-    acpts_.back()->listen_unix(path, remove);
+    auto acpt = std::make_unique<acceptor>(&data_);
+    acpt->listen_unix(path, remove);
+    acpts_.push_back(std::move(acpt));
 }
 
 void tcp_server::run()
-- 
2.43.0


From c35e4bc66e6764d1c55ae11cd6d46cc838651ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:22 +0000
Subject: [PATCH 49/62] fix: stopping an event loop failed when the process was
 out of descriptors

---
 src/include/cppev/event_loop.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/include/cppev/event_loop.h b/src/include/cppev/event_loop.h
index 569c2ba..4f51ec5 100644
--- a/src/include/cppev/event_loop.h
+++ b/src/include/cppev/event_loop.h
@@ -5,6 +5,7 @@
 #include <memory>
 #include <unistd.h>
 #include <queue>
+#include <vector>
 #include <tuple>
 #include <mutex>
 #include <atomic>
@@ -112,15 +113,18 @@ public:
     // Stop loop infinitely
     void stop_loop_forever()
     {
-        stop_ = true;
-        auto iopps = nio_factory::get_pipes();
-        iopps[0]->set_evlp(*this);
+        if (stop_.exchange(true))
+        {
+            return;
+        }
         fd_event_handler handler = [](const std::shared_ptr<nio> &iop)
         {
             iop->evlp().fd_remove(iop);
         };
-        this->fd_register(std::dynamic_pointer_cast<nio>(iopps[0]), fd_event::fd_readable,
+        this->fd_register(std::dynamic_pointer_cast<nio>(stop_pipes_[0]), fd_event::fd_readable,
             handler, true, priority::p6);
+        // Read end becomes readable when the write end is closed
+        stop_pipes_[1].reset();
     }
 
 private:
@@ -150,6 +154,9 @@ private:
 
     // Whether loop forever shall be stopped
     std::atomic<bool> stop_;
+
+    // Wakes up the loop to stop, created in advance since stopping shall not depend on free descriptors
+    std::vector<std::shared_ptr<nstream>> stop_pipes_ = nio_factory::get_pipes();
 };
 
 }   // namespace cppev
-- 
2.43.0


From 69614c7d102e52f557b1738f2740f8cb799e66f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 50/62] fix: shared memory was shrunk when opened concurrently
 with different sizes

---
 src/lib/ipc.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 9eb4fdf..5dc4a89 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -3,6 +3,9 @@
 #include <unistd.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
+#ifdef __linux__
+#include <sys/file.h>
+#endif
 
 namespace cppev
 {
@@ -37,6 +40,16 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
 
     try
     {
+#ifdef __linux__
+        // Openers shall extend one by one, or it may be shrunk to the smaller size
+        while (flock(fd, LOCK_EX) == -1)
+        {
+            if (errno != EINTR)
+            {
+                throw_system_error("flock error");
+            }
+        }
+#endif
         // Creator may have not set the size yet, extended bytes read as zero
         struct stat st;
         if (fstat(fd, &st) == -1)
@@ -47,6 +60,9 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
         {
             throw_system_error("ftruncate error");
         }
+#ifdef __linux__
+        flock(fd, LOCK_UN);
+#endif
         ptr_ = mmap(nullptr, size_, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
         if (ptr_ == MAP_FAILED)
         {
@@ -55,6 +71,9 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
     }
     catch (...)
     {
+#ifdef __linux__
+        flock(fd, LOCK_UN);
+#endif
         close(fd);
         if (creator_)
         {
-- 
2.43.0


From 3a28134cc0c3fdeb1fbe29507413e47c9041e819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 51/62] fix: exec_cmd waited forever for commands that read
 stdin

---
 src/lib/subprocess.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 26f7fe8..d9f3f5b 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -22,6 +22,8 @@ namespace subprocess
 std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const std::vector<std::string> &env)
 {
     subp_open subp(cmd, env);
+    // There's no input, command that reads stdin shall not wait for it
+    subp.stdin_->close();
     subp.wait();
     // Output may contain '\0'
     const buffer &out = subp.stdout_->rbuffer();
@@ -137,7 +139,10 @@ void subp_open::communicate(const char *input, int len)
         stdin_->wbuffer().produce(input, len);
     }
     // Input of previous calls may still be pending
-    stdin_->write_all();
+    if (!stdin_->is_closed())
+    {
+        stdin_->write_all();
+    }
 }
 
 void subp_open::communicate()
-- 
2.43.0


From f142462fd45efd2ac47a3614d8337dd0fad5abfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 52/62] fix: signals to a reaped subprocess could hit an
 unrelated process

---
 src/lib/subprocess.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index d9f3f5b..0f8c02b 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -157,6 +157,11 @@ void subp_open::communicate(const std::string &input)
 
 void subp_open::send_signal(int sig) const
 {
+    // Pid may be reused once subprocess has been reaped
+    if (terminated_)
+    {
+        throw_system_error("kill error", ESRCH);
+    }
     if (::kill(pid(), sig) < 0)
     {
         throw_system_error("kill error");
-- 
2.43.0


From cf860d57c2e70a430bc82eb6f3932da9e91ff574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 53/62] fix: subprocess child of a multithreaded process
 allocated memory before exec and could deadlock

---
 src/lib/subprocess.cc | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 0f8c02b..65d9dc2 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -68,6 +68,25 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
     one->set_io_block();
     two->set_io_block();
 
+    // Prepared here since the child of a multithreaded process shall not allocate memory
+    std::vector<std::string> cmd_with_args = split(cmd_, " ");
+    std::string cmd_with_path = cmd_with_args[0];
+    cmd_with_args[0] = split(cmd_with_args[0], "/").back();
+
+    std::vector<char *> argv;
+    for (auto &arg : cmd_with_args)
+    {
+        argv.push_back(const_cast<char *>(arg.c_str()));
+    }
+    argv.push_back(nullptr);
+
+    std::vector<char *> envp;
+    for (auto &var : env_)
+    {
+        envp.push_back(const_cast<char *>(var.c_str()));
+    }
+    envp.push_back(nullptr);
+
     pid_t pid = fork();
 
     if (pid == -1)
@@ -83,26 +102,9 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
         // In case of dup2 to itself
         fcntl(STDIN_FILENO, F_SETFD, 0);
 
-        std::vector<std::string> cmd_with_args = split(cmd_, " ");
-        std::string cmd_with_path = cmd_with_args[0];
-        cmd_with_args[0] = split(cmd_with_args[0], "/").back();
-
-        char *argv[cmd_with_args.size()+1];
-        memset(argv, 0, sizeof(argv));
-        for (size_t i = 0; i < cmd_with_args.size(); ++i)
-        {
-            argv[i] = const_cast<char *>(cmd_with_args[i].c_str());
-        }
-
-        char *envp[env_.size()+1];
-        memset(envp, 0, sizeof(envp));
-        for (size_t i = 0; i < env_.size(); ++i)
-        {
-            envp[i] = const_cast<char *>(env_[i].c_str());
-        }
-        environ = envp;
-
-        execvp(cmd_with_path.c_str(), argv);
+        environ = envp.data();
+
+        execvp(cmd_with_path.c_str(), argv.data());
         _exit(127);
     }
 
-- 
2.43.0


From c58c2777054b9a729bf1e36ec5a3983a02e89024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 54/62] fix: sleep_until could not be instantiated

---
 src/include/cppev/utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/utils.h b/src/include/cppev/utils.h
index ca3f9ab..fb965f7 100644
--- a/src/include/cppev/utils.h
+++ b/src/include/cppev/utils.h
@@ -62,7 +62,8 @@ std::string timestamp(time_t t = -1, const char *format = nullptr);
 template <typename Clock = std::chrono::system_clock>
 void sleep_until(const std::chrono::nanoseconds &stamp)
 {
-    std::this_thread::sleep_until(std::chrono::duration_cast<Clock::duration>(stamp));
+    std::this_thread::sleep_until(typename Clock::time_point(
+        std::chrono::duration_cast<typename Clock::duration>(stamp)));
 }
 
 template <typename Clock = std::chrono::system_clock>
-- 
2.43.0


From e82db2d4fe742ad27b0e0692e232f083b55f97fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 55/62] fix: timestamp formatted uninitialized memory for times
 whose year overflows

---
 src/lib/utils.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 10250f9..1261c8b 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -37,7 +37,10 @@ std::string timestamp(time_t t, const char *format)
         format = "%F %T %Z";
     }
     tm s_tm;
-    localtime_r(&t, &s_tm);
+    if (localtime_r(&t, &s_tm) == nullptr)
+    {
+        throw_system_error("localtime_r error");
+    }
     char buf[1024];
     memset(buf, 0, 1024);
     if (0 == strftime(buf, 1024, format, &s_tm))
-- 
2.43.0


From 7cd10836b76549d0c3228e7a58b07f31ff8e0fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 56/62] fix: loading a symbol whose value is null crashed
 instead of raising

---
 src/include/cppev/dynamic_loader.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/dynamic_loader.h b/src/include/cppev/dynamic_loader.h
index 7732e7e..984c4cc 100644
--- a/src/include/cppev/dynamic_loader.h
+++ b/src/include/cppev/dynamic_loader.h
@@ -38,7 +38,9 @@ public:
         if (ptr == nullptr)
         {
             // errno is set in macOS, but not in linux
-            throw_runtime_error(std::string("dlsym error : ").append(dlerror()));
+            // no error is set when the value of the symbol itself is null
+            const char *err = dlerror();
+            throw_runtime_error(std::string("dlsym error : ").append(err ? err : "null symbol"));
         }
         return reinterpret_cast<Function *>(ptr);
     }
-- 
2.43.0


From 33b87d44056d399e036a91be8ffb48885346a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 57/62] fix: splitting texts of two gigabytes and more gave
 wrong pieces

---
 src/lib/utils.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 1261c8b..bcd8c7a 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -342,7 +342,7 @@ std::vector<std::string> split(const std::string &str, const std::string &sep)
         return { str };
     }
 
-    std::vector<int> sep_index;
+    std::vector<size_t> sep_index;
 
     sep_index.push_back(0 - sep.size());
 
@@ -359,7 +359,7 @@ std::vector<std::string> split(const std::string &str, const std::string &sep)
         }
         if (is_sep)
         {
-            sep_index.push_back(static_cast<int>(i));
+            sep_index.push_back(i);
             i += sep.size();
         }
         else
@@ -379,8 +379,8 @@ std::vector<std::string> split(const std::string &str, const std::string &sep)
 
     for (size_t i = 1; i < sep_index.size(); ++i)
     {
-        int begin = sep_index[i-1] + sep.size();
-        int end = sep_index[i];
+        size_t begin = sep_index[i-1] + sep.size();
+        size_t end = sep_index[i];
 
         substrs.push_back(std::string(str, begin, end - begin));
     }
-- 
2.43.0


From 482484247e3880d30ed1ace62e8bf2f4934d7f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 58/62] fix: growing a buffer past one gigabyte overflowed its
 capacity

---
 src/include/cppev/buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/buffer.h b/src/include/cppev/buffer.h
index e605eef..621fb3a 100644
--- a/src/include/cppev/buffer.h
+++ b/src/include/cppev/buffer.h
@@ -5,6 +5,7 @@
 #include <memory>
 #include <cstring>
 #include <cstdlib>
+#include <climits>
 #include "cppev/utils.h"
 
 namespace cppev
@@ -113,7 +114,7 @@ public:
         }
         while(cap_ < cap)
         {
-            cap_ *= 2;
+            cap_ = cap_ > INT_MAX / 2 ? INT_MAX : cap_ * 2;
         }
         std::unique_ptr<char[]> nbuffer = std::unique_ptr<char[]>(new char[cap_]);
         memset(nbuffer.get(), 0, cap_);
-- 
2.43.0


From 8d76dd4897365a33be293163cac0aa711f276ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 59/62] fix: a buffer overflowed after two gigabytes had passed
 through without its ever being empty

---
 src/include/cppev/buffer.h | 4 ++++
 src/lib/nio.cc             | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/include/cppev/buffer.h b/src/include/cppev/buffer.h
index 621fb3a..a66d4ad 100644
--- a/src/include/cppev/buffer.h
+++ b/src/include/cppev/buffer.h
@@ -158,6 +158,10 @@ public:
     // @param len : Char array length that copies to buffer
     void produce(const char *ptr, int len) noexcept
     {
+        if (len > INT_MAX - offset_)
+        {
+            tiny();
+        }
         resize(offset_ + len);
         for (int i = 0; i < len; ++i)
         {
diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 9b0ea0b..735c552 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -74,6 +74,10 @@ static bool is_connection_broken(int err) noexcept
 
 int nstream::read_chunk(int len)
 {
+    if (len > INT_MAX - rbuffer().offset_)
+    {
+        rbuffer().tiny();
+    }
     rbuffer().resize(rbuffer().offset_ + len);
     int origin_offset = rbuffer().offset_;
     while (len)
@@ -693,6 +697,10 @@ std::tuple<std::string, int, family> nsockudp::recv()
     sockaddr_storage addr;
     socklen_t len = faddr_len_.at(family_);
     memset(&addr, 0, sizeof(addr));
+    if (sysconfig::udp_buffer_size > INT_MAX - rbuffer().offset_)
+    {
+        rbuffer().tiny();
+    }
     rbuffer().resize(rbuffer().offset_ + sysconfig::udp_buffer_size);
     int ret = recvfrom(fd_, rbuffer().buffer_.get() + rbuffer().offset_,
         rbuffer().cap_ - rbuffer().offset_, 0, (sockaddr *)&addr, &len);
-- 
2.43.0


From 07604939ba7e34ab991808324751892da7804d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 60/62] fix: a connection lost to further network errors raised
 an exception instead of the reset flag

---
 src/lib/nio.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 735c552..ca17009 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -66,6 +66,12 @@ static bool is_connection_broken(int err) noexcept
     case EHOSTUNREACH :
     case ENETUNREACH :
     case ENETDOWN :
+    case ENETRESET :
+    case EHOSTDOWN :
+    case ENOPROTOOPT :
+#ifdef ENONET
+    case ENONET :
+#endif  // ENONET
         return true;
     default :
         return false;
-- 
2.43.0


From 9e93c63893900616a3094b499b42821c69fbc606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 61/62] fix: rounding up to a second was wrong for times before
 the epoch

---
 src/include/cppev/utils.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/utils.h b/src/include/cppev/utils.h
index fb965f7..d1cdde2 100644
--- a/src/include/cppev/utils.h
+++ b/src/include/cppev/utils.h
@@ -70,7 +70,12 @@ template <typename Clock = std::chrono::system_clock>
 typename Clock::time_point ceil_time_point(const typename Clock::time_point &point)
 {
     auto stamp = std::chrono::nanoseconds(point.time_since_epoch()).count();
-    int64_t ceil_stamp_nsec = (stamp / 1'000'000'000 + 1) * 1'000'000'000;
+    int64_t stamp_sec = stamp / 1'000'000'000;
+    if (stamp % 1'000'000'000 < 0)
+    {
+        --stamp_sec;  // Division rounds towards zero
+    }
+    int64_t ceil_stamp_nsec = (stamp_sec + 1) * 1'000'000'000;
     auto ceil_stamp = std::chrono::duration_cast<typename Clock::duration>(
         std::chrono::nanoseconds(ceil_stamp_nsec));
     return typename Clock::time_point(ceil_stamp);
-- 
2.43.0


From 7ff0c5ef5f37f90e8b65c8bac849d614d6976f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 62/62] fix: running out of event watches ended the process
 instead of dropping the connection

---
 src/lib/tcp.cc | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index ab706de..2c0638f 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -271,8 +271,16 @@ void acceptor::on_acpt_readable(const std::shared_ptr<nio> &iop)
     for (auto &conn : conns)
     {
         log::info << "new fd " << conn->fd() << " accepted by listening socket " << iopt->fd() << log::endl;
-        dp->minloads_get_evlp()->fd_register(std::static_pointer_cast<nio>(conn),
-            fd_event::fd_writable, iohandler::on_acpt_writable, true);
+        try
+        {
+            dp->minloads_get_evlp()->fd_register(std::static_pointer_cast<nio>(conn),
+                fd_event::fd_writable, iohandler::on_acpt_writable, true);
+        }
+        catch (const std::system_error &e)
+        {
+            // Such as out of event watches, only this connection is given up
+            log::error << "new fd " << conn->fd() << " : " << e.what() << log::endl;
+        }
     }
 }
 
@@ -352,18 +360,19 @@ void connector::on_pipe_readable(const std::shared_ptr<nio> &iop)
                 {
                     succeed = sock->connect(std::get<0>(iter->first), std::get<1>(iter->first));
                 }
+                if (succeed)
+                {
+                    dp->minloads_get_evlp()->fd_register(std::static_pointer_cast<nio>(sock),
+                        fd_event::fd_writable, iohandler::on_cont_writable, true);
+                }
             }
             catch (const std::exception &e)
             {
-                // Such as malformed address or out of descriptors
+                // Such as malformed address, out of descriptors or event watches
                 log::error << "connect : " << e.what() << log::endl;
+                succeed = false;
             }
-            if (succeed)
-            {
-                dp->minloads_get_evlp()->fd_register(std::static_pointer_cast<nio>(sock),
-                    fd_event::fd_writable, iohandler::on_cont_writable, true);
-            }
-            else
+            if (!succeed)
             {
                 if (std::get<2>(iter->first) == family::local)
                 {
-- 
2.43.0

