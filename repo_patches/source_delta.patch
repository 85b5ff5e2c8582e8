From c131cf21a14aca3b75a58c91d862a034d20b33bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 01/25] fix: order buffer sequence iterators by position

The iterator to the head has the maximum offset, so begin() compared greater than end().
---
 include/boost/cobalt/io/buffer.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/io/buffer.hpp b/include/boost/cobalt/io/buffer.hpp
index 9f18ae2..0878512 100644
--- a/include/boost/cobalt/io/buffer.hpp
+++ b/include/boost/cobalt/io/buffer.hpp
@@ -194,8 +194,9 @@ struct mutable_buffer_sequence
 
     friend auto operator<=>(const const_iterator & lhs, const const_iterator & rhs)
     {
-      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_)
-         <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_);
+      // the head has the maximum offset, so wrap around to have it precede the tail.
+      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_ + 1u)
+         <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_ + 1u);
     };
 
     friend bool operator==(const const_iterator & lhs, const const_iterator & rhs)
@@ -438,8 +439,9 @@ struct const_buffer_sequence
 
     friend auto operator<=>(const const_iterator & lhs, const const_iterator & rhs)
     {
-      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_)
-             <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_);
+      // the head has the maximum offset, so wrap around to have it precede the tail.
+      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_ + 1u)
+             <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_ + 1u);
     };
     friend bool operator==(const const_iterator & lhs, const const_iterator & rhs)
     {
-- 
2.43.0


From 0868e84f3cbb450c875e8871b58d1c469449ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 02/25] fix: sbo_resource: route over-aligned requests and
 empty blocks of an exhausted buffer upstream

The buffer is only aligned to max_align_t, and a zero-sized block at the end of the
buffer was handed to the upstream resource on deallocation.
---
 include/boost/cobalt/detail/sbo_resource.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/sbo_resource.hpp b/include/boost/cobalt/detail/sbo_resource.hpp
index ae37315..ce6b1c9 100644
--- a/include/boost/cobalt/detail/sbo_resource.hpp
+++ b/include/boost/cobalt/detail/sbo_resource.hpp
@@ -90,7 +90,9 @@ struct sbo_resource
 #endif
   {
     const auto sz = align_as_max_(size);
-    if (sz <= buffer_.avail && !buffer_.fragmented) [[likely]]
+    // an exhausted (or missing) buffer can't hold empty blocks either, as do_deallocate couldn't attribute them.
+    if (sz <= buffer_.avail && buffer_.avail > 0u && align <= alignof(std::max_align_t)
+        && !buffer_.fragmented) [[likely]]
     {
       auto p = static_cast<char*>(buffer_.p) + buffer_.size - buffer_.avail;
       buffer_.avail -= sz;
-- 
2.43.0


From 642f1a77a8d14ee69a97f407e6a6fcf88469def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 03/25] fix: monotonic_resource: align blocks and keep the
 chunk header inside its chunk

Blocks whose size isn't a multiple of the alignment were misaligned, as was every block after
them, and the header could be placed past the end of the chunk.
---
 .../cobalt/detail/monotonic_resource.hpp      | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/boost/cobalt/detail/monotonic_resource.hpp b/include/boost/cobalt/detail/monotonic_resource.hpp
index 8793b2a..f098fe2 100644
--- a/include/boost/cobalt/detail/monotonic_resource.hpp
+++ b/include/boost/cobalt/detail/monotonic_resource.hpp
@@ -13,6 +13,7 @@
 #define BOOST_COBALT_DETAIL_MONOTONIC_BUFFER_RESOURCE_HPP
 
 #include <boost/cobalt/config.hpp>
+#include <cstdint>
 #include <new>
 
 namespace boost::cobalt::detail
@@ -67,20 +68,18 @@ struct monotonic_resource
     }
   }
 
-  constexpr void * allocate(std::size_t size, std::align_val_t align_ = std::align_val_t(alignof(std::max_align_t)))
+  void * allocate(std::size_t size, std::align_val_t align_ = std::align_val_t(alignof(std::max_align_t)))
   {
     const auto align = (std::max)(static_cast<std::size_t>(align_), alignof(block_));
-    // let's say size = 11, and align is 8, that leaves us with 3
     {
-      const auto align_offset = size % align ;
-      // padding is 5
-      const auto padding = align  - align_offset;
-      const auto needed_size = size + padding;
-      if (needed_size <= head_->avail) // fits, but we need to check alignment too
+      // let's say align is 8 and the next free byte is at 11, that requires a padding of 5.
+      const auto offset = head_->size - head_->avail;
+      const auto align_offset = (reinterpret_cast<std::uintptr_t>(head_->p) + offset) % align;
+      const auto padding = align_offset == 0u ? 0u : (align - align_offset);
+      if (padding <= head_->avail && size <= (head_->avail - padding)) // fits
       {
-        const auto offset = head_->size - head_->avail;
         auto pp = static_cast<char*>(head_->p) + offset + padding;
-        head_->avail -= needed_size;
+        head_->avail -= size + padding;
         return pp; // done
       }
     }
@@ -96,7 +95,7 @@ struct monotonic_resource
 
     const auto aligned = std::align_val_t(align);
     const auto mem = ::operator new(alloc_size, aligned);
-    const auto block_location = static_cast<char*>(mem) +  mem_size + offset;
+    const auto block_location = static_cast<char*>(mem) + raw_size;
     head_ = head_->next = new (block_location) block_{mem, raw_size - size, raw_size, aligned, nullptr};
 
     return mem;
-- 
2.43.0


From 068eb7411d0d83226be9f8684ea846e808cf386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 04/25] fix: endpoint: size of unix and unspecified v6
 addresses, protocol of udp_v6, resize up to capacity

---
 include/boost/cobalt/io/endpoint.hpp | 4 ++--
 src/io/endpoint.cpp                  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/io/endpoint.hpp b/include/boost/cobalt/io/endpoint.hpp
index 1dda880..6661e0d 100644
--- a/include/boost/cobalt/io/endpoint.hpp
+++ b/include/boost/cobalt/io/endpoint.hpp
@@ -115,7 +115,7 @@ constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET),   BOOST_ASIO_OS_DEF(SOCK_S
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_STREAM), BOOST_ASIO_OS_DEF(IPPROTO_TCP)>  tcp_v6{};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_UNSPEC), BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp   {};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET),   BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp_v4{};
-constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_ICMP)> udp_v6{};
+constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp_v6{};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_UNSPEC), BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_ICMP)> icmp  {};
 constexpr static_protocol<AF_UNIX,                      BOOST_ASIO_OS_DEF(SOCK_STREAM)>    local_stream   {};
 constexpr static_protocol<AF_UNIX,                      BOOST_ASIO_OS_DEF(SOCK_DGRAM)>     local_datagram {};
@@ -140,7 +140,7 @@ struct endpoint
   using addr_type = asio::detail::socket_addr_type;
   void resize(std::size_t size)
   {
-    BOOST_ASSERT(size < sizeof(storage_));
+    BOOST_ASSERT(size <= sizeof(storage_));
     size_ = size;
   }
 
diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index 96c4f11..1bd6eae 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -8,6 +8,8 @@
 #include <boost/cobalt/io/endpoint.hpp>
 #include <boost/asio/ip/address.hpp>
 
+#include <cstddef>
+
 namespace boost::cobalt::detail
 {
 
@@ -41,7 +43,7 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNIX>,
   if (sv.size() >= sizeof(un->sun_path))
     BOOST_THROW_EXCEPTION(std::length_error("unix path too long"));
   *std::copy(sv.begin(), sv.end(), un->sun_path) = '\0';
-  return sizeof(un->sun_family + sv.size() + 1u);
+  return offsetof(asio::detail::sockaddr_un_type, sun_path) + sv.size() + 1u;
 }
 
 const local_endpoint* tag_invoke(get_endpoint_tag<AF_UNIX>,
@@ -209,7 +211,7 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNSPEC>,
     };
     auto a = ad.to_v6().to_bytes();
     std::copy(a.begin(), a.end(), in6->sin6_addr.s6_addr);
-    return sizeof(asio::detail::sockaddr_in4_type);
+    return sizeof(asio::detail::sockaddr_in6_type);
   }
 }
 
-- 
2.43.0


From 010016baa2d7838eedfde1616d90d930ee3968d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 05/25] fix: channel: woken operations keep their value or
 slot, transactions cover both ends of a rendezvous

A woken reader or writer could find its value or slot taken by another operation
that ran before it (undefined behaviour, failed assertion or reordered values),
cancelling it lost the wakeup, posted rendezvous reads were dropped by race,
channel<void> dropped signals on close, operations awaited after close wrote to
the closed channel and destroying a channel awaited through race hung.
---
 include/boost/cobalt/channel.hpp      | 163 ++++++++++--
 include/boost/cobalt/detail/race.hpp  |   4 +-
 include/boost/cobalt/impl/channel.hpp | 345 +++++++++++++++-----------
 src/channel.cpp                       | 105 ++++++--
 4 files changed, 416 insertions(+), 201 deletions(-)

diff --git a/include/boost/cobalt/channel.hpp b/include/boost/cobalt/channel.hpp
index 26c7f2c..8a58bfa 100644
--- a/include/boost/cobalt/channel.hpp
+++ b/include/boost/cobalt/channel.hpp
@@ -16,10 +16,12 @@
 #include <boost/asio/cancellation_type.hpp>
 #include <boost/circular_buffer.hpp>
 #include <boost/config.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/intrusive/list.hpp>
 #include <boost/variant2/variant.hpp>
 
 #include <optional>
+#include <utility>
 
 namespace boost::cobalt
 {
@@ -72,31 +74,54 @@ struct channel
   {
     channel * chn;
     boost::source_location loc;
-    bool cancelled = false;
-    std::optional<T> direct{};
+    bool cancelled = false, closed = false, reserved = false, direct = false;
+    std::optional<T> value{};
     asio::cancellation_slot cancel_slot{};
     unique_handle<void> awaited_from{nullptr};
     void (*begin_transaction)(void*) = nullptr;
+    void * awaiting = nullptr;
 
-    void transactional_unlink()
+    // commit this op to complete directly. Fails if it's part of a race that already has a winner.
+    bool transactional_unlink()
     {
-      if (begin_transaction)
-          begin_transaction(awaited_from.get());
+      direct = true; // let interrupt_await know that we'll be resuming it!
+      BOOST_TRY
+      {
+        if (begin_transaction)
+            begin_transaction(awaiting);
+      }
+      BOOST_CATCH(...)
+      {
+        direct = false;
+        return false;
+      }
+      BOOST_CATCH_END
+      this->unlink();
+      reserved = false;
+      return true;
+    }
+
+    // the op was cancelled, i.e. what it had been woken up for can be used by the next in line.
+    void drop()
+    {
+      this->cancelled = true;
       this->unlink();
+      if (std::exchange(reserved, false))
+        chn->wake_reader();
     }
 
     void interrupt_await()
     {
       if (!direct)
       {
-        this->cancelled = true;
+        drop();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
     }
 
     struct cancel_impl;
-    bool await_ready() { return !chn->buffer_.empty() || chn->is_closed_; }
+    bool await_ready() { return chn->can_read() || chn->is_closed_; }
     template<typename Promise>
     BOOST_COBALT_MSVC_NOINLINE
     std::coroutine_handle<void> await_suspend(std::coroutine_handle<Promise> h);
@@ -115,24 +140,47 @@ struct channel
         T*>;
     ref_t ref;
     boost::source_location loc;
-    bool cancelled = false, direct = false, closed = !chn->is_open();
+    bool cancelled = false, reserved = false, direct = false, closed = !chn->is_open();
     asio::cancellation_slot cancel_slot{};
 
     unique_handle<void> awaited_from{nullptr};
     void (*begin_transaction)(void*) = nullptr;
+    void * awaiting = nullptr;
+
+    // commit this op to complete directly. Fails if it's part of a race that already has a winner.
+    bool transactional_unlink()
+    {
+      direct = true; // let interrupt_await know that we'll be resuming it!
+      BOOST_TRY
+      {
+        if (begin_transaction)
+            begin_transaction(awaiting);
+      }
+      BOOST_CATCH(...)
+      {
+        direct = false;
+        return false;
+      }
+      BOOST_CATCH_END
+      this->unlink();
+      reserved = false;
+      return true;
+    }
 
-    void transactional_unlink()
+    // the op was cancelled, i.e. what it had been woken up for can be used by the next in line.
+    void drop()
     {
-      if (begin_transaction)
-          begin_transaction(awaited_from.get());
+      this->cancelled = true;
       this->unlink();
+      if (std::exchange(reserved, false))
+        chn->wake_writer();
     }
 
     void interrupt_await()
     {
       if (!direct)
       {
-        this->cancelled = true;
+        drop();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -140,10 +188,11 @@ struct channel
 
     struct cancel_impl;
 
-    bool await_ready() { return !chn->buffer_.full() || chn->is_closed_; }
+    bool await_ready() { return chn->can_write() || chn->is_closed_; }
     template<typename Promise>
     BOOST_COBALT_MSVC_NOINLINE
     std::coroutine_handle<void> await_suspend(std::coroutine_handle<Promise> h);
+    T take();
     void await_resume();
     std::tuple<system::error_code> await_resume(const struct as_tuple_tag & );
     system::result<void> await_resume(const struct as_result_tag &);
@@ -152,6 +201,15 @@ struct channel
 
   boost::intrusive::list<read_op,  intrusive::constant_time_size<false> > read_queue_;
   boost::intrusive::list<write_op, intrusive::constant_time_size<false> > write_queue_;
+  // operations that got woken up, but did not resume yet.
+  // They have a value or a slot reserved, that nobody else can use.
+  boost::intrusive::list<read_op,  intrusive::constant_time_size<false> > read_ready_;
+  boost::intrusive::list<write_op, intrusive::constant_time_size<false> > write_ready_;
+
+  bool can_read()  const { return buffer_.size() > read_ready_.size(); }
+  bool can_write() const { return buffer_.size() + write_ready_.size() < buffer_.capacity(); }
+  void wake_reader();
+  void wake_writer();
  public:
   read_op   read(const boost::source_location & loc = BOOST_CURRENT_LOCATION)  {return  read_op{{}, this, loc}; }
 
@@ -234,23 +292,46 @@ struct channel<void>
   {
     channel * chn;
     boost::source_location loc;
-    bool cancelled = false, direct = false;
+    bool cancelled = false, closed = false, reserved = false, direct = false;
     asio::cancellation_slot cancel_slot{};
     unique_handle<void> awaited_from{nullptr};
     void (*begin_transaction)(void*) = nullptr;
+    void * awaiting = nullptr;
 
-    void transactional_unlink()
+    // commit this op to complete directly. Fails if it's part of a race that already has a winner.
+    bool transactional_unlink()
     {
-      if (begin_transaction)
-          begin_transaction(awaited_from.get());
+      direct = true; // let interrupt_await know that we'll be resuming it!
+      BOOST_TRY
+      {
+        if (begin_transaction)
+            begin_transaction(awaiting);
+      }
+      BOOST_CATCH(...)
+      {
+        direct = false;
+        return false;
+      }
+      BOOST_CATCH_END
+      this->unlink();
+      reserved = false;
+      return true;
+    }
+
+    // the op was cancelled, i.e. what it had been woken up for can be used by the next in line.
+    void drop()
+    {
+      this->cancelled = true;
       this->unlink();
+      if (std::exchange(reserved, false))
+        chn->wake_reader();
     }
 
     void interrupt_await()
     {
       if (!direct)
       {
-        this->cancelled = true;
+        drop();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -259,7 +340,7 @@ struct channel<void>
     struct cancel_impl;
     bool await_ready()
     {
-      return (chn->n_ > 0) || chn->is_closed_;
+      return chn->can_read() || chn->is_closed_;
     }
 
     template<typename Promise>
@@ -275,23 +356,46 @@ struct channel<void>
   {
     channel * chn;
     boost::source_location loc;
-    bool cancelled = false, direct = false, closed = !chn->is_open();
+    bool cancelled = false, reserved = false, direct = false, closed = !chn->is_open();
     asio::cancellation_slot cancel_slot{};
     unique_handle<void> awaited_from{nullptr};
     void (*begin_transaction)(void*) = nullptr;
+    void * awaiting = nullptr;
+
+    // commit this op to complete directly. Fails if it's part of a race that already has a winner.
+    bool transactional_unlink()
+    {
+      direct = true; // let interrupt_await know that we'll be resuming it!
+      BOOST_TRY
+      {
+        if (begin_transaction)
+            begin_transaction(awaiting);
+      }
+      BOOST_CATCH(...)
+      {
+        direct = false;
+        return false;
+      }
+      BOOST_CATCH_END
+      this->unlink();
+      reserved = false;
+      return true;
+    }
 
-    void transactional_unlink()
+    // the op was cancelled, i.e. what it had been woken up for can be used by the next in line.
+    void drop()
     {
-      if (begin_transaction)
-          begin_transaction(awaited_from.get());
+      this->cancelled = true;
       this->unlink();
+      if (std::exchange(reserved, false))
+        chn->wake_writer();
     }
 
     void interrupt_await()
     {
       if (!direct)
       {
-        cancelled = true;
+        drop();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -300,7 +404,7 @@ struct channel<void>
     struct cancel_impl;
     bool await_ready()
     {
-      return chn->n_ < chn->limit_ || chn->is_closed_;
+      return chn->can_write() || chn->is_closed_;
     }
 
     template<typename Promise>
@@ -315,6 +419,15 @@ struct channel<void>
 
   boost::intrusive::list<read_op,  intrusive::constant_time_size<false> > read_queue_;
   boost::intrusive::list<write_op, intrusive::constant_time_size<false> > write_queue_;
+  // operations that got woken up, but did not resume yet.
+  // They have a value or a slot reserved, that nobody else can use.
+  boost::intrusive::list<read_op,  intrusive::constant_time_size<false> > read_ready_;
+  boost::intrusive::list<write_op, intrusive::constant_time_size<false> > write_ready_;
+
+  bool can_read()  const { return n_ > read_ready_.size(); }
+  bool can_write() const { return n_ + write_ready_.size() < limit_; }
+  BOOST_COBALT_DECL void wake_reader();
+  BOOST_COBALT_DECL void wake_writer();
  public:
   read_op   read(const boost::source_location & loc = BOOST_CURRENT_LOCATION)  {return  read_op{{}, this, loc}; }
   write_op write(const boost::source_location & loc = BOOST_CURRENT_LOCATION)  {return write_op{{}, this, loc}; }
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 006608f..446985f 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -313,7 +313,7 @@ struct race_variadic_impl
         return false;
 
       for (std::size_t idx = 1u;
-           idx < tuple_size; idx++) // we'
+           idx < tuple_size && !has_result(); idx++) // we'
       {
         auto l = impls[idx](*this);
         const auto d = l.done();
@@ -624,7 +624,7 @@ struct race_ranged_impl
         return false;
 
       for (auto itr = std::next(reorder.begin());
-           itr < reorder.end(); std::advance(itr, 1)) // we'
+           itr < reorder.end() && !has_result(); std::advance(itr, 1)) // we'
       {
         auto l = await_impl(*this, *itr);
         auto d = l.done();
diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index dead930..fd447f9 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -41,12 +41,37 @@ bool channel<T>::is_open() const {return !is_closed_;}
 template<typename T>
 channel<T>::~channel()
 {
+  // those are going to resume later, but don't get to use the channel anymore
+  while (!read_ready_.empty())
+  {
+    auto & op = read_ready_.front();
+    op.unlink();
+    op.reserved = false;
+    op.closed = true;
+    op.cancel_slot.clear();
+  }
+  while (!write_ready_.empty())
+  {
+    auto & op = write_ready_.front();
+    op.unlink();
+    op.reserved = false;
+    op.closed = true;
+    op.cancel_slot.clear();
+  }
+
   while (!read_queue_.empty())
-    read_queue_.front().awaited_from.reset();
+  {
+    auto & op = read_queue_.front();
+    op.unlink();
+    auto h = std::move(op.awaited_from);
+  }
 
   while (!write_queue_.empty())
-    write_queue_.front().awaited_from.reset();
-
+  {
+    auto & op = write_queue_.front();
+    op.unlink();
+    auto h = std::move(op.awaited_from);
+  }
 }
 
 template<typename T>
@@ -58,6 +83,7 @@ void channel<T>::close()
     auto & op = read_queue_.front();
     op.unlink();
     op.cancelled = true;
+    op.closed = true;
     op.cancel_slot.clear();
 
     if (op.awaited_from)
@@ -83,8 +109,7 @@ struct channel<T>::read_op::cancel_impl
   cancel_impl(read_op * op) : op(op) {}
   void operator()(asio::cancellation_type)
   {
-    op->cancelled = true;
-    op->unlink();
+    op->drop();
     if (op->awaited_from)
       asio::post(
           op->chn->executor_,
@@ -100,45 +125,38 @@ std::coroutine_handle<void> channel<T>::read_op::await_suspend(std::coroutine_ha
   if (cancelled)
     return h; // already interrupted.
 
-  if constexpr (requires {h.promise().get_cancellation_slot();})
-    if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
-      cancel_slot.emplace<cancel_impl>(this);
-
   if (awaited_from)
     boost::throw_exception(std::runtime_error("already-awaited"), loc);
   awaited_from.reset(h.address());
-  // currently nothing to read
+  awaiting = h.address();
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
-  if (chn->write_queue_.empty())
+  if (chn->buffer_.capacity() == 0u) // rendezvous
   {
-    chn->read_queue_.push_back(*this);
-    return std::noop_coroutine();
+    direct = true; // transactional_unlink can interrupt or cancel this op through `race`.
+    for (auto & op : chn->write_queue_)
+      if (op.transactional_unlink())
+      {
+        op.cancel_slot.clear();
+        value.emplace(op.take());
+        // this op gets posted, so it needs a transaction, too. If that fails, both are in the same `race`.
+        transactional_unlink();
+        direct = true;
+        BOOST_ASSERT(op.awaited_from);
+        BOOST_ASSERT(awaited_from);
+        asio::post(chn->executor_, std::move(awaited_from));
+        return op.awaited_from.release();
+      }
+    direct = false;
   }
-  else
-  {
-    cancel_slot.clear();
-    auto & op = chn->write_queue_.front();
-    // transactional_unlink can interrupt or cancel `op` through `race`, so we need to check.
-    op.direct = true;
-    if constexpr (std::is_copy_constructible_v<T>)
-    {
-      if (op.ref.index() == 0)
-        direct = std::move(*variant2::get<0>(op.ref));
-      else
-        direct = *variant2::get<1>(op.ref);
-    }
-    else
-      direct = std::move(*op.ref);
 
-    op.transactional_unlink();
-    BOOST_ASSERT(op.awaited_from);
-    BOOST_ASSERT(awaited_from);
+  if constexpr (requires {h.promise().get_cancellation_slot();})
+    if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
+      cancel_slot.emplace<cancel_impl>(this);
 
-    asio::post(chn->executor_, std::move(awaited_from));
-    return op.awaited_from.release();
-  }
+  chn->read_queue_.push_back(*this);
+  return std::noop_coroutine();
 }
 
 
@@ -166,7 +184,14 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (chn->is_closed_ && chn->buffer_.empty() && !direct)
+  if (std::exchange(direct, false))
+  {
+    system::result<T> res{system::in_place_value, std::move(*value)};
+    value.reset();
+    return res;
+  }
+
+  if (closed)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -178,26 +203,19 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
 
-  T value = chn->buffer_.empty() ? std::move(*direct) : std::move(chn->buffer_.front());
-  if (!chn->buffer_.empty())
+  if (std::exchange(reserved, false))
+    this->unlink();
+  else if (!chn->can_read())
   {
-    chn->buffer_.pop_front();
-    if (direct)
-      chn->buffer_.push_back(std::move(*direct));
+    constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
+    return {system::in_place_error, asio::error::broken_pipe, &loc};
   }
 
-  if (!chn->write_queue_.empty())
-  {
-    auto &op = chn->write_queue_.front();
-    BOOST_ASSERT(chn->read_queue_.empty());
-    if (op.await_ready())
-    {
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
-  }
-  return {system::in_place_value, std::move(value)};
+  BOOST_ASSERT(!chn->buffer_.empty());
+  system::result<T> res{system::in_place_value, std::move(chn->buffer_.front())};
+  chn->buffer_.pop_front();
+  chn->wake_writer();
+  return res;
 }
 
 template<typename T>
@@ -207,8 +225,7 @@ struct channel<T>::write_op::cancel_impl
   cancel_impl(write_op * op) : op(op) {}
   void operator()(asio::cancellation_type)
   {
-    op->cancelled = true;
-    op->unlink();
+    op->drop();
     if (op->awaited_from)
       asio::post(
         op->chn->executor_, std::move(op->awaited_from));
@@ -223,44 +240,36 @@ std::coroutine_handle<void> channel<T>::write_op::await_suspend(std::coroutine_h
   if (cancelled)
     return h; // already interrupted.
 
-
-  if constexpr (requires {h.promise().get_cancellation_slot();})
-    if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
-      cancel_slot.emplace<cancel_impl>(this);
-
   awaited_from.reset(h.address());
+  awaiting = h.address();
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
-  BOOST_ASSERT(this->chn->buffer_.full());
-  if (chn->read_queue_.empty())
+  if (chn->buffer_.capacity() == 0u) // rendezvous
   {
-    chn->write_queue_.push_back(*this);
-    return std::noop_coroutine();
+    direct = true; // transactional_unlink can interrupt or cancel this op through `race`.
+    for (auto & op : chn->read_queue_)
+      if (op.transactional_unlink())
+      {
+        op.cancel_slot.clear();
+        op.value.emplace(take());
+        // this op gets posted, so it needs a transaction, too. If that fails, both are in the same `race`.
+        transactional_unlink();
+        direct = true;
+        BOOST_ASSERT(op.awaited_from);
+        BOOST_ASSERT(awaited_from);
+        asio::post(chn->executor_, std::move(awaited_from));
+        return op.awaited_from.release();
+      }
+    direct = false;
   }
-  else
-  {
-    cancel_slot.clear();
-    auto & op = chn->read_queue_.front();
-    if constexpr (std::is_copy_constructible_v<T>)
-    {
-      if (ref.index() == 0)
-        op.direct.emplace(std::move(*variant2::get<0>(ref)));
-      else
-        op.direct.emplace(*variant2::get<1>(ref));
-    }
-    else
-      op.direct.emplace(std::move(*ref));
-
-    direct = true;
-    op.transactional_unlink();
 
-    BOOST_ASSERT(op.awaited_from);
-    BOOST_ASSERT(awaited_from);
-    asio::post(chn->executor_, std::move(awaited_from));
+  if constexpr (requires {h.promise().get_cancellation_slot();})
+    if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
+      cancel_slot.emplace<cancel_impl>(this);
 
-    return op.awaited_from.release();
-  }
+  chn->write_queue_.push_back(*this);
+  return std::noop_coroutine();
 }
 
 template<typename T>
@@ -281,6 +290,9 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
+  if (std::exchange(direct, false))
+    return system::in_place_value;
+
   if (closed)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
@@ -293,33 +305,70 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
 
-  if (!direct)
+  if (std::exchange(reserved, false))
+    this->unlink();
+  else if (chn->is_closed_)
+  {
+    constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
+    return {system::in_place_error, asio::error::broken_pipe, &loc};
+  }
+  else
   {
-    BOOST_ASSERT(!chn->buffer_.full());
-    if constexpr (std::is_copy_constructible_v<T>)
+    // those got a slot earlier, so their values must not be overtaken
+    for (auto itr = chn->write_ready_.begin(); itr != chn->write_ready_.end();)
     {
-      if (ref.index() == 0)
-        chn->buffer_.push_back(std::move(*variant2::get<0>(ref)));
-      else
-        chn->buffer_.push_back(*variant2::get<1>(ref));
+      auto & op = *itr++;
+      if (op.transactional_unlink())
+        chn->buffer_.push_back(op.take());
     }
+  }
+
+  BOOST_ASSERT(!chn->buffer_.full());
+  chn->buffer_.push_back(take());
+  chn->wake_reader();
+  return system::in_place_value;
+}
+
+template<typename T>
+T channel<T>::write_op::take()
+{
+  if constexpr (std::is_copy_constructible_v<T>)
+  {
+    if (ref.index() == 0)
+      return std::move(*variant2::get<0>(ref));
     else
-      chn->buffer_.push_back(std::move(*ref));
+      return *variant2::get<1>(ref);
   }
+  else
+    return std::move(*ref);
+}
 
-  if (!chn->read_queue_.empty())
+template<typename T>
+void channel<T>::wake_reader()
+{
+  while (!read_queue_.empty() && can_read())
   {
-    auto & op = chn->read_queue_.front();
-    BOOST_ASSERT(chn->write_queue_.empty());
-    if (op.await_ready())
-    {
-      // unlink?
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
+    auto & op = read_queue_.front();
+    op.unlink();
+    op.reserved = true;
+    read_ready_.push_back(op);
+    BOOST_ASSERT(op.awaited_from);
+    asio::post(executor_, std::move(op.awaited_from));
+  }
+}
+
+template<typename T>
+void channel<T>::wake_writer()
+{
+  while (!write_queue_.empty() && can_write())
+  {
+    auto & op = write_queue_.front();
+    op.unlink();
+    op.reserved = true;
+    write_ready_.push_back(op);
+    BOOST_ASSERT(op.awaited_from);
+    asio::post(executor_, std::move(op.awaited_from));
   }
-  return system::in_place_value;
 }
 
 struct channel<void>::read_op::cancel_impl
@@ -328,8 +377,7 @@ struct channel<void>::read_op::cancel_impl
   cancel_impl(read_op * op) : op(op) {}
   void operator()(asio::cancellation_type)
   {
-    op->cancelled = true;
-    op->unlink();
+    op->drop();
     if (op->awaited_from)
       asio::post(op->chn->executor_, std::move(op->awaited_from));
     op->cancel_slot.clear();
@@ -342,8 +390,7 @@ struct channel<void>::write_op::cancel_impl
   cancel_impl(write_op * op) : op(op) {}
   void operator()(asio::cancellation_type)
   {
-    op->cancelled = true;
-    op->unlink();
+    op->drop();
     if (op->awaited_from)
       asio::post(op->chn->executor_, std::move(op->awaited_from));
     op->cancel_slot.clear();
@@ -356,36 +403,37 @@ std::coroutine_handle<void> channel<void>::read_op::await_suspend(std::coroutine
   if (cancelled)
     return h; // already interrupted.
 
-  if constexpr (requires {h.promise().get_cancellation_slot();})
-    if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
-      cancel_slot.emplace<cancel_impl>(this);
-
   if (awaited_from)
     boost::throw_exception(std::runtime_error("already-awaited"), loc);
   awaited_from.reset(h.address());
-
+  awaiting = h.address();
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
-  // nothing to read currently, enqueue
-  if (chn->write_queue_.empty())
+  if (chn->limit_ == 0u) // rendezvous
   {
-    chn->read_queue_.push_back(*this);
-    return std::noop_coroutine();
+    direct = true; // transactional_unlink can interrupt or cancel this op through `race`.
+    for (auto & op : chn->write_queue_)
+      if (op.transactional_unlink())
+      {
+        op.cancel_slot.clear();
+        // this op gets posted, so it needs a transaction, too. If that fails, both are in the same `race`.
+        transactional_unlink();
+        direct = true;
+        BOOST_ASSERT(op.awaited_from);
+        BOOST_ASSERT(awaited_from);
+        asio::post(chn->executor_, std::move(awaited_from));
+        return op.awaited_from.release();
+      }
+    direct = false;
   }
-  else // we're good, we can read, so we'll do that, but we need to post, so we need to initialize a transactin.
-  {
-    cancel_slot.clear();
-    auto & op = chn->write_queue_.front();
-    op.direct = true;
-    direct = true;
-    op.transactional_unlink();
 
-    BOOST_ASSERT(op.awaited_from);
-    BOOST_ASSERT(awaited_from);
-    asio::post(chn->executor_, std::move(awaited_from));
-    return op.awaited_from.release();
-  }
+  if constexpr (requires {h.promise().get_cancellation_slot();})
+    if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
+      cancel_slot.emplace<cancel_impl>(this);
+
+  chn->read_queue_.push_back(*this);
+  return std::noop_coroutine();
 }
 
 
@@ -395,34 +443,35 @@ std::coroutine_handle<void> channel<void>::write_op::await_suspend(std::coroutin
   if (cancelled)
     return h; // already interrupted.
 
-  if constexpr (requires {h.promise().get_cancellation_slot();})
-    if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
-      cancel_slot.emplace<cancel_impl>(this);
-
   awaited_from.reset(h.address());
-  // currently nothing to read
+  awaiting = h.address();
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
-  if (chn->read_queue_.empty())
+  if (chn->limit_ == 0u) // rendezvous
   {
-    chn->write_queue_.push_back(*this);
-    return std::noop_coroutine();
+    direct = true; // transactional_unlink can interrupt or cancel this op through `race`.
+    for (auto & op : chn->read_queue_)
+      if (op.transactional_unlink())
+      {
+        op.cancel_slot.clear();
+        // this op gets posted, so it needs a transaction, too. If that fails, both are in the same `race`.
+        transactional_unlink();
+        direct = true;
+        BOOST_ASSERT(op.awaited_from);
+        BOOST_ASSERT(awaited_from);
+        asio::post(chn->executor_, std::move(awaited_from));
+        return op.awaited_from.release();
+      }
+    direct = false;
   }
-  else
-  {
-    cancel_slot.clear();
-    auto & op = chn->read_queue_.front();
-    op.direct = true; // let interrupt_await know that we'll be resuming it!
-    direct = true;
-    op.transactional_unlink();
 
-    BOOST_ASSERT(op.awaited_from);
-    BOOST_ASSERT(awaited_from);
+  if constexpr (requires {h.promise().get_cancellation_slot();})
+    if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
+      cancel_slot.emplace<cancel_impl>(this);
 
-    asio::post(chn->executor_, std::move(awaited_from));
-    return op.awaited_from.release();
-  }
+  chn->write_queue_.push_back(*this);
+  return std::noop_coroutine();
 }
 
 }
diff --git a/src/channel.cpp b/src/channel.cpp
index eb7333d..4027421 100644
--- a/src/channel.cpp
+++ b/src/channel.cpp
@@ -13,12 +13,37 @@ namespace boost::cobalt
 
 channel<void>::~channel()
 {
+  // those are going to resume later, but don't get to use the channel anymore
+  while (!read_ready_.empty())
+  {
+    auto & op = read_ready_.front();
+    op.unlink();
+    op.reserved = false;
+    op.closed = true;
+    op.cancel_slot.clear();
+  }
+  while (!write_ready_.empty())
+  {
+    auto & op = write_ready_.front();
+    op.unlink();
+    op.reserved = false;
+    op.closed = true;
+    op.cancel_slot.clear();
+  }
+
   while (!read_queue_.empty())
-    read_queue_.front().awaited_from.reset();
+  {
+    auto & op = read_queue_.front();
+    op.unlink();
+    auto h = std::move(op.awaited_from);
+  }
 
   while (!write_queue_.empty())
-    write_queue_.front().awaited_from.reset();
-
+  {
+    auto & op = write_queue_.front();
+    op.unlink();
+    auto h = std::move(op.awaited_from);
+  }
 }
 
 void channel<void>::close()
@@ -29,6 +54,7 @@ void channel<void>::close()
     auto & op = read_queue_.front();
     op.unlink();
     op.cancelled = true;
+    op.closed = true;
     op.cancel_slot.clear();
     if (op.awaited_from)
       asio::defer(executor_, std::move(op.awaited_from));
@@ -50,7 +76,10 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (chn->is_closed_)
+  if (std::exchange(direct, false))
+    return {system::in_place_value};
+
+  if (closed)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -62,19 +91,17 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
 
-  if (!direct)
-    chn->n_--;
-  if (!chn->write_queue_.empty())
+  if (std::exchange(reserved, false))
+    this->unlink();
+  else if (!chn->can_read())
   {
-    auto &op = chn->write_queue_.front();
-    BOOST_ASSERT(chn->read_queue_.empty());
-    if (op.await_ready())
-    {
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
+    constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
+    return {system::in_place_error, asio::error::broken_pipe, &loc};
   }
+
+  BOOST_ASSERT(chn->n_ > 0u);
+  chn->n_--;
+  chn->wake_writer();
   return {system::in_place_value};
 }
 
@@ -94,6 +121,9 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
+  if (std::exchange(direct, false))
+    return {system::in_place_value};
+
   if (closed)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
@@ -105,23 +135,46 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
-  if (!direct)
-    chn->n_++;
 
-  if (!chn->read_queue_.empty())
+  if (std::exchange(reserved, false))
+    this->unlink();
+  else if (chn->is_closed_)
   {
-    auto & op = chn->read_queue_.front();
-    BOOST_ASSERT(chn->write_queue_.empty());
-    if (op.await_ready())
-    {
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
+    constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
+    return {system::in_place_error, asio::error::broken_pipe, &loc};
   }
+
+  BOOST_ASSERT(chn->n_ < chn->limit_);
+  chn->n_++;
+  chn->wake_reader();
   return {system::in_place_value};
 }
 
+void channel<void>::wake_reader()
+{
+  while (!read_queue_.empty() && can_read())
+  {
+    auto & op = read_queue_.front();
+    op.unlink();
+    op.reserved = true;
+    read_ready_.push_back(op);
+    BOOST_ASSERT(op.awaited_from);
+    asio::post(executor_, std::move(op.awaited_from));
+  }
+}
+
+void channel<void>::wake_writer()
+{
+  while (!write_queue_.empty() && can_write())
+  {
+    auto & op = write_queue_.front();
+    op.unlink();
+    op.reserved = true;
+    write_ready_.push_back(op);
+    BOOST_ASSERT(op.awaited_from);
+    asio::post(executor_, std::move(op.awaited_from));
+  }
+}
 
 void channel<void>::write_op::await_resume()
 {
-- 
2.43.0


From f56a4ff18591646cb6e4e14133a6a39d194e74c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 06/25] fix: move-assigning a completed promise accesses its
 destroyed frame, and leaves the source dangling

---
 include/boost/cobalt/detail/promise.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/promise.hpp b/include/boost/cobalt/detail/promise.hpp
index b8655a8..2c8babb 100644
--- a/include/boost/cobalt/detail/promise.hpp
+++ b/include/boost/cobalt/detail/promise.hpp
@@ -133,7 +133,7 @@ struct promise_receiver : promise_value_holder<T>
 
   promise_receiver& operator=(promise_receiver && lhs) noexcept
   {
-    if (reference && *reference == this)
+    if (!done && reference && *reference == this)
     {
       *reference = nullptr;
     }
@@ -151,6 +151,8 @@ struct promise_receiver : promise_value_holder<T>
       lhs.exception = moved_from_exception();
     }
 
+    lhs.done = true;
+
     return *this;
   }
 
-- 
2.43.0


From a9c558f1d1270df1d3f63bc365fa2fc48776a588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 07/25] fix: race drops errors and default-constructed results,
 and leaves losers running when a child throws

---
 include/boost/cobalt/detail/race.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 446985f..b1e696f 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -217,11 +217,9 @@ struct race_variadic_impl
         {
           auto res = co_await aw;
           if (!this_.has_result())
-          {
             this_.index = Idx;
-            if (res.has_error())
-              this_.assign_error(res);
-          }
+          if (this_.index == Idx && res.has_error())
+            this_.assign_error(res);
           if constexpr(!all_void)
             if (this_.index == Idx && !res.has_error())
               this_.result.emplace(variant2::in_place_index<Idx>);
@@ -280,7 +278,9 @@ struct race_variadic_impl
         this_.index = Idx;
       if (this_.index == Idx)
         this_.error = std::current_exception();
+      this_.cancel[Idx] = nullptr;
       this_.working[Idx] = nullptr;
+      this_.cancel_all();
     }
     BOOST_CATCH_END
 
@@ -354,6 +354,8 @@ struct race_variadic_impl
     {
       if constexpr (all_void)
         return std::make_tuple(error, index);
+      else if (error)
+        return std::make_tuple(error, typename decltype(result)::value_type{});
       else
         return std::make_tuple(error, std::move(*result));
     }
@@ -541,11 +543,9 @@ struct race_ranged_impl
         {
           auto res = co_await aw;
           if (!this_.has_result())
-          {
-            if (res.has_error())
-              this_.assign_error(res);
             this_.index = idx;
-          }
+          if (this_.index == idx && res.has_error())
+            this_.assign_error(res);
         }
         else
         {
@@ -570,7 +570,7 @@ struct race_ranged_impl
         if constexpr (std::is_void_v<decltype(aw_.await_resume())>)
         {
           auto val = aw.await_resume();
-          if (val.has_error())
+          if (this_.index == idx && val.has_error())
             this_.assign_error(val);
         }
         else
@@ -598,8 +598,10 @@ struct race_ranged_impl
         this_.index = idx;
       if (this_.index == idx)
         this_.error = std::current_exception();
+      this_.cancel[idx] = nullptr;
       if constexpr (traits::interruptible)
         this_.working[idx] = nullptr;
+      this_.cancel_all();
     }
     BOOST_CATCH_END
 
@@ -658,13 +660,15 @@ struct race_ranged_impl
       if constexpr (std::is_void_v<result_type>)
         return index;
       else
-        return std::make_pair(index, *result);
+        return std::make_pair(index, std::move(*result));
     }
 
     auto await_resume(const as_tuple_tag &)
     {
       if constexpr (std::is_void_v<result_type>)
         return std::make_tuple(error, index);
+      else if (error)
+        return std::make_tuple(error, std::make_pair(index, result_type{}));
       else
         return std::make_tuple(error, std::make_pair(index, std::move(*result)));
     }
-- 
2.43.0


From 4dac17c74a0f8ef22e080b01e4674713eb9ab7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 08/25] fix: ranged gather calls await_ready of its children
 twice and dereferences null for an empty range

---
 include/boost/cobalt/detail/gather.hpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 92f665f..2efae42 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -241,7 +241,6 @@ struct gather_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
                        pmr::vector<co_awaitable_type<type>>> aws;
 
-    pmr::vector<bool> ready{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal> cancel{std::size(aws), alloc};
     pmr::vector<result_storage_type> result{cancel.size(), alloc};
 
@@ -250,7 +249,6 @@ struct gather_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
         std::vector<co_awaitable_type<type>>> aws;
 
-    std::vector<bool> ready{std::size(aws), alloc};
     std::vector<asio::cancellation_signal> cancel{std::size(aws), alloc};
     std::vector<result_storage_type> result{cancel.size(), alloc};
 #endif
@@ -260,7 +258,6 @@ struct gather_ranged_impl
     awaitable(Range & aws_, std::false_type /* needs operator co_await */)
       : fork::shared_state((512 + sizeof(co_awaitable_type<type>)) * std::size(aws_))
       , aws{alloc}
-      , ready{std::size(aws_), alloc}
       , cancel{std::size(aws_), alloc}
     {
       aws.reserve(std::size(aws_));
@@ -271,18 +268,11 @@ struct gather_ranged_impl
             std::is_lvalue_reference_v<Range>, a_0 &, a_0 &&>;
         aws.emplace_back(awaitable_type_getter<a_t>(static_cast<a_t>(a)));
       }
-
-
-      std::transform(std::begin(this->aws),
-                     std::end(this->aws),
-                     std::begin(ready),
-                     [](auto & aw) {return aw.await_ready();});
     }
     awaitable(Range & aws, std::true_type /* needs operator co_await */)
         : fork::shared_state((512 + sizeof(co_awaitable_type<type>)) * std::size(aws))
         , aws(aws)
     {
-      std::transform(std::begin(aws), std::end(aws), std::begin(ready), [](auto & aw) {return aw.await_ready();});
     }
 
     awaitable(Range & aws)
@@ -347,7 +337,8 @@ struct gather_ranged_impl
         if (!last_forked.done())
           return false; // one coro didn't immediately complete!
       }
-      last_forked.release();
+      if (last_index != 0u)
+        last_forked.release();
       return true;
     }
 
-- 
2.43.0


From bb3d00f864bc73e7917c1e64973fab4a4ba4aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 09/25] fix: as_result and as_tuple of join, await_ready called
 twice and null dereference in ranged join

---
 include/boost/cobalt/detail/join.hpp | 56 ++++++++++++++--------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index f412551..6e1c501 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -241,7 +241,7 @@ struct join_variadic_impl
         if (error)
           return std::make_tuple(error, t{});
         else
-          return std::make_tuple(std::current_exception(),
+          return std::make_tuple(std::exception_ptr(),
                                  mp11::tuple_transform(
               []<typename T>(std::optional<T> & var)
                   -> T
@@ -262,13 +262,13 @@ struct join_variadic_impl
         return rt(system::in_place_error, error);
 
       if constexpr(!all_void)
-        return mp11::tuple_transform(
+        return rt(system::in_place_value, mp11::tuple_transform(
             []<typename T>(std::optional<T> & var)
-                -> rt
+                -> T
             {
               BOOST_ASSERT(var.has_value());
               return std::move(*var);
-            }, result);
+            }, result));
       else
         return rt{system::in_place_value};
     }
@@ -304,7 +304,6 @@ struct join_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
                        pmr::vector<co_awaitable_type<type>>> aws;
 
-    pmr::vector<bool> ready{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal> cancel_{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal*> cancel{std::size(aws), alloc};
 
@@ -321,7 +320,6 @@ struct join_ranged_impl
     std::allocator<void> alloc;
     std::conditional_t<awaitable_type<type>, Range &,  std::vector<co_awaitable_type<type>>> aws;
 
-    std::vector<bool> ready{std::size(aws), alloc};
     std::vector<asio::cancellation_signal> cancel_{std::size(aws), alloc};
     std::vector<asio::cancellation_signal*> cancel{std::size(aws), alloc};
 
@@ -338,7 +336,6 @@ struct join_ranged_impl
     awaitable(Range & aws_, std::false_type /* needs  operator co_await */)
       :  fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws_))
       , aws{alloc}
-      , ready{std::size(aws_), alloc}
       , cancel_{std::size(aws_), alloc}
       , cancel{std::size(aws_), alloc}
     {
@@ -350,17 +347,11 @@ struct join_ranged_impl
             std::is_lvalue_reference_v<Range>, a_0 &, a_0 &&>;
         aws.emplace_back(awaitable_type_getter<a_t>(static_cast<a_t>(a)));
       }
-
-      std::transform(std::begin(this->aws),
-                     std::end(this->aws),
-                     std::begin(ready),
-                     [](auto & aw) {return aw.await_ready();});
     }
     awaitable(Range & aws, std::true_type /* needs operator co_await */)
         : fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws))
         , aws(aws)
     {
-      std::transform(std::begin(aws), std::end(aws), std::begin(ready), [](auto & aw) {return aw.await_ready();});
     }
 
     awaitable(Range & aws)
@@ -435,7 +426,8 @@ struct join_ranged_impl
         if (!last_forked.done())
           return false; // one coro didn't immediately complete!
       }
-      last_forked.release();
+      if (last_index != 0u)
+        last_forked.release();
       return true;
     }
 
@@ -480,16 +472,18 @@ struct join_ranged_impl
 
     auto await_resume(const as_tuple_tag & )
     {
+      if constexpr (std::is_void_v<result_type>)
+        return std::make_tuple(error);
+      else
+      {
 #if defined(BOOST_COBALT_NO_PMR)
-      std::vector<result_type> rr;
+        std::vector<result_type> rr;
 #else
-      pmr::vector<result_type> rr{this_thread::get_allocator()};
+        pmr::vector<result_type> rr{this_thread::get_allocator()};
 #endif
 
-      if (error)
-        return std::make_tuple(error, rr);
-      if constexpr (!std::is_void_v<result_type>)
-      {
+        if (error)
+          return std::make_tuple(error, std::move(rr));
         rr.reserve(result.size());
         for (auto & t : result)
           rr.push_back(*std::move(t));
@@ -499,20 +493,28 @@ struct join_ranged_impl
 
     auto await_resume(const as_result_tag & )
     {
+      if constexpr (std::is_void_v<result_type>)
+      {
+        using rt = system::result<void, std::exception_ptr>;
+        if (error)
+          return rt(system::in_place_error, error);
+        return rt(system::in_place_value);
+      }
+      else
+      {
 #if defined(BOOST_COBALT_NO_PMR)
-      std::vector<result_type> rr;
+        std::vector<result_type> rr;
 #else
-      pmr::vector<result_type> rr{this_thread::get_allocator()};
+        pmr::vector<result_type> rr{this_thread::get_allocator()};
 #endif
+        using rt = system::result<decltype(rr), std::exception_ptr>;
 
-      if (error)
-        return system::result<decltype(rr), std::exception_ptr>(error);
-      if constexpr (!std::is_void_v<result_type>)
-      {
+        if (error)
+          return rt(system::in_place_error, error);
         rr.reserve(result.size());
         for (auto & t : result)
           rr.push_back(*std::move(t));
-        return system::result<decltype(rr), std::exception_ptr>(std::move(rr));
+        return rt(system::in_place_value, std::move(rr));
       }
     }
 
-- 
2.43.0


From 00c6eff79b733984e7d3fffe0038662b308f3469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 10/25] fix: generator loses or repeats values after get(), an
 interrupted await or assignment

---
 include/boost/cobalt/detail/generator.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 7f3368e..0901e4f 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -129,7 +129,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
 
   generator_receiver& operator=(generator_receiver && lhs) noexcept
   {
-    if (reference && *reference == this)
+    if (!done && reference && *reference == this)
     {
       *reference = nullptr;
     }
@@ -223,10 +223,12 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       self->awaited_from.reset(h.address());
 
       std::coroutine_handle<void> res = std::noop_coroutine();
-      if (self->yield_from != nullptr)
+      const bool resuming = self->yield_from != nullptr;
+      if (resuming)
         res = self->yield_from.release();
 
-      if ((to_push.index() > 0) && !self->pushed_value && self->lazy)
+      // an eager generator only waits for its value here if the last result was taken by get()
+      if ((to_push.index() > 0) && !self->pushed_value && (self->lazy || resuming))
       {
         if constexpr (std::is_void_v<Push>)
           self->pushed_value = true;
@@ -261,7 +263,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       if (res.has_error())
           return {res.error(), Yield{}};
       else
-          return {nullptr, res.value()};
+          return {nullptr, std::move(res).value()};
     }
 
     system::result<Yield, std::exception_ptr> await_resume(const as_result_tag& )
@@ -275,9 +277,8 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       if (!self->result) // missing co_return this is accepted behaviour, if the compiler agrees
         return {system::in_place_error, std::make_exception_ptr(std::runtime_error("cobalt::generator returned void"))};
 
-      if (to_push.index() > 0)
+      if (to_push.index() > 0) // replaces what an interrupted await of a lazy generator may have left
       {
-        BOOST_ASSERT(!self->pushed_value);
         if constexpr (std::is_void_v<Push>)
           self->pushed_value = true;
         else
@@ -299,7 +300,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       }
 
       // now we also want to resume the coroutine, so it starts work
-      if (self->yield_from != nullptr && !self->lazy)
+      if (self->yield_from != nullptr && self->pushed_value && !self->lazy)
       {
         auto exec = self->yield_from->get_executor();
         auto alloc = asio::get_associated_allocator(self->yield_from);
-- 
2.43.0


From cbf418dfa15f5f844c6d5a06ab7c277ad9aca61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 11/25] fix: an exception thrown by an immediately executed
 step destroyed the awaiting coroutine; handler copied its arguments

---
 include/boost/cobalt/detail/handler.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 8376c6b..a2f466a 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -46,10 +46,17 @@ struct completion_handler_noop_executor
       // only use this indicator if the fn will actually call our completion-handler
       // otherwise this was a single op in a composed operation
       *completed_immediately = completed_immediately_t::maybe;
+      struct reset_t
+      {
+        completed_immediately_t * completed_immediately;
+        ~reset_t()
+        {
+          // yes means completion_handler::operator() was called, so we're good.
+          if (*completed_immediately != completed_immediately_t::yes)
+            *completed_immediately = completed_immediately_t::initiating;
+        }
+      } reset{completed_immediately};
       fn();
-      // yes means completion_handler::operator() was called, so we're good.
-      if (*completed_immediately != completed_immediately_t::yes)
-        *completed_immediately = completed_immediately_t::initiating;
     }
     else
     {
@@ -190,7 +197,7 @@ struct handler
 {
   void operator()(Args ... args)
   {
-    result.emplace(static_cast<Args>(args)...);
+    result.emplace(static_cast<Args&&>(args)...);
   }
   handler(std::optional<std::tuple<Args...>> &result) : result(result) {}
  private:
@@ -271,7 +278,8 @@ struct completion_handler : detail::completion_handler_base
     ~completion_handler()
     {
       if (self && completed_immediately
-        && *completed_immediately == detail::completed_immediately_t::initiating
+        && (*completed_immediately == detail::completed_immediately_t::initiating
+         || *completed_immediately == detail::completed_immediately_t::maybe)
         && std::uncaught_exceptions() > 0)
         self.release();
     }
-- 
2.43.0


From 010c5da6d88a8784ce705ad087a336a5f8981d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 12/25] fix: as_tuple of a void promise or task gave an
 exception_ptr instead of a tuple

---
 include/boost/cobalt/detail/promise.hpp | 4 ++--
 include/boost/cobalt/detail/task.hpp    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/promise.hpp b/include/boost/cobalt/detail/promise.hpp
index 2c8babb..223a60b 100644
--- a/include/boost/cobalt/detail/promise.hpp
+++ b/include/boost/cobalt/detail/promise.hpp
@@ -237,8 +237,8 @@ struct promise_receiver : promise_value_holder<T>
       if constexpr (std::is_void_v<T>)
       {
         if (ex)
-          return std::move(ex);
-        return self->get_result().error();
+          return std::make_tuple(std::move(ex));
+        return std::make_tuple(self->get_result().error());
       }
       else
       {
diff --git a/include/boost/cobalt/detail/task.hpp b/include/boost/cobalt/detail/task.hpp
index 8dedd0b..7581e3f 100644
--- a/include/boost/cobalt/detail/task.hpp
+++ b/include/boost/cobalt/detail/task.hpp
@@ -215,7 +215,7 @@ struct task_receiver : task_value_holder<T>
         cl.clear();
       auto res = self->get_result();
       if constexpr (std::is_void_v<T>)
-        return res.error();
+        return std::make_tuple(res.error());
       else
       {
         if (res.has_error())
-- 
2.43.0


From 0934cb8db135009c66fd2c621905c646692eb6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 13/25] fix: wait_group kept failed members forever and dropped
 members pushed while waiting

---
 include/boost/cobalt/detail/wait_group.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/detail/wait_group.hpp b/include/boost/cobalt/detail/wait_group.hpp
index 56ca462..97a7f3e 100644
--- a/include/boost/cobalt/detail/wait_group.hpp
+++ b/include/boost/cobalt/detail/wait_group.hpp
@@ -48,9 +48,16 @@ struct race_wrapper
     {
       if (waitables_.empty())
         return;
-      auto idx = impl_->await_resume();
-      if (idx != std::numeric_limits<std::size_t>::max())
-        waitables_.erase(std::next(waitables_.begin(), idx));
+      auto [ep, idx] = impl_->await_resume(as_tuple_tag{});
+      if (idx < waitables_.size())
+      {
+        // also remove those that failed, otherwise they'd fail every following wait_one, too.
+        auto itr = std::next(waitables_.begin(), idx);
+        if (itr->ready())
+          waitables_.erase(itr);
+      }
+      if (ep)
+        std::rethrow_exception(ep);
     }
 
     awaitable_type(std::list<promise<void>> &waitables) : waitables_(waitables)
@@ -102,7 +109,8 @@ struct gather_wrapper
         return;
       BOOST_ASSERT(impl_);
       impl_->await_resume();
-      waitables_.clear();
+      // more promises might've been added in the meantime, so only remove the ones that were awaited.
+      erase_if(waitables_, [](promise<void> & p) { return p.ready() && !p;});
     }
 
     awaitable_type(std::list<promise<void>> &waitables) : waitables_(waitables)
-- 
2.43.0


From 45fd81b73d5809c0304ba7610a8ee75ac3f08ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 14/25] fix: with leaked or mishandled frames of abandoned and
 never awaited scopes, lost teardown errors

---
 include/boost/cobalt/detail/with.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/detail/with.hpp b/include/boost/cobalt/detail/with.hpp
index 433f34f..85831c1 100644
--- a/include/boost/cobalt/detail/with.hpp
+++ b/include/boost/cobalt/detail/with.hpp
@@ -7,6 +7,7 @@
 
 #include <boost/cobalt/concepts.hpp>
 #include <boost/cobalt/this_coro.hpp>
+#include <boost/cobalt/unique_handle.hpp>
 
 #include <boost/asio/cancellation_signal.hpp>
 
@@ -25,9 +26,21 @@ struct [[nodiscard]] with_impl
     auto await_suspend(std::coroutine_handle<Promise> h) -> std::coroutine_handle<promise_type>;
     inline T await_resume();
 
+    with_impl(with_impl && lhs) noexcept
+        : promise(lhs.promise), owned_(std::exchange(lhs.owned_, false)) {}
+    with_impl & operator=(with_impl &&) = delete;
+
+    ~with_impl()
+    {
+      // never awaited, so nobody else will get rid of the frame.
+      if (owned_)
+        std::coroutine_handle<promise_type>::from_promise(promise).destroy();
+    }
+
   private:
     with_impl(promise_type & promise) : promise(promise) {}
     promise_type & promise;
+    bool owned_ = true;
 };
 
 template<typename T>
@@ -93,7 +106,7 @@ struct with_impl<T>::promise_type
     BOOST_COBALT_MSVC_NOINLINE
     auto await_suspend(std::coroutine_handle<promise_type> h) noexcept -> std::coroutine_handle<void>
     {
-      return std::coroutine_handle<void>::from_address(h.promise().awaited_from.address());
+      return h.promise().awaited_from.release();
     }
 
     void await_resume() noexcept
@@ -109,7 +122,8 @@ struct with_impl<T>::promise_type
   cancellation_slot_type get_cancellation_slot() const {return slot_;}
   asio::cancellation_slot slot_;
 
-  std::coroutine_handle<void> awaited_from{nullptr};
+  // owning, so the awaiting coroutine doesn't leak if this one gets abandoned.
+  unique_handle<void> awaited_from{nullptr};
 
 };
 
@@ -122,7 +136,7 @@ T with_impl<T>::await_resume()
     if (e)
         std::rethrow_exception(e);
 
-    return *std::move(res);
+    return std::move(res).value();
 }
 
 template<>
@@ -146,7 +160,8 @@ auto with_impl<T>::await_suspend(std::coroutine_handle<Promise> h) -> std::corou
     if constexpr (requires {h.promise().get_cancellation_slot();})
         promise.slot_ = h.promise().get_cancellation_slot();
 
-    promise.awaited_from = h;
+    promise.awaited_from.reset(h.address());
+    owned_ = false;
     return std::coroutine_handle<promise_type>::from_promise(promise);
 }
 
-- 
2.43.0


From 732551e7687ce854138af916d79eb189c1ef7872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 15/25] fix: write_at could not be used and io.hpp could not be
 included

---
 include/boost/cobalt/io/random_access_device.hpp | 6 +++---
 include/boost/cobalt/io/write.hpp                | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/io/random_access_device.hpp b/include/boost/cobalt/io/random_access_device.hpp
index ec605b5..46fbf62 100644
--- a/include/boost/cobalt/io/random_access_device.hpp
+++ b/include/boost/cobalt/io/random_access_device.hpp
@@ -5,8 +5,8 @@
 // file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 //
 
-#ifndef BOOST_COBALT_IO_STREAM_HPP
-#define BOOST_COBALT_IO_STREAM_HPP
+#ifndef BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
+#define BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
 
 #include <boost/cobalt/io/buffer.hpp>
 #include <boost/cobalt/io/ops.hpp>
@@ -34,4 +34,4 @@ struct random_access_device : random_access_read_device, random_access_write_dev
 
 }
 
-#endif //BOOST_COBALT_IO_STREAM_HPP
+#endif //BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
diff --git a/include/boost/cobalt/io/write.hpp b/include/boost/cobalt/io/write.hpp
index cccd0b6..bfc2543 100644
--- a/include/boost/cobalt/io/write.hpp
+++ b/include/boost/cobalt/io/write.hpp
@@ -48,7 +48,7 @@ struct BOOST_COBALT_IO_DECL write_all_at  final : op<system::error_code, std::si
 template<typename Stream>
 requires requires (Stream & str, std::uint64_t offset, const_buffer_sequence buffer)
 {
-  {str.write_some_at(offset, buffer)} -> std::same_as<write_op>;
+  {str.write_some_at(offset, buffer)} -> std::same_as<write_at_op>;
 }
 [[nodiscard]] BOOST_COBALT_MSVC_NOINLINE
 write_all_at write_at(Stream & str, std::uint64_t offset, const_buffer_sequence buffer)
-- 
2.43.0


From c0cc711f1a82c725270eabb7280a8c3b63a1bca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 16/25] fix: composition ignored cancellation and used frames
 after they were freed

---
 include/boost/cobalt/composition.hpp | 78 ++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 22 deletions(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index 50dd688..257369e 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -11,6 +11,9 @@
 #include <boost/cobalt/op.hpp>
 #include <boost/cobalt/detail/sbo_resource.hpp>
 
+#include <algorithm>
+#include <functional>
+
 
 namespace boost::cobalt::detail
 {
@@ -92,37 +95,46 @@ struct composition_promise
   using executor_type = typename handler_type::executor_type ;
   const executor & get_executor() const {return handler.get_executor();}
 
-  template<typename ... Ts>
-  static void * operator new(const std::size_t size, Ts & ... args)
+  // Every frame is preceded by one of those: | header | <padding> | coroutine.
+  struct frame_header
   {
-    using tt = std::pair<resource_type *, std::size_t>;
+    resource_type * resource;
+    std::size_t size;
+    void * awaiting; // to be destroyed along with the frame
+
+    constexpr static std::size_t block_size() // in max_align_t
+    {
+      return sizeof(frame_header) / sizeof(std::max_align_t)
+          + (sizeof(frame_header) % sizeof(std::max_align_t) ? 1 : 0);
+    }
 
-    // | memory_resource | size_t | <padding> | coroutine.
-    constexpr auto block_size =  sizeof(tt) / sizeof(std::max_align_t)
-                                 + (sizeof(tt) % sizeof(std::max_align_t) ? 1 : 0);
+    static frame_header * of(void * frame)
+    {
+      return reinterpret_cast<frame_header*>(static_cast<std::max_align_t*>(frame) - block_size());
+    }
+  };
 
+  template<typename ... Ts>
+  static void * operator new(const std::size_t size, Ts & ... args)
+  {
+    constexpr auto block_size = frame_header::block_size();
 
     auto res = std::get<sizeof... (Ts) - 1>(std::tie(args...)).get_allocator().resource();
     const auto p = res->allocate(size + (block_size * sizeof(std::max_align_t)));
-    new (p) tt(res, size);
+    new (p) frame_header{res, size, nullptr};
     return static_cast<std::max_align_t*>(p) + block_size;
   }
 
   static void operator delete(void * raw) noexcept
   {
-    using tt = std::pair<resource_type *, std::size_t>;
-
-    // | memory_resource | size_t | <padding> | coroutine.
-    constexpr auto block_size =  sizeof(tt) / sizeof(std::max_align_t)
-                                 + (sizeof(tt) % sizeof(std::max_align_t) ? 1 : 0);
+    constexpr auto block_size = frame_header::block_size();
 
-    const auto p = static_cast<std::max_align_t*>(raw) - block_size;
+    const auto p = frame_header::of(raw);
+    const auto h = *p;
 
-    const auto tp = *reinterpret_cast<tt*>(p);
-    const auto res = tp.first;
-    const auto size = tp.second;
-
-    res->deallocate(p, size +  (block_size * sizeof(std::max_align_t)));
+    h.resource->deallocate(p, h.size +  (block_size * sizeof(std::max_align_t)));
+    if (h.awaiting)
+      std::coroutine_handle<void>::from_address(h.awaiting).destroy();
   }
 
   completion_handler<Args...> handler;
@@ -130,10 +142,30 @@ struct composition_promise
   template<typename ... Ts>
   composition_promise(Ts && ... args) : handler(std::move(std::get<sizeof... (Ts) - 1>(std::tie(args...))))
   {
+    this->reset_cancellation_source(handler.get_cancellation_slot());
+  }
 
+  ~composition_promise()
+  {
+    // If we get abandoned, so does the awaiting coroutine. It usually provides the memory of this frame,
+    // so it can only be destroyed once that has been released. Some compilers put the promise first.
+    if (handler.self)
+    {
+      void * frame = std::coroutine_handle<composition_promise>::from_promise(*this).address();
+      frame_header::of((std::min)(frame, static_cast<void*>(this), std::less<void*>{}))->awaiting
+          = handler.self.release().address();
+    }
   }
 
-  void unhandled_exception() { throw ; }
+  void unhandled_exception()
+  {
+    // thrown by initiate, so it surfaces in the awaiting coroutine, which must not get destroyed.
+    if (handler.completed_immediately != nullptr
+     && (*handler.completed_immediately == completed_immediately_t::initiating
+      || *handler.completed_immediately == completed_immediately_t::maybe))
+      handler.self.release();
+    throw ;
+  }
   constexpr static std::suspend_never initial_suspend() {return {};}
 
   void return_value(std::tuple<Args ...> args)
@@ -152,13 +184,15 @@ struct composition_promise
     {
       auto exec = handler.get_executor();
       auto ho = handler.self.release();
+      // this awaitable is part of the frame
+      auto completed_immediately = handler.completed_immediately;
       detail::self_destroy(h, exec);
 
-      if (handler.completed_immediately != nullptr
-       && *handler.completed_immediately == completed_immediately_t::initiating)
+      if (completed_immediately != nullptr
+       && *completed_immediately == completed_immediately_t::initiating)
         //not maybe here, because we don't go through the immediate executor
       {
-        *handler.completed_immediately = completed_immediately_t::yes;
+        *completed_immediately = completed_immediately_t::yes;
         return std::noop_coroutine();
       }
 
-- 
2.43.0


From df588b40d24910647fc04faa0bca8960b8df2662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 17/25] fix: a task awaited again after an interrupted await
 was resumed twice

---
 include/boost/cobalt/detail/task.hpp | 29 ++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/detail/task.hpp b/include/boost/cobalt/detail/task.hpp
index 7581e3f..d098342 100644
--- a/include/boost/cobalt/detail/task.hpp
+++ b/include/boost/cobalt/detail/task.hpp
@@ -157,6 +157,7 @@ struct task_receiver : task_value_holder<T>
   struct awaitable
   {
     task_receiver * self;
+    std::exception_ptr ex;
     asio::cancellation_slot cl;
     awaitable(task_receiver * self) : self(self)
     {
@@ -179,10 +180,21 @@ struct task_receiver : task_value_holder<T>
       if (self->done) // ok, so we're actually done already, so noop
         return std::coroutine_handle<void>::from_address(h.address());
 
+      if (self->awaited_from != nullptr) // we're already being awaited, that's an error!
+      {
+        ex = already_awaited();
+        return std::coroutine_handle<void>::from_address(h.address());
+      }
+
       if constexpr (requires {h.promise().get_cancellation_slot();})
         if ((cl = h.promise().get_cancellation_slot()).is_connected())
           cl.emplace<forward_cancellation>(self->promise->signal);
 
+      if (self->promise->started) // a previous await was interrupted, so it's running already.
+      {
+        self->awaited_from.reset(h.address());
+        return std::noop_coroutine();
+      }
 
       if constexpr (requires {h.promise().get_executor();})
         self->promise->exec.emplace(h.promise().get_executor());
@@ -198,7 +210,8 @@ struct task_receiver : task_value_holder<T>
     {
       if (cl.is_connected())
         cl.clear();
-
+      if (ex)
+        std::rethrow_exception(ex);
       return self->get_result().value(loc);
     }
 
@@ -206,6 +219,8 @@ struct task_receiver : task_value_holder<T>
     {
       if (cl.is_connected())
         cl.clear();
+      if (ex)
+        return {system::in_place_error, std::move(ex)};
       return self->get_result();
     }
 
@@ -213,11 +228,17 @@ struct task_receiver : task_value_holder<T>
     {
       if (cl.is_connected())
         cl.clear();
-      auto res = self->get_result();
       if constexpr (std::is_void_v<T>)
-        return std::make_tuple(res.error());
+      {
+        if (ex)
+          return std::make_tuple(std::move(ex));
+        return std::make_tuple(self->get_result().error());
+      }
       else
       {
+        if (ex)
+          return std::make_tuple(std::move(ex), T{});
+        auto res = self->get_result();
         if (res.has_error())
           return std::make_tuple(res.error(), T{});
         else
@@ -230,7 +251,7 @@ struct task_receiver : task_value_holder<T>
     {
       if (!self)
         return ;
-      self->exception = detached_exception();
+      ex = detached_exception();
       if (self->awaited_from)
         self->awaited_from.release().resume();
     }
-- 
2.43.0


From 1ff685c055d0c1b1af6b979517291173eb03f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 18/25] fix: the frame of a task came from the resource of the
 thread instead of the global default

---
 include/boost/cobalt/detail/task.hpp | 10 ++++++++++
 include/boost/cobalt/this_coro.hpp   | 13 +++++++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/boost/cobalt/detail/task.hpp b/include/boost/cobalt/detail/task.hpp
index d098342..c6e029c 100644
--- a/include/boost/cobalt/detail/task.hpp
+++ b/include/boost/cobalt/detail/task.hpp
@@ -326,6 +326,16 @@ struct task_promise
     return task<Return>{this};
   }
 
+#if !defined(BOOST_COBALT_NO_PMR)
+  // a task may outlive or leave the thread it was created on, so its frame must not use the resource of the thread.
+  template<typename ... Args>
+  static void * operator new(const std::size_t size, Args & ... args)
+  {
+    return promise_memory_resource_base::allocate_frame(
+        size, detail::get_memory_resource_from_args_global(args...));
+  }
+#endif
+
   mutable asio::cancellation_signal signal;
 
   using executor_type = executor;
diff --git a/include/boost/cobalt/this_coro.hpp b/include/boost/cobalt/this_coro.hpp
index 2aba8c5..5110bf6 100644
--- a/include/boost/cobalt/this_coro.hpp
+++ b/include/boost/cobalt/this_coro.hpp
@@ -336,11 +336,15 @@ struct promise_memory_resource_base
   using allocator_type = pmr::polymorphic_allocator<void>;
   allocator_type get_allocator() const {return allocator_type{resource};}
 
-#if defined(__cpp_sized_deallocation)
   template<typename ... Args>
   static void * operator new(const std::size_t size, Args & ... args)
   {
-    auto res = detail::get_memory_resource_from_args(args...);
+    return allocate_frame(size, detail::get_memory_resource_from_args(args...));
+  }
+
+#if defined(__cpp_sized_deallocation)
+  static void * allocate_frame(const std::size_t size, pmr::memory_resource * res)
+  {
     const auto p = res->allocate(size + sizeof(std::max_align_t));
     auto pp = static_cast<pmr::memory_resource**>(p);
     *pp = res;
@@ -354,8 +358,7 @@ struct promise_memory_resource_base
     res->deallocate(p, size + sizeof(std::max_align_t));
   }
 #else
-  template<typename ... Args>
-  static void * operator new(const std::size_t size, Args & ... args)
+  static void * allocate_frame(const std::size_t size, pmr::memory_resource * res)
   {
     using tt = std::pair<pmr::memory_resource *, std::size_t>;
 
@@ -363,8 +366,6 @@ struct promise_memory_resource_base
     constexpr auto block_size =  sizeof(tt) / sizeof(std::max_align_t)
                               + (sizeof(tt) % sizeof(std::max_align_t) ? 1 : 0);
 
-
-    auto res = detail::get_memory_resource_from_args(args...);
     const auto p = res->allocate(size + (block_size * sizeof(std::max_align_t)));
     new (p) tt(res, size);
     return static_cast<std::max_align_t*>(p) + block_size;
-- 
2.43.0


From ee06c58df7f969cab80449bb5a8611101b216e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:33 +0000
Subject: [PATCH 19/25] fix: with did not compile for a plain function and a
 teardown taking ownership or await_exit

---
 include/boost/cobalt/with.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/cobalt/with.hpp b/include/boost/cobalt/with.hpp
index bdfb21f..e3848c1 100644
--- a/include/boost/cobalt/with.hpp
+++ b/include/boost/cobalt/with.hpp
@@ -43,7 +43,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<void>
     std::exception_ptr e;
 #if defined(BOOST_NO_EXCEPTIONS)
     co_await std::move(func)(arg);
-    co_await std::move(teardown)(arg, e);
+    co_await std::move(teardown)(std::move(arg), e);
 #else
     try
     {
@@ -84,7 +84,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<void>
     std::exception_ptr e;
 #if defined(BOOST_NO_EXCEPTIONS)
     std::move(func)(arg);
-    co_await std::move(teardown)(arg, e);
+    co_await std::move(teardown)(std::move(arg), e);
 #else
     try
     {
@@ -97,7 +97,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<void>
 
     try
     {
-        co_await std::move(teardown)(arg, e);
+        co_await std::move(teardown)(std::move(arg), e);
     }
     catch (...)
     {
@@ -169,7 +169,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<decltype(s
 
 #if defined(BOOST_NO_EXCEPTIONS)
     res = std::move(func)(arg);
-    co_await std::move(teardown)(arg, e);
+    co_await std::move(teardown)(std::move(arg), e);
 #else
     try
     {
@@ -182,7 +182,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<decltype(s
 
     try
     {
-        co_await std::move(teardown)(arg, e);
+        co_await std::move(teardown)(std::move(arg), e);
     }
     catch (...)
     {
-- 
2.43.0


From 9262805e14be28ec5cebdbb610e641d8238f8b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 20/25] fix: a completed operation left its cancellation
 handler in the coroutine's slot

---
 include/boost/cobalt/detail/handler.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index a2f466a..527545c 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -264,6 +264,9 @@ struct completion_handler : detail::completion_handler_base
         result.emplace(std::move(args)...);
         BOOST_ASSERT(this->self != nullptr);
         auto p = this->self.release();
+        // the operation is done, its cancellation handler must not outlive it
+        if (this->cancellation_slot.is_connected())
+          this->cancellation_slot.clear();
         if (completed_immediately != nullptr
         && *completed_immediately == detail::completed_immediately_t::maybe)
         {
-- 
2.43.0


From 0e2c7e247db61e0c0c66d9acbc700e4159ecd784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:04 +0000
Subject: [PATCH 21/25] fix: race, gather and join left their cancellation
 handler armed after they completed

---
 include/boost/cobalt/detail/fork.hpp    | 19 +++++++++++++++++++
 include/boost/cobalt/detail/gather.hpp  |  4 ++--
 include/boost/cobalt/detail/handler.hpp | 12 ------------
 include/boost/cobalt/detail/join.hpp    |  4 ++--
 include/boost/cobalt/detail/race.hpp    |  4 ++--
 5 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index 58fef62..8ffa38f 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -57,6 +57,23 @@ struct fork
 
     bool outstanding_work() {return use_count != 0u;}
 
+    // the slot of the awaiting coroutine while it holds our cancellation handler
+    asio::cancellation_slot armed{};
+
+    template<typename Promise, typename Handler>
+    void arm_cancellation(std::coroutine_handle<Promise> h, Handler && func)
+    {
+      if constexpr (requires {h.promise().get_cancellation_slot();})
+        if ((armed = h.promise().get_cancellation_slot()).is_connected())
+          armed.assign(std::forward<Handler>(func));
+    }
+
+    void disarm_cancellation()
+    {
+      if (armed.is_connected())
+        std::exchange(armed, asio::cancellation_slot{}).clear();
+    }
+
     std::optional<executor> exec{};
     bool wired_up() {return exec.has_value();}
 
@@ -156,6 +173,8 @@ struct fork
 #endif
         pp->use_count--;
         BOOST_ASSERT(pp->use_count == 0u);
+        // the handler refers to the state, which is gone once the coroutine moves on
+        pp->disarm_cancellation();
         if (pp->coro)
           return pp->coro.release();
         else
diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 2efae42..470d337 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -173,7 +173,7 @@ struct gather_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->arm_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -363,7 +363,7 @@ struct gather_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->arm_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 527545c..a011c82 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -178,18 +178,6 @@ struct completion_handler_base
 #endif
 };
 
-
-template<typename Handler>
-void assign_cancellation(std::coroutine_handle<void>, Handler &&) {}
-
-template<typename Promise, typename Handler>
-void assign_cancellation(std::coroutine_handle<Promise> h, Handler && func)
-{
-  if constexpr (requires {h.promise().get_cancellation_slot();})
-    if (h.promise().get_cancellation_slot().is_connected())
-      h.promise().get_cancellation_slot().assign(std::forward<Handler>(func));
-}
-
 }
 
 template<typename ... Args>
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 6e1c501..37136a6 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -205,7 +205,7 @@ struct join_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->arm_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -456,7 +456,7 @@ struct join_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->arm_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index b1e696f..9f2285c 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -326,7 +326,7 @@ struct race_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->arm_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -639,7 +639,7 @@ struct race_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->arm_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
-- 
2.43.0


From 16229953fca62edf4d8a4e49906faa844464575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:20 +0000
Subject: [PATCH 22/25] fix: an interrupted join over a range only looked at
 its first child

---
 include/boost/cobalt/detail/join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 37136a6..da6a116 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -378,7 +378,7 @@ struct join_ranged_impl
       {
         std::size_t idx = 0u;
         for (auto & aw : aws)
-          if (cancel[idx])
+          if (cancel[idx++])
             static_cast<t>(aw).interrupt_await();
       }
     }
-- 
2.43.0


From be09cc13c9afe514b5806586be03468aeeef7483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:38 +0000
Subject: [PATCH 23/25] fix: interrupting a nested combinator destroyed it
 halfway, or cancelled children it should interrupt

---
 include/boost/cobalt/detail/fork.hpp   | 13 ++++++++
 include/boost/cobalt/detail/gather.hpp | 22 +++++++++----
 include/boost/cobalt/detail/join.hpp   | 44 ++++++++++++++++++++------
 include/boost/cobalt/detail/race.hpp   | 20 ++++++++----
 4 files changed, 77 insertions(+), 22 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index 8ffa38f..976acae 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -74,6 +74,19 @@ struct fork
         std::exchange(armed, asio::cancellation_slot{}).clear();
     }
 
+    // interrupt the children, but don't resume the awaiter (which destroys this) while still doing so.
+    template<typename Interrupt>
+    void interrupt_all(Interrupt interrupt)
+    {
+      use_count++;
+      interrupt();
+      if (--use_count == 0u && coro)
+      {
+        disarm_cancellation();
+        coro.release().resume();
+      }
+    }
+
     std::optional<executor> exec{};
     bool wired_up() {return exec.has_value();}
 
diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 470d337..427a1e6 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -84,11 +84,15 @@ struct gather_variadic_impl
     }
     void interrupt_await()
     {
-      mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
-          ([&](auto idx)
-           {
-             interrupt_await_step<idx>();
-           });
+      this->interrupt_all(
+          [this]
+          {
+            mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
+                ([&](auto idx)
+                 {
+                   interrupt_await_step<idx>();
+                 });
+          });
     }
 
     // GCC doesn't like member funs
@@ -287,8 +291,12 @@ struct gather_ranged_impl
                                    co_awaitable_type<type> &&>;
 
       if constexpr (interruptible<t>)
-        for (auto & aw : aws)
-          static_cast<t>(aw).interrupt_await();
+        this->interrupt_all(
+            [this]
+            {
+              for (auto & aw : aws)
+                static_cast<t>(aw).interrupt_await();
+            });
     }
 
     static detail::fork await_impl(awaitable & this_, std::size_t idx)
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index da6a116..b01a08f 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -81,8 +81,13 @@ struct join_variadic_impl
         std::exchange(r, nullptr)->emit(asio::cancellation_type::all);
     }
 
+    // the others are being interrupted as well, so the first one to fail doesn't need to cancel them
+    bool interrupting = false;
+
     void cancel_all()
     {
+      if (interrupting)
+        return;
       mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
           ([&](auto idx)
            {
@@ -107,11 +112,19 @@ struct join_variadic_impl
 
     void interrupt_await()
     {
-      mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
-          ([&](auto idx)
-           {
-             interrupt_await_step<idx>();
-           });
+      this->interrupt_all(
+          [this]
+          {
+            interrupting = true;
+            mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
+                ([&](auto idx)
+                 {
+                   interrupt_await_step<idx>();
+                 });
+            interrupting = false;
+            if (error)
+              cancel_all();
+          });
     }
 
     // GCC doesn't like member funs
@@ -361,8 +374,13 @@ struct join_ranged_impl
 
 
 
+    // the others are being interrupted as well, so the first one to fail doesn't need to cancel them
+    bool interrupting = false;
+
     void cancel_all()
     {
+      if (interrupting)
+        return;
       for (auto & r : cancel)
         if (r)
           std::exchange(r, nullptr)->emit(asio::cancellation_type::all);
@@ -376,10 +394,18 @@ struct join_ranged_impl
 
       if constexpr (interruptible<t>)
       {
-        std::size_t idx = 0u;
-        for (auto & aw : aws)
-          if (cancel[idx++])
-            static_cast<t>(aw).interrupt_await();
+        this->interrupt_all(
+            [this]
+            {
+              interrupting = true;
+              std::size_t idx = 0u;
+              for (auto & aw : aws)
+                if (cancel[idx++])
+                  static_cast<t>(aw).interrupt_await();
+              interrupting = false;
+              if (error)
+                cancel_all();
+            });
       }
     }
 
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 9f2285c..e98ce03 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -142,9 +142,13 @@ struct race_variadic_impl
 
     void interrupt_await()
     {
-      for (auto i : working)
-        if (i)
-          i->interrupt_await();
+      this->interrupt_all(
+          [this]
+          {
+            for (auto & i : working)
+              if (i)
+                i->interrupt_await();
+          });
     }
 
     template<typename T, typename Error>
@@ -482,9 +486,13 @@ struct race_ranged_impl
     void interrupt_await()
     {
       if constexpr (traits::interruptible)
-        for (auto aw : working)
-          if (aw)
-            traits::do_interrupt(*aw);
+        this->interrupt_all(
+            [this]
+            {
+              for (auto & aw : working)
+                if (aw)
+                  traits::do_interrupt(*aw);
+            });
     }
 
 
-- 
2.43.0


From 8a783fdc18d17a874efbd7ba965a159ed4e0dd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:46 +0000
Subject: [PATCH 24/25] fix: spawn kept a reference to a completion handler
 passed as an lvalue

---
 include/boost/cobalt/detail/spawn.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/spawn.hpp b/include/boost/cobalt/detail/spawn.hpp
index ba2364b..1c1b9f3 100644
--- a/include/boost/cobalt/detail/spawn.hpp
+++ b/include/boost/cobalt/detail/spawn.hpp
@@ -73,7 +73,7 @@ struct async_initiate_spawn
       executor_type exec_;
 
       decltype(recs) r;
-      Handler handler;
+      std::decay_t<Handler> handler; // `h` may be an lvalue that's gone when the task completes.
       asio::cancellation_slot sl;
 
       void operator()()
@@ -91,7 +91,7 @@ struct async_initiate_spawn
 
     p->awaited_from.reset(detail::post_coroutine(
         completion_handler{
-            alloc, asio::get_associated_executor(h, exec), std::move(recs), std::move(h), sl
+            alloc, asio::get_associated_executor(h, exec), std::move(recs), std::forward<Handler>(h), sl
         }).address());
 
     asio::dispatch(exec, unique_handle<detail::task_promise<T>>::from_promise(*p->promise));
@@ -143,7 +143,7 @@ struct async_initiate_spawn
 
       executor_type exec_;
       decltype(recs) r;
-      Handler handler;
+      std::decay_t<Handler> handler; // `h` may be an lvalue that's gone when the task completes.
       asio::cancellation_slot sl;
 
       void operator()()
-- 
2.43.0


From a083d287c3a063545fd90c727a5493e86f5bfa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:02 +0000
Subject: [PATCH 25/25] fix: an abandoned race, gather or join freed the frame
 of a child still being destroyed

---
 include/boost/cobalt/detail/fork.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index 976acae..e7b471b 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -18,6 +18,7 @@
 #include <boost/intrusive_ptr.hpp>
 
 #include <coroutine>
+#include <cstddef>
 #include <optional>
 
 namespace boost::cobalt::detail
@@ -133,13 +134,31 @@ struct fork
   };
   struct promise_type
   {
+    // The frame lives in the memory of the state, so an abandoned fork can only release its reference
+    // after it's done with the frame, i.e. after the promise. It's handed to `operator delete` in front of the frame.
+    constexpr static std::size_t header_size = alignof(std::max_align_t);
+    static shared_state * & abandoned_state(void * frame)
+    {
+      return *reinterpret_cast<shared_state**>(static_cast<char*>(frame) - header_size);
+    }
+
     template<typename State, typename ... Rest>
     void * operator new(const std::size_t size, State & st, Rest &&...)
     {
-      return st.resource.allocate(size);
+      auto frame = static_cast<char*>(st.resource.allocate(size + header_size)) + header_size;
+      abandoned_state(frame) = nullptr;
+      return frame;
+    }
+
+    void operator delete(void * frame) noexcept
+    {
+      intrusive_ptr<shared_state>{abandoned_state(frame), false};
     }
 
-    void operator delete(void *) noexcept {}
+    ~promise_type()
+    {
+      abandoned_state(std::coroutine_handle<promise_type>::from_promise(*this).address()) = state.detach();
+    }
 
     template<typename ... Rest>
     promise_type(shared_state & st, Rest & ...)
-- 
2.43.0

