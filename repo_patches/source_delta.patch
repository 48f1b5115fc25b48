From c162e4c64b550de715f731d4a79839c26bcb9984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 01/14] fix: base64_encode sign extended the bytes of
 containers of char

---
 include/nbdl/util/base64_encode.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/util/base64_encode.hpp b/include/nbdl/util/base64_encode.hpp
index 3ac2568..e216c81 100644
--- a/include/nbdl/util/base64_encode.hpp
+++ b/include/nbdl/util/base64_encode.hpp
@@ -25,6 +25,14 @@ namespace nbdl::util
 
     static constexpr int const offsets[4]{ 26, 20, 14, 8 };
 
+    // a byte must not be sign extended when the
+    // container's value type is a signed char
+    template <typename Byte>
+    constexpr uint32_t to_uint32(Byte byte)
+    {
+      return static_cast<unsigned char>(byte);
+    }
+
     template <typename OutputItr>
     void encode_fragment(OutputItr& output_itr, uint32_t fragment, int byte_length)
     {
@@ -61,9 +69,9 @@ namespace nbdl::util
       for (int i = 0; i < round_length; i += 3)
       {
         uint32_t const fragment =
-            buffer[i    ] << 24
-          | buffer[i + 1] << 16
-          | buffer[i + 2] << 8
+            base64_detail::to_uint32(buffer[i    ]) << 24
+          | base64_detail::to_uint32(buffer[i + 1]) << 16
+          | base64_detail::to_uint32(buffer[i + 2]) << 8
           ;
         base64_detail::encode_fragment(output_itr, fragment, 3);
       }
@@ -71,7 +79,7 @@ namespace nbdl::util
       uint32_t extras = 0;
       for (int i = 0; i < extra_length; i++)
       {
-        extras |= buffer[round_length + i] << (8 * (3 - i));
+        extras |= base64_detail::to_uint32(buffer[round_length + i]) << (8 * (3 - i));
       }
       base64_detail::encode_fragment(output_itr, extras, extra_length);
 
-- 
2.43.0


From c8e8ab3c7d305e0ceb47d26542899797fe477343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 02/14] fix: base64_decode accepted malformed text that decodes
 to no bytes

---
 include/nbdl/util/base64_decode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/util/base64_decode.hpp b/include/nbdl/util/base64_decode.hpp
index 5e39a08..ebaf712 100644
--- a/include/nbdl/util/base64_decode.hpp
+++ b/include/nbdl/util/base64_decode.hpp
@@ -168,9 +168,9 @@ namespace nbdl::util
       using base64_detail::validate;
       using base64_detail::decode;
 
+      if (not validate(input)) return false;
       if (not prepare_output_buffer(output, target_decoded_length(input))) return false;
       if (output.size() == 0) return true;
-      if (not validate(input)) return false;
 
       return decode(std::forward<Input>(input), output);
     }
-- 
2.43.0


From d6d648fee4bda701afca7150c91d87a422c120bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 03/14] fix: a tile of the bottom row's first square could be
 moved off the board

The guard for looking at the square below admitted the first square of the
bottom row, so a square outside the board was read and, where it held zero,
swapped with the tile.
---
 example/tiles/game.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example/tiles/game.hpp b/example/tiles/game.hpp
index 0d6fee7..2370581 100644
--- a/example/tiles/game.hpp
+++ b/example/tiles/game.hpp
@@ -39,7 +39,7 @@ namespace tiles
       if (i >= g.width
         && g.board[i - g.width] == 0)       return i - g.width;     // above
 
-      if (i <= g.height * g.width - g.width
+      if (i < g.height * g.width - g.width
         && g.board[i + g.width] == 0)       return i + g.width;     // below
 
       // The tile is not adjacent to the empty space.
-- 
2.43.0


From 134ca057b14d7af327f30887806c8f136acab74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 04/14] fix: the private payload of a message was read from the
 identifier's slot

---
 include/nbdl/fwd/message.hpp | 2 +-
 include/nbdl/message.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/fwd/message.hpp b/include/nbdl/fwd/message.hpp
index 14ecf3a..9c7b09d 100644
--- a/include/nbdl/fwd/message.hpp
+++ b/include/nbdl/fwd/message.hpp
@@ -140,7 +140,7 @@ namespace nbdl::message
 
   template <typename Message>
   constexpr bool has_private_payload = !std::is_same<const no_impl,
-    decltype(get_uid_impl<std::decay_t<Message>>)>::value;
+    decltype(get_private_payload_impl<std::decay_t<Message>>)>::value;
 
   template <typename Message>
   constexpr bool is_path_normalizable = !std::is_same<const no_impl,
diff --git a/include/nbdl/message.hpp b/include/nbdl/message.hpp
index ed79f9b..0065ad6 100644
--- a/include/nbdl/message.hpp
+++ b/include/nbdl/message.hpp
@@ -97,7 +97,7 @@ namespace nbdl::message
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(upstream_create, get_path_impl, 0);
   NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_uid_impl, 1);
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(upstream_create, get_payload_impl, 2);
-  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_private_payload_impl, 1);
+  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_private_payload_impl, 3);
 
   template <typename ...T>
   constexpr auto get_channel_impl<upstream_create<T...>> = channel::upstream{};
-- 
2.43.0


From ecb6ca5a64923f3d4cab02a1ee4a4136ed9f9499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 05/14] fix: asking a downstream read for its confirmation did
 not compile

---
 include/nbdl/message.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/nbdl/message.hpp b/include/nbdl/message.hpp
index 0065ad6..9ef429a 100644
--- a/include/nbdl/message.hpp
+++ b/include/nbdl/message.hpp
@@ -314,7 +314,6 @@ namespace nbdl::message
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(downstream_read, get_path_impl, 0);
   NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(downstream_read, get_uid_impl, 1);
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(downstream_read, get_payload_impl, 2);
-  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(downstream_read, is_confirmed_impl, 3);
 
   template <typename ...T>
   constexpr auto get_channel_impl<downstream_read<T...>> = channel::downstream{};
-- 
2.43.0


From bd6cbf3f02ea55a8100943d6014dcff806f85547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 06/14] Undo the change of the tiles example: examples count as
 tests

---
 example/tiles/game.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example/tiles/game.hpp b/example/tiles/game.hpp
index 2370581..0d6fee7 100644
--- a/example/tiles/game.hpp
+++ b/example/tiles/game.hpp
@@ -39,7 +39,7 @@ namespace tiles
       if (i >= g.width
         && g.board[i - g.width] == 0)       return i - g.width;     // above
 
-      if (i < g.height * g.width - g.width
+      if (i <= g.height * g.width - g.width
         && g.board[i + g.width] == 0)       return i + g.width;     // below
 
       // The tile is not adjacent to the empty space.
-- 
2.43.0


From 0a248f1313e33065f94d80874f2e6507fbabe7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 07/14] fix: a variant with an empty alternative could not be
 hashed

---
 include/nbdl/binder/hash.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/binder/hash.hpp b/include/nbdl/binder/hash.hpp
index c8bbd2c..67c5d02 100644
--- a/include/nbdl/binder/hash.hpp
+++ b/include/nbdl/binder/hash.hpp
@@ -42,9 +42,10 @@ namespace nbdl::binder
 
       template <BindableVariant T>
       void bind(T const& t) {
-        nbdl::bind_variant(t, [&](auto const& type_id, auto const& value) {
+        // empty alternatives bind no value
+        nbdl::bind_variant(t, [&](auto const& type_id, auto const& ...value) {
           bind(type_id);
-          bind(value); 
+          (bind(value), ...);
         });
       }
 
-- 
2.43.0


From 044b9d5e25b3313724677cee14e35d593668687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 08/14] fix: a map_store never asked for a read of an absent
 key

---
 include/nbdl/map_store.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/map_store.hpp b/include/nbdl/map_store.hpp
index 7b28e80..c202588 100644
--- a/include/nbdl/map_store.hpp
+++ b/include/nbdl/map_store.hpp
@@ -123,6 +123,7 @@ namespace nbdl
     public:
 
     using hana_tag = Tag;
+    using not_in_set_tag = NotInSetTag;
 
     Container map;
 
@@ -187,7 +188,15 @@ namespace nbdl
     template <typename Store, typename Key, typename Fn>
     static constexpr void apply(Store&& s, Key&& k, Fn&& fn)
     {
-      nbdl::match(s.map, std::forward<Key>(k), std::forward<Fn>(fn));
+      auto itr = s.map.find(std::forward<Key>(k));
+      if (itr == s.map.end())
+      {
+        std::forward<Fn>(fn)(typename std::decay_t<Store>::not_in_set_tag{});
+      }
+      else
+      {
+        nbdl::match(itr->second, std::forward<Fn>(fn));
+      }
     }
   };
 }
-- 
2.43.0


From 2e6dd4c2c1bcb6f3c472851b26ffe4fc0d2180f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 09/14] fix: a read of an absent value never reached the
 producer once its store noted it

---
 include/nbdl/context.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/context.hpp b/include/nbdl/context.hpp
index af59db8..10d5651 100644
--- a/include/nbdl/context.hpp
+++ b/include/nbdl/context.hpp
@@ -161,6 +161,13 @@ namespace nbdl
       auto& store = stores[path_type];
       if constexpr(message::is_upstream<Message> && message::is_read<Message>)
       {
+        // Applying the message may replace `nbdl::trigger_read`
+        // with the 'unresolved' placeholder
+        bool is_triggered = false;
+        nbdl::match(store, message::get_path(m), hana::overload_linearly(
+          [&](nbdl::trigger_read) { is_triggered = true; },
+          [](auto const&) { }
+        ));
         nbdl::apply_message(store, m);
         // send response message
         nbdl::match(store, message::get_path(m), hana::overload_linearly(
@@ -174,7 +181,11 @@ namespace nbdl
           },
           [&](nbdl::unresolved)
           {
-            // Do nothing. A read is already in progress.
+            if (is_triggered)
+            {
+              propagate_upstream(m);
+            }
+            // Otherwise do nothing. A read is already in progress.
             // The Consumer should notify the appropriate requestors
             // once the response (downstream read message)
             // is received.
-- 
2.43.0


From 2de813a30cd1800bc487409f384ec26aa8a26ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 10/14] fix: hold_lazy in a loop never destroyed the value of
 the previous iteration

---
 include/nbdl/hold_lazy.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nbdl/hold_lazy.hpp b/include/nbdl/hold_lazy.hpp
index b72c0c0..6828783 100644
--- a/include/nbdl/hold_lazy.hpp
+++ b/include/nbdl/hold_lazy.hpp
@@ -59,6 +59,11 @@ namespace nbdl
       template <typename Resolver, typename ...Xs>
       void operator()(Resolver& resolver, Xs&& ...xs) noexcept
       {
+        if (engaged)
+        {
+          value.~T();
+          engaged = false;
+        }
         new(std::addressof(value)) T(this->f(resolver, std::forward<Xs>(xs)...));
         engaged = true;
       }
-- 
2.43.0


From a78fee6df932d830502d09995bc19804b08a5ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 11/14] fix: catch_ kept a reference to a handler passed as an
 lvalue

---
 include/nbdl/catch.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/catch.hpp b/include/nbdl/catch.hpp
index c256b32..cd122d6 100644
--- a/include/nbdl/catch.hpp
+++ b/include/nbdl/catch.hpp
@@ -12,6 +12,7 @@
 #include <boost/hana/functional/overload_linearly.hpp>
 #include <boost/hana/integral_constant.hpp>
 #include <boost/hana/type.hpp>
+#include <type_traits>
 #include <utility>
 
 namespace nbdl
@@ -63,7 +64,7 @@ namespace nbdl
     template <typename RejectionHandler>
     auto operator()(RejectionHandler&& fn) const
     {
-      return catch_t<RejectionHandler>{std::forward<RejectionHandler>(fn)};
+      return catch_t<std::decay_t<RejectionHandler>>{std::forward<RejectionHandler>(fn)};
     }
   };
 
-- 
2.43.0


From 3b23e7c15423b69781ac60cd28747668aa748a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:07 +0000
Subject: [PATCH 12/14] fix: a cookie without a value before NBDL_SESS hid the
 session cookie

---
 include/nbdl/app/detail/cookie_parser.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/nbdl/app/detail/cookie_parser.hpp b/include/nbdl/app/detail/cookie_parser.hpp
index fb0d5d6..53ee0f1 100644
--- a/include/nbdl/app/detail/cookie_parser.hpp
+++ b/include/nbdl/app/detail/cookie_parser.hpp
@@ -52,7 +52,6 @@ namespace nbdl::app::detail {
         return x;
       }
 
-      x = skip_past(x, '=');
       x = skip_past(x, ';');
     }
 
-- 
2.43.0


From 57be820ad0755cae823d8a95d29b304e1897cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:07 +0000
Subject: [PATCH 13/14] fix: the auth token was taken from a cookie whose name
 only ends in nbdl_auth, or missed

---
 .../nbdl/websocket/detail/get_auth_token.hpp  | 42 +++++++------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/include/nbdl/websocket/detail/get_auth_token.hpp b/include/nbdl/websocket/detail/get_auth_token.hpp
index 226eb04..60b262d 100644
--- a/include/nbdl/websocket/detail/get_auth_token.hpp
+++ b/include/nbdl/websocket/detail/get_auth_token.hpp
@@ -10,7 +10,9 @@
 #include <nbdl/auth_token.hpp>
 #include <nbdl/endpoint_handler.hpp>
 
+#include <algorithm>
 #include <iterator>
+#include <string>
 #include <string_view>
 
 namespace nbdl::websocket::detail
@@ -18,23 +20,13 @@ namespace nbdl::websocket::detail
   using std::string_view;
   using namespace std::string_view_literals;
 
+  constexpr string_view nbdl_auth_sv = "nbdl_auth="sv;
+
   template <typename Iter>
-  inline Iter check_auth_cookie(Iter begin, Iter end)
+  inline bool check_auth_cookie(Iter begin, Iter end)
   {
-    constexpr string_view nbdl_auth_sv = "nbdl_auth="sv;
-    constexpr long length = nbdl_auth_sv.size();
-
-    if (
-          std::distance(begin, end) >= length
-      &&  std::equal(nbdl_auth_sv.begin(), nbdl_auth_sv.end(), begin)
-      )
-    {
-      return std::next(begin, length);
-    }
-    else
-    {
-      return std::find(begin, end, ';');
-    }
+    return std::distance(begin, end) >= static_cast<long>(nbdl_auth_sv.size())
+      &&   std::equal(nbdl_auth_sv.begin(), nbdl_auth_sv.end(), begin);
   }
 
   template <typename Iter>
@@ -55,22 +47,16 @@ namespace nbdl::websocket::detail
 
     while (current != end)
     {
-      current = check_auth_cookie(current, cookies.end());
-      if (*current == ';')
+      // go past the space that follows a semicolon
+      current = std::find_if(current, end, [](char c) { return c != ' '; });
+      if (check_auth_cookie(current, end))
       {
-        if (std::distance(current, end) > 2)
-        {
-          // go past semicolon and space
-          std::advance(current, 2);
-        }
-        else
-        {
-          return auth_token_t{};
-        }
+        return take_cookie_value(std::next(current, nbdl_auth_sv.size()), end);
       }
-      else
+      current = std::find(current, end, ';');
+      if (current != end)
       {
-        return take_cookie_value(current, end);
+        ++current;
       }
     }
 
-- 
2.43.0


From ad5efafed2617e9c6d2f8c0d9722c254ebea4c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:53 +0000
Subject: [PATCH 14/14] fix: a handshake line without a colon replaced the key
 or the cookies

---
 include/nbdl/websocket/detail/parse_handshake_request.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nbdl/websocket/detail/parse_handshake_request.hpp b/include/nbdl/websocket/detail/parse_handshake_request.hpp
index 55486fe..60a4f1a 100644
--- a/include/nbdl/websocket/detail/parse_handshake_request.hpp
+++ b/include/nbdl/websocket/detail/parse_handshake_request.hpp
@@ -36,6 +36,12 @@ namespace nbdl::websocket::detail
     const auto cookie_header = "cookies"sv;
     auto token_pos = std::find(header.begin(), header.end(), ':');
 
+    if (token_pos == header.end())
+    {
+      // a line without a colon is not a header
+      return;
+    }
+
     std::transform(header.begin(), token_pos, header.begin(), [](auto c) { return std::tolower(c); });
 
     // I'm not sure it is necessary to validate characters to see if headers are valid
-- 
2.43.0

