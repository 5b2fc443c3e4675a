From 53d74912088a7607644a593d9ef29cd9cc1b70b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 01/18] fix: unsigned_integer range(Outside(min, max))
 referenced an undefined variable

---
 .../src/validator_handlers/unsigned_integer/mod.rs            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
index bf347d9..ab48f4f 100644
--- a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
@@ -142,13 +142,13 @@ impl ValidatorHandler for UnsignedIntegerHandler {
                                     Some(max) => {
                                         if *inclusive {
                                             quote! {
-                                                if (#min..=#max).contains(&i) {
+                                                if (#min..=#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
                                         } else {
                                             quote! {
-                                                if (#min..#max).contains(&i) {
+                                                if (#min..#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
-- 
2.43.0


From 3f8c5372a476cd9997e6ea99e8cac6f977379c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 02/18] fix: length(min = N, max = N) referenced an undefined
 variable

---
 validators-derive/src/validator_handlers/length/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/validators-derive/src/validator_handlers/length/mod.rs b/validators-derive/src/validator_handlers/length/mod.rs
index 48bdb82..ab5a66a 100644
--- a/validators-derive/src/validator_handlers/length/mod.rs
+++ b/validators-derive/src/validator_handlers/length/mod.rs
@@ -77,6 +77,8 @@ impl ValidatorHandler for LengthHandler {
                         if let Some(max) = type_attribute.max {
                             if min == max {
                                 quote! {
+                                    let length = CollectionLength::len(v);
+
                                     match ::core::cmp::Ord::cmp(&length, &#min) {
                                         ::core::cmp::Ordering::Equal => (),
                                         ::core::cmp::Ordering::Less => return Err(#error_path::TooSmall),
-- 
2.43.0


From de772b021ba94be7717a15899f9514bc4c4840d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 03/18] fix: MAC address and UUID formatting wrote the
 separator as a number

---
 validators-derive/src/validator_handlers/mac_address/mod.rs | 4 ++--
 validators-derive/src/validator_handlers/uuid/mod.rs        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index 1d9bd78..2347408 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -282,7 +282,7 @@ impl ValidatorHandler for MacAddressHandler {
                     });
 
             token_stream.extend(if type_attribute.case.upper() {
-                        if let Some(separator) = type_attribute.separator.allow() {
+                        if let Some(separator) = type_attribute.separator.allow().map(char::from) {
                             quote! {
                                 impl ToMacAddressString for #name {
                                     #[inline]
@@ -306,7 +306,7 @@ impl ValidatorHandler for MacAddressHandler {
                                 }
                             }
                         }
-                    } else if let Some(separator) = type_attribute.separator.allow() {
+                    } else if let Some(separator) = type_attribute.separator.allow().map(char::from) {
                         quote! {
                             impl ToMacAddressString for #name {
                                 #[inline]
diff --git a/validators-derive/src/validator_handlers/uuid/mod.rs b/validators-derive/src/validator_handlers/uuid/mod.rs
index 28432f8..8b41612 100644
--- a/validators-derive/src/validator_handlers/uuid/mod.rs
+++ b/validators-derive/src/validator_handlers/uuid/mod.rs
@@ -270,7 +270,7 @@ impl ValidatorHandler for UuidHandler {
                     });
 
             token_stream.extend(if type_attribute.case.upper() {
-                        if let Some(separator) = type_attribute.separator.allow() {
+                        if let Some(separator) = type_attribute.separator.allow().map(char::from) {
                             quote! {
                                 impl ToUuidString for #name {
                                     #[inline]
@@ -310,7 +310,7 @@ impl ValidatorHandler for UuidHandler {
                                 }
                             }
                         }
-                    } else if let Some(separator) = type_attribute.separator.allow() {
+                    } else if let Some(separator) = type_attribute.separator.allow().map(char::from) {
                         quote! {
                             impl ToUuidString for #name {
                                 #[inline]
-- 
2.43.0


From a5148380f36f7dd4984bca486351c8480f07066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:29 +0000
Subject: [PATCH 04/18] fix: mac_address with an optional separator indexed
 past the end of short input

---
 validators-derive/src/validator_handlers/mac_address/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index 2347408..b0f5048 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -80,6 +80,10 @@ impl ValidatorHandler for MacAddressHandler {
                                 no_colon_counter += 1;
                             }
 
+                            if length < 15 - no_colon_counter {
+                                return Err(#error_path::Invalid);
+                            }
+
                             let fifth = &bytes[(12 - no_colon_counter)..(14 - no_colon_counter)];
 
                             if bytes[14 - no_colon_counter] != #separator {
-- 
2.43.0


From c6b722bc83b703fdea6184109c9e795bc9655ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 05/18] fix: email local part limits were skipped, or
 underflowed, after a long comment or non-ASCII text

---
 .../src/validator_handlers/email/mod.rs       | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 478d5a9..64a4e87 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -636,7 +636,8 @@ impl ValidatorHandler for EmailHandler {
                 }
             } else {
                 quote! {
-                    if e < 128 {
+                    if p >= 63 || e < 128 {
+                        // too long or not allowed
                         return Err(#error_path::Invalid);
                     } else {
                         last_dot = false;
@@ -651,7 +652,8 @@ impl ValidatorHandler for EmailHandler {
                 }
             } else {
                 quote! {
-                    if e < 128 {
+                    if p >= 64 || e < 128 {
+                        // too long or not allowed
                         return Err(#error_path::Invalid);
                     } else {
                         last_dot = false;
@@ -901,7 +903,7 @@ impl ValidatorHandler for EmailHandler {
                     if length > local_part_length {
                         match bytes[local_part_length..]
                             .iter()
-                            .take(64 - local_part_length)
+                            .take(64usize.saturating_sub(local_part_length))
                             .copied()
                             .position(|e| e == b')')
                         {
@@ -1008,7 +1010,7 @@ impl ValidatorHandler for EmailHandler {
                             // quoted
                             let mut p = local_part_length + 1;
 
-                            if p == 63 || p == length {
+                            if p >= 63 || p == length {
                                 // too long
                                 return Err(#error_path::Invalid);
                             }
@@ -1061,7 +1063,7 @@ impl ValidatorHandler for EmailHandler {
                                     | b'?'
                                     | b'^'..=b'`'
                                     | b'{'..=b'~' => {
-                                        if p == 63 {
+                                        if p >= 63 {
                                             // too long
                                             return Err(#error_path::Invalid);
                                         }
@@ -1070,7 +1072,7 @@ impl ValidatorHandler for EmailHandler {
                                         escaping = false;
                                     }
                                     b'.' => {
-                                        if p == 63 {
+                                        if p >= 63 {
                                             // too long
                                             return Err(#error_path::Invalid);
                                         }
@@ -1083,7 +1085,7 @@ impl ValidatorHandler for EmailHandler {
                                         escaping = false;
                                     }
                                     b'\\' => {
-                                        if p == 63 {
+                                        if p >= 63 {
                                             // too long
                                             return Err(#error_path::Invalid);
                                         }
@@ -1092,7 +1094,7 @@ impl ValidatorHandler for EmailHandler {
                                         escaping = !escaping;
                                     }
                                     b' ' | b'\t' => {
-                                        if p == 63 {
+                                        if p >= 63 {
                                             // too long
                                             return Err(#error_path::Invalid);
                                         }
@@ -1100,7 +1102,7 @@ impl ValidatorHandler for EmailHandler {
                                         need_quoted = true;
                                     }
                                     b'(' | b')' | b',' | b':'..=b'<' | b'>' | b'@' | b'[' | b']' => {
-                                        if p == 63 || !escaping {
+                                        if p >= 63 || !escaping {
                                             // too long or not in escaping
                                             return Err(#error_path::Invalid);
                                         }
@@ -1109,7 +1111,7 @@ impl ValidatorHandler for EmailHandler {
                                     }
                                     b'"' => {
                                         if escaping {
-                                            if p == 63 {
+                                            if p >= 63 {
                                                 // too long or not in escaping
                                                 return Err(#error_path::Invalid);
                                             }
@@ -1186,7 +1188,7 @@ impl ValidatorHandler for EmailHandler {
                                     | b'?'
                                     | b'^'..=b'`'
                                     | b'{'..=b'~' => {
-                                        if p == 64 {
+                                        if p >= 64 {
                                             // too long
                                             return Err(#error_path::Invalid);
                                         }
@@ -1194,7 +1196,7 @@ impl ValidatorHandler for EmailHandler {
                                         last_dot = false;
                                     }
                                     b'.' => {
-                                        if p == 64 || last_dot {
+                                        if p >= 64 || last_dot {
                                             // too long or '.' appears consecutively
                                             return Err(#error_path::Invalid);
                                         }
-- 
2.43.0


From 826c48b0f9550ad36840a151a30105b208364c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 06/18] fix: email accepted anything after the comment that
 follows the domain part

---
 validators-derive/src/validator_handlers/email/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 64a4e87..dcf7e86 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -972,6 +972,12 @@ impl ValidatorHandler for EmailHandler {
                             match bytes[domain_part_length..].iter().copied().position(|e| e == b')') {
                                 Some(mut index) => {
                                     index += domain_part_length;
+
+                                    if index + 1 != length {
+                                        // not the end
+                                        return Err(#error_path::Invalid);
+                                    }
+
                                     let comment =
                                         &s[domain_part_length..index];
 
-- 
2.43.0


From ba4226230bf666f696386c5c7ffc9c060ebbc398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 07/18] fix: email kept escaping after an escaped space or tab
 in a quoted local part

---
 validators-derive/src/validator_handlers/email/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index dcf7e86..8908eb9 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1106,6 +1106,8 @@ impl ValidatorHandler for EmailHandler {
                                         }
 
                                         need_quoted = true;
+                                        last_dot = false;
+                                        escaping = false;
                                     }
                                     b'(' | b')' | b',' | b':'..=b'<' | b'>' | b'@' | b'[' | b']' => {
                                         if p >= 63 || !escaping {
-- 
2.43.0


From 1bc5f82ebf1c374217104265a2ddb09c22dccfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 08/18] fix: email accepted an unquoted local part ending with
 a dot

---
 validators-derive/src/validator_handlers/email/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 8908eb9..0abca68 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1126,6 +1126,10 @@ impl ValidatorHandler for EmailHandler {
 
                                             escaping = false;
                                         } else {
+                                            if last_dot {
+                                                need_quoted = true;
+                                            }
+
                                             let local_part =
                                                 &s[(local_part_length + 1)..p];
 
@@ -1212,6 +1216,11 @@ impl ValidatorHandler for EmailHandler {
                                         last_dot = true;
                                     }
                                     b'@' | b'(' => {
+                                        if last_dot {
+                                            // '.' is not allowed as the last character
+                                            return Err(#error_path::Invalid);
+                                        }
+
                                         let local_part =
                                             &s[local_part_length..p];
 
-- 
2.43.0


From 78b9dc7d1a1e1c249024223df1df905d72a26738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 09/18] fix: email let the ASCII form of the part after '@'
 exceed 255 bytes when the local part is quoted

---
 .../src/validator_handlers/email/mod.rs              | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 0abca68..1f316b1 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1012,7 +1012,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let (local_part, need_quoted, quoted) = if bytes[local_part_length] == b'"' {
+                        let (local_part, need_quoted) = if bytes[local_part_length] == b'"' {
                             // quoted
                             let mut p = local_part_length + 1;
 
@@ -1140,7 +1140,7 @@ impl ValidatorHandler for EmailHandler {
                                                 return Err(#error_path::Invalid);
                                             }
 
-                                            break (local_part, need_quoted, true);
+                                            break (local_part, need_quoted);
                                         }
                                     }
                                     _ => {
@@ -1226,7 +1226,7 @@ impl ValidatorHandler for EmailHandler {
 
                                         local_part_length = p;
 
-                                        break (local_part, false, false);
+                                        break (local_part, false);
                                     }
                                     _ => {
                                         #handle_unrecognized_byte_unquoted
@@ -1262,11 +1262,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let mut domain_part_length_offset: isize = if quoted && need_quoted {
-                            -2
-                        } else {
-                            0
-                        };
+                        let mut domain_part_length_offset: isize = 0;
 
                         let (host, is_local): (validators_prelude::Host, bool) = match bytes[domain_part_length] {
                             b'(' => return Err(#error_path::Invalid),
-- 
2.43.0


From 121e437b98764dcaad7cf420dd263ee5d95dae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 10/18] fix: to_email_string dropped the quotes of a local part
 that needs them when comments are disallowed

---
 .../src/validator_handlers/email/mod.rs           | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 1f316b1..17bde0f 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1546,11 +1546,12 @@ impl ValidatorHandler for EmailHandler {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
                                     let local_part = &self.local_part;
+                                    let quote = if self.need_quoted { "\"" } else { "" };
 
                                     match &self.domain_part {
-                                        validators_prelude::Host::IPv4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
-                                        validators_prelude::Host::IPv6(ip) => validators_prelude::format!("{}@[IPv6:{}]", local_part, ip),
-                                        validators_prelude::Host::Domain(domain) => validators_prelude::format!("{}@{}", local_part, domain),
+                                        validators_prelude::Host::IPv4(ip) => validators_prelude::format!("{}{}{}@[{}]", quote, local_part, quote, ip),
+                                        validators_prelude::Host::IPv6(ip) => validators_prelude::format!("{}{}{}@[IPv6:{}]", quote, local_part, quote, ip),
+                                        validators_prelude::Host::Domain(domain) => validators_prelude::format!("{}{}{}@{}", quote, local_part, quote, domain),
                                     }
                                 }
                             }
@@ -1562,10 +1563,11 @@ impl ValidatorHandler for EmailHandler {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
                                     let local_part = &self.local_part;
+                                    let quote = if self.need_quoted { "\"" } else { "" };
 
                                     match &self.domain_part {
-                                        ::std::net::IpAddr::V4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
-                                        ::std::net::IpAddr::V6(ip) => validators_prelude::format!("{}@[IPv6:{}]", local_part, ip),
+                                        ::std::net::IpAddr::V4(ip) => validators_prelude::format!("{}{}{}@[{}]", quote, local_part, quote, ip),
+                                        ::std::net::IpAddr::V6(ip) => validators_prelude::format!("{}{}{}@[IPv6:{}]", quote, local_part, quote, ip),
                                     }
                                 }
                             }
@@ -1577,9 +1579,10 @@ impl ValidatorHandler for EmailHandler {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
                                     let local_part = &self.local_part;
+                                    let quote = if self.need_quoted { "\"" } else { "" };
                                     let domain_part = &self.domain_part;
 
-                                    validators_prelude::format!("{}@{}", local_part, domain_part)
+                                    validators_prelude::format!("{}{}{}@{}", quote, local_part, quote, domain_part)
                                 }
                             }
                         }
-- 
2.43.0


From 7bb52e6ac1ce1b25f852872e96c65c76599a0e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 11/18] fix: domain kept the port inside the stored domain of
 an IPv4 address

---
 validators-derive/src/validator_handlers/domain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index 54bf8aa..f4fbd55 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -636,7 +636,7 @@ impl ValidatorHandler for DomainHandler {
 
                                 #check_local
 
-                                (s.into_owned(), port, true, is_local)
+                                (validators_prelude::String::from(domain_str), port, true, is_local)
                             }
                         }
                     };
-- 
2.43.0


From 68d081e9f7e82708fdfb834bb76cad68f579b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 12/18] fix: text and line with a trimmed minimum let control
 characters through among leading whitespace

---
 .../src/validator_handlers/line/mod.rs        | 96 +++++++++----------
 .../src/validator_handlers/text/mod.rs        | 96 +++++++++----------
 2 files changed, 96 insertions(+), 96 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 962aafd..2954f39 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for LineHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 0f230db..9f9eb45 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for TextHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
-- 
2.43.0


From 0b8a5e01fdb7d79c9081a7db0291ac33db3f6c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 13/18] fix: base32, base64 and base64_url accepted lengths
 that no data is encoded to

---
 validators-derive/src/validator_handlers/base32/mod.rs     | 5 +++++
 validators-derive/src/validator_handlers/base64/mod.rs     | 5 +++++
 validators-derive/src/validator_handlers/base64_url/mod.rs | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/validators-derive/src/validator_handlers/base32/mod.rs b/validators-derive/src/validator_handlers/base32/mod.rs
index 63690fd..3d111b1 100644
--- a/validators-derive/src/validator_handlers/base32/mod.rs
+++ b/validators-derive/src/validator_handlers/base32/mod.rs
@@ -102,6 +102,11 @@ impl ValidatorHandler for Base32Handler {
 
                         #check_last_length
 
+                        if matches!(last_length, 1 | 3 | 6) {
+                            // no data can be encoded to this length
+                            return Err(#error_path::Invalid);
+                        }
+
                         let last_bytes = if length > 8 {
                             for e in v.iter().copied().take(length - last_length) {
                                 match e {
diff --git a/validators-derive/src/validator_handlers/base64/mod.rs b/validators-derive/src/validator_handlers/base64/mod.rs
index 97dbf45..3c8157c 100644
--- a/validators-derive/src/validator_handlers/base64/mod.rs
+++ b/validators-derive/src/validator_handlers/base64/mod.rs
@@ -102,6 +102,11 @@ impl ValidatorHandler for Base64Handler {
 
                         #check_last_length
 
+                        if last_length == 1 {
+                            // no data can be encoded to this length
+                            return Err(#error_path::Invalid);
+                        }
+
                         let last_bytes = if length > 4 {
                             for e in v.iter().copied().take(length - last_length) {
                                 match e {
diff --git a/validators-derive/src/validator_handlers/base64_url/mod.rs b/validators-derive/src/validator_handlers/base64_url/mod.rs
index 0969658..915e5ba 100644
--- a/validators-derive/src/validator_handlers/base64_url/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url/mod.rs
@@ -103,6 +103,11 @@ impl ValidatorHandler for Base64UrlHandler {
 
                         #check_last_length
 
+                        if last_length == 1 {
+                            // no data can be encoded to this length
+                            return Err(#error_path::Invalid);
+                        }
+
                         let last_bytes = if length > 4 {
                             for e in v.iter().copied().take(length - last_length) {
                                 match e {
-- 
2.43.0


From a994702448448816db0af25767d145a21a70b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 14/18] fix: validating a decoded base-N value accepted text
 that parsing it rejects

---
 .../src/validator_handlers/base32_decoded/mod.rs              | 4 ++--
 .../src/validator_handlers/base64_decoded/mod.rs              | 4 ++--
 .../src/validator_handlers/base64_url_decoded/mod.rs          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/validators-derive/src/validator_handlers/base32_decoded/mod.rs b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
index 9879c38..d3407fa 100644
--- a/validators-derive/src/validator_handlers/base32_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
@@ -72,7 +72,7 @@ impl ValidatorHandler for Base32DecodedHandler {
                                 }
                             }
 
-                            return Ok(());
+                            return Self::v_parse_u8_slice(v).map(|_| ());
                         }
                         _ => return Err(#error_path::Invalid),
                     }
@@ -157,7 +157,7 @@ impl ValidatorHandler for Base32DecodedHandler {
 
                                 loop {
                                     if p == last_length {
-                                        return Ok(());
+                                        return Self::v_parse_u8_slice(v).map(|_| ());
                                     }
 
                                     let e = last_bytes[p];
diff --git a/validators-derive/src/validator_handlers/base64_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
index 1467c42..956bd3f 100644
--- a/validators-derive/src/validator_handlers/base64_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
@@ -72,7 +72,7 @@ impl ValidatorHandler for Base64DecodedHandler {
                                 }
                             }
 
-                            return Ok(());
+                            return Self::v_parse_u8_slice(v).map(|_| ());
                         }
                         _ => return Err(#error_path::Invalid),
                     }
@@ -157,7 +157,7 @@ impl ValidatorHandler for Base64DecodedHandler {
 
                                 loop {
                                     if p == last_length {
-                                        return Ok(());
+                                        return Self::v_parse_u8_slice(v).map(|_| ());
                                     }
 
                                     let e = last_bytes[p];
diff --git a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
index ab33ee1..a863c86 100644
--- a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
@@ -72,7 +72,7 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
                                 }
                             }
 
-                            return Ok(());
+                            return Self::v_parse_u8_slice(v).map(|_| ());
                         }
                         _ => return Err(#error_path::Invalid),
                     }
@@ -157,7 +157,7 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
 
                                 loop {
                                     if p == last_length {
-                                        return Ok(());
+                                        return Self::v_parse_u8_slice(v).map(|_| ());
                                     }
 
                                     let e = last_bytes[p];
-- 
2.43.0


From f0a6aa346ffe74d47895ef42368b8a723861ec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:56 +0000
Subject: [PATCH 15/18] fix: decoding base-N validators accepted padding in the
 middle of the text

---
 .../src/validator_handlers/base32_decoded/mod.rs    | 13 +++++++++++++
 .../src/validator_handlers/base64_decoded/mod.rs    | 13 +++++++++++++
 .../validator_handlers/base64_url_decoded/mod.rs    | 13 +++++++++++++
 3 files changed, 39 insertions(+)

diff --git a/validators-derive/src/validator_handlers/base32_decoded/mod.rs b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
index d3407fa..5f1df61 100644
--- a/validators-derive/src/validator_handlers/base32_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
@@ -79,6 +79,17 @@ impl ValidatorHandler for Base32DecodedHandler {
                 }
             };
 
+            let check_padding_position = if type_attribute.padding.disallow() {
+                quote! {}
+            } else {
+                quote! {
+                    // a concatenation of padded encodings can also be decoded, but it is not an encoding
+                    if v.iter().copied().skip_while(|e| *e != b'=').any(|e| e != b'=') {
+                        return Err(#error_path::Invalid);
+                    }
+                }
+            };
+
             let decode = match type_attribute.padding {
                 TriAllow::Allow => {
                     quote! {
@@ -113,6 +124,8 @@ impl ValidatorHandler for Base32DecodedHandler {
                                     return Err(#error_path::Invalid);
                                 }
 
+                                #check_padding_position
+
                                 #decode
                             }
 
diff --git a/validators-derive/src/validator_handlers/base64_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
index 956bd3f..b5b8d36 100644
--- a/validators-derive/src/validator_handlers/base64_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
@@ -79,6 +79,17 @@ impl ValidatorHandler for Base64DecodedHandler {
                 }
             };
 
+            let check_padding_position = if type_attribute.padding.disallow() {
+                quote! {}
+            } else {
+                quote! {
+                    // a concatenation of padded encodings can also be decoded, but it is not an encoding
+                    if v.iter().copied().skip_while(|e| *e != b'=').any(|e| e != b'=') {
+                        return Err(#error_path::Invalid);
+                    }
+                }
+            };
+
             let decode = match type_attribute.padding {
                 TriAllow::Allow => {
                     quote! {
@@ -113,6 +124,8 @@ impl ValidatorHandler for Base64DecodedHandler {
                                     return Err(#error_path::Invalid);
                                 }
 
+                                #check_padding_position
+
                                 #decode
                             }
 
diff --git a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
index a863c86..010a309 100644
--- a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
@@ -79,6 +79,17 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
                 }
             };
 
+            let check_padding_position = if type_attribute.padding.disallow() {
+                quote! {}
+            } else {
+                quote! {
+                    // a concatenation of padded encodings can also be decoded, but it is not an encoding
+                    if v.iter().copied().skip_while(|e| *e != b'=').any(|e| e != b'=') {
+                        return Err(#error_path::Invalid);
+                    }
+                }
+            };
+
             let decode = match type_attribute.padding {
                 TriAllow::Allow => {
                     quote! {
@@ -113,6 +124,8 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
                                     return Err(#error_path::Invalid);
                                 }
 
+                                #check_padding_position
+
                                 #decode
                             }
 
-- 
2.43.0


From 975eec53ecdf5369d4b06144b7482a94fe9789f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 16/18] fix: host, domain and email missed a root dot or an
 IPv4 address produced by the IDNA mapping

---
 validators-derive/src/validator_handlers/domain/mod.rs | 5 +++++
 validators-derive/src/validator_handlers/email/mod.rs  | 5 +++++
 validators-derive/src/validator_handlers/host/mod.rs   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index f4fbd55..bd975a7 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -686,6 +686,11 @@ impl ValidatorHandler for DomainHandler {
                                 .to_ascii(domain_str)
                             {
                                 Ok(ascii_domain) => {
+                                    // the mapping can produce an IPv4 address that the input did not show
+                                    if validators_prelude::parse_ipv4_allow_an_ended_dot(&ascii_domain).is_ok() {
+                                        return Err(#error_path::Invalid);
+                                    }
+
                                     let port = #handle_port;
 
                                     let is_local = #handle_local_domain;
diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 17bde0f..d70d086 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -837,6 +837,11 @@ impl ValidatorHandler for EmailHandler {
                         .to_ascii(domain_str)
                     {
                         Ok(ascii_domain) => {
+                            // the mapping can produce a trailing dot that the input did not show
+                            if ascii_domain.ends_with('.') {
+                                return Err(#error_path::Invalid);
+                            }
+
                             domain_part_length += domain_str.len();
 
                             let is_local = #handle_local_domain;
diff --git a/validators-derive/src/validator_handlers/host/mod.rs b/validators-derive/src/validator_handlers/host/mod.rs
index 532471e..e7ed322 100644
--- a/validators-derive/src/validator_handlers/host/mod.rs
+++ b/validators-derive/src/validator_handlers/host/mod.rs
@@ -504,6 +504,11 @@ impl ValidatorHandler for HostHandler {
                         .to_ascii(domain_str)
                     {
                         Ok(ascii_domain) => {
+                            // the mapping can produce a trailing dot or an IPv4 address that the input did not show
+                            if ascii_domain.ends_with('.') || ::std::net::Ipv4Addr::from_str(&ascii_domain).is_ok() {
+                                return Err(#error_path::Invalid);
+                            }
+
                             let port = #handle_port;
 
                             let is_local = #handle_local_domain;
-- 
2.43.0


From 907e7b7d64bf283aafa84b64b6f0873749b9f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:30 +0000
Subject: [PATCH 17/18] fix: deserialising url, semver and semver_req recursed
 forever

---
 validators-derive/src/validator_handlers/semver/mod.rs     | 2 +-
 validators-derive/src/validator_handlers/semver_req/mod.rs | 2 +-
 validators-derive/src/validator_handlers/url/mod.rs        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/validators-derive/src/validator_handlers/semver/mod.rs b/validators-derive/src/validator_handlers/semver/mod.rs
index 8f59c27..4ccc0b9 100644
--- a/validators-derive/src/validator_handlers/semver/mod.rs
+++ b/validators-derive/src/validator_handlers/semver/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/semver_req/mod.rs b/validators-derive/src/validator_handlers/semver_req/mod.rs
index 772c9ae..0d0491c 100644
--- a/validators-derive/src/validator_handlers/semver_req/mod.rs
+++ b/validators-derive/src/validator_handlers/semver_req/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverReqHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/url/mod.rs b/validators-derive/src/validator_handlers/url/mod.rs
index 069b3dd..573ded2 100644
--- a/validators-derive/src/validator_handlers/url/mod.rs
+++ b/validators-derive/src/validator_handlers/url/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for UrlHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
-- 
2.43.0


From 9d3bd9e7689e90cd643f12cdd6195d65cd8b673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:26 +0000
Subject: [PATCH 18/18] fix: signed_integer could not be deserialised from an
 unsigned number, such as any positive JSON integer

---
 .../src/validator_handlers/signed_integer/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/validators-derive/src/validator_handlers/signed_integer/mod.rs b/validators-derive/src/validator_handlers/signed_integer/mod.rs
index d75670a..92419e5 100644
--- a/validators-derive/src/validator_handlers/signed_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/signed_integer/mod.rs
@@ -641,6 +641,22 @@ impl ValidatorHandler for SignedIntegerHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateSignedInteger>::parse_i128(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                self.visit_i128(v as i128)
+                                            }
+
+                                            fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                match <i128 as ::core::convert::TryFrom<u128>>::try_from(v) {
+                                                    Ok(v) => self.visit_i128(v),
+                                                    Err(e) => Err(validators_prelude::serde::de::Error::custom(e)),
+                                                }
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
-- 
2.43.0

