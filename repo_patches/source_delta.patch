From b2ee79a1bc6f10c9f59b54b6c6bbaa9aece445ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 01/20] fix: domain: do not include the port in the domain of
 an IPv4 address

---
 validators-derive/src/validator_handlers/domain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index 54bf8aa..f4fbd55 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -636,7 +636,7 @@ impl ValidatorHandler for DomainHandler {
 
                                 #check_local
 
-                                (s.into_owned(), port, true, is_local)
+                                (validators_prelude::String::from(domain_str), port, true, is_local)
                             }
                         }
                     };
-- 
2.43.0


From 404a6f95f363aa2d2607e4e6834869eac299358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 02/20] fix: mac_address: reject too short strings with
 separators instead of panicking

---
 validators-derive/src/validator_handlers/mac_address/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index 1d9bd78..adc703e 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -80,6 +80,10 @@ impl ValidatorHandler for MacAddressHandler {
                                 no_colon_counter += 1;
                             }
 
+                            if length < 16 - no_colon_counter {
+                                return Err(#error_path::Invalid);
+                            }
+
                             let fifth = &bytes[(12 - no_colon_counter)..(14 - no_colon_counter)];
 
                             if bytes[14 - no_colon_counter] != #separator {
-- 
2.43.0


From 8a5155a2c12b14b8b51946dd3d3bf3dd4a4fb54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 03/20] fix: mac_address, uuid: write the separator as a
 character instead of its code number

---
 validators-derive/src/validator_handlers/mac_address/mod.rs | 4 ++--
 validators-derive/src/validator_handlers/uuid/mod.rs        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index adc703e..97a7f80 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -295,7 +295,7 @@ impl ValidatorHandler for MacAddressHandler {
 
                                         validators_prelude::format!(
                                             "{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}",
-                                            bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator
+                                            bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = char::from(#separator)
                                         )
                                     }
                                 }
@@ -319,7 +319,7 @@ impl ValidatorHandler for MacAddressHandler {
 
                                     validators_prelude::format!(
                                         "{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}",
-                                        bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator
+                                        bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = char::from(#separator)
                                     )
                                 }
                             }
diff --git a/validators-derive/src/validator_handlers/uuid/mod.rs b/validators-derive/src/validator_handlers/uuid/mod.rs
index 28432f8..2390cd7 100644
--- a/validators-derive/src/validator_handlers/uuid/mod.rs
+++ b/validators-derive/src/validator_handlers/uuid/mod.rs
@@ -295,7 +295,7 @@ impl ValidatorHandler for UuidHandler {
                                             bytes[2],
                                             bytes[1],
                                             bytes[0],
-                                            separator = #separator
+                                            separator = char::from(#separator)
                                         )
                                     }
                                 }
@@ -335,7 +335,7 @@ impl ValidatorHandler for UuidHandler {
                                         bytes[2],
                                         bytes[1],
                                         bytes[0],
-                                        separator = #separator
+                                        separator = char::from(#separator)
                                     )
                                 }
                             }
-- 
2.43.0


From 705701ccef23c0632f6234892d9e566c085b3a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 04/20] fix: base*_decoded: make validating and parsing accept
 the same inputs

---
 .../src/validator_handlers/base32_decoded/mod.rs      | 11 ++++++++---
 .../src/validator_handlers/base64_decoded/mod.rs      | 11 ++++++++---
 .../src/validator_handlers/base64_url_decoded/mod.rs  | 11 ++++++++---
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/validators-derive/src/validator_handlers/base32_decoded/mod.rs b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
index 9879c38..11ada04 100644
--- a/validators-derive/src/validator_handlers/base32_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
@@ -109,9 +109,7 @@ impl ValidatorHandler for Base32DecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_check_u8_slice(v)?;
 
                                 #decode
                             }
@@ -121,7 +119,14 @@ impl ValidatorHandler for Base32DecodedHandler {
                                 Self::v_validate_u8_slice(s.as_bytes())
                             }
 
+                            #[inline]
                             fn v_validate_u8_slice(v: &[u8]) -> Result<(), #error_path> {
+                                Self::v_parse_u8_slice(v)?;
+
+                                Ok(())
+                            }
+
+                            fn v_check_u8_slice(v: &[u8]) -> Result<(), #error_path> {
                                 let length = v.len();
 
                                 if length == 0 {
diff --git a/validators-derive/src/validator_handlers/base64_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
index 1467c42..3b11441 100644
--- a/validators-derive/src/validator_handlers/base64_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
@@ -109,9 +109,7 @@ impl ValidatorHandler for Base64DecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_check_u8_slice(v)?;
 
                                 #decode
                             }
@@ -121,7 +119,14 @@ impl ValidatorHandler for Base64DecodedHandler {
                                 Self::v_validate_u8_slice(s.as_bytes())
                             }
 
+                            #[inline]
                             fn v_validate_u8_slice(v: &[u8]) -> Result<(), #error_path> {
+                                Self::v_parse_u8_slice(v)?;
+
+                                Ok(())
+                            }
+
+                            fn v_check_u8_slice(v: &[u8]) -> Result<(), #error_path> {
                                 let length = v.len();
 
                                 if length == 0 {
diff --git a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
index ab33ee1..c48de50 100644
--- a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
@@ -109,9 +109,7 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_check_u8_slice(v)?;
 
                                 #decode
                             }
@@ -121,7 +119,14 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
                                 Self::v_validate_u8_slice(s.as_bytes())
                             }
 
+                            #[inline]
                             fn v_validate_u8_slice(v: &[u8]) -> Result<(), #error_path> {
+                                Self::v_parse_u8_slice(v)?;
+
+                                Ok(())
+                            }
+
+                            fn v_check_u8_slice(v: &[u8]) -> Result<(), #error_path> {
                                 let length = v.len();
 
                                 if length == 0 {
-- 
2.43.0


From 60f0f35fa3810a19273d5e8d8216929215ffcc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:32 +0000
Subject: [PATCH 05/20] fix: base32, base64, base64_url: reject strings whose
 length no encoded data can have

---
 validators-derive/src/validator_handlers/base32/mod.rs     | 6 +++++-
 validators-derive/src/validator_handlers/base64/mod.rs     | 6 +++++-
 validators-derive/src/validator_handlers/base64_url/mod.rs | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/validators-derive/src/validator_handlers/base32/mod.rs b/validators-derive/src/validator_handlers/base32/mod.rs
index 63690fd..4a6ae3e 100644
--- a/validators-derive/src/validator_handlers/base32/mod.rs
+++ b/validators-derive/src/validator_handlers/base32/mod.rs
@@ -119,7 +119,11 @@ impl ValidatorHandler for Base32Handler {
 
                         loop {
                             if p == last_length {
-                                return Ok(());
+                                return match last_length {
+                                    // no data can be encoded to this length
+                                    1 | 3 | 6 => Err(#error_path::Invalid),
+                                    _ => Ok(()),
+                                };
                             }
 
                             let e = last_bytes[p];
diff --git a/validators-derive/src/validator_handlers/base64/mod.rs b/validators-derive/src/validator_handlers/base64/mod.rs
index 97dbf45..b1d4ddd 100644
--- a/validators-derive/src/validator_handlers/base64/mod.rs
+++ b/validators-derive/src/validator_handlers/base64/mod.rs
@@ -119,7 +119,11 @@ impl ValidatorHandler for Base64Handler {
 
                         loop {
                             if p == last_length {
-                                return Ok(());
+                                return match last_length {
+                                    // no data can be encoded to this length
+                                    1 => Err(#error_path::Invalid),
+                                    _ => Ok(()),
+                                };
                             }
 
                             let e = last_bytes[p];
diff --git a/validators-derive/src/validator_handlers/base64_url/mod.rs b/validators-derive/src/validator_handlers/base64_url/mod.rs
index 0969658..0b8c07a 100644
--- a/validators-derive/src/validator_handlers/base64_url/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url/mod.rs
@@ -120,7 +120,11 @@ impl ValidatorHandler for Base64UrlHandler {
 
                         loop {
                             if p == last_length {
-                                return Ok(());
+                                return match last_length {
+                                    // no data can be encoded to this length
+                                    1 => Err(#error_path::Invalid),
+                                    _ => Ok(()),
+                                };
                             }
 
                             let e = last_bytes[p];
-- 
2.43.0


From 3e953338a2da7f749c43aff6b14026483dd7f919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:32 +0000
Subject: [PATCH 06/20] fix: unsigned_integer: make ranges with both a lower
 and an upper bound usable as forbidden ranges

---
 .../src/validator_handlers/unsigned_integer/mod.rs            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
index bf347d9..ab48f4f 100644
--- a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
@@ -142,13 +142,13 @@ impl ValidatorHandler for UnsignedIntegerHandler {
                                     Some(max) => {
                                         if *inclusive {
                                             quote! {
-                                                if (#min..=#max).contains(&i) {
+                                                if (#min..=#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
                                         } else {
                                             quote! {
-                                                if (#min..#max).contains(&i) {
+                                                if (#min..#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
-- 
2.43.0


From 2246961d84470ae7c8f817b15e018aac86602253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:32 +0000
Subject: [PATCH 07/20] fix: length: make an exact length usable

---
 validators-derive/src/validator_handlers/length/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/validators-derive/src/validator_handlers/length/mod.rs b/validators-derive/src/validator_handlers/length/mod.rs
index 48bdb82..ab5a66a 100644
--- a/validators-derive/src/validator_handlers/length/mod.rs
+++ b/validators-derive/src/validator_handlers/length/mod.rs
@@ -77,6 +77,8 @@ impl ValidatorHandler for LengthHandler {
                         if let Some(max) = type_attribute.max {
                             if min == max {
                                 quote! {
+                                    let length = CollectionLength::len(v);
+
                                     match ::core::cmp::Ord::cmp(&length, &#min) {
                                         ::core::cmp::Ordering::Equal => (),
                                         ::core::cmp::Ordering::Less => return Err(#error_path::TooSmall),
-- 
2.43.0


From b64c0dc0c3b767ee306961fb2d2c527a799a11b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 08/20] fix: text, line: reject leading control characters
 which are also white space

---
 .../src/validator_handlers/line/mod.rs        | 96 +++++++++----------
 .../src/validator_handlers/text/mod.rs        | 96 +++++++++----------
 2 files changed, 96 insertions(+), 96 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 962aafd..2954f39 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for LineHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 0f230db..9f9eb45 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for TextHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
-- 
2.43.0


From 92118b2af444ab256b4fb41779c94fd2444c7230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:23 +0000
Subject: [PATCH 09/20] fix: semver, semver_req, url: deserialize the inner
 value instead of recursing endlessly

---
 validators-derive/src/validator_handlers/semver/mod.rs     | 2 +-
 validators-derive/src/validator_handlers/semver_req/mod.rs | 2 +-
 validators-derive/src/validator_handlers/url/mod.rs        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/validators-derive/src/validator_handlers/semver/mod.rs b/validators-derive/src/validator_handlers/semver/mod.rs
index 8f59c27..4ccc0b9 100644
--- a/validators-derive/src/validator_handlers/semver/mod.rs
+++ b/validators-derive/src/validator_handlers/semver/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/semver_req/mod.rs b/validators-derive/src/validator_handlers/semver_req/mod.rs
index 772c9ae..0d0491c 100644
--- a/validators-derive/src/validator_handlers/semver_req/mod.rs
+++ b/validators-derive/src/validator_handlers/semver_req/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverReqHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/url/mod.rs b/validators-derive/src/validator_handlers/url/mod.rs
index 069b3dd..573ded2 100644
--- a/validators-derive/src/validator_handlers/url/mod.rs
+++ b/validators-derive/src/validator_handlers/url/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for UrlHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
-- 
2.43.0


From 5c3f5ac918481552b8dd07e71669548a9efb7d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 10/20] fix: signed_integer, unsigned_integer, number: accept
 integers of either signedness when deserializing

---
 .../src/validator_handlers/number/mod.rs      | 14 +++++
 .../validator_handlers/signed_integer/mod.rs  | 17 +++++++
 .../unsigned_integer/mod.rs                   | 20 ++++++++
 validators/src/result/serde_traits.rs         | 51 +++++++++++++++++++
 4 files changed, 102 insertions(+)

diff --git a/validators-derive/src/validator_handlers/number/mod.rs b/validators-derive/src/validator_handlers/number/mod.rs
index 5dbff68..9396cc2 100644
--- a/validators-derive/src/validator_handlers/number/mod.rs
+++ b/validators-derive/src/validator_handlers/number/mod.rs
@@ -433,6 +433,20 @@ impl ValidatorHandler for NumberHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateNumber>::parse_f32(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateNumber>::parse_f64(v as f64).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            #[inline]
+                                            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateNumber>::parse_f64(v as f64).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators-derive/src/validator_handlers/signed_integer/mod.rs b/validators-derive/src/validator_handlers/signed_integer/mod.rs
index d75670a..9061d95 100644
--- a/validators-derive/src/validator_handlers/signed_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/signed_integer/mod.rs
@@ -641,6 +641,23 @@ impl ValidatorHandler for SignedIntegerHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateSignedInteger>::parse_i128(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateSignedInteger>::parse_i128(i128::from(v)).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            #[inline]
+                                            fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                match i128::try_from(v) {
+                                                    Ok(v) => <#name as ValidateSignedInteger>::parse_i128(v).map_err(validators_prelude::serde::de::Error::custom),
+                                                    Err(_) => Err(validators_prelude::serde::de::Error::custom(#error_path::TooLarge)),
+                                                }
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
index ab48f4f..e990e5a 100644
--- a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
@@ -624,6 +624,26 @@ impl ValidatorHandler for UnsignedIntegerHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateUnsignedInteger>::parse_u128(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                match u64::try_from(v) {
+                                                    Ok(v) => <#name as ValidateUnsignedInteger>::parse_u64(v).map_err(validators_prelude::serde::de::Error::custom),
+                                                    Err(_) => Err(validators_prelude::serde::de::Error::custom(#error_path::TooSmall)),
+                                                }
+                                            }
+
+                                            #[inline]
+                                            fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                match u128::try_from(v) {
+                                                    Ok(v) => <#name as ValidateUnsignedInteger>::parse_u128(v).map_err(validators_prelude::serde::de::Error::custom),
+                                                    Err(_) => Err(validators_prelude::serde::de::Error::custom(#error_path::TooSmall)),
+                                                }
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators/src/result/serde_traits.rs b/validators/src/result/serde_traits.rs
index 5840f62..00aae11 100644
--- a/validators/src/result/serde_traits.rs
+++ b/validators/src/result/serde_traits.rs
@@ -856,6 +856,20 @@ impl<'de, T: ValidateString<Error = NumberError> + ValidateNumber<Error = Number
                 E: DeError, {
                 Ok(Result::new(T::parse_f64(v)))
             }
+
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_f64(v as f64)))
+            }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_f64(v as f64)))
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
@@ -1028,6 +1042,23 @@ impl<
                 E: DeError, {
                 Ok(Result::new(T::parse_i128(v)))
             }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_i128(i128::from(v))))
+            }
+
+            #[inline]
+            fn visit_u128<E>(self, v: u128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(match i128::try_from(v) {
+                    Ok(v) => T::parse_i128(v),
+                    Err(_) => Err(SignedIntegerError::TooLarge),
+                }))
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
@@ -1143,6 +1174,26 @@ impl<
                 E: DeError, {
                 Ok(Result::new(T::parse_u128(v)))
             }
+
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(match u64::try_from(v) {
+                    Ok(v) => T::parse_u64(v),
+                    Err(_) => Err(UnsignedIntegerError::TooSmall),
+                }))
+            }
+
+            #[inline]
+            fn visit_i128<E>(self, v: i128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(match u128::try_from(v) {
+                    Ok(v) => T::parse_u128(v),
+                    Err(_) => Err(UnsignedIntegerError::TooSmall),
+                }))
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
-- 
2.43.0


From 46278489e370177188cc7398aa8a61aa22b84427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:44 +0000
Subject: [PATCH 11/20] fix: domain, host, ip, ipv4, ipv6: reject a plus sign
 before a port number

---
 validators-derive/src/validator_handlers/domain/mod.rs | 4 ++--
 validators-derive/src/validator_handlers/host/mod.rs   | 8 ++++----
 validators-derive/src/validator_handlers/ip/mod.rs     | 8 ++++----
 validators-derive/src/validator_handlers/ipv4/mod.rs   | 4 ++--
 validators-derive/src/validator_handlers/ipv6/mod.rs   | 4 ++--
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index f4fbd55..cd4fc46 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -553,8 +553,8 @@ impl ValidatorHandler for DomainHandler {
                     match port_str {
                         Some(port_str) => {
                             match port_str.parse::<u16>() {
-                                Ok(port) => Some(port),
-                                Err(_) => return Err(#error_path::Invalid),
+                                Ok(port) if !port_str.starts_with('+') => Some(port),
+                                _ => return Err(#error_path::Invalid),
                             }
                         }
                         None => None,
diff --git a/validators-derive/src/validator_handlers/host/mod.rs b/validators-derive/src/validator_handlers/host/mod.rs
index 532471e..83d7f73 100644
--- a/validators-derive/src/validator_handlers/host/mod.rs
+++ b/validators-derive/src/validator_handlers/host/mod.rs
@@ -325,14 +325,14 @@ impl ValidatorHandler for HostHandler {
                                         let port_str = &s[(colon_index + 1)..];
 
                                         match port_str.parse::<u16>() {
-                                            Ok(port) => {
+                                            Ok(port) if !port_str.starts_with('+') => {
                                                 let is_local = #handle_local_ipv6;
 
                                                 #check_local
 
                                                 (validators_prelude::Host::IPv6(ip), Some(port), is_local)
                                             }
-                                            Err(_) => return Err(#error_path::Invalid),
+                                            _ => return Err(#error_path::Invalid),
                                         }
                                     }
                                     Err(_) => return Err(#error_path::Invalid),
@@ -422,8 +422,8 @@ impl ValidatorHandler for HostHandler {
                     match port_str {
                         Some(port_str) => {
                             match port_str.parse::<u16>() {
-                                Ok(port) => Some(port),
-                                Err(_) => return Err(#error_path::Invalid),
+                                Ok(port) if !port_str.starts_with('+') => Some(port),
+                                _ => return Err(#error_path::Invalid),
                             }
                         }
                         None => None,
diff --git a/validators-derive/src/validator_handlers/ip/mod.rs b/validators-derive/src/validator_handlers/ip/mod.rs
index 8afd41f..682f59d 100644
--- a/validators-derive/src/validator_handlers/ip/mod.rs
+++ b/validators-derive/src/validator_handlers/ip/mod.rs
@@ -197,14 +197,14 @@ impl ValidatorHandler for IpHandler {
                                         let port_str = &s[(colon_index + 1)..];
 
                                         match port_str.parse::<u16>() {
-                                            Ok(port) => {
+                                            Ok(port) if !port_str.starts_with('+') => {
                                                 let is_local = #handle_local_ipv6;
 
                                                 #check_local
 
                                                 (::std::net::IpAddr::V6(ip), Some(port), is_local)
                                             }
-                                            Err(_) => return Err(#error_path::Invalid),
+                                            _ => return Err(#error_path::Invalid),
                                         }
                                     }
                                     Err(_) => return Err(#error_path::Invalid),
@@ -263,14 +263,14 @@ impl ValidatorHandler for IpHandler {
                                     &s[(colon_index + 1)..];
 
                                 match port_str.parse::<u16>() {
-                                    Ok(port) => {
+                                    Ok(port) if !port_str.starts_with('+') => {
                                         let is_local = #handle_local_ipv4;
 
                                         #check_local
 
                                         (::std::net::IpAddr::V4(ip), Some(port), is_local)
                                     }
-                                    Err(_) => return Err(#error_path::Invalid),
+                                    _ => return Err(#error_path::Invalid),
                                 }
                             }
                             Err(_) => return Err(#error_path::Invalid),
diff --git a/validators-derive/src/validator_handlers/ipv4/mod.rs b/validators-derive/src/validator_handlers/ipv4/mod.rs
index d034e21..73b14dc 100644
--- a/validators-derive/src/validator_handlers/ipv4/mod.rs
+++ b/validators-derive/src/validator_handlers/ipv4/mod.rs
@@ -177,14 +177,14 @@ impl ValidatorHandler for Ipv4Handler {
                                     &s[(colon_index + 1)..];
 
                                 match port_str.parse::<u16>() {
-                                    Ok(port) => {
+                                    Ok(port) if !port_str.starts_with('+') => {
                                         let is_local = #handle_local_ipv4;
 
                                         #check_local
 
                                         (ip, Some(port), is_local)
                                     }
-                                    Err(_) => return Err(#error_path::Invalid),
+                                    _ => return Err(#error_path::Invalid),
                                 }
                             }
                             Err(_) => return Err(#error_path::Invalid),
diff --git a/validators-derive/src/validator_handlers/ipv6/mod.rs b/validators-derive/src/validator_handlers/ipv6/mod.rs
index aeeef07..e012a45 100644
--- a/validators-derive/src/validator_handlers/ipv6/mod.rs
+++ b/validators-derive/src/validator_handlers/ipv6/mod.rs
@@ -176,14 +176,14 @@ impl ValidatorHandler for Ipv6Handler {
                                         let port_str = &s[(colon_index + 1)..];
 
                                         match port_str.parse::<u16>() {
-                                            Ok(port) => {
+                                            Ok(port) if !port_str.starts_with('+') => {
                                                 let is_local = #handle_local_ipv6;
 
                                                 #check_local
 
                                                 (ip, Some(port), is_local)
                                             }
-                                            Err(_) => return Err(#error_path::Invalid),
+                                            _ => return Err(#error_path::Invalid),
                                         }
                                     }
                                     Err(_) => return Err(#error_path::Invalid),
-- 
2.43.0


From 00327086bdb9e49437b05a5d52246cd9478355a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 12/20] fix: domain, host: do not let the IDNA mapping bypass
 the checks for IPv4 addresses and ended dots

---
 validators-derive/src/validator_handlers/domain/mod.rs | 5 +++--
 validators-derive/src/validator_handlers/host/mod.rs   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index cd4fc46..ba0cb76 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -685,7 +685,8 @@ impl ValidatorHandler for DomainHandler {
                                 .check_hyphens(true)
                                 .to_ascii(domain_str)
                             {
-                                Ok(ascii_domain) => {
+                                // the mapping of the domain may turn it into an IPv4 address
+                                Ok(ascii_domain) if validators_prelude::parse_ipv4_allow_an_ended_dot(&ascii_domain).is_err() => {
                                     let port = #handle_port;
 
                                     let is_local = #handle_local_domain;
@@ -696,7 +697,7 @@ impl ValidatorHandler for DomainHandler {
 
                                     (ascii_domain, port, false, is_local)
                                 }
-                                Err(_) => return Err(#error_path::Invalid),
+                                _ => return Err(#error_path::Invalid),
                             }
                         }
                     };
diff --git a/validators-derive/src/validator_handlers/host/mod.rs b/validators-derive/src/validator_handlers/host/mod.rs
index 83d7f73..1f82d5b 100644
--- a/validators-derive/src/validator_handlers/host/mod.rs
+++ b/validators-derive/src/validator_handlers/host/mod.rs
@@ -503,7 +503,8 @@ impl ValidatorHandler for HostHandler {
                         .check_hyphens(true)
                         .to_ascii(domain_str)
                     {
-                        Ok(ascii_domain) => {
+                        // the mapping of the domain may turn it into an IPv4 address or end it with a dot
+                        Ok(ascii_domain) if !ascii_domain.ends_with('.') && ::std::net::Ipv4Addr::from_str(&ascii_domain).is_err() => {
                             let port = #handle_port;
 
                             let is_local = #handle_local_domain;
@@ -514,7 +515,7 @@ impl ValidatorHandler for HostHandler {
 
                             (validators_prelude::Host::Domain(ascii_domain), port, is_local)
                         }
-                        Err(_) => return Err(#error_path::Invalid),
+                        _ => return Err(#error_path::Invalid),
                     }
                 }
             };
-- 
2.43.0


From 6ae80e78907f4203fbe798a328d04536406f03e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 13/20] fix: email: do not overflow when a comment follows a
 local part of the maximum length

---
 validators-derive/src/validator_handlers/email/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 478d5a9..8f26bd3 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -901,7 +901,7 @@ impl ValidatorHandler for EmailHandler {
                     if length > local_part_length {
                         match bytes[local_part_length..]
                             .iter()
-                            .take(64 - local_part_length)
+                            .take(64usize.saturating_sub(local_part_length))
                             .copied()
                             .position(|e| e == b')')
                         {
-- 
2.43.0


From 518df5f4b6260c7786984937ecb3163f30901445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 14/20] fix: email: apply the length limit of the local part to
 non-ASCII characters and to local parts after comments

---
 .../src/validator_handlers/email/mod.rs       | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 8f26bd3..5e74e2a 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -636,7 +636,7 @@ impl ValidatorHandler for EmailHandler {
                 }
             } else {
                 quote! {
-                    if e < 128 {
+                    if e < 128 || p >= 63 {
                         return Err(#error_path::Invalid);
                     } else {
                         last_dot = false;
@@ -651,7 +651,7 @@ impl ValidatorHandler for EmailHandler {
                 }
             } else {
                 quote! {
-                    if e < 128 {
+                    if e < 128 || p >= 64 {
                         return Err(#error_path::Invalid);
                     } else {
                         last_dot = false;
@@ -1008,7 +1008,7 @@ impl ValidatorHandler for EmailHandler {
                             // quoted
                             let mut p = local_part_length + 1;
 
-                            if p == 63 || p == length {
+                            if p >= 63 || p == length {
                                 // too long
                                 return Err(#error_path::Invalid);
                             }
@@ -1061,7 +1061,7 @@ impl ValidatorHandler for EmailHandler {
                                     | b'?'
                                     | b'^'..=b'`'
                                     | b'{'..=b'~' => {
-                                        if p == 63 {
+                                        if p >= 63 {
                                             // too long
                                             return Err(#error_path::Invalid);
                                         }
@@ -1070,7 +1070,7 @@ impl ValidatorHandler for EmailHandler {
                                         escaping = false;
                                     }
                                     b'.' => {
-                                        if p == 63 {
+                                        if p >= 63 {
                                             // too long
                                             return Err(#error_path::Invalid);
                                         }
@@ -1083,7 +1083,7 @@ impl ValidatorHandler for EmailHandler {
                                         escaping = false;
                                     }
                                     b'\\' => {
-                                        if p == 63 {
+                                        if p >= 63 {
                                             // too long
                                             return Err(#error_path::Invalid);
                                         }
@@ -1092,7 +1092,7 @@ impl ValidatorHandler for EmailHandler {
                                         escaping = !escaping;
                                     }
                                     b' ' | b'\t' => {
-                                        if p == 63 {
+                                        if p >= 63 {
                                             // too long
                                             return Err(#error_path::Invalid);
                                         }
@@ -1100,7 +1100,7 @@ impl ValidatorHandler for EmailHandler {
                                         need_quoted = true;
                                     }
                                     b'(' | b')' | b',' | b':'..=b'<' | b'>' | b'@' | b'[' | b']' => {
-                                        if p == 63 || !escaping {
+                                        if p >= 63 || !escaping {
                                             // too long or not in escaping
                                             return Err(#error_path::Invalid);
                                         }
@@ -1109,7 +1109,7 @@ impl ValidatorHandler for EmailHandler {
                                     }
                                     b'"' => {
                                         if escaping {
-                                            if p == 63 {
+                                            if p >= 63 {
                                                 // too long or not in escaping
                                                 return Err(#error_path::Invalid);
                                             }
@@ -1186,7 +1186,7 @@ impl ValidatorHandler for EmailHandler {
                                     | b'?'
                                     | b'^'..=b'`'
                                     | b'{'..=b'~' => {
-                                        if p == 64 {
+                                        if p >= 64 {
                                             // too long
                                             return Err(#error_path::Invalid);
                                         }
@@ -1194,7 +1194,7 @@ impl ValidatorHandler for EmailHandler {
                                         last_dot = false;
                                     }
                                     b'.' => {
-                                        if p == 64 || last_dot {
+                                        if p >= 64 || last_dot {
                                             // too long or '.' appears consecutively
                                             return Err(#error_path::Invalid);
                                         }
-- 
2.43.0


From cb5d581ee42dca6f1c808f65e4cd4ecd37a6e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 15/20] fix: email: treat an ended dot of the local part as a
 character which needs to be quoted

---
 validators-derive/src/validator_handlers/email/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 5e74e2a..1ea044c 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1126,7 +1126,7 @@ impl ValidatorHandler for EmailHandler {
                                                 return Err(#error_path::Invalid);
                                             }
 
-                                            break (local_part, need_quoted, true);
+                                            break (local_part, need_quoted || last_dot, true);
                                         }
                                     }
                                     _ => {
@@ -1202,6 +1202,11 @@ impl ValidatorHandler for EmailHandler {
                                         last_dot = true;
                                     }
                                     b'@' | b'(' => {
+                                        if last_dot {
+                                            // '.' is not allowed as the last character
+                                            return Err(#error_path::Invalid);
+                                        }
+
                                         let local_part =
                                             &s[local_part_length..p];
 
-- 
2.43.0


From cf1929dd98e1d9146cc7ad7ec531d989e01fda1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 16/20] fix: email: end an escape sequence in a quoted local
 part at a white space

---
 validators-derive/src/validator_handlers/email/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 1ea044c..d0bcc29 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1089,6 +1089,7 @@ impl ValidatorHandler for EmailHandler {
                                         }
 
                                         need_quoted = true;
+                                        last_dot = false;
                                         escaping = !escaping;
                                     }
                                     b' ' | b'\t' => {
@@ -1098,6 +1099,8 @@ impl ValidatorHandler for EmailHandler {
                                         }
 
                                         need_quoted = true;
+                                        last_dot = false;
+                                        escaping = false;
                                     }
                                     b'(' | b')' | b',' | b':'..=b'<' | b'>' | b'@' | b'[' | b']' => {
                                         if p >= 63 || !escaping {
-- 
2.43.0


From a7398ad41928a81cef4788fbbed029653eeb5204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 17/20] fix: email: reject characters after the last comment

---
 validators-derive/src/validator_handlers/email/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index d0bcc29..2b4498c 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -973,6 +973,10 @@ impl ValidatorHandler for EmailHandler {
                                     let comment =
                                         &s[domain_part_length..index];
 
+                                    if index + 1 != length {
+                                        return Err(#error_path::Invalid);
+                                    }
+
                                     Some(comment)
                                 }
                                 None => return Err(#error_path::Invalid),
-- 
2.43.0


From 207ee84f83623d77fc7503744efc501cd9c0a474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 18/20] fix: email: do not count the quotes of the local part
 towards the length of the domain part

---
 .../src/validator_handlers/email/mod.rs              | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 2b4498c..fd81a59 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1008,7 +1008,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let (local_part, need_quoted, quoted) = if bytes[local_part_length] == b'"' {
+                        let (local_part, need_quoted) = if bytes[local_part_length] == b'"' {
                             // quoted
                             let mut p = local_part_length + 1;
 
@@ -1133,7 +1133,7 @@ impl ValidatorHandler for EmailHandler {
                                                 return Err(#error_path::Invalid);
                                             }
 
-                                            break (local_part, need_quoted || last_dot, true);
+                                            break (local_part, need_quoted || last_dot);
                                         }
                                     }
                                     _ => {
@@ -1219,7 +1219,7 @@ impl ValidatorHandler for EmailHandler {
 
                                         local_part_length = p;
 
-                                        break (local_part, false, false);
+                                        break (local_part, false);
                                     }
                                     _ => {
                                         #handle_unrecognized_byte_unquoted
@@ -1255,11 +1255,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let mut domain_part_length_offset: isize = if quoted && need_quoted {
-                            -2
-                        } else {
-                            0
-                        };
+                        let mut domain_part_length_offset: isize = 0;
 
                         let (host, is_local): (validators_prelude::Host, bool) = match bytes[domain_part_length] {
                             b'(' => return Err(#error_path::Invalid),
-- 
2.43.0


From da762918e102a39876b77fcc0eb55d32a63ed2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 19/20] fix: email: do not let the IDNA mapping end the domain
 with a dot

---
 validators-derive/src/validator_handlers/email/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index fd81a59..43db145 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -834,7 +834,8 @@ impl ValidatorHandler for EmailHandler {
                         .check_hyphens(true)
                         .to_ascii(domain_str)
                     {
-                        Ok(ascii_domain) => {
+                        // the mapping of the domain may end it with a dot
+                        Ok(ascii_domain) if !ascii_domain.ends_with('.') => {
                             domain_part_length += domain_str.len();
 
                             let is_local = #handle_local_domain;
@@ -847,7 +848,7 @@ impl ValidatorHandler for EmailHandler {
 
                             (validators_prelude::Host::Domain(ascii_domain), is_local)
                         }
-                        Err(_) => return Err(#error_path::Invalid),
+                        _ => return Err(#error_path::Invalid),
                     }
                 }
             };
-- 
2.43.0


From d13fef5b6c1388397ee48bdb9ce448257d0f2c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 20/20] fix: email: write the quotes of a quoted local part
 when comments are disallowed

---
 .../src/validator_handlers/email/mod.rs           | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 43db145..7071233 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1539,12 +1539,13 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
+                                    let quote = if self.need_quoted { "\"" } else { "" };
                                     let local_part = &self.local_part;
 
                                     match &self.domain_part {
-                                        validators_prelude::Host::IPv4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
-                                        validators_prelude::Host::IPv6(ip) => validators_prelude::format!("{}@[IPv6:{}]", local_part, ip),
-                                        validators_prelude::Host::Domain(domain) => validators_prelude::format!("{}@{}", local_part, domain),
+                                        validators_prelude::Host::IPv4(ip) => validators_prelude::format!("{quote}{}{quote}@[{}]", local_part, ip),
+                                        validators_prelude::Host::IPv6(ip) => validators_prelude::format!("{quote}{}{quote}@[IPv6:{}]", local_part, ip),
+                                        validators_prelude::Host::Domain(domain) => validators_prelude::format!("{quote}{}{quote}@{}", local_part, domain),
                                     }
                                 }
                             }
@@ -1555,11 +1556,12 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
+                                    let quote = if self.need_quoted { "\"" } else { "" };
                                     let local_part = &self.local_part;
 
                                     match &self.domain_part {
-                                        ::std::net::IpAddr::V4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
-                                        ::std::net::IpAddr::V6(ip) => validators_prelude::format!("{}@[IPv6:{}]", local_part, ip),
+                                        ::std::net::IpAddr::V4(ip) => validators_prelude::format!("{quote}{}{quote}@[{}]", local_part, ip),
+                                        ::std::net::IpAddr::V6(ip) => validators_prelude::format!("{quote}{}{quote}@[IPv6:{}]", local_part, ip),
                                     }
                                 }
                             }
@@ -1570,10 +1572,11 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
+                                    let quote = if self.need_quoted { "\"" } else { "" };
                                     let local_part = &self.local_part;
                                     let domain_part = &self.domain_part;
 
-                                    validators_prelude::format!("{}@{}", local_part, domain_part)
+                                    validators_prelude::format!("{quote}{}{quote}@{}", local_part, domain_part)
                                 }
                             }
                         }
-- 
2.43.0

