From a9dd7f71c64f9e8755f140d54644aed4c41b3d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 01/19] fix: compute the tag or digest start before pushing it
 in Image::from_parts

---
 src/service/image.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/service/image.rs b/src/service/image.rs
index 25588b4..27790b4 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -142,8 +142,9 @@ impl Image {
         inner.push_str(name);
 
         let tag_or_digest_start = tag_or_digest.map(|tag_or_digest| {
+            let start = tag_or_digest.as_start(inner.len());
             tag_or_digest.push_to_string(&mut inner);
-            tag_or_digest.as_start(inner.len())
+            start
         });
 
         Self {
-- 
2.43.0


From fec594a5e36a11fd50ce5412d562ec07bacf468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 02/19] fix: return an error when a duration part does not fit
 in a u64

---
 src/duration.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index 72c2a8c..f9f08a4 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -114,7 +114,9 @@ pub fn parse(mut s: &str) -> Result<Duration, ParseDurationError> {
         if value.is_empty() {
             return Err(ParseDurationError::NoDigits(s.to_owned()));
         }
-        let value: u64 = value.parse().expect("value is ASCII digits only");
+        // `value` is ASCII digits only, so the only possible error is an overflow.
+        #[allow(clippy::map_err_ignore)]
+        let value: u64 = value.parse().map_err(|_| ParseDurationError::Overflow)?;
 
         let (unit, rest) = rest
             .find(|char: char| char.is_ascii_digit())
-- 
2.43.0


From 938d0ef35c0b3fd5495186d477b95dd5ae1e4037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 03/19] fix: accept a healthcheck disabled with `test: NONE`
 independently of key order

---
 src/service/healthcheck.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/service/healthcheck.rs b/src/service/healthcheck.rs
index 630ef11..d88c097 100644
--- a/src/service/healthcheck.rs
+++ b/src/service/healthcheck.rs
@@ -68,8 +68,9 @@ impl<'de> de::Visitor<'de> for Visitor {
     }
 
     fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<Self::Value, A::Error> {
-        let mut disable = None;
+        let mut disable: Option<bool> = None;
         let mut test = None;
+        let mut test_none = false;
         let mut interval = None;
         let mut timeout = None;
         let mut retries = None;
@@ -86,7 +87,7 @@ impl<'de> de::Visitor<'de> for Visitor {
                 Field::Test => {
                     check_duplicate(&test, "test")?;
                     map.next_value_seed(DisableOrTest {
-                        disable: &mut disable,
+                        none: &mut test_none,
                         test: &mut test,
                     })?;
                 }
@@ -118,7 +119,13 @@ impl<'de> de::Visitor<'de> for Visitor {
             }
         }
 
-        if disable.unwrap_or_default() {
+        if test_none && disable.unwrap_or_default() {
+            return Err(de::Error::custom(
+                "cannot set `disable` to `true` and `test` to `NONE`",
+            ));
+        }
+
+        if test_none || disable.unwrap_or_default() {
             if test.is_none()
                 && interval.is_none()
                 && timeout.is_none()
@@ -189,8 +196,8 @@ enum Field {
 ///
 /// If `test` is set to `NONE`, then [`Healthcheck::Disable`] is deserialized.
 struct DisableOrTest<'a> {
-    /// `disable` field.
-    disable: &'a mut Option<bool>,
+    /// Whether `test` is set to `NONE`.
+    none: &'a mut bool,
 
     /// `test` field.
     test: &'a mut Option<Test>,
@@ -248,13 +255,10 @@ impl<'a, 'de> de::Visitor<'de> for DisableOrTest<'a> {
                 }
             }
             TestKind::None => {
-                if self.disable.unwrap_or_default() {
-                    Err(de::Error::custom(
-                        "cannot set `disable` to `true` and `test` to `NONE` \
-                            or set `test` to `NONE` multiple times",
-                    ))
+                if *self.none {
+                    Err(de::Error::custom("cannot set `test` to `NONE` multiple times"))
                 } else {
-                    *self.disable = Some(true);
+                    *self.none = true;
 
                     if seq.next_element::<String>()?.is_none() {
                         Ok(())
-- 
2.43.0


From ef69e6547f49298abbb18cfca14a44acd23eeb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 04/19] fix: accept null for optional durations and stringly
 integers

---
 src/serde/display_from_str_option.rs | 4 ++++
 src/serde/duration_option.rs         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/serde/display_from_str_option.rs b/src/serde/display_from_str_option.rs
index 0a54377..ab93ea4 100644
--- a/src/serde/display_from_str_option.rs
+++ b/src/serde/display_from_str_option.rs
@@ -71,4 +71,8 @@ where
     fn visit_none<E: de::Error>(self) -> Result<Self::Value, E> {
         Ok(None)
     }
+
+    fn visit_unit<E: de::Error>(self) -> Result<Self::Value, E> {
+        self.visit_none()
+    }
 }
diff --git a/src/serde/duration_option.rs b/src/serde/duration_option.rs
index 338b7bf..a10b542 100644
--- a/src/serde/duration_option.rs
+++ b/src/serde/duration_option.rs
@@ -62,6 +62,10 @@ impl<'de> de::Visitor<'de> for Visitor {
         Ok(None)
     }
 
+    fn visit_unit<E: de::Error>(self) -> Result<Self::Value, E> {
+        self.visit_none()
+    }
+
     fn visit_str<E: de::Error>(self, v: &str) -> Result<Self::Value, E> {
         crate::duration::parse(v).map(Some).map_err(E::custom)
     }
-- 
2.43.0


From f594d77242ec0b1939e0e957f381e4cd87d29747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 05/19] fix: accept integers for cpus

---
 src/service/deploy/resources.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/service/deploy/resources.rs b/src/service/deploy/resources.rs
index 8af32bd..4482caf 100644
--- a/src/service/deploy/resources.rs
+++ b/src/service/deploy/resources.rs
@@ -322,6 +322,14 @@ impl<'de> Visitor<'de> for CpusVisitor {
         visit_i32: i32,
     }
 
+    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Self::Value, E> {
+        self.visit_u32(v.try_into().map_err(E::custom)?)
+    }
+
+    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Self::Value, E> {
+        self.visit_i32(v.try_into().map_err(E::custom)?)
+    }
+
     fn visit_f64<E: de::Error>(self, v: f64) -> Result<Self::Value, E> {
         v.try_into().map_err(E::custom)
     }
-- 
2.43.0


From 0a4908012140004b96159fe551cd83117f1a4914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 06/19] fix: keep the leading zero of the first byte when
 formatting a MAC address

---
 src/service/network_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/service/network_config.rs b/src/service/network_config.rs
index 4e93f24..3c47d0f 100644
--- a/src/service/network_config.rs
+++ b/src/service/network_config.rs
@@ -3,7 +3,7 @@
 
 use std::{
     borrow::Cow,
-    fmt::{self, Display, Formatter, LowerHex},
+    fmt::{self, Display, Formatter},
     net::{IpAddr, Ipv4Addr, Ipv6Addr},
     num::ParseIntError,
     str::{FromStr, Split},
@@ -559,7 +559,7 @@ impl Display for MacAddress {
         let mut iter = self.0.iter();
 
         if let Some(byte) = iter.next() {
-            LowerHex::fmt(byte, f)?;
+            write!(f, "{byte:02x}")?;
         }
 
         for byte in iter {
-- 
2.43.0


From 51030f06f6407a381762fcce2b7076eb9d71284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 07/19] fix: check the order of a port range when parsing it
 from a string

---
 src/service/ports.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index 4afe19f..7fc9955 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -780,10 +780,10 @@ impl FromStr for Range {
             .split_once('-')
             .map_or((s, None), |(start, end)| (start, Some(end)));
 
-        Ok(Self {
-            start: parse_range_int(start)?,
-            end: end.map(parse_range_int).transpose()?,
-        })
+        let start = parse_range_int(start)?;
+        let end = end.map(parse_range_int).transpose()?;
+
+        Self::new(start, end).map_err(Into::into)
     }
 }
 
-- 
2.43.0


From a37678fdebf6a2cb586f1a95fc4979d78b012d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:58 +0000
Subject: [PATCH 08/19] fix: compare the sizes of port ranges without
 overflowing

---
 src/service/ports.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index 7fc9955..14f4255 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -474,12 +474,10 @@ impl ShortRanges {
 /// Returns an error if the range sizes are not equal.
 fn range_size_eq(host: Option<Range>, container: Range) -> Result<(), ShortRangesError> {
     if let Some(host) = host {
-        let host_size = host.size();
-        let container_size = container.size();
-        if host_size != container_size {
+        if host.last_offset() != container.last_offset() {
             return Err(ShortRangesError {
-                host_size,
-                container_size,
+                host_size: host.size(),
+                container_size: container.size(),
             });
         }
     }
@@ -661,6 +659,8 @@ impl Range {
 
     /// Size of the port range.
     ///
+    /// Saturates at [`u16::MAX`] for the full range, 0-65535.
+    ///
     /// # Examples
     ///
     /// ```
@@ -678,7 +678,12 @@ impl Range {
     /// ```
     #[must_use]
     pub fn size(&self) -> u16 {
-        self.end.map_or(1, |end| end - self.start + 1)
+        self.last_offset().saturating_add(1)
+    }
+
+    /// Difference between the last and the first port of the range, one less than its exact size.
+    fn last_offset(&self) -> u16 {
+        self.end.map_or(0, |end| end - self.start)
     }
 }
 
-- 
2.43.0


From c4f2e122ee499ef57542bf6f09debef8da63208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:58 +0000
Subject: [PATCH 09/19] fix: parse a build cache which only has a type

---
 src/service/build/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/service/build/cache.rs b/src/service/build/cache.rs
index b42afb9..5b028a6 100644
--- a/src/service/build/cache.rs
+++ b/src/service/build/cache.rs
@@ -44,7 +44,7 @@ impl Cache {
     where
         T: AsRef<str> + Into<String>,
     {
-        if cache.as_ref().contains(',') {
+        if cache.as_ref().contains(',') || cache.as_ref().starts_with("type=") {
             Self::parse_str(cache.as_ref())
         } else {
             Image::parse(cache)
-- 
2.43.0


From 5d9a664cbbe96f0dea48e0381112344a67e57280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:58 +0000
Subject: [PATCH 10/19] fix: do not remove an image registry which is the
 entire name

---
 src/service/image.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/service/image.rs b/src/service/image.rs
index 27790b4..9db3d78 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -189,6 +189,8 @@ impl Image {
 
     /// Set the registry portion of the image name, use [`None`] to remove it.
     ///
+    /// A registry which is the entire image name is not removed.
+    ///
     /// # Examples
     ///
     /// ```
@@ -225,6 +227,8 @@ impl Image {
                 self.registry_end = Some(registry.len());
                 self.update_tag_or_digest_start(0, registry.len() + 1);
             }
+            // There is nothing left of the name without the registry
+            (None, Some(end)) if self.name_end() == end => {}
             // Remove registry
             (None, Some(mut end)) => {
                 // Add one to end for '/' separator.
-- 
2.43.0


From 8de7681aec93b6e4c7c0040930be603127f38a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 11/19] fix: keep the values of additional build contexts given
 as a list

---
 src/service/build.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/service/build.rs b/src/service/build.rs
index d42e1bb..ec32db9 100644
--- a/src/service/build.rs
+++ b/src/service/build.rs
@@ -257,15 +257,29 @@ fn additional_contexts<'de, D>(deserializer: D) -> Result<IndexMap<MapKey, Conte
 where
     D: Deserializer<'de>,
 {
-    Ok(ListOrMap::deserialize(deserializer)?
-        .into_map()
-        .map_err(de::Error::custom)?
-        .into_iter()
-        .map(|(key, value)| {
-            let value = value
-                .map(String::from)
-                .map_or_else(Context::default, Context::from);
-            (key, value)
-        })
-        .collect())
+    match ListOrMap::deserialize(deserializer)? {
+        // Do not use `ListOrMap::into_map()`, it changes values which look like numbers.
+        ListOrMap::List(list) => list
+            .iter()
+            .map(|item| {
+                let (key, value) = item.split_once('=').unwrap_or((item, ""));
+                let key = key.parse().map_err(de::Error::custom)?;
+                let value = if value.is_empty() {
+                    Context::default()
+                } else {
+                    value.into()
+                };
+                Ok((key, value))
+            })
+            .collect(),
+        ListOrMap::Map(map) => Ok(map
+            .into_iter()
+            .map(|(key, value)| {
+                let value = value
+                    .map(String::from)
+                    .map_or_else(Context::default, Context::from);
+                (key, value)
+            })
+            .collect()),
+    }
 }
-- 
2.43.0


From 55560ff064e61f5f24f3cddb9becb9104f2e576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 12/19] fix: reject reversed ranges in a cpuset

---
 src/service/cpuset.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/service/cpuset.rs b/src/service/cpuset.rs
index e391d5f..bb1a494 100644
--- a/src/service/cpuset.rs
+++ b/src/service/cpuset.rs
@@ -80,6 +80,9 @@ impl FromStr for CpuSet {
             if let Some((start, end)) = range.split_once('-') {
                 let start: u64 = start.parse().map_err(parse_int_err(start))?;
                 let end = end.parse().map_err(parse_int_err(end))?;
+                if start > end {
+                    return Err(ParseCpuSetError::Range(range.to_owned()));
+                }
                 inner.extend(start..=end);
             } else {
                 let cpu = range.parse().map_err(parse_int_err(range))?;
@@ -94,17 +97,24 @@ impl FromStr for CpuSet {
 /// Closure which constructs a [`ParseCpuSetError`] from a [`ParseIntError`] and a `value`.
 fn parse_int_err(value: &str) -> impl FnOnce(ParseIntError) -> ParseCpuSetError {
     let value = value.to_owned();
-    |source| ParseCpuSetError { value, source }
+    |source| ParseCpuSetError::Int { value, source }
 }
 
 /// Error returned when parsing a [`CpuSet`] from a string.
 #[derive(Error, Debug, Clone, PartialEq, Eq)]
-#[error("could not parse `{value}` as an integer")]
-pub struct ParseCpuSetError {
-    /// Value attempted to parse.
-    value: String,
-    /// Parse error.
-    source: ParseIntError,
+pub enum ParseCpuSetError {
+    /// Error parsing an integer.
+    #[error("could not parse `{value}` as an integer")]
+    Int {
+        /// Value attempted to parse.
+        value: String,
+        /// Parse error.
+        source: ParseIntError,
+    },
+
+    /// The start of a range is greater than its end.
+    #[error("the start of the CPU range `{0}` must be less than or equal to the end")]
+    Range(String),
 }
 
 impl TryFrom<&str> for CpuSet {
-- 
2.43.0


From a2da949fa9916923979ba3a449d80a7f91b89785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 13/19] fix: do not drop read_only when converting an anonymous
 volume into short syntax

---
 src/service/volumes/mount.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/service/volumes/mount.rs b/src/service/volumes/mount.rs
index d289dd1..5b38311 100644
--- a/src/service/volumes/mount.rs
+++ b/src/service/volumes/mount.rs
@@ -283,7 +283,10 @@ impl Volume {
                         consistency: None,
                         extensions,
                     },
-            } if volume.as_ref().map_or(true, VolumeOptions::is_empty) && extensions.is_empty() => {
+            } if volume.as_ref().map_or(true, VolumeOptions::is_empty)
+                && extensions.is_empty()
+                && (source.is_some() || !read_only) =>
+            {
                 Ok(ShortVolume {
                     container_path,
                     options: source.map(|source| ShortOptions {
-- 
2.43.0


From 2c3c389997777f333f96947a1dc1028c240244ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 14/19] fix: count a volume mounted multiple times in one
 service once in validate_volumes

---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ba62b45..5a37f72 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -115,7 +115,7 @@ use std::{
 };
 
 use ::serde::{Deserialize, Serialize};
-use indexmap::IndexMap;
+use indexmap::{IndexMap, IndexSet};
 
 pub use self::{
     common::{
@@ -299,10 +299,10 @@ impl Compose {
     ///
     /// Only the first undefined named volume is listed in the error's [`Display`] output.
     pub fn validate_volumes(&self) -> Result<(), ValidationError> {
-        let volumes = self
-            .services
-            .values()
-            .flat_map(|service| service::volumes::named_volumes_iter(&service.volumes));
+        let volumes = self.services.values().flat_map(|service| {
+            // Only count a volume once per service, even if it is mounted multiple times.
+            service::volumes::named_volumes_iter(&service.volumes).collect::<IndexSet<_>>()
+        });
 
         let mut seen_volumes = HashMap::new();
         for volume in volumes {
-- 
2.43.0


From ffdd56dce7e4f4edea540c86de9e4fbacfdabc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 15/19] fix: keep the order of keys in top-level resources

---
 src/common.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 7d4cd6e..a6695da 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -5,7 +5,6 @@ mod short_or_long;
 
 use std::{
     borrow::Cow,
-    collections::HashMap,
     fmt::{self, Display, Formatter, LowerExp, UpperExp},
     hash::Hash,
     num::{ParseFloatError, ParseIntError, TryFromIntError},
@@ -965,10 +964,10 @@ impl<T: Serialize> Serialize for Resource<T> {
 
 impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        let mut map = HashMap::<String, YamlValue>::deserialize(deserializer)?;
+        let mut map = IndexMap::<String, YamlValue>::deserialize(deserializer)?;
 
         let external = map
-            .remove(Self::EXTERNAL)
+            .shift_remove(Self::EXTERNAL)
             .map(bool::deserialize)
             .transpose()
             .map_err(de::Error::custom)?
@@ -976,7 +975,7 @@ impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
 
         if external {
             let name = map
-                .remove(Self::NAME)
+                .shift_remove(Self::NAME)
                 .map(String::deserialize)
                 .transpose()
                 .map_err(de::Error::custom)?;
-- 
2.43.0


From 5eeff5140da01d3fe129258ce95ecf3c81a6b737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 16/19] fix: apply merge keys nested within merged values

---
 src/options.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/options.rs b/src/options.rs
index 4844aea..64e2ebf 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -101,8 +101,22 @@ impl Options {
     /// Returns an error if deserialization fails.
     pub fn from_yaml_value(&self, mut value: YamlValue) -> serde_yaml::Result<Compose> {
         if self.apply_merge {
-            value.apply_merge()?;
+            apply_merge(&mut value)?;
         }
         serde_yaml::from_value(value)
     }
 }
+
+/// Merge `<<` keys into their surrounding mapping, starting with the innermost ones.
+///
+/// [`YamlValue::apply_merge()`] does not merge the `<<` keys of the values which it merges, they are
+/// instead left in the surrounding mapping.
+fn apply_merge(value: &mut YamlValue) -> serde_yaml::Result<()> {
+    match value {
+        YamlValue::Mapping(mapping) => mapping.values_mut().try_for_each(apply_merge)?,
+        YamlValue::Sequence(sequence) => sequence.iter_mut().try_for_each(apply_merge)?,
+        YamlValue::Tagged(tagged) => apply_merge(&mut tagged.value)?,
+        _ => {}
+    }
+    value.apply_merge()
+}
-- 
2.43.0


From 98877360c5b001ed21c6799d5bdf73cbbdb8d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 17/19] fix: keep the order of keys in mappings with a merge
 key

---
 src/options.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/options.rs b/src/options.rs
index 64e2ebf..4e2be1c 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -113,7 +113,13 @@ impl Options {
 /// instead left in the surrounding mapping.
 fn apply_merge(value: &mut YamlValue) -> serde_yaml::Result<()> {
     match value {
-        YamlValue::Mapping(mapping) => mapping.values_mut().try_for_each(apply_merge)?,
+        YamlValue::Mapping(mapping) => {
+            mapping.values_mut().try_for_each(apply_merge)?;
+            // `YamlValue::apply_merge()` replaces the removed merge key with the last key.
+            if let Some(merge) = mapping.shift_remove("<<") {
+                mapping.insert("<<".into(), merge);
+            }
+        }
         YamlValue::Sequence(sequence) => sequence.iter_mut().try_for_each(apply_merge)?,
         YamlValue::Tagged(tagged) => apply_merge(&mut tagged.value)?,
         _ => {}
-- 
2.43.0


From 54c3a06e59510b982899954740d731d38d02f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 18/19] fix: write the access mode of volumes from a container
 named ro or rw

`container:ro` and `container:rw` are read as a service named `container`, so that the
text of `VolumesFrom` with such a container did not parse back to the same value.
---
 src/service.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 363a613..796519a 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -1441,6 +1441,9 @@ impl VolumesFrom {
     /// Suffix which marks the source volumes as read-only.
     const READ_ONLY_SUFFIX: &'static str = ":ro";
 
+    /// Suffix which marks the source volumes as writable, the default.
+    const READ_WRITE_SUFFIX: &'static str = ":rw";
+
     /// Parse a [`VolumesFrom`] from a string in the format `[container:]{identifier}[:ro|rw]`.
     ///
     /// # Errors
@@ -1464,7 +1467,7 @@ impl VolumesFrom {
             .unwrap_or_else(|| {
                 volumes_from
                     .as_ref()
-                    .strip_suffix(":rw")
+                    .strip_suffix(Self::READ_WRITE_SUFFIX)
                     .map(str::parse)
                     .unwrap_or_else(|| VolumesFromSource::parse(volumes_from))
                     .map(Into::into)
@@ -1482,6 +1485,8 @@ impl Display for VolumesFrom {
 
         if *read_only {
             f.write_str(Self::READ_ONLY_SUFFIX)?;
+        } else if source.ends_with_access_mode() {
+            f.write_str(Self::READ_WRITE_SUFFIX)?;
         }
 
         Ok(())
@@ -1499,7 +1504,7 @@ impl From<VolumesFromSource> for VolumesFrom {
 
 impl From<VolumesFrom> for String {
     fn from(value: VolumesFrom) -> Self {
-        if value.read_only {
+        if value.read_only || value.source.ends_with_access_mode() {
             value.to_string()
         } else {
             value.source.into()
@@ -1541,6 +1546,12 @@ impl VolumesFromSource {
             .map(|container| container.parse().map(Self::Container))
             .unwrap_or_else(|| source.try_into().map(Self::Service).map_err(Into::into))
     }
+
+    /// Returns `true` if the string form ends with `:ro` or `:rw`, i.e. a container with that name,
+    /// which [`VolumesFrom`] would read as the access mode of a service named `container`.
+    fn ends_with_access_mode(&self) -> bool {
+        matches!(self, Self::Container(container) if matches!(container.as_str(), "ro" | "rw"))
+    }
 }
 
 impl_from_str!(VolumesFromSource => InvalidIdentifierError);
-- 
2.43.0


From 3f1261732df9923762581ec701472086376e1da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 19/19] fix: reject repeated options of top-level resources

---
 src/common.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index a6695da..d21fc1e 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -964,7 +964,7 @@ impl<T: Serialize> Serialize for Resource<T> {
 
 impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        let mut map = IndexMap::<String, YamlValue>::deserialize(deserializer)?;
+        let UniqueMap(mut map) = UniqueMap::deserialize(deserializer)?;
 
         let external = map
             .shift_remove(Self::EXTERNAL)
@@ -995,6 +995,39 @@ impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
     }
 }
 
+/// Map of the fields of a [`Resource`], repeated fields are not allowed.
+struct UniqueMap(IndexMap<String, YamlValue>);
+
+impl<'de> Deserialize<'de> for UniqueMap {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        deserializer.deserialize_map(UniqueMapVisitor)
+    }
+}
+
+/// [`Visitor`] for deserializing [`UniqueMap`].
+struct UniqueMapVisitor;
+
+impl<'de> Visitor<'de> for UniqueMapVisitor {
+    type Value = UniqueMap;
+
+    fn expecting(&self, formatter: &mut Formatter) -> fmt::Result {
+        formatter.write_str("a map")
+    }
+
+    fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<Self::Value, A::Error> {
+        let mut fields = IndexMap::new();
+
+        while let Some((field, value)) = map.next_entry::<String, YamlValue>()? {
+            if fields.contains_key(&field) {
+                return Err(de::Error::custom(format_args!("duplicate field `{field}`")));
+            }
+            fields.insert(field, value);
+        }
+
+        Ok(UniqueMap(fields))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0

