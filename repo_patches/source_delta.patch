From f78a4727a4fb2b9f06b676d53ff4157474826e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 01/19] fix: take the tag or digest offset before pushing it in
 Image::from_parts

---
 src/service/image.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/service/image.rs b/src/service/image.rs
index 25588b4..27790b4 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -142,8 +142,9 @@ impl Image {
         inner.push_str(name);
 
         let tag_or_digest_start = tag_or_digest.map(|tag_or_digest| {
+            let start = tag_or_digest.as_start(inner.len());
             tag_or_digest.push_to_string(&mut inner);
-            tag_or_digest.as_start(inner.len())
+            start
         });
 
         Self {
-- 
2.43.0


From 6bd0a9c670ca9d3bbf77453e8f96a773fe60da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 02/19] fix: return an overflow error instead of panicking on
 large durations

---
 src/duration.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 72c2a8c..8ce8085 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -98,7 +98,6 @@ fn push_value(string: &mut String, value: u64, unit: &str) {
 /// Returns an error if the input is an empty string, does not contain ASCII digits (0-9), contains
 /// an invalid unit (valid units: "h", "m", "s", "ms", "us"), or the value is too large for a
 /// [`Duration`].
-#[allow(clippy::missing_panics_doc)]
 pub fn parse(mut s: &str) -> Result<Duration, ParseDurationError> {
     if s.is_empty() {
         return Err(ParseDurationError::Empty);
@@ -114,7 +113,9 @@ pub fn parse(mut s: &str) -> Result<Duration, ParseDurationError> {
         if value.is_empty() {
             return Err(ParseDurationError::NoDigits(s.to_owned()));
         }
-        let value: u64 = value.parse().expect("value is ASCII digits only");
+        // `value` is non-empty and ASCII digits only, so it can only be too large
+        #[allow(clippy::map_err_ignore)]
+        let value: u64 = value.parse().map_err(|_| ParseDurationError::Overflow)?;
 
         let (unit, rest) = rest
             .find(|char: char| char.is_ascii_digit())
-- 
2.43.0


From 22058da32509f4efd465a07dc3a3cbc1738ed044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 03/19] fix: validate port ranges parsed from strings with
 Range::new

---
 src/service/ports.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index 4afe19f..eda6e8c 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -780,10 +780,10 @@ impl FromStr for Range {
             .split_once('-')
             .map_or((s, None), |(start, end)| (start, Some(end)));
 
-        Ok(Self {
-            start: parse_range_int(start)?,
-            end: end.map(parse_range_int).transpose()?,
-        })
+        Ok(Self::new(
+            parse_range_int(start)?,
+            end.map(parse_range_int).transpose()?,
+        )?)
     }
 }
 
-- 
2.43.0


From f19273f311a01a21c1dd2c8443f06a49cbe9ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 04/19] fix: do not overflow on the size of the full port range

---
 src/service/ports.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index eda6e8c..e453aab 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -474,12 +474,10 @@ impl ShortRanges {
 /// Returns an error if the range sizes are not equal.
 fn range_size_eq(host: Option<Range>, container: Range) -> Result<(), ShortRangesError> {
     if let Some(host) = host {
-        let host_size = host.size();
-        let container_size = container.size();
-        if host_size != container_size {
+        if host.span() != container.span() {
             return Err(ShortRangesError {
-                host_size,
-                container_size,
+                host_size: host.size(),
+                container_size: container.size(),
             });
         }
     }
@@ -678,7 +676,12 @@ impl Range {
     /// ```
     #[must_use]
     pub fn size(&self) -> u16 {
-        self.end.map_or(1, |end| end - self.start + 1)
+        self.span().saturating_add(1)
+    }
+
+    /// Difference between the end and the start of the range.
+    fn span(&self) -> u16 {
+        self.end.map_or(0, |end| end - self.start)
     }
 }
 
-- 
2.43.0


From e3d59a244db31696cea6aa654a8422310058c1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 05/19] fix: parse build cache types without options

---
 src/service/build/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/service/build/cache.rs b/src/service/build/cache.rs
index b42afb9..5b028a6 100644
--- a/src/service/build/cache.rs
+++ b/src/service/build/cache.rs
@@ -44,7 +44,7 @@ impl Cache {
     where
         T: AsRef<str> + Into<String>,
     {
-        if cache.as_ref().contains(',') {
+        if cache.as_ref().contains(',') || cache.as_ref().starts_with("type=") {
             Self::parse_str(cache.as_ref())
         } else {
             Image::parse(cache)
-- 
2.43.0


From b5dc7612ea290c0f5a1f671fbefbe6a69316b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 06/19] fix: pad the first byte of a displayed MAC address

---
 src/service/network_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/service/network_config.rs b/src/service/network_config.rs
index 4e93f24..3c47d0f 100644
--- a/src/service/network_config.rs
+++ b/src/service/network_config.rs
@@ -3,7 +3,7 @@
 
 use std::{
     borrow::Cow,
-    fmt::{self, Display, Formatter, LowerHex},
+    fmt::{self, Display, Formatter},
     net::{IpAddr, Ipv4Addr, Ipv6Addr},
     num::ParseIntError,
     str::{FromStr, Split},
@@ -559,7 +559,7 @@ impl Display for MacAddress {
         let mut iter = self.0.iter();
 
         if let Some(byte) = iter.next() {
-            LowerHex::fmt(byte, f)?;
+            write!(f, "{byte:02x}")?;
         }
 
         for byte in iter {
-- 
2.43.0


From beae09dab3a30ac86e4d7a4220eb366f97958b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 07/19] fix: keep the order of fields when deserializing a
 Resource

---
 src/common.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 7d4cd6e..a6695da 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -5,7 +5,6 @@ mod short_or_long;
 
 use std::{
     borrow::Cow,
-    collections::HashMap,
     fmt::{self, Display, Formatter, LowerExp, UpperExp},
     hash::Hash,
     num::{ParseFloatError, ParseIntError, TryFromIntError},
@@ -965,10 +964,10 @@ impl<T: Serialize> Serialize for Resource<T> {
 
 impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        let mut map = HashMap::<String, YamlValue>::deserialize(deserializer)?;
+        let mut map = IndexMap::<String, YamlValue>::deserialize(deserializer)?;
 
         let external = map
-            .remove(Self::EXTERNAL)
+            .shift_remove(Self::EXTERNAL)
             .map(bool::deserialize)
             .transpose()
             .map_err(de::Error::custom)?
@@ -976,7 +975,7 @@ impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
 
         if external {
             let name = map
-                .remove(Self::NAME)
+                .shift_remove(Self::NAME)
                 .map(String::deserialize)
                 .transpose()
                 .map_err(de::Error::custom)?;
-- 
2.43.0


From 39b2e4576e5d7853d9064bc8d9a2ba8e8c13feb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 08/19] fix: keep additional contexts in list form as written

---
 src/service/build.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/service/build.rs b/src/service/build.rs
index d42e1bb..eee4a9c 100644
--- a/src/service/build.rs
+++ b/src/service/build.rs
@@ -257,15 +257,29 @@ fn additional_contexts<'de, D>(deserializer: D) -> Result<IndexMap<MapKey, Conte
 where
     D: Deserializer<'de>,
 {
-    Ok(ListOrMap::deserialize(deserializer)?
-        .into_map()
-        .map_err(de::Error::custom)?
-        .into_iter()
-        .map(|(key, value)| {
-            let value = value
-                .map(String::from)
-                .map_or_else(Context::default, Context::from);
-            (key, value)
-        })
-        .collect())
+    match ListOrMap::deserialize(deserializer)? {
+        // Split here instead of with `ListOrMap::into_map()`, as it parses values which look like
+        // numbers, changing contexts such as "1.50".
+        ListOrMap::List(list) => list
+            .into_iter()
+            .map(|item| {
+                let (key, value) = item.split_once('=').unwrap_or((&item, ""));
+                let value = if value.is_empty() {
+                    Context::default()
+                } else {
+                    value.into()
+                };
+                Ok((key.parse().map_err(de::Error::custom)?, value))
+            })
+            .collect(),
+        ListOrMap::Map(map) => Ok(map
+            .into_iter()
+            .map(|(key, value)| {
+                let value = value
+                    .map(String::from)
+                    .map_or_else(Context::default, Context::from);
+                (key, value)
+            })
+            .collect()),
+    }
 }
-- 
2.43.0


From 841127a5370d662281395d472e5ae07fa971bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 09/19] fix: accept integers of any width for cpus

---
 src/service/deploy/resources.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/service/deploy/resources.rs b/src/service/deploy/resources.rs
index 8af32bd..bfad346 100644
--- a/src/service/deploy/resources.rs
+++ b/src/service/deploy/resources.rs
@@ -315,6 +315,11 @@ impl<'de> Visitor<'de> for CpusVisitor {
         Ok(v.into())
     }
 
+    forward_visitor! {
+        visit_u32,
+        visit_u64: u64,
+    }
+
     forward_visitor! {
         visit_f64,
         visit_i8: i8,
@@ -322,6 +327,11 @@ impl<'de> Visitor<'de> for CpusVisitor {
         visit_i32: i32,
     }
 
+    forward_visitor! {
+        visit_i32,
+        visit_i64: i64,
+    }
+
     fn visit_f64<E: de::Error>(self, v: f64) -> Result<Self::Value, E> {
         v.try_into().map_err(E::custom)
     }
-- 
2.43.0


From f7e1285d4e5ccb349a99342a82585e093dc02d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 10/19] fix: keep containers named ro or rw when displaying
 VolumesFrom

---
 src/service.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 363a613..4769069 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -1441,6 +1441,9 @@ impl VolumesFrom {
     /// Suffix which marks the source volumes as read-only.
     const READ_ONLY_SUFFIX: &'static str = ":ro";
 
+    /// Suffix which marks the source volumes as read-write, this is the default.
+    const READ_WRITE_SUFFIX: &'static str = ":rw";
+
     /// Parse a [`VolumesFrom`] from a string in the format `[container:]{identifier}[:ro|rw]`.
     ///
     /// # Errors
@@ -1464,7 +1467,7 @@ impl VolumesFrom {
             .unwrap_or_else(|| {
                 volumes_from
                     .as_ref()
-                    .strip_suffix(":rw")
+                    .strip_suffix(Self::READ_WRITE_SUFFIX)
                     .map(str::parse)
                     .unwrap_or_else(|| VolumesFromSource::parse(volumes_from))
                     .map(Into::into)
@@ -1482,6 +1485,10 @@ impl Display for VolumesFrom {
 
         if *read_only {
             f.write_str(Self::READ_ONLY_SUFFIX)?;
+        } else if matches!(source, VolumesFromSource::Container(container) if matches!(container.as_str(), "ro" | "rw"))
+        {
+            // Otherwise the container's name would be parsed as the suffix.
+            f.write_str(Self::READ_WRITE_SUFFIX)?;
         }
 
         Ok(())
@@ -1499,10 +1506,14 @@ impl From<VolumesFromSource> for VolumesFrom {
 
 impl From<VolumesFrom> for String {
     fn from(value: VolumesFrom) -> Self {
-        if value.read_only {
-            value.to_string()
+        if let VolumesFrom {
+            source: VolumesFromSource::Service(service),
+            read_only: false,
+        } = value
+        {
+            service.into()
         } else {
-            value.source.into()
+            value.to_string()
         }
     }
 }
-- 
2.43.0


From ffd8a996f22c228b6bb738b27165de74a2633888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 11/19] fix: accept null for optional durations and values
 parsed from strings

---
 src/serde/display_from_str_option.rs | 4 ++++
 src/serde/duration_option.rs         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/serde/display_from_str_option.rs b/src/serde/display_from_str_option.rs
index 0a54377..e465e5d 100644
--- a/src/serde/display_from_str_option.rs
+++ b/src/serde/display_from_str_option.rs
@@ -71,4 +71,8 @@ where
     fn visit_none<E: de::Error>(self) -> Result<Self::Value, E> {
         Ok(None)
     }
+
+    fn visit_unit<E: de::Error>(self) -> Result<Self::Value, E> {
+        Ok(None)
+    }
 }
diff --git a/src/serde/duration_option.rs b/src/serde/duration_option.rs
index 338b7bf..875c37b 100644
--- a/src/serde/duration_option.rs
+++ b/src/serde/duration_option.rs
@@ -62,6 +62,10 @@ impl<'de> de::Visitor<'de> for Visitor {
         Ok(None)
     }
 
+    fn visit_unit<E: de::Error>(self) -> Result<Self::Value, E> {
+        Ok(None)
+    }
+
     fn visit_str<E: de::Error>(self, v: &str) -> Result<Self::Value, E> {
         crate::duration::parse(v).map(Some).map_err(E::custom)
     }
-- 
2.43.0


From 6bf5d0070216336cb22ca6e590d0820b230c03cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 12/19] fix: reject reversed ranges in CpuSet

---
 src/service/cpuset.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/service/cpuset.rs b/src/service/cpuset.rs
index e391d5f..00c4d39 100644
--- a/src/service/cpuset.rs
+++ b/src/service/cpuset.rs
@@ -80,6 +80,9 @@ impl FromStr for CpuSet {
             if let Some((start, end)) = range.split_once('-') {
                 let start: u64 = start.parse().map_err(parse_int_err(start))?;
                 let end = end.parse().map_err(parse_int_err(end))?;
+                if end < start {
+                    return Err(ParseCpuSetError::Range(range.to_owned()));
+                }
                 inner.extend(start..=end);
             } else {
                 let cpu = range.parse().map_err(parse_int_err(range))?;
@@ -94,17 +97,24 @@ impl FromStr for CpuSet {
 /// Closure which constructs a [`ParseCpuSetError`] from a [`ParseIntError`] and a `value`.
 fn parse_int_err(value: &str) -> impl FnOnce(ParseIntError) -> ParseCpuSetError {
     let value = value.to_owned();
-    |source| ParseCpuSetError { value, source }
+    |source| ParseCpuSetError::Int { value, source }
 }
 
 /// Error returned when parsing a [`CpuSet`] from a string.
 #[derive(Error, Debug, Clone, PartialEq, Eq)]
-#[error("could not parse `{value}` as an integer")]
-pub struct ParseCpuSetError {
-    /// Value attempted to parse.
-    value: String,
-    /// Parse error.
-    source: ParseIntError,
+pub enum ParseCpuSetError {
+    /// CPU number is not a valid integer.
+    #[error("could not parse `{value}` as an integer")]
+    Int {
+        /// Value attempted to parse.
+        value: String,
+        /// Parse error.
+        source: ParseIntError,
+    },
+
+    /// The end of a range is before its start.
+    #[error("the end of CPU range `{0}` is less than its start")]
+    Range(String),
 }
 
 impl TryFrom<&str> for CpuSet {
-- 
2.43.0


From a1c1cef5dfe0fb61c6be233b8b902b9a41123440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 13/19] fix: only count uses in different services when
 validating volumes

---
 src/lib.rs | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ba62b45..ee45eb2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -108,7 +108,7 @@ pub mod service;
 mod volume;
 
 use std::{
-    collections::{hash_map::Entry, HashMap},
+    collections::HashMap,
     error::Error,
     fmt::{self, Display, Formatter},
     path::PathBuf,
@@ -299,26 +299,16 @@ impl Compose {
     ///
     /// Only the first undefined named volume is listed in the error's [`Display`] output.
     pub fn validate_volumes(&self) -> Result<(), ValidationError> {
-        let volumes = self
-            .services
-            .values()
-            .flat_map(|service| service::volumes::named_volumes_iter(&service.volumes));
-
         let mut seen_volumes = HashMap::new();
-        for volume in volumes {
-            match seen_volumes.entry(volume) {
-                Entry::Occupied(mut entry) => {
-                    if !entry.get() && !self.volumes.contains_key(volume) {
-                        return Err(ValidationError {
-                            service: None,
-                            resource: volume.clone(),
-                            kind: ResourceKind::Volume,
-                        });
-                    }
-                    *entry.get_mut() = true;
-                }
-                Entry::Vacant(entry) => {
-                    entry.insert(false);
+        for (name, service) in &self.services {
+            for volume in service::volumes::named_volumes_iter(&service.volumes) {
+                let first_service = *seen_volumes.entry(volume).or_insert(name);
+                if first_service != name && !self.volumes.contains_key(volume) {
+                    return Err(ValidationError {
+                        service: None,
+                        resource: volume.clone(),
+                        kind: ResourceKind::Volume,
+                    });
                 }
             }
         }
-- 
2.43.0


From 4089e97ea75817a2c641af23d864ce0c71773a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 14/19] fix: keep the registry of an Image consistent with its
 name in set_registry

---
 src/service/image.rs      | 15 ++++++++-------
 src/service/image/name.rs |  6 ++++++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/service/image.rs b/src/service/image.rs
index 27790b4..795e9fd 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -189,6 +189,10 @@ impl Image {
 
     /// Set the registry portion of the image name, use [`None`] to remove it.
     ///
+    /// The registry is not removed if there are no other parts in the image name as an image name
+    /// cannot be empty. Afterwards, the first part of the image name is only the registry if it
+    /// contains a dot (.), see [`Name`].
+    ///
     /// # Examples
     ///
     /// ```
@@ -214,28 +218,25 @@ impl Image {
             (Some(registry), Some(end)) => {
                 let registry = registry.into_inner();
                 self.inner.replace_range(..end, registry);
-                let new_len = registry.len();
-                self.registry_end = Some(new_len);
-                self.update_tag_or_digest_start(end, new_len);
+                self.update_tag_or_digest_start(end, registry.len());
             }
             // Add registry
             (Some(registry), None) => {
                 let registry = registry.into_inner();
                 self.inner = format!("{registry}/{}", &self.inner);
-                self.registry_end = Some(registry.len());
                 self.update_tag_or_digest_start(0, registry.len() + 1);
             }
             // Remove registry
-            (None, Some(mut end)) => {
+            (None, Some(mut end)) if end < self.name_end() => {
                 // Add one to end for '/' separator.
                 end += 1;
                 self.inner.replace_range(..end, "");
-                self.registry_end = None;
                 self.update_tag_or_digest_start(end, 0);
             }
             // Status quo
-            (None, None) => {}
+            (None, _) => {}
         }
+        self.registry_end = name::find_registry_end(self.name());
     }
 
     /// The full name portion of the image, including the registry, as a string slice.
diff --git a/src/service/image/name.rs b/src/service/image/name.rs
index d8ee86c..275d51f 100644
--- a/src/service/image/name.rs
+++ b/src/service/image/name.rs
@@ -150,6 +150,12 @@ impl<'a> Name<'a> {
     }
 }
 
+/// Find the byte position where the registry ends in a valid image `name`, if it has a registry.
+pub(super) fn find_registry_end(name: &str) -> Option<usize> {
+    let first = name.split('/').next()?;
+    first.contains('.').then_some(first.len())
+}
+
 /// Validate a `part` of an [`Image`](super::Image) name.
 ///
 /// Image names (image without tag or digest) can contain one or more parts separated by '/'.
-- 
2.43.0


From b04a87914a90b2132ce73e53a0276e94f58e1085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 15/19] fix: accept a healthcheck's test of NONE before disable
 as well as after it

---
 src/service/healthcheck.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/service/healthcheck.rs b/src/service/healthcheck.rs
index 630ef11..f2b7bf2 100644
--- a/src/service/healthcheck.rs
+++ b/src/service/healthcheck.rs
@@ -68,7 +68,8 @@ impl<'de> de::Visitor<'de> for Visitor {
     }
 
     fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<Self::Value, A::Error> {
-        let mut disable = None;
+        let mut disable: Option<bool> = None;
+        let mut none = false;
         let mut test = None;
         let mut interval = None;
         let mut timeout = None;
@@ -86,7 +87,7 @@ impl<'de> de::Visitor<'de> for Visitor {
                 Field::Test => {
                     check_duplicate(&test, "test")?;
                     map.next_value_seed(DisableOrTest {
-                        disable: &mut disable,
+                        none: &mut none,
                         test: &mut test,
                     })?;
                 }
@@ -118,7 +119,13 @@ impl<'de> de::Visitor<'de> for Visitor {
             }
         }
 
-        if disable.unwrap_or_default() {
+        let disable = disable.unwrap_or_default();
+
+        if disable && none {
+            Err(de::Error::custom(
+                "cannot set `disable` to `true` and `test` to `NONE`",
+            ))
+        } else if disable || none {
             if test.is_none()
                 && interval.is_none()
                 && timeout.is_none()
@@ -189,8 +196,8 @@ enum Field {
 ///
 /// If `test` is set to `NONE`, then [`Healthcheck::Disable`] is deserialized.
 struct DisableOrTest<'a> {
-    /// `disable` field.
-    disable: &'a mut Option<bool>,
+    /// Whether `test` is `NONE`.
+    none: &'a mut bool,
 
     /// `test` field.
     test: &'a mut Option<Test>,
@@ -248,13 +255,10 @@ impl<'a, 'de> de::Visitor<'de> for DisableOrTest<'a> {
                 }
             }
             TestKind::None => {
-                if self.disable.unwrap_or_default() {
-                    Err(de::Error::custom(
-                        "cannot set `disable` to `true` and `test` to `NONE` \
-                            or set `test` to `NONE` multiple times",
-                    ))
+                if *self.none {
+                    Err(de::Error::duplicate_field("test"))
                 } else {
-                    *self.disable = Some(true);
+                    *self.none = true;
 
                     if seq.next_element::<String>()?.is_none() {
                         Ok(())
-- 
2.43.0


From 0cd31986301f6e94aede7e12c03f7e9468b2222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 16/19] fix: keep the text of list items which does not survive
 parsing in ListOrMap::into_map

---
 src/common.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index a6695da..c5c175d 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -240,7 +240,9 @@ impl ListOrMap {
                         .map_or((item.as_str(), None), |(key, value)| (key, Some(value)));
                     Ok((
                         key.parse()?,
-                        value.filter(|value| !value.is_empty()).map(Value::parse),
+                        value
+                            .filter(|value| !value.is_empty())
+                            .map(Value::parse_exact),
                     ))
                 })
                 .collect(),
@@ -313,6 +315,18 @@ impl Value {
             .unwrap_or_else(|_| Self::String(string.into()))
     }
 
+    /// Parse the given string into a [`Value`], only using a non-string type if the value can be
+    /// converted back into the same string.
+    ///
+    /// For example, "1.50", "007", and "inf" are kept as strings.
+    fn parse_exact(string: &str) -> Self {
+        match Self::parse(string) {
+            Self::Number(Number::Float(float)) if !float.is_finite() => Self::String(string.into()),
+            value if value.to_string() == string => value,
+            _ => Self::String(string.into()),
+        }
+    }
+
     /// Returns `true` if the value is a [`String`].
     #[must_use]
     pub const fn is_string(&self) -> bool {
-- 
2.43.0


From b0a860deacfb144fcf5f21f8c17a97a107899a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 17/19] fix: do not convert a read-only anonymous volume into
 the short syntax

---
 src/service/volumes/mount.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/service/volumes/mount.rs b/src/service/volumes/mount.rs
index d289dd1..a23b3e3 100644
--- a/src/service/volumes/mount.rs
+++ b/src/service/volumes/mount.rs
@@ -283,7 +283,11 @@ impl Volume {
                         consistency: None,
                         extensions,
                     },
-            } if volume.as_ref().map_or(true, VolumeOptions::is_empty) && extensions.is_empty() => {
+            } if volume.as_ref().map_or(true, VolumeOptions::is_empty)
+                && extensions.is_empty()
+                // An anonymous volume cannot have options in the short syntax.
+                && (source.is_some() || !read_only) =>
+            {
                 Ok(ShortVolume {
                     container_path,
                     options: source.map(|source| ShortOptions {
-- 
2.43.0


From f71315880532345be8979352aec14b677d88bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 18/19] fix: do not convert volumes into the short syntax if
 their paths contain a colon

---
 src/service/volumes/mount.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/service/volumes/mount.rs b/src/service/volumes/mount.rs
index a23b3e3..f9498d6 100644
--- a/src/service/volumes/mount.rs
+++ b/src/service/volumes/mount.rs
@@ -7,7 +7,7 @@ use std::{
     fmt::{self, Display, Formatter},
     hash::{Hash, Hasher},
     ops::Not,
-    path::PathBuf,
+    path::{Path, PathBuf},
 };
 
 use serde::{Deserialize, Serialize};
@@ -286,7 +286,8 @@ impl Volume {
             } if volume.as_ref().map_or(true, VolumeOptions::is_empty)
                 && extensions.is_empty()
                 // An anonymous volume cannot have options in the short syntax.
-                && (source.is_some() || !read_only) =>
+                && (source.is_some() || !read_only)
+                && !contains_colon(container_path.as_path()) =>
             {
                 Ok(ShortVolume {
                     container_path,
@@ -428,7 +429,9 @@ impl Bind {
                  }| {
                     propagation.is_none() && *create_host_path && extensions.is_empty()
                 },
-            ) && extensions.is_empty() =>
+            ) && extensions.is_empty()
+                && !contains_colon(source.as_path())
+                && !contains_colon(container_path.as_path()) =>
             {
                 Ok(ShortVolume {
                     container_path,
@@ -445,6 +448,11 @@ impl Bind {
     }
 }
 
+/// Returns `true` if the `path` contains a colon (:), the separator in the [`ShortVolume`] syntax.
+fn contains_colon(path: &Path) -> bool {
+    path.to_string_lossy().contains(':')
+}
+
 impl From<(HostPath, Common)> for Bind {
     fn from((source, common): (HostPath, Common)) -> Self {
         Self::new(source, common)
-- 
2.43.0


From 08cfb70cf7761dfeb04367bc3275cd47f516b906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 19/19] fix: apply merges within merged mappings

Value::apply_merge() works from the outside in and so leaves the << key of a
mapping which is itself merged into another one, which is then rejected, or
given to the wrong mapping.
---
 src/options.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/options.rs b/src/options.rs
index 4844aea..f9c89eb 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -101,8 +101,27 @@ impl Options {
     /// Returns an error if deserialization fails.
     pub fn from_yaml_value(&self, mut value: YamlValue) -> serde_yaml::Result<Compose> {
         if self.apply_merge {
-            value.apply_merge()?;
+            apply_merge(&mut value)?;
         }
         serde_yaml::from_value(value)
     }
 }
+
+/// Merge all `<<` keys into their surrounding mappings, innermost first.
+///
+/// A mapping which is merged into another may itself have a `<<` key, which
+/// [`YamlValue::apply_merge()`] leaves in place.
+fn apply_merge(value: &mut YamlValue) -> serde_yaml::Result<()> {
+    match value {
+        YamlValue::Sequence(sequence) => sequence.iter_mut().try_for_each(apply_merge),
+        YamlValue::Mapping(mapping) => {
+            mapping.values_mut().try_for_each(apply_merge)?;
+            if mapping.contains_key("<<") {
+                value.apply_merge()?;
+            }
+            Ok(())
+        }
+        YamlValue::Tagged(tagged) => apply_merge(&mut tagged.value),
+        _ => Ok(()),
+    }
+}
-- 
2.43.0

