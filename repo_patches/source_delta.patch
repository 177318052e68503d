From 178bb0087e6240cf8844d6d79b91e0b3fb4134ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 01/14] fix: derange ranges that reach the end of the address
 space

---
 src/cmds/derange.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cmds/derange.rs b/src/cmds/derange.rs
index 83d7738..d72f186 100644
--- a/src/cmds/derange.rs
+++ b/src/cmds/derange.rs
@@ -66,11 +66,15 @@ pub fn range_to_subnets<A: IpAddress>(
     let mut current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
     while first_addr <= last_addr {
         // try enlarging the subnet
-        let larger_subnet = IpNetwork::new_with_prefix(first_addr, current_subnet.cidr_prefix().unwrap() - 1);
-        if larger_subnet.base_addr() != first_addr || larger_subnet.last_addr_of_subnet() > last_addr {
+        let cidr_prefix = current_subnet.cidr_prefix().unwrap();
+        let larger_subnet = IpNetwork::new_with_prefix(first_addr, cidr_prefix.saturating_sub(1));
+        if cidr_prefix == 0 || larger_subnet.base_addr() != first_addr || larger_subnet.last_addr_of_subnet() > last_addr {
             // we've gone beyond; store what we have and continue with the next chunk
             ret.push(current_subnet);
-            first_addr = current_subnet.next_subnet_base_addr().unwrap();
+            first_addr = match current_subnet.next_subnet_base_addr() {
+                Some(nsba) => nsba,
+                None => break, // the range ends at the end of the address space
+            };
             current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
         } else {
             // anchor the growth and continue
-- 
2.43.0


From a00500cb92528519f732c6a86a1f7ba7a1b3f892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 02/14] fix: borrow from the top half when subtracting IPv6
 addresses

---
 src/addr.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/addr.rs b/src/addr.rs
index 0bb0fc3..e46b4f2 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -275,13 +275,7 @@ impl Ipv6Address {
 
     fn sub_internal(addrtop64: u64, addrbot64: u64, offtop64: u64, offbot64: u64) -> Option<Ipv6Address> {
         let bot_diff = addrbot64.wrapping_sub(offbot64);
-        let is_borrow =
-            addrtop64 < offtop64
-            || (
-                addrtop64 == offtop64
-                && addrbot64 < offbot64
-            )
-        ;
+        let is_borrow = addrbot64 < offbot64;
 
         let mut top_diff = addrtop64.checked_sub(offtop64)?;
         if is_borrow {
-- 
2.43.0


From a20fe1d538d5a73fe245919afb4d3b820d122d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 03/14] fix: negation overflow with the smallest IPv6 address
 offset

---
 src/addr.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/addr.rs b/src/addr.rs
index e46b4f2..a1118d8 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -356,7 +356,10 @@ impl IpAddress for Ipv6Address {
 
     fn add_offset(&self, offset: i32) -> Option<Ipv6Address> {
         if offset < 0 {
-            Ipv6Address::subtract_offset(&self, -offset)
+            Ipv6Address::sub_internal(
+                self.top_half, self.bottom_half,
+                0, offset.unsigned_abs().into(),
+            )
         } else {
             Ipv6Address::add_internal(
                 self.top_half, self.bottom_half,
@@ -374,7 +377,10 @@ impl IpAddress for Ipv6Address {
 
     fn subtract_offset(&self, offset: i32) -> Option<Ipv6Address> {
         if offset < 0 {
-            Ipv6Address::add_offset(&self, -offset)
+            Ipv6Address::add_internal(
+                self.top_half, self.bottom_half,
+                0, offset.unsigned_abs().into(),
+            )
         } else {
             Ipv6Address::sub_internal(
                 self.top_half, self.bottom_half,
-- 
2.43.0


From cd380c174fde063471e446350354d30330c32ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 04/14] fix: full IPv6 address string was always empty

---
 src/addr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addr.rs b/src/addr.rs
index a1118d8..7ae6e2a 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -220,7 +220,7 @@ impl Ipv6Address {
     pub fn to_full_string(&self) -> String {
         let chunks = self.to_chunks();
         let mut chunk_strings = Vec::with_capacity(chunks.len());
-        for i in 0..chunk_strings.len() {
+        for i in 0..chunks.len() {
             chunk_strings.push(format!("{:04x}", chunks[i]));
         }
         chunk_strings.join(":")
-- 
2.43.0


From 1eebabfcde3c4b9f6cfb7818568a6cddfc386550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 05/14] fix: parse IPv6 addresses where a leading or trailing
 "::" is one chunk

---
 src/addr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/addr.rs b/src/addr.rs
index 7ae6e2a..0de38ea 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -403,7 +403,10 @@ impl FromStr for Ipv6Address {
         }
 
         let chunks: Vec<&str> = addr_str.split(":").collect();
-        if chunks.len() > 8 {
+        // "::" at the start or end may stand for a single zero chunk; above, that zero chunk was
+        // already added explicitly
+        let max_chunks = if s.starts_with("::") || s.ends_with("::") { 9 } else { 8 };
+        if chunks.len() > max_chunks {
             return Err(IpAddressParseError::IncorrectChunkCount(chunks.len(), 8));
         }
 
-- 
2.43.0


From 30c383bdd82e49b41b76a1f4941cd2e3512d82e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 06/14] fix: intersection test for networks with mixed subnet
 masks

---
 src/net.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index c8141a4..ecc0169 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -233,13 +233,10 @@ impl<A: IpAddress> IpNetwork<A> {
     /// Returns whether this network and another network intersect, i.e. there is at least one
     /// address that is contained in both networks.
     pub fn intersects(&self, other: &IpNetwork<A>) -> bool {
-        let self_first = self.base_addr;
-        let self_last = self.last_addr_of_subnet();
-        let other_first = other.base_addr;
-        let other_last = other.last_addr_of_subnet();
-
-        // thisFirst <= otherLast && otherFirst <= thisLast
-        self_first <= other_last && other_first <= self_last
+        // two networks intersect if their base addresses agree in all bits which are network bits
+        // in both networks (this also works if the networks are not contiguous)
+        let common_mask = self.subnet_mask & other.subnet_mask;
+        (self.base_addr & common_mask) == (other.base_addr & common_mask)
     }
 }
 impl<A: IpAddress> fmt::Display for IpNetwork<A> {
-- 
2.43.0


From 1a660438a595ef28968adc33627ca95a4ac2505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 07/14] fix: spurious line breaks in uncolored output

---
 src/cmds/show_net.rs | 1 +
 src/console.rs       | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 1802ebb..3f44c24 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -120,6 +120,7 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
             println!();
         } else {
             write_in_color("no hosts/net", Some(LABEL_COLOR), 0);
+            println!();
         }
     }
 }
diff --git a/src/console.rs b/src/console.rs
index 31f2031..a9411b6 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -78,5 +78,5 @@ pub fn write_in_color<S: AsRef<str>>(text: S, color: Option<Color>, pad_to: isiz
         }
     }
 
-    println!("{}", padded);
+    print!("{}", padded);
 }
-- 
2.43.0


From a2afee79b50e6c6ca8aed1278b4ed6b62f8a59c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 08/14] fix: minimize kept networks contained in a merged
 network

---
 src/cmds/minimize.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmds/minimize.rs b/src/cmds/minimize.rs
index f828662..19798a2 100644
--- a/src/cmds/minimize.rs
+++ b/src/cmds/minimize.rs
@@ -116,6 +116,7 @@ pub fn minimize_subnets<A: IpAddress>(
                 // replace the lower subnets with the upper subnet
                 filtered_subnets.remove(&subnets[i]);
                 filtered_subnets.remove(&subnets[j]);
+                filtered_subnets.retain(|net| !new_subnet.is_superset_of(net));
                 filtered_subnets.insert(new_subnet);
 
                 subnets_merged = true;
-- 
2.43.0


From 5974589fff2aa6824a7d623f8a36d8d078cdd55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 09/14] fix: unused networks and size check of fully used or
 too small split networks

---
 src/cmds/split.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 958c2ce..212aad8 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -71,11 +71,13 @@ fn output_split<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(subnet: IpNetwork
         .map(|sn| sn.last_addr_of_subnet())
         .max()
         .expect("no subnets returned");
-    if !subnet.contains(&max_used_address) {
+    let last_address = subnet.last_addr_of_subnet();
+    if split_subnets.iter().any(|sn| !subnet.is_superset_of(sn)) {
         println!("Network is too small");
+    } else if max_used_address == last_address {
+        // the slices fill the network completely
     } else if let Some(next_unused_address) = max_used_address.add_offset(1) {
         println!("Unused networks:");
-        let last_address = subnet.last_addr_of_subnet();
         let unused_subnets = range_to_subnets(next_unused_address, last_address);
 
         for unused_subnet in unused_subnets {
-- 
2.43.0


From 51d37e412803522767e947c1f5ccf78eb40642a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 10/14] fix: splits whose slices reach the end of the address
 space

---
 src/cmds/split.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 212aad8..b23cc1a 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -102,28 +102,22 @@ pub fn split_subnet<A: IpAddress>(subnet: IpNetwork<A>, host_counts: Vec<BigInt>
 
     let mut index_to_subnet: HashMap<usize, IpNetwork<A>> = HashMap::new();
 
-    let mut current_net = IpNetwork::new_with_prefix(subnet.base_addr(), subnet.subnet_mask().byte_count()*8);
+    let mut next_base_addr = Some(subnet.base_addr());
     for (i, host_count) in indexes_and_host_counts {
+        // if the previous slice bordered the end of the address space, this one won't fit
+        let mut current_net = IpNetwork::new_with_prefix(next_base_addr?, subnet.subnet_mask().byte_count()*8);
         while current_net.host_count() < host_count {
             let cidr_prefix = current_net.cidr_prefix().unwrap();
             if cidr_prefix == 0 {
-                break;
+                // this won't fit
+                return None;
             }
             current_net = IpNetwork::new_with_prefix(current_net.base_addr(), cidr_prefix - 1);
         }
 
-        if current_net.cidr_prefix().unwrap() == 0 {
-            // this won't fit
-            return None;
-        }
-
         // we fit!
         index_to_subnet.insert(i, current_net);
-        let next_subnet_base_addr = match current_net.next_subnet_base_addr() {
-            Some(nsba) => nsba,
-            None => return None,
-        };
-        current_net = IpNetwork::new_with_prefix(next_subnet_base_addr, current_net.subnet_mask().byte_count()*8);
+        next_base_addr = current_net.next_subnet_base_addr();
     }
 
     let mut ordered_subnets: Vec<(usize, IpNetwork<A>)> = index_to_subnet.iter()
-- 
2.43.0


From f5534de20f79563abc8641b1a268f649b2de46d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 11/14] fix: panic on command line arguments that are not valid
 Unicode

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21da9bf..96c5208 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -45,7 +45,9 @@ fn usage() {
 }
 
 fn do_main() -> i32 {
-    let args: Vec<String> = std::env::args().collect();
+    let args: Vec<String> = std::env::args_os()
+        .map(|arg| arg.to_string_lossy().into_owned())
+        .collect();
 
     if args.len() < 2 {
         usage();
-- 
2.43.0


From f7097f06a339dc48ea76ecab02c3afe83ffa91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:40 +0000
Subject: [PATCH 12/14] fix: refuse a plus sign in front of an IP address group

The integer parsers tolerate it, so 1.2.3.+4 and ::+1 were read as addresses.
---
 src/addr.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/addr.rs b/src/addr.rs
index 0de38ea..080cfc0 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -146,6 +146,10 @@ impl FromStr for Ipv4Address {
             if chunks[i].len() == 0 {
                 return Err(IpAddressParseError::EmptyChunk(i));
             }
+            if chunks[i].starts_with('+') {
+                // tolerated by the integer parser but not part of an address
+                return Err(IpAddressParseError::InvalidChunk(i, String::from(chunks[i])));
+            }
 
             let chunk_val: u32 = chunks[i].parse()
                 .map_err(|e| IpAddressParseError::ChunkParseError(i, String::from(chunks[i]), e))?;
@@ -463,6 +467,10 @@ impl FromStr for Ipv6Address {
             let shift_count_within_half = shift_count % 64;
             let into_top_half = i < 4;
 
+            if actual_chunks[i].starts_with('+') {
+                // tolerated by the integer parser but not part of an address
+                return Err(IpAddressParseError::InvalidChunk(i, actual_chunks[i].clone()));
+            }
             let chunk_value = match u16::from_str_radix(&actual_chunks[i], 16) {
                 Ok(v) => v,
                 Err(e)
@@ -584,6 +592,7 @@ pub enum IpAddressParseError {
     UnknownAddressType,
     IncorrectChunkCount(usize, usize),
     EmptyChunk(usize),
+    InvalidChunk(usize, String),
     ChunkParseError(usize, String, ParseIntError),
     ChunkOutOfRange(usize, u32, u32, u32),
     TooManyShorteningElements(usize, usize),
@@ -597,6 +606,8 @@ impl fmt::Display for IpAddressParseError {
                 => write!(f, "IP address has {} chunk(s); expected {}", got, expected),
             IpAddressParseError::EmptyChunk(chunk_idx)
                 => write!(f, "IP address chunk with index {} is empty", chunk_idx),
+            IpAddressParseError::InvalidChunk(chunk_idx, chunk)
+                => write!(f, "IP address chunk with index {} ({:?}) is invalid", chunk_idx, chunk),
             IpAddressParseError::ChunkParseError(chunk_idx, chunk, error)
                 => write!(f, "failed to parse IP address chunk with index {} ({:?}): {}", chunk_idx, chunk, error),
             IpAddressParseError::ChunkOutOfRange(chunk_idx, got, min, max)
-- 
2.43.0


From a85e278907ac10b898370da0b6c2b00562da0d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:40 +0000
Subject: [PATCH 13/14] fix: refuse a single colon at the start or the end of
 an IPv6 address

:1:2:3:4:5:6:7 and 1::2: were read as addresses with a zero group there, the empty text as ::.
---
 src/addr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/addr.rs b/src/addr.rs
index 080cfc0..7162102 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -460,6 +460,14 @@ impl FromStr for Ipv6Address {
             // leave remaining chunks as zero
         }
 
+        // only two colons in a row may stand at the start or at the end
+        if s.is_empty() || (s.starts_with(':') && !s.starts_with("::")) {
+            return Err(IpAddressParseError::EmptyChunk(0));
+        }
+        if s.ends_with(':') && !s.ends_with("::") {
+            return Err(IpAddressParseError::EmptyChunk(chunks.len() - 1));
+        }
+
         let mut top_half: u64 = 0;
         let mut bottom_half: u64 = 0;
         for i in 0..8 {
-- 
2.43.0


From 4018d35def3f44b46f9e4df123f74b3845e63e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:40 +0000
Subject: [PATCH 14/14] fix: accept upper-case hexadecimal digits in IPv6
 network specifications

The address parser reads them everywhere else; 2001:DB8::/32 was not recognized.
---
 src/cmds/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmds/mod.rs b/src/cmds/mod.rs
index 88c49dd..4edb50c 100644
--- a/src/cmds/mod.rs
+++ b/src/cmds/mod.rs
@@ -25,10 +25,10 @@ static IPV4_WITH_CIDR_REGEX: Lazy<Regex> = Lazy::new(||
     Regex::new("^(?P<addr>[0-9]+(?:[.][0-9]+){3})/(?P<wildcard>-)?(?P<cidr>[0-9]+)$").unwrap()
 );
 static IPV6_WITH_SUBNET_REGEX: Lazy<Regex> = Lazy::new(||
-    Regex::new("^(?P<addr>[0-9a-f:]+)/(?P<wildcard>-)?(?P<mask>[0-9a-f:]*:[0-9a-f:]*)$").unwrap()
+    Regex::new("^(?P<addr>[0-9A-Fa-f:]+)/(?P<wildcard>-)?(?P<mask>[0-9A-Fa-f:]*:[0-9A-Fa-f:]*)$").unwrap()
 );
 static IPV6_WITH_CIDR_REGEX: Lazy<Regex> = Lazy::new(||
-    Regex::new("^(?P<addr>[0-9a-f:]+)/(?P<wildcard>-)?(?P<cidr>[0-9]+)$").unwrap()
+    Regex::new("^(?P<addr>[0-9A-Fa-f:]+)/(?P<wildcard>-)?(?P<cidr>[0-9]+)$").unwrap()
 );
 
 
-- 
2.43.0

