From 07f7e7f4a92fa21500d7da6b5de79e1cc9ac3355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 01/34] fix: Amount::inverse also inverts negative amounts

An elided posting amount was wrong when the other postings summed to a negative value.
---
 src/amount.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 9e08c94..c77bcee 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -74,15 +74,9 @@ impl Amount {
 
     /// Creates an amount with the opposite sign on the quantity.
     pub fn inverse(&self) -> Amount {
-        let new_quantity = if self.quantity.is_sign_positive() {
-            let mut x = self.quantity.clone();
-            x.set_sign_negative();
-            x
-        } else {
-            self.quantity
-        };
-
-        unsafe { Amount::new(new_quantity, Some(&*self.commodity)) }
+        let mut result = Amount::copy_from(self);
+        result.invert();
+        result
     }
 
     /// Inverts the sign on the amount.
-- 
2.43.0


From f85d44639a8f08be9cda343b69aca31eecdba29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 02/34] fix: do not dereference the null commodity in Amount
 arithmetic

---
 src/amount.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index c77bcee..7cd3351 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -117,7 +117,7 @@ impl Add<Amount> for Amount {
 
         let sum = self.quantity + rhs.quantity;
 
-        unsafe { Amount::new(sum, Some(&*self.commodity)) }
+        Amount::new(sum, Some(self.commodity))
     }
 }
 
@@ -161,7 +161,7 @@ impl Mul<Amount> for Amount {
             self.commodity
         };
 
-        unsafe { Amount::new(quantity, Some(&*commodity)) }
+        Amount::new(quantity, Some(commodity))
     }
 }
 
-- 
2.43.0


From 62b157c5ad85f7a156cd188fadc1156611a15453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 03/34] fix: keep accounts at a stable address

Posts and child accounts point at Account values, which moved whenever
the map they lived in grew.
---
 src/account.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index 1fec747..cbe5192 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -12,7 +12,7 @@ pub struct Account {
     pub name: String,
     // note
     // depth
-    pub accounts: HashMap<String, Account>,
+    pub accounts: HashMap<String, Box<Account>>,
     pub posts: Vec<*const Post>,
     // deferred posts
     // value_expr
@@ -39,7 +39,7 @@ impl Account {
 
         let self_mut = self.get_account_mut(self as *const Account as *mut Account);
 
-        self_mut.accounts.insert(first.into(), new_account);
+        self_mut.accounts.insert(first.into(), Box::new(new_account));
 
         let Some(new_ref) = self.accounts.get(first)
             else {panic!("should not happen")};
@@ -100,7 +100,7 @@ impl Account {
     pub fn find_or_create(&self, name: &str, auto_create: bool) -> Option<*const Account> {
         // search for direct hit.
         if let Some(found) = self.accounts.get(name) {
-            return Some(found);
+            return Some(found.as_ref());
         }
 
         // otherwise search for name parts in between the `:`
@@ -120,7 +120,7 @@ impl Account {
 
         if let Some(account_opt) = self.accounts.get(first) {
             // keep this value
-            account = account_opt;
+            account = account_opt.as_ref();
         } else {
             if !auto_create {
                 return None;
@@ -174,7 +174,7 @@ impl Account {
         // Push the current node to the Vec
         nodes.push(self);
         // 
-        let mut children: Vec<&Account> = self.accounts.values().into_iter().collect();
+        let mut children: Vec<&Account> = self.accounts.values().map(|acc| acc.as_ref()).collect();
         children.sort_unstable_by_key(|acc| &acc.name);
         // If the node has children, recursively call flatten on them
         for child in children {
-- 
2.43.0


From 8cd05af18b3f1bf9df128fd634b80fbdc5794fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 04/34] fix: keep commodities at a stable address

Amounts and the price graph point at Commodity values, which moved whenever
the pool grew.
---
 src/pool.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 719e69c..dbf23ba 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -24,7 +24,7 @@ pub type CommodityIndex = NodeIndex;
 pub struct CommodityPool {
     /// Map (symbol, commodity)
     // pub(crate) commodities: HashMap<String, NodeIndex>,
-    pub(crate) commodities: HashMap<String, Commodity>,
+    pub(crate) commodities: HashMap<String, Box<Commodity>>,
     // pub(crate) commodities: HashMap<String, Rc<Commodity>>,
     /// Commodity annotations. symbol, annotation
     pub(crate) annotated_commodities: HashMap<String, Annotation>,
@@ -77,12 +77,18 @@ impl CommodityPool {
         }
 
         // move to map
-        self.commodities.insert(symbol.to_string(), c);
+        match self.commodities.get_mut(symbol) {
+            // keep the address of an existing commodity.
+            Some(existing) => **existing = c,
+            None => {
+                self.commodities.insert(symbol.to_string(), Box::new(c));
+            }
+        }
         // get the new address.
         let new_commodity = self.commodities.get(symbol).unwrap();
 
         // add to price history graph.
-        let cdty_ptr = new_commodity as *const Commodity;
+        let cdty_ptr = new_commodity.as_ref() as *const Commodity;
         // log::debug!("commodity pointer: {:?} for {:?}", cdty_ptr, symbol);
         let i = self.commodity_history.add_commodity(cdty_ptr);
 
@@ -98,7 +104,7 @@ impl CommodityPool {
     }
 
     pub fn find(&self, symbol: &str) -> Option<&Commodity> {
-        self.commodities.get(symbol)
+        self.commodities.get(symbol).map(|c| c.as_ref())
     }
 
     pub fn find_index(&self, symbol: &str) -> Option<CommodityIndex> {
@@ -128,7 +134,7 @@ impl CommodityPool {
                     .insert(symbol.to_owned(), annotation.unwrap());
             }
 
-            c
+            c.as_ref()
         } else {
             self.create(symbol, annotation)
         }
-- 
2.43.0


From b38f2c1a21bede86a9e63634e362f0525437ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 05/34] fix: CommodityPool::find_index returns None for unknown
 symbols

---
 src/pool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pool.rs b/src/pool.rs
index dbf23ba..dbe9ec7 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -109,7 +109,7 @@ impl CommodityPool {
 
     pub fn find_index(&self, symbol: &str) -> Option<CommodityIndex> {
         let x = self.commodities.get(symbol);
-        x.unwrap().graph_index
+        x.and_then(|c| c.graph_index)
     }
 
     /// Finds a commodity with the given symbol, or creates one.
-- 
2.43.0


From 312df182f43454b173927caa0e7a7b989492ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 06/34] fix: find_account returns None for unknown sub-accounts

---
 src/account.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/account.rs b/src/account.rs
index cbe5192..e36c56c 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -132,7 +132,7 @@ impl Account {
         // Search recursively.
         if !rest.is_empty() {
             let acct = self.get_account_mut(account);
-            account = acct.find_or_create(rest, auto_create).unwrap();
+            account = acct.find_or_create(rest, auto_create)?;
         }
 
         Some(account)
-- 
2.43.0


From af96c873dbc25b2f4cc9719cdb9e48a0251a3ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 07/34] fix: link posts to accounts once the transaction is
 complete

Account.posts pointed at freed memory after a transaction's fifth posting.
---
 src/parser.rs | 11 +++--------
 src/xact.rs   |  7 ++++++-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ae56776..8b5b16b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -449,7 +449,6 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
     let note = None;
 
     // Create Post, link Xact, Account, Commodity
-    let post_ref: &Post;
     {
         let post: Post;
         post = Post::new(account_ptr, xact_ptr, amount_opt, cost_option, note);
@@ -461,15 +460,11 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
             xact = &mut *(xact_ptr.cast_mut());
         }
         // xact.post_indices.push(post_index);
-        post_ref = xact.add_post(post);
+        xact.add_post(post);
     }
 
-    // add Post to Account.posts
-    {
-        //let account = journal.accounts.get_mut(account_ptr).unwrap();
-        let account = journal.get_account_mut(account_ptr);
-        account.posts.push(post_ref);
-    }
+    // The Post is added to Account.posts when the Xact is finalized, since the posts
+    // move in memory while the Xact is still growing.
 
     Ok(())
 }
diff --git a/src/xact.rs b/src/xact.rs
index d7e879e..ffe80c9 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -274,7 +274,12 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
     }
 
     // TODO: Process Commodities?
-    // TODO: Process Account records from Posts.
+
+    // Add the posts to their accounts.
+    for post in &xact.posts {
+        let account = journal.get_account_mut(post.account);
+        account.posts.push(post);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 94530c4d321ed140f772adc4d6792da8c2361cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 08/34] fix: keep Post.xact_ptr valid when the journal grows

---
 src/journal.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/journal.rs b/src/journal.rs
index 08b4a15..c7108fe 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -36,8 +36,23 @@ impl Journal {
     }
 
     pub fn add_xact(&mut self, xact: Xact) -> &Xact {
+        let buffer = self.xacts.as_ptr();
         self.xacts.push(xact);
         //self.xacts.len() - 1
+
+        // Pushing may move all the transactions. Re-link the posts of those that moved.
+        let first_moved = if self.xacts.as_ptr() == buffer {
+            self.xacts.len() - 1
+        } else {
+            0
+        };
+        for xact in &mut self.xacts[first_moved..] {
+            let xact_ptr: *const Xact = xact;
+            for post in &mut xact.posts {
+                post.xact_ptr = xact_ptr;
+            }
+        }
+
         self.xacts.last().unwrap()
     }
 
-- 
2.43.0


From 1696d0c01448e26cdbf8c3948ed5d35228bdf40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 09/34] fix: accept transaction headers that end with a date

The line terminator was taken for a part of the date.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8b5b16b..5d12e2e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -256,7 +256,7 @@ impl<'j, T: Read> Parser<'j, T> {
     }
 
     fn create_xact(&mut self) -> *const Xact {
-        let tokens = scanner::tokenize_xact_header(&self.buffer);
+        let tokens = scanner::tokenize_xact_header(self.buffer.trim_end());
         let xact = Xact::create(tokens[0], tokens[1], tokens[2], tokens[3]);
 
         // Add xact to the journal
-- 
2.43.0


From 1a09255849ee0c9aaf70da9f9c9609f11b590890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 10/34] fix: skip lines of whitespace between transactions

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5d12e2e..59bff31 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -142,7 +142,7 @@ impl<'j, T: Read> Parser<'j, T> {
         // }
         // let length = self.buffer.len();
         // log::debug!("line length: {:?}", length);
-        if self.buffer == "\r\n" || self.buffer == "\n" {
+        if self.buffer.trim().is_empty() {
             return Ok(());
         }
 
-- 
2.43.0


From 999f45f0e32866b7d116a6524af028a7862ee4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 11/34] fix: accept postings without an amount that end with
 whitespace or a note

---
 src/scanner.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 60d4007..ac9e52f 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -215,7 +215,14 @@ pub(crate) fn scan_post(input: &str) -> PostTokens {
     // there's more content
 
     let account = &input[..sep_index];
-    let (amount_tokens, input) = scan_amount(&input[sep_index + 2..]);
+    let input = input[sep_index + 2..].trim_start();
+    if input.is_empty() || input.starts_with(';') {
+        // no amount, only trailing whitespace or a note.
+        let mut post_tokens = PostTokens::create_empty();
+        post_tokens.account = account;
+        return post_tokens;
+    }
+    let (amount_tokens, input) = scan_amount(input);
     let (annotation_tokens, input) = scan_annotations(input);
     let cost_tokens = match input.is_empty() {
         true => CostTokens::new(),
-- 
2.43.0


From e36bcb4563bf85dc77c4fb6956e75f2aece3f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 12/34] fix: do not treat an unreadable posting amount or cost
 as omitted

---
 src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 59bff31..1e11c5c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -422,6 +422,9 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
 
     // create amount
     let amount_opt = parse_amount_parts(tokens.quantity, tokens.symbol, journal);
+    if amount_opt.is_none() && !(tokens.quantity.is_empty() && tokens.symbol.is_empty()) {
+        panic!("Invalid amount in posting {:?}", input);
+    }
 
     // parse and add annotations.
     {
@@ -480,10 +483,7 @@ fn parse_cost(
 
     // parse cost (per-unit vs total)
     let cost_result = parse_amount_parts(tokens.cost_quantity, tokens.cost_symbol, journal);
-    if cost_result.is_none() {
-        return None;
-    }
-    let mut cost = cost_result.unwrap();
+    let mut cost = cost_result.expect("valid cost");
 
     if tokens.is_per_unit {
         // per-unit cost
-- 
2.43.0


From 23fd37c21e84a9e646f950a1cc90a1223754cea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:12 +0000
Subject: [PATCH 13/34] fix: date of a multi-hop price does not depend on the
 current time

---
 src/history.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 1306cc5..3bef458 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -16,7 +16,7 @@ use std::{
     ops::{Deref, DerefMut},
 };
 
-use chrono::{Local, NaiveDateTime};
+use chrono::NaiveDateTime;
 use petgraph::{algo::astar, stable_graph::NodeIndex, Graph};
 
 use crate::{
@@ -155,7 +155,7 @@ impl CommodityHistory {
     fn calculate_rate(&self, source: CommodityIndex, target_ptr: *const Commodity, path: Vec<NodeIndex>) -> (NaiveDateTime, Quantity) {
         let mut result = Amount::new(Quantity::ONE, Some(target_ptr));
         let mut temp_source = source;
-        let mut least_recent: NaiveDateTime = Local::now().naive_local();
+        let mut least_recent = NaiveDateTime::MAX;
 
         // iterate through intermediate rates and calculate (multiply).
         for temp_target in path {
-- 
2.43.0


From 56722eb597b139dac02ffd115c8a1e4e2e3d5954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:45 +0000
Subject: [PATCH 14/34] Hook: price lookup for the verification harness (cfg
 ledger_verif)

---
 src/pool.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/pool.rs b/src/pool.rs
index dbe9ec7..fe1564a 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -258,6 +258,24 @@ impl CommodityPool {
     }
 }
 
+/// Access to the price lookup for the verification harness.
+#[allow(unexpected_cfgs)]
+#[cfg(ledger_verif)]
+impl CommodityPool {
+    /// Returns (date, price) as found by the price history.
+    pub fn verif_find_price(
+        &self,
+        source: *const Commodity,
+        target: *const Commodity,
+        moment: NaiveDateTime,
+        oldest: NaiveDateTime,
+    ) -> Option<(NaiveDateTime, Amount)> {
+        self.commodity_history
+            .find_price(source, target, moment, oldest)
+            .map(|point| (point.when, point.price))
+    }
+}
+
 /// Cost Breakdown is used to track the commodity costs.
 /// i.e. when lots are used
 ///
-- 
2.43.0


From ada25706568fe2bd3d1d0c5bc7f7c5b98c7f0877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:37 +0000
Subject: [PATCH 15/34] fix: accept costs written right after the @ sign

---
 src/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index ac9e52f..bc8a348 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -388,10 +388,10 @@ fn scan_cost(input: &str) -> CostTokens {
 
     let (first_char, is_per_unit) = if input.chars().nth(1) != Some('@') {
         // per-unit cost
-        (2, true)
+        (1, true)
     } else {
         // total cost
-        (3, false)
+        (2, false)
     };
     let input = &input[first_char..].trim_start();
     let (amount_tokens, input) = scan_amount(input);
-- 
2.43.0


From 4f03a9c37ec180099762329a11440b152da74dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:40 +0000
Subject: [PATCH 16/34] fix: a commodity symbol ends where a note or a lot
 annotation begins

---
 src/scanner.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index bc8a348..f510396 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -357,7 +357,15 @@ fn scan_symbol(input: &str) -> (&str, &str) {
 
     for (i, c) in input.char_indices() {
         // Return when a separator or a number is found.
-        if c.is_whitespace() || c == '@' || c.is_digit(10) || c == '-' {
+        // So do the note, the lot price and the lot date.
+        if c.is_whitespace()
+            || c == '@'
+            || c.is_digit(10)
+            || c == '-'
+            || c == ';'
+            || c == '{'
+            || c == '['
+        {
             return (&input[..i], &input[i..].trim_start());
         }
     }
-- 
2.43.0


From a93fc24a49736df5a0f97c5322f6240990651823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:42 +0000
Subject: [PATCH 17/34] fix: read the decimal separator that follows a
 commodity symbol

---
 src/scanner.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scanner.rs b/src/scanner.rs
index f510396..a66d841 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -368,6 +368,10 @@ fn scan_symbol(input: &str) -> (&str, &str) {
         {
             return (&input[..i], &input[i..].trim_start());
         }
+        // A quantity may start with the decimal separator.
+        if c == '.' && input[i + 1..].starts_with(|next: char| next.is_digit(10)) {
+            return (&input[..i], &input[i..]);
+        }
     }
     // else return the whole input.
     (input, "")
-- 
2.43.0


From 6dbf6da14781cdd798189a6a2b787021eb0e5d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:50 +0000
Subject: [PATCH 18/34] fix: refuse a cost that has a symbol but no quantity

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1e11c5c..0eb6348 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -477,7 +477,8 @@ fn parse_cost(
     amount: &Option<Amount>,
     journal: &mut Journal,
 ) -> Option<Amount> {
-    if tokens.cost_quantity.is_empty() || amount.is_none() {
+    let no_cost = tokens.cost_quantity.is_empty() && tokens.cost_symbol.is_empty();
+    if no_cost || amount.is_none() {
         return None;
     }
 
-- 
2.43.0


From 478bf393ede6dc6f05b3bfde1681369bf6bf64c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:50 +0000
Subject: [PATCH 19/34] fix: a comma is not a part of a commodity symbol

---
 src/scanner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scanner.rs b/src/scanner.rs
index a66d841..72068c9 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -358,8 +358,10 @@ fn scan_symbol(input: &str) -> (&str, &str) {
     for (i, c) in input.char_indices() {
         // Return when a separator or a number is found.
         // So do the note, the lot price and the lot date.
+        // A comma is a part of the quantity.
         if c.is_whitespace()
             || c == '@'
+            || c == ','
             || c.is_digit(10)
             || c == '-'
             || c == ';'
-- 
2.43.0


From 50b32edc3507bd28b684f66c42d1d5d5c836e18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:12 +0000
Subject: [PATCH 20/34] fix: an include of a file that does not exist is
 refused instead of being skipped silently

---
 src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0eb6348..e0bf581 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -360,7 +360,7 @@ impl<'j, T: Read> Parser<'j, T> {
 
         // TODO: resolve glob, i.e *.ledger
 
-        // let mut file_found = false;
+        let mut file_found = false;
         let parent_path = filename.parent().unwrap();
         if parent_path.exists() {
             if filename.is_file() {
@@ -368,12 +368,13 @@ impl<'j, T: Read> Parser<'j, T> {
 
                 // read file.
                 parse_file(filename.to_str().unwrap(), self.journal);
+                file_found = true;
             }
         }
 
-        // if !file_found {
-        //     panic!("Include file not found");
-        // }
+        if !file_found {
+            panic!("Include file not found: {:?}", filename);
+        }
     }
 
     /// Parses the trailing note from the buffer.
-- 
2.43.0


From 409360f4cbb1735c9cdbc6b9202d59500cf0c46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:15 +0000
Subject: [PATCH 21/34] fix: creating a commodity again keeps its node in the
 price graph, and so its prices

---
 src/pool.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index fe1564a..90686bb 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -78,8 +78,12 @@ impl CommodityPool {
 
         // move to map
         match self.commodities.get_mut(symbol) {
-            // keep the address of an existing commodity.
-            Some(existing) => **existing = c,
+            // keep the address and the prices of an existing commodity.
+            Some(existing) => {
+                c.graph_index = existing.graph_index;
+                **existing = c;
+                return existing.as_ref();
+            }
             None => {
                 self.commodities.insert(symbol.to_string(), Box::new(c));
             }
-- 
2.43.0


From 9a784aa5ca153aec36372a72e534b2c99a0f85d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:17 +0000
Subject: [PATCH 22/34] fix: an unreadable lot price is refused instead of
 being left out silently

---
 src/annotate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index e7e917b..1735847 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -36,8 +36,10 @@ impl Annotation {
 
         let price = if let Some(quantity) = Quantity::from_str(quantity) {
             Some(Amount::new(quantity, Some(commodity)))
-        } else {
+        } else if quantity.is_empty() && commodity_symbol.is_empty() {
             None
+        } else {
+            panic!("Invalid lot price {:?} {:?}", quantity, commodity_symbol);
         };
         
         let result = Self {
-- 
2.43.0


From 302e5763ff11b97cddacd99183dbf906c596cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:29 +0000
Subject: [PATCH 23/34] fix: an amount with a second number, like "1 000 EUR",
 is refused instead of being cut short

---
 src/scanner.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 72068c9..ccd9c76 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -258,7 +258,7 @@ pub fn scan_amount(input: &str) -> (AmountTokens, &str) {
     // Check the next character
     let c = *input.chars().peekable().peek().expect("A valid character");
 
-    if c.is_digit(10) || c == '-' || c == '.' || c == ',' {
+    let (tokens, rest) = if c.is_digit(10) || c == '-' || c == '.' || c == ',' {
         // scan_amount_number_first(input)
         let (quantity, input) = scan_quantity(input);
         let (symbol, input) = scan_symbol(input);
@@ -268,7 +268,14 @@ pub fn scan_amount(input: &str) -> (AmountTokens, &str) {
         let (symbol, input) = scan_symbol(input);
         let (quantity, input) = scan_quantity(input);
         (AmountTokens { quantity, symbol }, input)
+    };
+
+    // An amount has one quantity, i.e. not `1 000 EUR`.
+    if rest.starts_with(|c: char| c.is_digit(10) || c == '-' || c == '.' || c == ',') {
+        panic!("More than one quantity in amount {:?}", input);
     }
+
+    (tokens, rest)
 }
 
 fn scan_annotations(input: &str) -> (AnnotationTokens, &str) {
-- 
2.43.0


From fd96c401bd31ec3aabf8969b681a87c3dc0a302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:34 +0000
Subject: [PATCH 24/34] fix: a stated cost is not replaced by the rate of an
 implied exchange

---
 src/xact.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/xact.rs b/src/xact.rs
index ffe80c9..e4300d3 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -154,15 +154,18 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
         // total value of one commodity by the total value of the other.  This
         // establishes the per-unit cost for this post for both commodities.
 
+        let mut saw_cost = false;
         let mut top_post: Option<&Post> = None;
         for post in &xact.posts {
             if post.amount.is_some() && top_post.is_none() {
                 top_post = Some(post);
             }
+            if post.cost.is_some() {
+                saw_cost = true;
+            }
         }
 
-        // if !saw_cost && top_post
-        if top_post.is_some() {
+        if !saw_cost && top_post.is_some() {
             // log::debug("there were no costs, and a valid top_post")
 
             // We need a separate readonly reference for reading the amounts.
-- 
2.43.0


From 307c56a317dbcf33cf2b80290fa8d09f912be601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:41 +0000
Subject: [PATCH 25/34] fix: a whitespace-only line that starts with a tab ends
 the transaction like any other

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index e0bf581..8c1f2db 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -313,6 +313,10 @@ impl<'j, T: Read> Parser<'j, T> {
                             // empty line "\r\n". Exit.
                             break;
                         }
+                        _ if self.buffer.trim().is_empty() => {
+                            // a line of other whitespace, i.e. a tab. Exit.
+                            break;
+                        }
                         _ => {
                             panic!("should not happen")
                         }
-- 
2.43.0


From 5a3d61b0c71584ea00a8beea9f8de6ca0b3ea25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:59 +0000
Subject: [PATCH 26/34] fix: the basis cost without a lot price is the final
 cost

---
 src/pool.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 90686bb..9c8fda5 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -214,13 +214,10 @@ impl CommodityPool {
         };
 
         // "exchange: basis-cost    = "
-        if let Some(annotation) = annotation_opt {
-            if let Some(ann_price) = annotation.price {
-                breakdown.basis_cost = ann_price * (*amount);
-            }
-        } else {
-            breakdown.basis_cost = breakdown.final_cost;
-        }
+        breakdown.basis_cost = match annotation_opt.and_then(|annotation| annotation.price) {
+            Some(ann_price) => ann_price * (*amount),
+            None => breakdown.final_cost,
+        };
 
         breakdown.amount = *amount;
 
-- 
2.43.0


From 0868a3efda3c8509d8b0eb3b2152dd11685a425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:59 +0000
Subject: [PATCH 27/34] fix: a posting without a lot does not hide a later lot
 price

---
 src/pool.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 9c8fda5..299c15c 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -132,10 +132,17 @@ impl CommodityPool {
 
         if let Some(c) = self.commodities.get(symbol) {
             // check if annotation exists and add if not.
-            if annotation.is_some() && !self.annotated_commodities.contains_key(symbol) {
-                // append annotation
-                self.annotated_commodities
-                    .insert(symbol.to_owned(), annotation.unwrap());
+            // One without a price does not stand in the way of a lot price.
+            if let Some(annotation) = annotation {
+                let missing = match self.annotated_commodities.get(symbol) {
+                    Some(existing) => existing.price.is_none() && annotation.price.is_some(),
+                    None => true,
+                };
+                if missing {
+                    // append annotation
+                    self.annotated_commodities
+                        .insert(symbol.to_owned(), annotation);
+                }
             }
 
             c.as_ref()
-- 
2.43.0


From f5db38233fe014507a33c4d341eb162ea60cfd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:59 +0000
Subject: [PATCH 28/34] fix: keep numbers without a commodity apart in the
 balance report

---
 src/report.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/report.rs b/src/report.rs
index af8582f..a0d4400 100644
--- a/src/report.rs
+++ b/src/report.rs
@@ -46,6 +46,10 @@ fn get_children_lines<'a>(account: &'a Account, journal: &'a Journal) -> Vec<Str
     let mut balance_line = String::new();
     let total = account.total();
     for amount in total.amounts {
+        if balance_line.ends_with(|c: char| c.is_ascii_digit()) {
+            // keep the amount apart from a number without a commodity
+            balance_line += " ";
+        }
         balance_line += amount.quantity.to_string().as_str();
         if amount.get_commodity().is_some() {
             if let Some(c) = amount.get_commodity() {
-- 
2.43.0


From fbde5b52923dc5bfa8edb35326bf53b1b6c15c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:59 +0000
Subject: [PATCH 29/34] fix: only a line starting with P is a price directive

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8c1f2db..40e7698 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -175,7 +175,7 @@ impl<'j, T: Read> Parser<'j, T> {
                     return Ok(());
                 }
 
-                let c = 'P';
+                let c = self.buffer.chars().next().unwrap();
                 match c {
                         // ACDNPY
                         'P' => {
-- 
2.43.0


From 7dbbfdd75c50f12fa3fd1473101df8545460a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:59 +0000
Subject: [PATCH 30/34] fix: read price directives in a journal

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 40e7698..da29bfa 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -237,6 +237,9 @@ impl<'j, T: Read> Parser<'j, T> {
                 _ => (),
             },
 
+            // a price, not a general directive
+            'P' if directive == "P" => (),
+
             // ptvy
             _ => {
                 todo!("handle")
@@ -252,7 +255,7 @@ impl<'j, T: Read> Parser<'j, T> {
         // pass on to the commodity pool
         self.journal
             .commodity_pool
-            .parse_price_directive(&self.buffer);
+            .parse_price_directive(self.buffer.trim_end());
     }
 
     fn create_xact(&mut self) -> *const Xact {
-- 
2.43.0


From 3d49d766a351aa0250a74a4fe5dc4c6b2939f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:26 +0000
Subject: [PATCH 31/34] fix: refuse a source that fails while it is read

A read error or a line that is not valid UTF-8 ended the reading with a
message, so that the rest of the journal was missing from every result.
---
 src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index da29bfa..915d7b9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -109,8 +109,8 @@ impl<'j, T: Read> Parser<'j, T> {
         loop {
             match self.reader.read_line(&mut self.buffer) {
                 Err(err) => {
-                    println!("Error: {:?}", err);
-                    break;
+                    // the rest of the source would be missing
+                    panic!("Error reading the source: {:?}", err);
                 }
                 Ok(0) => {
                     // end of file
@@ -277,8 +277,8 @@ impl<'j, T: Read> Parser<'j, T> {
             self.buffer.clear(); // empty the buffer before reading
             match self.reader.read_line(&mut self.buffer) {
                 Err(e) => {
-                    println!("Error: {:?}", e);
-                    break;
+                    // the rest of the transaction would be missing
+                    panic!("Error reading the source: {:?}", e);
                 }
                 Ok(0) => {
                     // end of file
-- 
2.43.0


From bcd1ed2fbc27ea991127dfaac72c5bac2bf8b252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:51 +0000
Subject: [PATCH 32/34] fix: take the whole rest of an include line as the file
 name

Only the first word was taken, so that 'include my file.ledger' read a file
named 'my', or nothing at all.
---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 915d7b9..7e675fe 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -205,7 +205,8 @@ impl<'j, T: Read> Parser<'j, T> {
         let Some(directive) = iter.next() else {
             panic!("no directive?")
         };
-        let argument = iter.next();
+        // the rest of the line, so that file names can contain spaces
+        let argument = self.buffer.trim().strip_prefix(directive).map(str::trim);
 
         // todo: check arguments for directives that require one
         // match directive {
-- 
2.43.0


From 8c49bdc7ec27028927882397e2db8d8bc96ba9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:33 +0000
Subject: [PATCH 33/34] fix: refuse text after an amount that is neither a lot,
 a cost nor a note

It was ignored, so that '+5 EUR' was read as 5 of a commodity '+', and
'5 EUR USD' as 5 EUR. A balance assertion is still passed over.
---
 src/scanner.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index ccd9c76..dcdfd89 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -229,6 +229,16 @@ pub(crate) fn scan_post(input: &str) -> PostTokens {
         false => scan_cost(input),
     };
 
+    // Only a note can follow, i.e. not `+5 EUR` or `5 EUR USD`.
+    // A balance assertion (=) is not supported yet.
+    let rest = match input.starts_with('@') {
+        true => cost_tokens.remainder,
+        false => input,
+    };
+    if !rest.is_empty() && !rest.starts_with(';') && !rest.starts_with('=') {
+        panic!("Unexpected text in posting: {:?}", rest);
+    }
+
     // TODO: handle post comment
     // scan_xyz(input)
 
@@ -298,7 +308,10 @@ fn scan_annotations(input: &str) -> (AnnotationTokens, &str) {
             // todo: is it fixated price {=xyz}
 
             let (amount, rest) = scan_until(&input[1..], '}');
-            let (amount_tokens, _) = scan_amount(amount);
+            let (amount_tokens, amount_rest) = scan_amount(amount);
+            if !amount_rest.is_empty() {
+                panic!("Unexpected text in lot price: {:?}", amount_rest);
+            }
 
             result.quantity = amount_tokens.quantity;
             result.symbol = amount_tokens.symbol;
-- 
2.43.0


From b140d2d53440494c29951a51d751eb57bff62d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:59 +0000
Subject: [PATCH 34/34] fix: the program's own name is not one of its arguments

env::args() starts with the name of the program, which was taken for the
command, so that no command could be executed.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21b47eb..3015204 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,7 +6,8 @@ use ledger_rs_lib;
 fn main() {
     println!("Hello, Ledger-rs!");
 
-    let args: Vec<String> = env::args().collect();
+    // the first one is the name of the program.
+    let args: Vec<String> = env::args().skip(1).collect();
     println!("You requested {:?}", args);
 
     // let args = read_command_arguments(args);
-- 
2.43.0

