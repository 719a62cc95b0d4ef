From d82be84e47f339aa173934b9fc4f3acc344e9ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:56 +0000
Subject: [PATCH 01/25] fix: Amount::inverse returned negative amounts
 unchanged

---
 src/amount.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 9e08c94..10295cd 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -74,13 +74,12 @@ impl Amount {
 
     /// Creates an amount with the opposite sign on the quantity.
     pub fn inverse(&self) -> Amount {
-        let new_quantity = if self.quantity.is_sign_positive() {
-            let mut x = self.quantity.clone();
-            x.set_sign_negative();
-            x
+        let mut new_quantity = self.quantity;
+        if new_quantity.is_sign_positive() {
+            new_quantity.set_sign_negative();
         } else {
-            self.quantity
-        };
+            new_quantity.set_sign_positive();
+        }
 
         unsafe { Amount::new(new_quantity, Some(&*self.commodity)) }
     }
-- 
2.43.0


From 571c6d84e9a9ce43405582368bb771e476e8ff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:56 +0000
Subject: [PATCH 02/25] fix: amounts without commodity made references from
 null pointers

---
 src/amount.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 10295cd..2a2eeb8 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -81,7 +81,7 @@ impl Amount {
             new_quantity.set_sign_positive();
         }
 
-        unsafe { Amount::new(new_quantity, Some(&*self.commodity)) }
+        Amount::new(new_quantity, Some(self.commodity))
     }
 
     /// Inverts the sign on the amount.
@@ -122,7 +122,7 @@ impl Add<Amount> for Amount {
 
         let sum = self.quantity + rhs.quantity;
 
-        unsafe { Amount::new(sum, Some(&*self.commodity)) }
+        Amount::new(sum, Some(self.commodity))
     }
 }
 
@@ -166,7 +166,7 @@ impl Mul<Amount> for Amount {
             self.commodity
         };
 
-        unsafe { Amount::new(quantity, Some(&*commodity)) }
+        Amount::new(quantity, Some(commodity))
     }
 }
 
-- 
2.43.0


From 4d5986449c29ac32c279b73be4e19f7ae5250c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:56 +0000
Subject: [PATCH 03/25] fix: finding a missing sub-account panicked instead of
 returning None

---
 src/account.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/account.rs b/src/account.rs
index 1fec747..9d26c80 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -132,7 +132,7 @@ impl Account {
         // Search recursively.
         if !rest.is_empty() {
             let acct = self.get_account_mut(account);
-            account = acct.find_or_create(rest, auto_create).unwrap();
+            account = acct.find_or_create(rest, auto_create)?;
         }
 
         Some(account)
-- 
2.43.0


From 1a089d1e4312262025442aeb567cc4a7aa97a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:56 +0000
Subject: [PATCH 04/25] fix: finding the index of an unknown commodity panicked
 instead of returning None

---
 src/pool.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 719e69c..ce02317 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -102,8 +102,7 @@ impl CommodityPool {
     }
 
     pub fn find_index(&self, symbol: &str) -> Option<CommodityIndex> {
-        let x = self.commodities.get(symbol);
-        x.unwrap().graph_index
+        self.commodities.get(symbol)?.graph_index
     }
 
     /// Finds a commodity with the given symbol, or creates one.
-- 
2.43.0


From 165c49a85f1432e8d8b1cd41c64804c4fc83303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:56 +0000
Subject: [PATCH 05/25] fix: pointers to accounts dangled when the parent's
 account map grew

---
 src/account.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index 9d26c80..d26560e 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -12,7 +12,8 @@ pub struct Account {
     pub name: String,
     // note
     // depth
-    pub accounts: HashMap<String, Account>,
+    /// Boxed, so that the pointers to the accounts stay valid when the map grows.
+    pub accounts: HashMap<String, Box<Account>>,
     pub posts: Vec<*const Post>,
     // deferred posts
     // value_expr
@@ -39,7 +40,7 @@ impl Account {
 
         let self_mut = self.get_account_mut(self as *const Account as *mut Account);
 
-        self_mut.accounts.insert(first.into(), new_account);
+        self_mut.accounts.insert(first.into(), Box::new(new_account));
 
         let Some(new_ref) = self.accounts.get(first)
             else {panic!("should not happen")};
@@ -100,7 +101,7 @@ impl Account {
     pub fn find_or_create(&self, name: &str, auto_create: bool) -> Option<*const Account> {
         // search for direct hit.
         if let Some(found) = self.accounts.get(name) {
-            return Some(found);
+            return Some(&**found);
         }
 
         // otherwise search for name parts in between the `:`
@@ -120,7 +121,7 @@ impl Account {
 
         if let Some(account_opt) = self.accounts.get(first) {
             // keep this value
-            account = account_opt;
+            account = &**account_opt;
         } else {
             if !auto_create {
                 return None;
@@ -174,7 +175,7 @@ impl Account {
         // Push the current node to the Vec
         nodes.push(self);
         // 
-        let mut children: Vec<&Account> = self.accounts.values().into_iter().collect();
+        let mut children: Vec<&Account> = self.accounts.values().map(|acc| &**acc).collect();
         children.sort_unstable_by_key(|acc| &acc.name);
         // If the node has children, recursively call flatten on them
         for child in children {
-- 
2.43.0


From 3d36f37aca8d00be7bf71ea07605bd49489b0adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:56 +0000
Subject: [PATCH 06/25] fix: pointers to posts dangled when a transaction got
 more than four posts

---
 src/journal.rs | 5 ++++-
 src/xact.rs    | 7 ++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/journal.rs b/src/journal.rs
index 08b4a15..8ba9e77 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -42,7 +42,10 @@ impl Journal {
     }
 
     pub fn all_posts(&self) -> Vec<&Post> {
-        self.xacts.iter().flat_map(|x| x.posts.iter()).collect()
+        self.xacts
+            .iter()
+            .flat_map(|x| x.posts.iter().map(|p| &**p))
+            .collect()
     }
 
     pub fn get_account(&self, acct_ptr: *const Account) -> &Account {
diff --git a/src/xact.rs b/src/xact.rs
index d7e879e..f73632b 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -15,7 +15,8 @@ pub struct Xact {
     pub date: Option<NaiveDate>,
     pub aux_date: Option<NaiveDate>,
     pub payee: String,
-    pub posts: Vec<Post>,
+    /// Boxed, so that the pointers to the posts stay valid when the list grows.
+    pub posts: Vec<Box<Post>>,
     pub note: Option<String>,
     // pub balance: Amount,
 }
@@ -78,7 +79,7 @@ impl Xact {
     /// Adds the post to the collection and returns the reference to it.
     pub fn add_post(&mut self, mut post: Post) -> &Post {
         post.xact_ptr = self as *const Xact;
-        self.posts.push(post);
+        self.posts.push(Box::new(post));
 
         self.posts.last().unwrap()
     }
@@ -138,7 +139,7 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
         } else if !null_post.is_null() {
             todo!()
         } else {
-            null_post = post as *mut Post;
+            null_post = &mut **post as *mut Post;
         }
     }
 
-- 
2.43.0


From 0ec36b6d7b7225854c4ae1e414aeac494cae09c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 07/25] fix: pointers to commodities dangled when the commodity
 map grew

---
 src/pool.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index ce02317..52bb92b 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -24,7 +24,8 @@ pub type CommodityIndex = NodeIndex;
 pub struct CommodityPool {
     /// Map (symbol, commodity)
     // pub(crate) commodities: HashMap<String, NodeIndex>,
-    pub(crate) commodities: HashMap<String, Commodity>,
+    /// Boxed, so that the pointers to the commodities stay valid when the map grows.
+    pub(crate) commodities: HashMap<String, Box<Commodity>>,
     // pub(crate) commodities: HashMap<String, Rc<Commodity>>,
     /// Commodity annotations. symbol, annotation
     pub(crate) annotated_commodities: HashMap<String, Annotation>,
@@ -77,12 +78,12 @@ impl CommodityPool {
         }
 
         // move to map
-        self.commodities.insert(symbol.to_string(), c);
+        self.commodities.insert(symbol.to_string(), Box::new(c));
         // get the new address.
         let new_commodity = self.commodities.get(symbol).unwrap();
 
         // add to price history graph.
-        let cdty_ptr = new_commodity as *const Commodity;
+        let cdty_ptr = &**new_commodity as *const Commodity;
         // log::debug!("commodity pointer: {:?} for {:?}", cdty_ptr, symbol);
         let i = self.commodity_history.add_commodity(cdty_ptr);
 
@@ -98,7 +99,7 @@ impl CommodityPool {
     }
 
     pub fn find(&self, symbol: &str) -> Option<&Commodity> {
-        self.commodities.get(symbol)
+        self.commodities.get(symbol).map(|c| &**c)
     }
 
     pub fn find_index(&self, symbol: &str) -> Option<CommodityIndex> {
@@ -127,7 +128,7 @@ impl CommodityPool {
                     .insert(symbol.to_owned(), annotation.unwrap());
             }
 
-            c
+            &**c
         } else {
             self.create(symbol, annotation)
         }
-- 
2.43.0


From 11a8bfbfa9753a15e8b68075b1343b70b2203eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 08/25] fix: creating an existing commodity freed the one in
 use

---
 src/pool.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pool.rs b/src/pool.rs
index 52bb92b..3bfc4e5 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -63,7 +63,14 @@ impl CommodityPool {
     /// Creates a new Commodity for the given Symbol.
     pub fn create(&mut self, symbol: &str, annotation_option: Option<Annotation>) -> *const Commodity {
         // todo: handle double quotes
-        
+
+        // Replacing a commodity would invalidate the pointers to it.
+        assert!(
+            !self.commodities.contains_key(symbol),
+            "Commodity {:?} already exists",
+            symbol
+        );
+
         let mut c = Commodity::new(symbol);
         
         // Annotation
-- 
2.43.0


From efb142d68c982c28ddb266a0e50b78f6f473ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 09/25] fix: the posts' links to their transaction dangled when
 the journal grew

---
 src/journal.rs | 10 ++++++++++
 src/xact.rs    |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/journal.rs b/src/journal.rs
index 8ba9e77..3d0d6ad 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -36,7 +36,17 @@ impl Journal {
     }
 
     pub fn add_xact(&mut self, xact: Xact) -> &Xact {
+        // A full vector moves its contents when it grows.
+        let first_moved = if self.xacts.len() == self.xacts.capacity() {
+            0
+        } else {
+            self.xacts.len()
+        };
         self.xacts.push(xact);
+        // Point the posts to the new address of their transaction.
+        for moved in &mut self.xacts[first_moved..] {
+            moved.link_posts();
+        }
         //self.xacts.len() - 1
         self.xacts.last().unwrap()
     }
diff --git a/src/xact.rs b/src/xact.rs
index f73632b..742024a 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -83,6 +83,14 @@ impl Xact {
 
         self.posts.last().unwrap()
     }
+
+    /// Points the posts to this transaction, after it has been moved.
+    pub(crate) fn link_posts(&mut self) {
+        let ptr = self as *const Xact;
+        for post in &mut self.posts {
+            post.xact_ptr = ptr;
+        }
+    }
 }
 
 impl Default for Xact {
-- 
2.43.0


From d60d492ec55c8bbfacd4f1900974f8c80111a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 10/25] fix: price directives in a journal were not read

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ae56776..10f16e2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -175,7 +175,7 @@ impl<'j, T: Read> Parser<'j, T> {
                     return Ok(());
                 }
 
-                let c = 'P';
+                let c = self.buffer.chars().next().unwrap();
                 match c {
                         // ACDNPY
                         'P' => {
@@ -237,6 +237,9 @@ impl<'j, T: Read> Parser<'j, T> {
                 _ => (),
             },
 
+            // Not a general directive. Handled by the caller.
+            'P' => (),
+
             // ptvy
             _ => {
                 todo!("handle")
@@ -252,7 +255,7 @@ impl<'j, T: Read> Parser<'j, T> {
         // pass on to the commodity pool
         self.journal
             .commodity_pool
-            .parse_price_directive(&self.buffer);
+            .parse_price_directive(self.buffer.trim_end());
     }
 
     fn create_xact(&mut self) -> *const Xact {
-- 
2.43.0


From 444763319cf3620a2834ead25f193e2b1b1ff0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 11/25] fix: a cost without space after the @ lost its first
 character

---
 src/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 60d4007..b4af063 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -381,10 +381,10 @@ fn scan_cost(input: &str) -> CostTokens {
 
     let (first_char, is_per_unit) = if input.chars().nth(1) != Some('@') {
         // per-unit cost
-        (2, true)
+        (1, true)
     } else {
         // total cost
-        (3, false)
+        (2, false)
     };
     let input = &input[first_char..].trim_start();
     let (amount_tokens, input) = scan_amount(input);
-- 
2.43.0


From b5561116c8e4ed97df3c7b11789a1cd6bbbea919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 12/25] fix: a comment or whitespace after an account was
 scanned as an amount

---
 src/scanner.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index b4af063..37b828d 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -215,7 +215,14 @@ pub(crate) fn scan_post(input: &str) -> PostTokens {
     // there's more content
 
     let account = &input[..sep_index];
-    let (amount_tokens, input) = scan_amount(&input[sep_index + 2..]);
+    let input = input[sep_index + 2..].trim_start();
+    if input.is_empty() || input.starts_with(';') {
+        // only trailing whitespace or a comment; there is no amount.
+        let mut post_tokens = PostTokens::create_empty();
+        post_tokens.account = account;
+        return post_tokens;
+    }
+    let (amount_tokens, input) = scan_amount(input);
     let (annotation_tokens, input) = scan_annotations(input);
     let cost_tokens = match input.is_empty() {
         true => CostTokens::new(),
-- 
2.43.0


From 879fecaf06c127d655fd16fd11c8214d6e68b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 13/25] fix: a transaction header with only the date was not
 accepted

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 10f16e2..b8f665d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -259,7 +259,7 @@ impl<'j, T: Read> Parser<'j, T> {
     }
 
     fn create_xact(&mut self) -> *const Xact {
-        let tokens = scanner::tokenize_xact_header(&self.buffer);
+        let tokens = scanner::tokenize_xact_header(self.buffer.trim_end());
         let xact = Xact::create(tokens[0], tokens[1], tokens[2], tokens[3]);
 
         // Add xact to the journal
-- 
2.43.0


From 4e8e505c053e5163788151a6e630581ee113728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 14/25] fix: a second note replaced the first one

---
 src/post.rs | 8 +++++++-
 src/xact.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/post.rs b/src/post.rs
index 9c70026..98d1b82 100644
--- a/src/post.rs
+++ b/src/post.rs
@@ -48,7 +48,13 @@ impl Post {
     }
 
     pub fn add_note(&mut self, note: &str) {
-        self.note = Some(note.into());
+        match &mut self.note {
+            Some(existing) => {
+                existing.push('\n');
+                existing.push_str(note);
+            }
+            None => self.note = Some(note.into()),
+        }
     }
 }
 
diff --git a/src/xact.rs b/src/xact.rs
index 742024a..7502995 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -73,7 +73,13 @@ impl Xact {
     }
 
     pub fn add_note(&mut self, note: &str) {
-        self.note = Some(note.into());
+        match &mut self.note {
+            Some(existing) => {
+                existing.push('\n');
+                existing.push_str(note);
+            }
+            None => self.note = Some(note.into()),
+        }
     }
 
     /// Adds the post to the collection and returns the reference to it.
-- 
2.43.0


From 371098ae65a01db1435f5f85c1e6316f32d2c756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 15/25] fix: a malformed quantity was silently treated as an
 omitted amount

---
 src/annotate.rs | 7 ++++---
 src/parser.rs   | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index e7e917b..6c8755f 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -34,10 +34,11 @@ impl Annotation {
         // parse amount
         let commodity = journal.commodity_pool.find_or_create(commodity_symbol, None);
 
-        let price = if let Some(quantity) = Quantity::from_str(quantity) {
-            Some(Amount::new(quantity, Some(commodity)))
-        } else {
+        let price = if quantity.is_empty() {
             None
+        } else {
+            let quantity = Quantity::from_str(quantity).expect("quantity parsed");
+            Some(Amount::new(quantity, Some(commodity)))
         };
         
         let result = Self {
diff --git a/src/parser.rs b/src/parser.rs
index b8f665d..25df8d9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -76,11 +76,12 @@ pub fn parse_amount_parts(
     // Create Commodity, add to collection
     let commodity_ptr = journal.commodity_pool.find_or_create(commodity, None);
 
-    if let Some(quantity) = Quantity::from_str(quantity) {
-        Some(Amount::new(quantity, Some(commodity_ptr)))
-    } else {
-        None
+    if quantity.is_empty() {
+        return None;
     }
+
+    let quantity = Quantity::from_str(quantity).expect("quantity parsed");
+    Some(Amount::new(quantity, Some(commodity_ptr)))
 }
 
 pub(crate) struct Parser<'j, T: Read> {
-- 
2.43.0


From 25db15562db2d29925a4f167764eb943ec08943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 16/25] fix: the rest of a journal was silently dropped after a
 read or parse error

---
 src/parser.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 25df8d9..ec119f0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -109,10 +109,7 @@ impl<'j, T: Read> Parser<'j, T> {
     pub fn parse(&mut self) {
         loop {
             match self.reader.read_line(&mut self.buffer) {
-                Err(err) => {
-                    println!("Error: {:?}", err);
-                    break;
-                }
+                Err(err) => panic!("Error: {:?}", err),
                 Ok(0) => {
                     // end of file
                     break;
@@ -125,8 +122,7 @@ impl<'j, T: Read> Parser<'j, T> {
                         Ok(_) => (), // continue
                         Err(err) => {
                             log::error!("Error: {:?}", err);
-                            println!("Error: {:?}", err);
-                            break;
+                            panic!("Error: {:?}", err);
                         }
                     };
                 }
@@ -161,7 +157,7 @@ impl<'j, T: Read> Parser<'j, T> {
 
             '0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9' => {
                 // Starts with date/number.
-                let _ = self.xact_directive();
+                self.xact_directive().map_err(|err| err.to_string())?;
             }
 
             ' ' | '\t' => {
@@ -277,10 +273,7 @@ impl<'j, T: Read> Parser<'j, T> {
         loop {
             self.buffer.clear(); // empty the buffer before reading
             match self.reader.read_line(&mut self.buffer) {
-                Err(e) => {
-                    println!("Error: {:?}", e);
-                    break;
-                }
+                Err(e) => panic!("Error: {:?}", e),
                 Ok(0) => {
                     // end of file
                     log::debug!("0-length buffer");
-- 
2.43.0


From b53a74d7b198829f69ce256c9b6f41ed4b6b63ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 17/25] fix: a missing include file was silently ignored

---
 src/parser.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ec119f0..4c40f65 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -358,19 +358,14 @@ impl<'j, T: Read> Parser<'j, T> {
         // TODO: resolve glob, i.e *.ledger
 
         // let mut file_found = false;
-        let parent_path = filename.parent().unwrap();
-        if parent_path.exists() {
-            if filename.is_file() {
-                // let base = filename.file_name();
+        if filename.is_file() {
+            // let base = filename.file_name();
 
-                // read file.
-                parse_file(filename.to_str().unwrap(), self.journal);
-            }
+            // read file.
+            parse_file(filename.to_str().unwrap(), self.journal);
+        } else {
+            panic!("Include file not found: {:?}", filename);
         }
-
-        // if !file_found {
-        //     panic!("Include file not found");
-        // }
     }
 
     /// Parses the trailing note from the buffer.
-- 
2.43.0


From dff4907d27f70bd2e5c5c3b37acd1e368035986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 18/25] fix: the CLI took the program name for the command

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21b47eb..a1827e3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,7 +6,8 @@ use ledger_rs_lib;
 fn main() {
     println!("Hello, Ledger-rs!");
 
-    let args: Vec<String> = env::args().collect();
+    // The first argument is the name of the program.
+    let args: Vec<String> = env::args().skip(1).collect();
     println!("You requested {:?}", args);
 
     // let args = read_command_arguments(args);
-- 
2.43.0


From 6bc6bae25cf433e61e1fd241aafb99e56a92eae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 19/25] fix: a cost given in the journal was replaced by a
 calculated one

---
 src/xact.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xact.rs b/src/xact.rs
index 7502995..e52788c 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -125,6 +125,8 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
     let mut balance = Balance::new();
     // The pointer to the post that has no amount.
     let mut null_post: *mut Post = std::ptr::null_mut();
+    // Whether any of the posts has a cost.
+    let mut saw_cost = false;
     // let xact = journal.xacts.get_mut(xact_index).expect("xact");
     let xact: &mut Xact;
     unsafe {
@@ -139,6 +141,7 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
         log::debug!("finalizing {:?}", post);
 
         let amount = if post.cost.is_some() {
+            saw_cost = true;
             post.cost
         } else {
             post.amount
@@ -176,8 +179,7 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
             }
         }
 
-        // if !saw_cost && top_post
-        if top_post.is_some() {
+        if !saw_cost && top_post.is_some() {
             // log::debug("there were no costs, and a valid top_post")
 
             // We need a separate readonly reference for reading the amounts.
-- 
2.43.0


From 274e541d04e398d87d19d0faadc77f3544d33dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 20/25] fix: Journal::read counted the transactions of earlier
 reads

---
 src/journal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/journal.rs b/src/journal.rs
index 3d0d6ad..bb97007 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -110,10 +110,12 @@ impl Journal {
     ///
     /// returns number of transactions parsed
     pub fn read<T: Read>(&mut self, source: T) -> usize {
+        let count_before = self.xacts.len();
+
         // read_textual
         parser::read_into_journal(source, self);
 
-        self.xacts.len()
+        self.xacts.len() - count_before
     }
 }
 
-- 
2.43.0


From 1221661a1898a943cb229ceb0f1b61ab1b36e7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:49 +0000
Subject: [PATCH 21/25] fix: a lot, note or comment next to the symbol became
 part of the symbol

---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 37b828d..514160c 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -357,7 +357,7 @@ fn scan_symbol(input: &str) -> (&str, &str) {
 
     for (i, c) in input.char_indices() {
         // Return when a separator or a number is found.
-        if c.is_whitespace() || c == '@' || c.is_digit(10) || c == '-' {
+        if c.is_whitespace() || c.is_digit(10) || matches!(c, '@' | '-' | '{' | '[' | '(' | ';') {
             return (&input[..i], &input[i..].trim_start());
         }
     }
-- 
2.43.0


From 8607cf95b36f10f88aa4370fe5b0f59a7887162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:03 +0000
Subject: [PATCH 22/25] fix: an amount without a quantity was silently treated
 as omitted

---
 src/scanner.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scanner.rs b/src/scanner.rs
index 514160c..44b2b48 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -267,6 +267,9 @@ pub fn scan_amount(input: &str) -> (AmountTokens, &str) {
         // scan_amount_symbol_first(input)
         let (symbol, input) = scan_symbol(input);
         let (quantity, input) = scan_quantity(input);
+        if quantity.is_empty() {
+            panic!("No quantity specified for the amount");
+        }
         (AmountTokens { quantity, symbol }, input)
     }
 }
-- 
2.43.0


From 56f23c49fc88f482efae4acbc4b5615c628de923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 23/25] fix: a combined price in the future was dated with the
 current time

---
 src/history.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 1306cc5..3bef458 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -16,7 +16,7 @@ use std::{
     ops::{Deref, DerefMut},
 };
 
-use chrono::{Local, NaiveDateTime};
+use chrono::NaiveDateTime;
 use petgraph::{algo::astar, stable_graph::NodeIndex, Graph};
 
 use crate::{
@@ -155,7 +155,7 @@ impl CommodityHistory {
     fn calculate_rate(&self, source: CommodityIndex, target_ptr: *const Commodity, path: Vec<NodeIndex>) -> (NaiveDateTime, Quantity) {
         let mut result = Amount::new(Quantity::ONE, Some(target_ptr));
         let mut temp_source = source;
-        let mut least_recent: NaiveDateTime = Local::now().naive_local();
+        let mut least_recent = NaiveDateTime::MAX;
 
         // iterate through intermediate rates and calculate (multiply).
         for temp_target in path {
-- 
2.43.0


From c788a95c8898e6936a7cefc382c584d8510c4180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:53 +0000
Subject: [PATCH 24/25] fix: a lone dash on the command line was silently
 ignored

---
 src/option.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/option.rs b/src/option.rs
index 0ae6e8f..7b47d3f 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -45,8 +45,6 @@ pub fn process_arguments(args: Vec<String>) -> (Vec<String>, InputOptions) {
             if arg.len() == 2 {
                 // it's a --, ending options processing
                 todo!("handle this case?")
-            } else if arg.len() == 1 {
-                panic!("illegar option {}", arg)
             }
 
             // todo: check if there is '=' contained
@@ -62,6 +60,9 @@ pub fn process_arguments(args: Vec<String>) -> (Vec<String>, InputOptions) {
             todo!("complete")
         } else {
             // single-char option
+            if arg.len() == 1 {
+                panic!("illegal option {}", arg)
+            }
 
             let mut option_queue = vec![];
 
-- 
2.43.0


From b8d4bd05c1508301bcbc5e57fdcb6403226ca1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:13 +0000
Subject: [PATCH 25/25] fix: a line starting with a carriage return silently
 ended the transaction

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4c40f65..e0b470f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -306,7 +306,7 @@ impl<'j, T: Read> Parser<'j, T> {
                                 }
                             }
                         }
-                        Some('\r') | Some('\n') => {
+                        Some('\r') | Some('\n') if self.buffer.trim().is_empty() => {
                             // empty line "\r\n". Exit.
                             break;
                         }
-- 
2.43.0

