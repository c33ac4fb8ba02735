From 0bc1a4491fd6f21869cd41c5e4469701863bd724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:29 +0000
Subject: [PATCH 01/40] fix: count the inferred amount of a blank posting that
 is an account's first

---
 src/ledger/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index f9821de..d011b15 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -242,9 +242,11 @@ impl Ledger {
                     }
                 } else {
                     // if the posting amount exists, set an AmountPool from the amount as the
-                    // key's value. otherwise, use an AmountPool from a zero Amount.
+                    // key's value. otherwise, use the amount inferred for the blank posting.
                     if let Some(a) = posting_amount {
                         totals_map.insert(posting_account.to_owned(), AmountPool::from(a.clone()));
+                    } else if let Some(b) = entry.get_blank_amount()? {
+                        totals_map.insert(posting_account.to_owned(), AmountPool::from(b));
                     } else {
                         totals_map
                             .insert(posting_account.to_owned(), AmountPool::from(Amount::zero()));
-- 
2.43.0


From 2b011d568595ea7b5ba6578d4e347359005e81b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:46 +0000
Subject: [PATCH 02/40] fix: don't count envelope postings in account balances

---
 src/ledger/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index d011b15..c973cb8 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -224,6 +224,11 @@ impl Ledger {
         // read: for each posting in the ledger, add its amount to its account in totals_map
         for entry in &self.entries {
             for posting in entry.get_postings() {
+                // envelope postings don't change how much money an account has
+                if posting.is_envelope() {
+                    continue;
+                }
+
                 let posting_amount = posting.get_amount();
                 let posting_account = posting.get_account();
                 // if the account key exists, just add to it. if it doesn't exist, insert a new
-- 
2.43.0


From 25f3e38065a0790aaff5d6807c7ac92041b8b4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:47 +0000
Subject: [PATCH 03/40] fix: leave envelope postings out of the amount inferred
 for a blank posting

---
 src/entry.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 76b36fd..f6a0fed 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -222,7 +222,7 @@ impl Entry {
                 // if any of the native amounts are None, the calculation fails and this function
                 // returns an error
                 let mut blank_amount = Amount::zero();
-                for posting in &self.postings {
+                for posting in self.postings.iter().filter(|p| p.is_classic()) {
                     if let Some(v) = posting.get_original_native_value() {
                         blank_amount.mag -= v
                     } else {
@@ -242,7 +242,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             } else {
                 // for each posting, subtract that posting's amount from the blank amount (as long as
                 // `posting` doesn't have a blank amount)
-                let mut iter = self.postings.iter();
+                let mut iter = self.postings.iter().filter(|p| p.is_classic());
 
                 // get starting blank amount by finding the first non-blank amount and then
                 // negating it
@@ -373,7 +373,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
         if self.postings.is_empty() {
             false
         } else {
-            let mut iter = self.postings.iter();
+            let mut iter = self.postings.iter().filter(|p| p.is_classic());
             let symbol_to_match = if let Some(p) = iter.find(|&p| p.get_amount().is_some()) {
                 if let Some(a) = p.get_amount() {
                     a.symbol.clone()
-- 
2.43.0


From 151bbc2c948eae1b79fb62f1dd4c070995a9ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:47 +0000
Subject: [PATCH 04/40] fix: leave envelope postings out of the register

---
 src/entry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index f6a0fed..e98e865 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -423,7 +423,8 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             let mut negative_names = HashSet::new();
             let mut focused_amount = AmountPool::new();
 
-            for p in &self.postings {
+            // envelope postings don't move money between accounts
+            for p in self.postings.iter().filter(|p| p.is_classic()) {
                 let name = p.get_account();
                 let amount = if let Some(a) = p.get_amount() {
                     a.clone()
-- 
2.43.0


From fe65bcb69b4e619962159f4bb0de428afd41b6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:48 +0000
Subject: [PATCH 05/40] fix: put a refund back into its envelope instead of
 draining it

---
 src/envelope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index d53cfd5..6ede7b3 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -721,6 +721,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         // the minimum of the absolute values of auto_postings_sum and self_account_postings_sum
         let abs_min_mag = auto_postings_sum
             .mag
+            .abs()
             .min(self_account_postings_sum.mag.abs());
 
         // only apply an amount if the magnitude to add is worth something
-- 
2.43.0


From d897d258ca9e5a81e21c248973c0d8860f211efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:48 +0000
Subject: [PATCH 06/40] fix: don't crash on a priced foreign posting to an
 envelope's account

---
 src/envelope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index 6ede7b3..f14f62c 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -700,6 +700,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
                     });
                 } else if let Some(m) = posting.get_original_native_value() {
                     amount_to_add.mag = m;
+                    amount_to_add.symbol = None;
                 } else {
                     return Err(ProcessingError::default()
                                                                     .set_message(
-- 
2.43.0


From dfbe0ca6868015cf89db5be3c9f800bb9d24e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:12 +0000
Subject: [PATCH 07/40] fix: yearly envelopes are due every year, not just once
 after their start

---
 src/envelope.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index f14f62c..73f4f19 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -213,7 +213,7 @@ impl Frequency {
                 Self::Biweekly(_) => Some(next_date - chrono::Duration::days(14)),
                 Self::Monthly(_) => Some(Self::subtract_months(next_date, 1)),
                 Self::Bimonthly(_) => Some(Self::subtract_months(next_date, 2)),
-                Self::Annually(d) => Some(d.with_year(d.year() - 1).unwrap()),
+                Self::Annually(d) => Some(Self::with_year_or_feb_28(*d, next_date.year() - 1)),
                 _ => None,
             }
         } else {
@@ -306,12 +306,23 @@ impl Frequency {
                 if starting_date > &today {
                     Some(*starting_date)
                 } else {
-                    starting_date.with_year(starting_date.year() + 1)
+                    let this_year = Self::with_year_or_feb_28(*starting_date, today.year());
+                    if this_year > today {
+                        Some(this_year)
+                    } else {
+                        Some(Self::with_year_or_feb_28(*starting_date, today.year() + 1))
+                    }
                 }
             }
         }
     }
 
+    /// Returns the date in another year. February 29th becomes February 28th in common years.
+    fn with_year_or_feb_28(date: NaiveDate, year: i32) -> NaiveDate {
+        date.with_year(year)
+            .unwrap_or_else(|| NaiveDate::from_ymd_opt(year, 2, 28).unwrap())
+    }
+
     /// Returns the last day of the date's month
     fn get_last_date_of_month(date: NaiveDate) -> NaiveDate {
         NaiveDate::from_ymd_opt(date.year(), date.month() + 1, 1)
-- 
2.43.0


From 499232f58e50d9c1f9dd2d11c2af1e89bb2ed571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:12 +0000
Subject: [PATCH 08/40] fix: last due dates in short months

---
 src/envelope.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 73f4f19..cbfba89 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -211,8 +211,14 @@ impl Frequency {
             match self {
                 Self::Weekly(_) => Some(next_date - chrono::Duration::days(7)),
                 Self::Biweekly(_) => Some(next_date - chrono::Duration::days(14)),
-                Self::Monthly(_) => Some(Self::subtract_months(next_date, 1)),
-                Self::Bimonthly(_) => Some(Self::subtract_months(next_date, 2)),
+                Self::Monthly(day) => {
+                    let last_month = Self::subtract_months(next_date, 1);
+                    Some(Self::with_day_or_last(last_month, *day))
+                }
+                Self::Bimonthly(starting_date) => {
+                    let last_month = Self::subtract_months(next_date, 2);
+                    Some(Self::with_day_or_last(last_month, starting_date.day()))
+                }
                 Self::Annually(d) => Some(Self::with_year_or_feb_28(*d, next_date.year() - 1)),
                 _ => None,
             }
@@ -236,7 +242,14 @@ impl Frequency {
             new_year -= 1;
         }
 
-        NaiveDate::from_ymd_opt(new_year, new_month0 as u32 + 1, date.day()).unwrap()
+        let first = NaiveDate::from_ymd_opt(new_year, new_month0 as u32 + 1, 1).unwrap();
+        Self::with_day_or_last(first, date.day())
+    }
+
+    /// Returns the date with another day of its month, or the last one if the month is too short.
+    fn with_day_or_last(date: NaiveDate, day: u32) -> NaiveDate {
+        date.with_day(day)
+            .unwrap_or_else(|| Self::get_last_date_of_month(date))
     }
 
     // this function is pretty long, so we should probably break it into smaller functions
-- 
2.43.0


From c4e68a44889e8dbf9cbec7a56e41f9a3c052c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 09/40] fix: don't skip the starting date of an
 every-other-week envelope

---
 src/envelope.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index cbfba89..7ccb17a 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -280,6 +280,10 @@ impl Frequency {
                 // the same weekday as `w` itself
 
                 // if starting date is after today, use that
+                if starting_date > &today {
+                    return Some(*starting_date);
+                }
+
                 let duration_passed = today.signed_duration_since(*starting_date);
                 let periods_passed = duration_passed.num_weeks() / 2;
                 let next = *starting_date + chrono::Duration::weeks((periods_passed + 1) * 2);
-- 
2.43.0


From 6e330db846fdbf91fa552c855fe68d69cbb02693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 10/40] fix: on its due date, an every-other-month envelope is
 next due in two months

---
 src/envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 7ccb17a..29b9f98 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -299,7 +299,7 @@ impl Frequency {
                     // brute force method until we find something better to do...
                     let day_of_month = starting_date.day();
                     let mut date = *starting_date;
-                    while date < today {
+                    while date <= today {
                         let month0_plus_two = date.month0() + 2;
                         let new_year = date.year() + month0_plus_two as i32 / 12;
                         let new_month = (month0_plus_two % 12) + 1; // + 1 so it's one-based
-- 
2.43.0


From 7cd421dfce39228dec602cad1bc05db5aa85bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 11/40] fix: a starting date that has passed is no due date

---
 src/envelope.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 29b9f98..d6dd156 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -899,7 +899,8 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         let freq_next_date = if let Some(d) = self.freq.get_next_due_date() {
             d
         } else {
-            return Some(starting_date);
+            // the starting date doesn't count once it has passed
+            return Some(starting_date).filter(|d| *d > Local::now().date_naive());
         };
 
         Some(starting_date.max(freq_next_date))
-- 
2.43.0


From 94f694178009606b8e1f3decbf58feed1e767ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:14 +0000
Subject: [PATCH 12/40] fix: white space before a comment, and comment lines
 inside accounts

---
 src/ledger/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index c973cb8..280ed75 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -71,7 +71,7 @@ impl Ledger {
         // split lines
         let lines = s.lines();
         for mut line in lines {
-            line = utils::remove_comments(line.trim_end());
+            line = utils::remove_comments(line).trim_end();
 
             // if the first character of this line is whitespace, it is part of the current chunk.
             // if there is no first character, nothing happens
-- 
2.43.0


From d7358a17046a1563b01cd9009bd421bfd7b014b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:32 +0000
Subject: [PATCH 13/40] fix: report an entry header without a status instead of
 crashing

---
 src/entry.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index e98e865..70e83f2 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -177,7 +177,14 @@ impl Entry {
         };
 
         // parse status
-        let status = header_tokens[1].parse::<EntryStatus>()?;
+        let status = if let Some(raw_status) = header_tokens.get(1) {
+            raw_status.parse::<EntryStatus>()?
+        } else {
+            return Err(ParseError {
+                message: Some("silverfox requires statuses on entries, but this entry's header has nothing after its date".to_string()),
+                context: Some(clean_header.to_string()),
+            });
+        };
 
         // parse description_and_payee
         let description_and_payee: &str = &header_tokens[2..].join(" ");
-- 
2.43.0


From 53e257c7700bbc7575b902ca33eddde469b6dab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:33 +0000
Subject: [PATCH 14/40] fix: reject a blank posting without another amount to
 infer its own from

---
 src/entry.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index 70e83f2..59c9487 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -282,16 +282,21 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
     /// Checks that the Entry is valid. Returns a ValidationError if it is invalid. An Entry is
     /// valid when all of the following are true:
     ///
-    /// - it contains no more than one blank posting amount
+    /// - it contains no more than one blank posting amount, and only if there's another amount to
+    ///   infer it from
     /// - it's balanced (the sum of its postings equals zero)
     /// - it contains no more than one type of currency when a blank posting amount exists (later
     ///   to be supported)
     fn validate(&self, context: &str) -> Result<(), ValidationError> {
         let mut blank_amounts = 0;
+        let mut can_infer = false;
         let mut symbol_set = HashSet::new();
         for posting in &self.postings {
             // does amount exist?
             if let Some(a) = posting.get_amount() {
+                // a blank posting's amount is inferred from the amounts of classic postings
+                can_infer |= posting.is_classic();
+
                 // if so, add its symbol to the set if it exists
                 if let Some(s) = &a.symbol {
                     symbol_set.insert(s);
@@ -308,6 +313,14 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             }
         }
 
+        // if there's a blank amount but no other amount, there's nothing to infer the blank's amount
+        // from
+        if blank_amounts > 0 && !can_infer {
+            return Err(ValidationError::default()
+                .set_message("silverfox can't infer the amount of a blank posting when no other posting in the entry has an amount")
+                .set_context(context));
+        }
+
         // if there's a blank amount but the currencies aren't consistent, we can't infer the
         // blank's amount; there's a way around this that will be worked out in the future, but for
         // now it will be unsupported: TODO
-- 
2.43.0


From c04a11372b591b567265595b76e26570a0b79cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:33 +0000
Subject: [PATCH 15/40] fix: report a payee that is closed before it is opened
 instead of crashing

---
 src/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index 59c9487..db4aeaa 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -189,7 +189,7 @@ impl Entry {
         // parse description_and_payee
         let description_and_payee: &str = &header_tokens[2..].join(" ");
         let (description, payee) = if let Some(i) = description_and_payee.find('[') {
-            if let Some(j) = description_and_payee.rfind(']') {
+            if let Some(j) = description_and_payee.rfind(']').filter(|&j| j > i) {
                 // both brackets exist, so take everything before the opening bracket as the
                 // description and everything in the brackets as the payee
                 // yeah, this means anything after the closing bracket won't be included :/
-- 
2.43.0


From d287dd34d7824f251cbd5a3ebe45c62fd992f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:34 +0000
Subject: [PATCH 16/40] fix: report an envelope posting in another currency
 instead of crashing

---
 src/envelope.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index d6dd156..9b8ab42 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -635,14 +635,13 @@ impl Envelope {
     /// and amounts), as well as the envelope's last_entry_date
     pub fn process_entry(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         if entry.has_envelope_posting() {
-            self.process_manual_postings(entry);
-            Ok(())
+            self.process_manual_postings(entry)
         } else {
             self.infer(entry)
         }
     }
 
-    fn process_manual_postings(&mut self, entry: &Entry) {
+    fn process_manual_postings(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         // manual envelopes
         for posting in entry.get_envelope_postings() {
             // process each envelope posting in the entry
@@ -656,10 +655,24 @@ impl Envelope {
 
                     let amount = envelope_posting.get_amount();
 
+                    if amount.symbol != self.amount.symbol {
+                        let message = format!(
+                            "an envelope posting has a different currency than its envelope, `{}` in `{}`",
+                            self.name, self.account
+                        );
+
+                        return Err(ProcessingError {
+                            message: Some(message),
+                            context: Some(entry.as_full_string()),
+                        });
+                    }
+
                     self.apply_amount(amount, *entry.get_date());
                 }
             }
         }
+
+        Ok(())
     }
 
     fn infer(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
-- 
2.43.0


From 276500b7867e32badaddc79632c9dda825c8ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:11 +0000
Subject: [PATCH 17/40] fix: append entries to the journal in one write that is
 undone if it fails

---
 src/ledger/mod.rs | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 280ed75..abe9c59 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -181,19 +181,35 @@ impl Ledger {
         Ok(())
     }
 
-    /// Appends the entry to the file of the Ledger, then internally adds the Entry itself to the
-    /// Ledger.
-    fn append_entry(&mut self, entry: Entry) -> Result<(), SilverfoxError> {
+    /// Adds the entries to the Ledger, then appends them to the file of the Ledger, either all of
+    /// them or none.
+    fn append_entries(&mut self, entries: &[Entry]) -> Result<(), SilverfoxError> {
+        let text = entries
+            .iter()
+            .map(|e| format!("\n{}", e.as_parsable(&self.date_format)))
+            .collect::<String>();
+
+        // add what will be read from the file next time. if it couldn't be read, don't write it
+        self.add_from_str(&text)?;
+
         let mut file = match fs::OpenOptions::new().append(true).open(&self.file_path) {
             Ok(f) => f,
             Err(e) => return Err(SilverfoxError::file_error(&self.file_path, e)),
         };
 
-        if let Err(e) = write!(file, "\n{}", entry.as_parsable(&self.date_format)) {
-            return Err(SilverfoxError::Basic(format!("{e}")));
+        let original_len = file
+            .metadata()
+            .map_err(|e| SilverfoxError::file_error(&self.file_path, e))?
+            .len();
+
+        // a single write, so that being killed doesn't leave some part of the text in the file
+        if let Err(e) = file.write_all(text.as_bytes()) {
+            // don't leave a part of the text in the file, if only a part could be written
+            let _ = file.set_len(original_len);
+            return Err(SilverfoxError::file_error(&self.file_path, e));
         }
 
-        self.add_entry(entry)
+        Ok(())
     }
 
     fn parse_account(&mut self, chunk: &str) -> Result<(), SilverfoxError> {
@@ -301,7 +317,7 @@ impl Ledger {
             Some(String::from("automatically generated by silverfox")),
         );
 
-        self.append_entry(entry)
+        self.append_entries(&[entry])
     }
 
     pub fn import_csv(
@@ -317,16 +333,9 @@ impl Ledger {
             CsvImporter::from_file(csv_file, account_set)
         }?;
 
-        for result in imp {
-            match result {
-                Ok(e) => {
-                    self.append_entry(e)?;
-                }
-                Err(e) => return Err(e),
-            }
-        }
+        let entries = imp.collect::<Result<Vec<Entry>, SilverfoxError>>()?;
 
-        Ok(())
+        self.append_entries(&entries)
     }
 
     /// Display a register of all transactions from `begin_date` (inclusive) to `end_date` (also
-- 
2.43.0


From d6a7bbdc3d77de36c5b9f94f65e3df0223a27a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:39 +0000
Subject: [PATCH 18/40] fix: don't change the working directory while reading
 the journal

---
 src/ledger/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index abe9c59..48d1bfb 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -18,6 +18,7 @@ use register::Register;
 
 pub struct Ledger {
     file_path: PathBuf,
+    include_dir: PathBuf, // the directory of the file being read; paths in it are relative to this
     entries: Vec<Entry>,
     date_format: String, // default = "%Y/%m/%d"
     accounts: HashMap<String, Account>,
@@ -30,6 +31,7 @@ impl Ledger {
     fn new() -> Self {
         Ledger {
             file_path: PathBuf::new(),
+            include_dir: PathBuf::new(),
             date_format: String::from("%Y/%m/%d"),
             entries: Vec::new(),
             accounts: HashMap::new(),
@@ -55,12 +57,14 @@ impl Ledger {
         let s = fs::read_to_string(file_path)
             .map_err(|e| SilverfoxError::file_error(PathBuf::from(file_path), e))?;
 
-        // change directory to parent after reading to string, and before parsing
-        let parent_dir = file_path.parent().unwrap();
+        // while parsing, files are included relative to this file's directory
+        let parent_dir = file_path.parent().unwrap_or(Path::new(""));
+        let outer_dir = std::mem::replace(&mut self.include_dir, parent_dir.to_path_buf());
 
-        std::env::set_current_dir(parent_dir).unwrap_or(());
+        let result = self.add_from_str(&s);
 
-        self.add_from_str(&s)
+        self.include_dir = outer_dir;
+        result
     }
 
     /// Adds to the ledger from the contents parsed from the string
@@ -146,7 +150,7 @@ impl Ledger {
 
     fn include(&mut self, file: Option<&str>) -> Result<(), SilverfoxError> {
         if let Some(f) = file {
-            self.add_from_file(&PathBuf::from(f))
+            self.add_from_file(&self.include_dir.join(f))
         } else {
             Err(SilverfoxError::from(ParseError {
                 message: Some("no file provided to an `include` clause".to_string()),
-- 
2.43.0


From 0fb637792a5e02bee566656f55fd92bc77e6397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:39 +0000
Subject: [PATCH 19/40] fix: don't fill an envelope twice in a day when today's
 entry isn't its last

---
 src/envelope.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 9b8ab42..84e9878 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -810,7 +810,10 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             }
         }
 
-        self.last_transaction_date = date;
+        // once affected today, always affected today, even if entries with other dates follow
+        if self.last_transaction_date != Local::now().date_naive() {
+            self.last_transaction_date = date;
+        }
     }
 
     pub fn get_type(&self) -> &EnvelopeType {
-- 
2.43.0


From 4327ddcec25c516eedc1578697711f1c986bfdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:40 +0000
Subject: [PATCH 20/40] fix: report that the register can't be displayed
 instead of crashing

---
 src/flags.rs      | 4 +++-
 src/ledger/mod.rs | 3 +--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index eae16d7..0c79d7e 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -92,7 +92,9 @@ impl CommandFlags {
         match self.subcommand {
             Subcommand::Balance => ledger.display_flat_balance()?,
             Subcommand::Envelopes => ledger.display_envelopes(),
-            Subcommand::Register => ledger.display_register(self.begin_date, self.end_date, None),
+            Subcommand::Register => {
+                ledger.display_register(self.begin_date, self.end_date, None)?
+            }
             Subcommand::Import => {
                 if let Some(c) = &self.csv_file {
                     return ledger.import_csv(c, self.rules_file.as_ref());
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 48d1bfb..931ecd5 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -350,7 +350,7 @@ impl Ledger {
         begin_date: Option<NaiveDate>,
         end_date: Option<NaiveDate>,
         account_match: Option<String>,
-    ) {
+    ) -> Result<(), SilverfoxError> {
         Register::display(
             &self.entries,
             &self.date_format,
@@ -358,7 +358,6 @@ impl Ledger {
             end_date,
             account_match,
         )
-        .unwrap();
     }
 }
 
-- 
2.43.0


From 61fb63ca4cc4fcc17ff2c78e544da0e6063356ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:00 +0000
Subject: [PATCH 21/40] fix: lock the journal while it is read and appended to

---
 src/flags.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/flags.rs b/src/flags.rs
index 0c79d7e..6a3e96c 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -2,6 +2,7 @@ use crate::errors::SilverfoxError;
 use crate::ledger::Ledger;
 use std::convert::TryFrom;
 use std::env;
+use std::fs::File;
 use std::path::PathBuf;
 
 pub struct CommandFlags {
@@ -83,12 +84,29 @@ impl CommandFlags {
     - set the environment variable $SILVERFOX_FILE or $LEDGER_FILE to a path to a file")));
         };
 
+        // if the journal may be written to, don't let another silverfox read it meanwhile: it would
+        // base its own movements on a journal without ours. not all file systems can lock files, so
+        // carry on without the lock if there's none to get
+        let is_import = matches!(self.subcommand, Subcommand::Import);
+        let lock = if self.no_move && !is_import {
+            None
+        } else {
+            File::open(&file_path).ok().inspect(|f| {
+                let _ = f.lock();
+            })
+        };
+
         let mut ledger = Ledger::from_file(&file_path)?;
 
         if !self.no_move {
             ledger.fill_envelopes()?
         }
 
+        // nothing is written after this, except by an import
+        if !is_import {
+            drop(lock);
+        }
+
         match self.subcommand {
             Subcommand::Balance => ledger.display_flat_balance()?,
             Subcommand::Envelopes => ledger.display_envelopes(),
-- 
2.43.0


From d4ed6f2eef637029272bd51a112fc006059cc729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:00 +0000
Subject: [PATCH 22/40] fix: go through the accounts in a fixed order

---
 src/ledger/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 931ecd5..c5c6288 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -6,7 +6,7 @@ use crate::importer::CsvImporter;
 use crate::posting::Posting;
 use crate::utils;
 use chrono::{Local, NaiveDate};
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt::Debug;
 use std::fmt::Formatter;
 use std::fs;
@@ -21,7 +21,7 @@ pub struct Ledger {
     include_dir: PathBuf, // the directory of the file being read; paths in it are relative to this
     entries: Vec<Entry>,
     date_format: String, // default = "%Y/%m/%d"
-    accounts: HashMap<String, Account>,
+    accounts: BTreeMap<String, Account>, // sorted, so that results don't depend on hash order
     default_currency: String,
     decimal_symbol: char,
 }
@@ -34,7 +34,7 @@ impl Ledger {
             include_dir: PathBuf::new(),
             date_format: String::from("%Y/%m/%d"),
             entries: Vec::new(),
-            accounts: HashMap::new(),
+            accounts: BTreeMap::new(),
             default_currency: String::new(),
             decimal_symbol: '.',
         }
-- 
2.43.0


From b82005f7d1f9da347d40bb19bdffb55956d60c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:01 +0000
Subject: [PATCH 23/40] fix: import an entry's postings in a fixed order

---
 src/importer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index 5db8033..c749ad6 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -2,7 +2,7 @@ use crate::entry::{Entry, EntryStatus};
 use crate::errors::*;
 use crate::posting::{ClassicPosting, Posting};
 use crate::utils;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::collections::{LinkedList, VecDeque};
 use std::fs;
 use std::path::{Path, PathBuf};
@@ -84,8 +84,9 @@ impl Iterator for CsvImporter {
 
 #[derive(Clone, Debug, PartialEq)]
 struct Rules {
-    accounts: HashMap<String, String>,
-    amount_strs: HashMap<String, String>,
+    // sorted, so that the order of an entry's postings doesn't depend on hash order
+    accounts: BTreeMap<String, String>,
+    amount_strs: BTreeMap<String, String>,
     comment: String,
     description: String,
     date_format: String,
@@ -100,8 +101,8 @@ struct Rules {
 
 impl Default for Rules {
     fn default() -> Self {
-        let amount_strs: HashMap<String, String> = Default::default();
-        let accounts: HashMap<String, String> = Default::default();
+        let amount_strs: BTreeMap<String, String> = Default::default();
+        let accounts: BTreeMap<String, String> = Default::default();
 
         Rules {
             accounts,
-- 
2.43.0


From 73dc6dc9e283ee627788c56f02a5a11203fbf69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:18 +0000
Subject: [PATCH 24/40] fix: import percent signs in csv values as they are

---
 src/importer.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index c749ad6..18d49d8 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -480,14 +480,30 @@ impl Rules {
     }
 
     fn inject_variables(s: &str, variables: &HashMap<String, String>) -> String {
-        let mut result = String::from(s);
+        let mut result = String::new();
+        let mut rest = s;
+
+        // go from left to right, so that percent signs in values stay as they are
+        while let Some(i) = rest.find('%') {
+            result.push_str(&rest[..i]);
+            rest = &rest[i + 1..];
+
+            if let Some(j) = rest.find('%') {
+                if j == 0 {
+                    result.push('%'); // literal %
+                    rest = &rest[1..];
+                    continue;
+                } else if let Some(v_value) = variables.get(&rest[..j]) {
+                    result.push_str(v_value);
+                    rest = &rest[j + 1..];
+                    continue;
+                }
+            }
 
-        for (v_name, v_value) in variables.iter() {
-            result = result.replace(format!("%{v_name}%").as_str(), v_value);
+            result.push('%'); // not a variable
         }
 
-        result = result.replace("%%", "%"); // literal %
-
+        result.push_str(rest);
         result
     }
 }
-- 
2.43.0


From 666d2ffca4a582e67a9418c59d7e6008acde6837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:50 +0000
Subject: [PATCH 25/40] fix: import csv values with line breaks as a single
 line

---
 src/importer.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index 18d49d8..e58aeaf 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -414,21 +414,21 @@ impl Rules {
         };
 
         // get others
-        let description = Self::inject_variables(&self.description, &variables);
+        let description = Self::inject_single_line(&self.description, &variables);
         let status = Self::inject_variables(&self.status, &variables).parse::<EntryStatus>()?;
 
         // get payee
         let payee = if self.payee.trim().is_empty() {
             None
         } else {
-            Some(Self::inject_variables(&self.payee, &variables))
+            Some(Self::inject_single_line(&self.payee, &variables))
         };
 
         //
         let comment = if self.comment.trim().is_empty() {
             None
         } else {
-            Some(Self::inject_variables(&self.comment, &variables))
+            Some(Self::inject_single_line(&self.comment, &variables))
         };
 
         // make postings from account and amount sets
@@ -479,6 +479,14 @@ impl Rules {
         }
     }
 
+    /// Injects variables into text for an entry's header, which has to stay on a single line.
+    fn inject_single_line(s: &str, variables: &HashMap<String, String>) -> String {
+        Self::inject_variables(s, variables)
+            .split_whitespace()
+            .collect::<Vec<&str>>()
+            .join(" ")
+    }
+
     fn inject_variables(s: &str, variables: &HashMap<String, String>) -> String {
         let mut result = String::new();
         let mut rest = s;
-- 
2.43.0


From a2555d66d84c4b894d848752dda6db6b30738586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:51 +0000
Subject: [PATCH 26/40] fix: don't crash on rules with letters outside of ascii

---
 src/importer.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index e58aeaf..641d310 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -197,9 +197,9 @@ impl Rules {
 
             if line.starts_with("if") {
                 parsing_subrules = Some(Subrules::from(&*self));
-                if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
+                if let Some((_, pattern)) = line.split_once(char::is_whitespace) {
                     if let Some(s) = parsing_subrules.as_mut() {
-                        s.patterns.push(String::from(&line[i + 1..]))
+                        s.patterns.push(String::from(pattern))
                     } else {
                         unreachable!()
                     }
@@ -220,9 +220,8 @@ impl Rules {
     fn add_from_line(&mut self, mut line: &str) -> Result<(), SilverfoxError> {
         line = line.trim_start();
 
-        let split_index = if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
-            i
-        } else {
+        // the first token is the rule name, and the rest of the line is the value
+        let Some((rule_name, rule_value)) = line.split_once(char::is_whitespace) else {
             return Err(SilverfoxError::from(ParseError {
                 message: Some(format!(
                     "this rule has no value. use `-` if you want to discard a value:\n\n{} -",
@@ -232,13 +231,7 @@ impl Rules {
             }));
         };
 
-        // the first token is the rule name
-        let rule_name = &line[..split_index];
-
-        // the rest of the line is the value
-        let rule_value = String::from(&line[split_index + 1..])
-            .trim_start()
-            .to_string();
+        let rule_value = rule_value.trim_start().to_string();
 
         if rule_value.trim() == "-" {
             // resets a value
-- 
2.43.0


From 7f1053b7893790a9e93500371ee2e4be28e35451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:51 +0000
Subject: [PATCH 27/40] fix: report a decimal_symbol rule without a symbol
 instead of crashing

---
 src/importer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index 641d310..35f368b 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -285,15 +285,16 @@ impl Rules {
                 "date_format" => self.date_format = rule_value,
                 "date" => self.date_str = rule_value,
                 "decimal_symbol" | "decimal" => {
-                    if rule_value.len() > 1 {
+                    let mut chars = rule_value.chars();
+                    if let (Some(c), None) = (chars.next(), chars.next()) {
+                        self.decimal_symbol = c;
+                    } else {
                         return Err(SilverfoxError::from(ParseError {
                             message: Some(
                                 "decimal_symbol should be a single character".to_string(),
                             ),
                             context: Some(line.to_string()),
                         }));
-                    } else {
-                        self.decimal_symbol = rule_value.chars().next().unwrap();
                     }
                 }
                 "description" => self.description = rule_value,
-- 
2.43.0


From bb0813c55c64c2ff768b7def059695894060c50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:51 +0000
Subject: [PATCH 28/40] fix: don't copy conditional rules into the conditional
 rules after them

---
 src/importer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index 35f368b..cb4d654 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -528,7 +528,12 @@ impl From<&Rules> for Subrules {
     fn from(other: &Rules) -> Self {
         Self {
             patterns: Default::default(),
-            rules: other.clone(),
+            // not the other conditional rules, which are looked at before these anyway. with them,
+            // each `if` would double the size of the rules
+            rules: Rules {
+                subrules: Default::default(),
+                ..other.clone()
+            },
         }
     }
 }
-- 
2.43.0


From fdea6e962cdc37595693683369c0cf8ad8db842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:28 +0000
Subject: [PATCH 29/40] fix: report a date format that dates can't be written
 with instead of crashing

---
 src/ledger/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index c5c6288..02145c2 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -9,6 +9,7 @@ use chrono::{Local, NaiveDate};
 use std::collections::{BTreeMap, HashMap};
 use std::fmt::Debug;
 use std::fmt::Formatter;
+use std::fmt::Write as _;
 use std::fs;
 use std::io::prelude::*;
 use std::path::{Path, PathBuf};
@@ -136,6 +137,18 @@ impl Ledger {
 
     fn set_date_format(&mut self, date_format: Option<&str>) -> Result<(), SilverfoxError> {
         if let Some(d) = date_format {
+            // dates have to be written with this format, too, so try that first
+            let date = NaiveDate::from_ymd_opt(2000, 12, 31).unwrap();
+            let mut s = String::new();
+            if write!(s, "{}", date.format(d)).is_err()
+                || NaiveDate::parse_from_str(&s, d) != Ok(date)
+            {
+                return Err(SilverfoxError::from(ParseError {
+                    context: Some(d.to_string()),
+                    message: Some("dates can't be written with this date format".to_string()),
+                }));
+            }
+
             self.date_format = d.into();
             Ok(())
         } else {
-- 
2.43.0


From 4883a5182459752998fc472d82a7653675760d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:28 +0000
Subject: [PATCH 30/40] fix: append dates without white space

---
 src/entry.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index db4aeaa..8c248f4 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -519,7 +519,13 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
     }
 
     pub fn as_parsable(&self, date_format: &str) -> String {
-        let date = self.date.format(date_format);
+        // no white space, or what's after it wouldn't be read as a part of the date (`%e` pads with it)
+        let date = self
+            .date
+            .format(date_format)
+            .to_string()
+            .split_whitespace()
+            .collect::<String>();
 
         let mut s = String::new();
 
-- 
2.43.0


From 49d1e616ba0a5c34237460a6445da684c1002daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:29 +0000
Subject: [PATCH 31/40] fix: don't record a movement of zero every time
 silverfox is run

---
 src/amount.rs     | 3 ++-
 src/ledger/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index bba4973..884b205 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -75,7 +75,8 @@ impl Amount {
         !is_mag_char(c, decimal_symbol) && c != '.' && c != ','
     }
 
-    fn rounded_mag(&self) -> f64 {
+    /// Returns the magnitude as it's displayed and written.
+    pub fn rounded_mag(&self) -> f64 {
         (self.mag * 100_000_000.0).round() / 100_000_000.0
     }
 }
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 02145c2..1b16a3d 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -311,10 +311,10 @@ impl Ledger {
             postings.append(&mut account.get_filling_postings())
         }
 
-        // remove zero-magnitude postings, they're useless
+        // remove zero-magnitude postings, they're useless. so are those that would be written as zero
         postings.retain(|p| {
             if let Some(a) = p.get_amount() {
-                a.mag != 0.0
+                a.rounded_mag() != 0.0
             } else {
                 false
             }
-- 
2.43.0


From ba3721e0fe2d49cd134d0efe4a075b02bb7f44d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:53 +0000
Subject: [PATCH 32/40] fix: report files that include themselves instead of
 crashing

---
 src/importer.rs   | 13 ++++++++++++-
 src/ledger/mod.rs |  9 +++++++++
 src/utils.rs      | 13 +++++++++++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index cb4d654..c6833f5 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -93,6 +93,7 @@ struct Rules {
     date_str: String,
     decimal_symbol: char,
     fields: LinkedList<String>,
+    include_depth: usize, // how many files are being read, each one included by the one before
     payee: String,
     skip: i32,
     status: String,
@@ -113,6 +114,7 @@ impl Default for Rules {
             decimal_symbol: '.',
             description: String::from("%description%"),
             fields: Default::default(),
+            include_depth: 0,
             payee: String::new(),
             skip: 1,
             status: String::from("~"),
@@ -135,7 +137,16 @@ impl Rules {
         let s = fs::read_to_string(rules_file)
             .map_err(|e| SilverfoxError::file_error(rules_file, e))?;
 
-        self.add_from_str(&s)
+        // files that include themselves or each other would never end
+        if self.include_depth >= utils::MAX_INCLUDE_DEPTH {
+            return Err(utils::include_depth_error(rules_file));
+        }
+        self.include_depth += 1;
+
+        let result = self.add_from_str(&s);
+
+        self.include_depth -= 1;
+        result
     }
 
     fn add_from_str(&mut self, s: &str) -> Result<(), SilverfoxError> {
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 1b16a3d..88e7724 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -20,6 +20,7 @@ use register::Register;
 pub struct Ledger {
     file_path: PathBuf,
     include_dir: PathBuf, // the directory of the file being read; paths in it are relative to this
+    include_depth: usize, // how many files are being read, each one included by the one before
     entries: Vec<Entry>,
     date_format: String, // default = "%Y/%m/%d"
     accounts: BTreeMap<String, Account>, // sorted, so that results don't depend on hash order
@@ -33,6 +34,7 @@ impl Ledger {
         Ledger {
             file_path: PathBuf::new(),
             include_dir: PathBuf::new(),
+            include_depth: 0,
             date_format: String::from("%Y/%m/%d"),
             entries: Vec::new(),
             accounts: BTreeMap::new(),
@@ -58,12 +60,19 @@ impl Ledger {
         let s = fs::read_to_string(file_path)
             .map_err(|e| SilverfoxError::file_error(PathBuf::from(file_path), e))?;
 
+        // files that include themselves or each other would never end
+        if self.include_depth >= utils::MAX_INCLUDE_DEPTH {
+            return Err(utils::include_depth_error(file_path));
+        }
+        self.include_depth += 1;
+
         // while parsing, files are included relative to this file's directory
         let parent_dir = file_path.parent().unwrap_or(Path::new(""));
         let outer_dir = std::mem::replace(&mut self.include_dir, parent_dir.to_path_buf());
 
         let result = self.add_from_str(&s);
 
+        self.include_depth -= 1;
         self.include_dir = outer_dir;
         result
     }
diff --git a/src/utils.rs b/src/utils.rs
index 9e369a7..6966a43 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,3 +1,16 @@
+use crate::errors::SilverfoxError;
+use std::path::Path;
+
+/// How many files can be included by one another, one inside of the other.
+pub const MAX_INCLUDE_DEPTH: usize = 100;
+
+pub fn include_depth_error(file_path: &Path) -> SilverfoxError {
+    SilverfoxError::Basic(format!(
+        "too many files are included by one another, the last one being `{}`. does a file include itself?",
+        file_path.display()
+    ))
+}
+
 pub fn remove_comments(s: &str) -> &str {
     // get indices
     let double_slash_index = s.find("//");
-- 
2.43.0


From 362844a89b72d962d64eaa8a72eaca26b29a3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:39 +0000
Subject: [PATCH 33/40] fix: don't fill an overspent envelope with more than
 what's available or missing

---
 src/envelope.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 84e9878..762d978 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -820,10 +820,6 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         &self.envelope_type
     }
 
-    fn get_total_amount_mag(&self) -> f64 {
-        self.now_amount.mag + self.next_amount.mag
-    }
-
     fn get_filling_amount(&self, account_available_amount: &Amount) -> Amount {
         assert_eq!(account_available_amount.symbol, self.amount.symbol);
 
@@ -857,7 +853,6 @@ envelope. hopefully that all makes sense!", self.name, self.account);
                         .mag
                         .min(account_available_amount.mag) // makes sure the account value stays positive :)
                         .min(remaining_amount.mag) // prevents envelope overflow
-                        .max(-self.get_total_amount_mag()) // makes sure there are no negative envelope balances
                         .max(0.0); // never take money from an envelope
 
                     Amount {
@@ -872,7 +867,6 @@ envelope. hopefully that all makes sense!", self.name, self.account);
                     let mag = (remaining_amount.mag / days_remaining as f64)
                         .min(account_available_amount.mag) // makes sure the account value stays positive
                         .min(remaining_amount.mag) // prevents envelope overflow
-                        .max(-self.get_total_amount_mag()) // makes sure there are no negative envelope balances
                         .max(0.0); // never take money from an envelope
 
                     // return that
-- 
2.43.0


From 479740a8117b4cebb910aa7331da5887b095c758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:08 +0000
Subject: [PATCH 34/40] fix: money put into an envelope before its starting
 date is for that date

---
 src/envelope.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 762d978..80c2ff6 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -795,7 +795,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             self.now_amount += amount.clone();
         } else if amount.mag > 0.0 {
             // add to an envelope, depending on the date
-            if let Some(d) = self.freq.get_last_due_date() {
+            if let Some(d) = self.get_last_due_date() {
                 if date < d {
                     // anything before the last due date is ready
                     self.now_amount += amount.clone();
@@ -916,6 +916,13 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         Some(starting_date.max(freq_next_date))
     }
 
+    fn get_last_due_date(&self) -> Option<NaiveDate> {
+        // there's no due date before the starting date
+        self.freq
+            .get_last_due_date()
+            .filter(|d| self.starting_date.is_none_or(|s| *d >= s))
+    }
+
     pub fn get_freq(&self) -> &Frequency {
         &self.freq
     }
-- 
2.43.0


From 0a4b77b446070262fa841429a9f00b66a3f23f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:26 +0000
Subject: [PATCH 35/40] fix: don't copy conditional rules just to drop them

---
 src/importer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index c6833f5..3786857 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -542,8 +542,17 @@ impl From<&Rules> for Subrules {
             // not the other conditional rules, which are looked at before these anyway. with them,
             // each `if` would double the size of the rules
             rules: Rules {
+                accounts: other.accounts.clone(),
+                amount_strs: other.amount_strs.clone(),
+                comment: other.comment.clone(),
+                description: other.description.clone(),
+                date_format: other.date_format.clone(),
+                date_str: other.date_str.clone(),
+                fields: other.fields.clone(),
+                payee: other.payee.clone(),
+                status: other.status.clone(),
                 subrules: Default::default(),
-                ..other.clone()
+                ..*other
             },
         }
     }
-- 
2.43.0


From f5cf020bd3d7eb0204a1abf46c36a517ea006f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:22 +0000
Subject: [PATCH 36/40] fix: fill envelopes with the amounts that are written,
 not unrounded ones

---
 src/envelope.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 80c2ff6..472b12f 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -882,7 +882,11 @@ envelope. hopefully that all makes sense!", self.name, self.account);
     /// Returns a posting with this Envelope's fill amount for the day. `account` is passed so that
     /// the program can determine how much money we have available.
     pub fn get_filling_posting(&self, account_available_value: &AmountPool) -> EnvelopePosting {
-        let amount = self.get_filling_amount(&account_available_value.only(&self.amount.symbol));
+        let mut amount =
+            self.get_filling_amount(&account_available_value.only(&self.amount.symbol));
+
+        // move exactly what gets written, or a crumb is left to be moved by the next run
+        amount.mag = amount.rounded_mag();
 
         EnvelopePosting::new(self.account.clone(), amount, self.name.clone())
     }
-- 
2.43.0


From f7d75086f89a84714fb56a10f27a7efb87ee1395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:52 +0000
Subject: [PATCH 37/40] fix: blanks around values and patterns in rules aren't
 part of them

---
 src/importer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index 3786857..f559a04 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -155,7 +155,8 @@ impl Rules {
         let mut parsing_subrules_rules = false;
 
         for mut line in s.lines() {
-            line = utils::remove_comments(line);
+            // blanks at the end, or before a comment, aren't part of a value or a pattern
+            line = utils::remove_comments(line).trim_end();
 
             // if line contains nothing, continue
             if line.trim().is_empty() {
@@ -210,7 +211,7 @@ impl Rules {
                 parsing_subrules = Some(Subrules::from(&*self));
                 if let Some((_, pattern)) = line.split_once(char::is_whitespace) {
                     if let Some(s) = parsing_subrules.as_mut() {
-                        s.patterns.push(String::from(pattern))
+                        s.patterns.push(String::from(pattern.trim_start()))
                     } else {
                         unreachable!()
                     }
-- 
2.43.0


From e0d307d8627ddb65e8e015888ac58487d5935552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:44 +0000
Subject: [PATCH 38/40] fix: look today's date up once, so that a run past
 midnight uses one date

---
 src/envelope.rs   | 10 +++++-----
 src/ledger/mod.rs |  4 ++--
 src/utils.rs      |  9 +++++++++
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 472b12f..d83ccc2 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -5,7 +5,7 @@ use crate::errors::ProcessingError;
 use crate::posting::{EnvelopePosting, Posting};
 use crate::utils;
 use chrono::prelude::*;
-use chrono::{Local, NaiveDate};
+use chrono::NaiveDate;
 use std::cmp::Ordering;
 use std::collections::HashSet;
 use std::fmt;
@@ -255,7 +255,7 @@ impl Frequency {
     // this function is pretty long, so we should probably break it into smaller functions
     /// Calculates and returns the next due date based on this Frequency.
     pub fn get_next_due_date(&self) -> Option<NaiveDate> {
-        let today = Local::now().date_naive();
+        let today = utils::today();
         match self {
             Self::Never => None,
             Self::Once(date) => {
@@ -811,7 +811,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         }
 
         // once affected today, always affected today, even if entries with other dates follow
-        if self.last_transaction_date != Local::now().date_naive() {
+        if self.last_transaction_date != utils::today() {
             self.last_transaction_date = date;
         }
     }
@@ -836,7 +836,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             return zero_amount;
         };
 
-        let today = Local::now().date_naive();
+        let today = utils::today();
         let remaining_amount = self.get_remaining_next_amount();
 
         if self.last_transaction_date == today {
@@ -914,7 +914,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             d
         } else {
             // the starting date doesn't count once it has passed
-            return Some(starting_date).filter(|d| *d > Local::now().date_naive());
+            return Some(starting_date).filter(|d| *d > utils::today());
         };
 
         Some(starting_date.max(freq_next_date))
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 88e7724..efcf1e8 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -5,7 +5,7 @@ use crate::errors::*;
 use crate::importer::CsvImporter;
 use crate::posting::Posting;
 use crate::utils;
-use chrono::{Local, NaiveDate};
+use chrono::NaiveDate;
 use std::collections::{BTreeMap, HashMap};
 use std::fmt::Debug;
 use std::fmt::Formatter;
@@ -335,7 +335,7 @@ impl Ledger {
         }
 
         let entry = Entry::new(
-            Local::now().date_naive(),
+            utils::today(),
             crate::entry::EntryStatus::Cleared,
             String::from("move to envelopes"),
             None,
diff --git a/src/utils.rs b/src/utils.rs
index 6966a43..392d3d1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,5 +1,7 @@
 use crate::errors::SilverfoxError;
+use chrono::{Local, NaiveDate};
 use std::path::Path;
+use std::sync::OnceLock;
 
 /// How many files can be included by one another, one inside of the other.
 pub const MAX_INCLUDE_DEPTH: usize = 100;
@@ -11,6 +13,13 @@ pub fn include_depth_error(file_path: &Path) -> SilverfoxError {
     ))
 }
 
+/// Returns today's date. It's looked up once, so that it stays the same even if the clock goes past
+/// midnight (or is set) while silverfox is running.
+pub fn today() -> NaiveDate {
+    static TODAY: OnceLock<NaiveDate> = OnceLock::new();
+    *TODAY.get_or_init(|| Local::now().date_naive())
+}
+
 pub fn remove_comments(s: &str) -> &str {
     // get indices
     let double_slash_index = s.find("//");
-- 
2.43.0


From 16c0022dd809f9cedb762e415e9d24cc37abc3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:06 +0000
Subject: [PATCH 39/40] fix: blanks between the words of an envelope's
 definition don't matter

---
 src/envelope.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index d83ccc2..2db9d8c 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -421,7 +421,7 @@ impl Envelope {
     /// Returns the starting struct of an Envelope. The string passed in can include ledger
     /// comments.
     fn from_header(
-        mut header: &str,
+        header: &str,
         date_format: &str,
         account_name: &str,
     ) -> Result<Self, ParseError> {
@@ -429,6 +429,10 @@ impl Envelope {
             .split_whitespace()
             .collect::<Vec<&str>>();
 
+        // how many blanks are between words doesn't matter
+        let clean_header = tokens.join(" ");
+        let mut header = clean_header.as_str();
+
         if tokens.len() < 2 {
             return Err(ParseError {
                 context: Some(header.to_string()),
@@ -482,9 +486,9 @@ impl Envelope {
             let line_split = trimmed_line.split_whitespace().collect::<Vec<&str>>();
             let key = line_split[0];
 
-            // get the index of the first space (because that's where the values begins)
+            // get the index of the first blank (because that's where the values begins)
 
-            let Some(idx) = trimmed_line.find(' ') else {
+            let Some(idx) = trimmed_line.find(char::is_whitespace) else {
                 let message = format!(
                     "the property `{}` to an envelope (`{}` in {}) is blank",
                     line_split[0], self.name, account_name
-- 
2.43.0


From 248c2ec2fc24a0e2a31fad97111c0629d2bfe195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:07 +0000
Subject: [PATCH 40/40] fix: an expense and a goal of one account can't have
 the same name

---
 src/account.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index e783319..384e858 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -109,14 +109,18 @@ impl Account {
     }
 
     pub fn add_envelope(&mut self, envelope: Envelope) -> Result<(), ValidationError> {
+        // expenses and goals can't share a name, either: an envelope posting would count for both
+        let envelope_exists = self
+            .expense_envelopes
+            .iter()
+            .chain(self.goal_envelopes.iter())
+            .any(|e| e.get_name() == envelope.get_name());
+
         let envelope_collection = match envelope.get_type() {
             EnvelopeType::Expense => &mut self.expense_envelopes,
             EnvelopeType::Goal => &mut self.goal_envelopes,
         };
 
-        let envelope_exists = envelope_collection
-            .iter()
-            .any(|e| e.get_name() == envelope.get_name());
         if envelope_exists {
             Err(ValidationError {
                 message: Some(format!(
-- 
2.43.0

