From 1ab31022bdebbf81c4ecc6cdf35ba74c99feaea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:58 +0000
Subject: [PATCH 01/18] fix: keep the range of unclosed ANSI sequences within
 bounds

An unclosed CSI/OSC sequence starting anywhere but the beginning of the
string yielded a range ending past its end: Msg::strip_ansi panicked, and
fit_to_width lost the sequence.
---
 fyi_msg/src/ansi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/ansi.rs b/fyi_msg/src/ansi.rs
index 24bfb4c..6f8f6fa 100644
--- a/fyi_msg/src/ansi.rs
+++ b/fyi_msg/src/ansi.rs
@@ -352,7 +352,8 @@ pub(crate) fn next_ansi(src: &str) -> Option<Range<usize>> {
 		_ => {},
 	}
 
-	Some(start..start + end.unwrap_or(len))
+	// Positions are relative to the start, except when unclosed.
+	Some(start..end.map_or(len, |end| start + end))
 }
 
 
-- 
2.43.0


From 38aee918111145899fb1fe8bd04e23f98117f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:58 +0000
Subject: [PATCH 02/18] fix: strip ANSI sequences formed by the removal of
 others

Removing a sequence nested inside another (ESC ESC[1m [2m) left behind a
brand new one, so the message remained formatted and stripping it again
changed it further.
---
 fyi_msg/src/msg/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fyi_msg/src/msg/mod.rs b/fyi_msg/src/msg/mod.rs
index 60e51d2..97ab634 100644
--- a/fyi_msg/src/msg/mod.rs
+++ b/fyi_msg/src/msg/mod.rs
@@ -751,6 +751,12 @@ impl Msg {
 				start = ansi_rng.start; // Pick up from here next time around.
 				stop -= ansi_len;       // But stop earlier, since we removed shit.
 				self.inner.replace_range(ansi_rng, "");
+
+				// If there's an escape right before the gap, back up in case
+				// it and what follows are a sequence now that they've met.
+				if old_rng.start < start && self.inner.as_bytes()[start - 1] == b'\x1b' {
+					start -= 1;
+				}
 			}
 
 			// Update the table of contents, if necessary.
-- 
2.43.0


From c7fadb5fa351eed9e49e4af4ccbcb471d5154756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:58 +0000
Subject: [PATCH 03/18] fix: don't double line breaks when fitting lines with
 unclosed ANSI

An unclosed sequence in the chopped part of a line was taken to include
the line break, which was then added a second time.
---
 fyi_msg/src/fitted.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fyi_msg/src/fitted.rs b/fyi_msg/src/fitted.rs
index e6c4439..01bf7f4 100644
--- a/fyi_msg/src/fitted.rs
+++ b/fyi_msg/src/fitted.rs
@@ -119,10 +119,12 @@ pub fn fit_to_width(src: &str, width: usize) -> Cow<str> {
 						return Cow::Borrowed("");
 					};
 
-					// Keep the fitable, "lost" ANSI, and trailing breaks.
+					// Keep the fitable, "lost" ANSI, and trailing breaks. (The
+					// latter are not up for grabs by unclosed sequences.)
+					let end = terminator(kill);
 					$out.push_str(keep);
-					$out.extend(OnlyAnsi::new(kill));
-					$out.push_str(terminator($line));
+					$out.extend(OnlyAnsi::new(kill.strip_suffix(end).unwrap_or(kill)));
+					$out.push_str(end);
 				);
 			}
 
-- 
2.43.0


From 85058b67df4fa67fb1fc17895ffa7db76ece3b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 04/18] fix: update the progress count atomically

The done count was loaded, changed, and stored in separate steps, so
parallel increments could be lost, and an increment racing with the end
of the run could reopen (the count of) a finished bar.
---
 fyi_msg/src/progress/mod.rs | 47 +++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 8da7400..f1f2606 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -403,16 +403,7 @@ impl ProglessInner {
 		if n != 0 && self.running() {
 			// Don't bother recasting the parts to u32; leaving them as-is
 			// moots addition overflow and simplifies the subsequent joining.
-			let done_total = self.done_total.load(SeqCst);
-			let done = done!(done_total) + u64::from(n);
-			let total = total!(done_total);
-
-			if done < total {
-				self.done_total.store(done_total!(done, total), SeqCst);
-				self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
-			}
-			// Time to call it quits!
-			else { self.stop(); }
+			self.update_done(|done| done + u64::from(n));
 		}
 	}
 
@@ -504,19 +495,35 @@ impl ProglessInner {
 	fn set_done(&self, done: u32) {
 		if self.running() {
 			let done = u64::from(done);
-			let done_total = self.done_total.load(SeqCst);
-			if done != done!(done_total) {
-				let total = total!(done_total);
-				if done < total {
-					self.done_total.store(done_total!(done, total), SeqCst);
-					self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
-				}
-				// Time to call it quits!
-				else { self.stop(); }
-			}
+			self.update_done(|_| done);
 		}
 	}
 
+	/// # Update Done.
+	///
+	/// Atomically replace the done count with whatever the callback makes of
+	/// it, setting the tick flags or calling it quits, as appropriate.
+	fn update_done<F>(&self, cb: F)
+	where F: Fn(u64) -> u64 {
+		let mut changed = false;
+		let mut complete = false;
+		let _res = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
+			let total = total!(done_total);
+			let old = done!(done_total);
+
+			// Progress can't be un-completed.
+			let new = if old < total { u64::min(cb(old), total) } else { total };
+
+			changed = old != new;
+			complete = new == total;
+			Some(done_total!(new, total))
+		});
+
+		// Time to call it quits!
+		if complete { self.stop(); }
+		else if changed { self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst); }
+	}
+
 	/// # Set Title.
 	///
 	/// Give the progress bar a title, which will be shown above the progress
-- 
2.43.0


From 470a3d61babd4cbbc5a393f2a265e42775dcc15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 05/18] fix: don't return from finish until progress is
 actually finished

If two threads ended the same progress at once, the second one returned
right away even though the first hadn't gotten around to completing the
count or erasing the bar yet. The count could also be seen incomplete
after the run had ended.
---
 fyi_msg/src/progress/mod.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index f1f2606..5e389fa 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -332,19 +332,19 @@ impl ProglessInner {
 	/// needed), set "done" equal to "total", and clear any active tasks. It
 	/// will also erase the CLI progress bar from the screen.
 	fn stop(&self) {
-		// Shut 'er down!
-		let flags = self.flags.swap(0, SeqCst);
-		if TICKING == flags & TICKING {
-			// Acquire the lock a little early just in case there is a
-			// final in-progress tick.
-			let mut handle = std::io::stderr().lock();
+		// Acquire the lock first in case there is a final in-progress tick, or
+		// another thread is busy doing this very same thing.
+		let mut handle = std::io::stderr().lock();
 
+		if self.running() {
 			// Make sure "done" equals "total".
-			let done_total = self.done_total.load(SeqCst);
-			let total = total!(done_total);
-			if total != done!(done_total) {
-				self.done_total.store(done_total!(total, total), SeqCst);
-			}
+			let _res = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
+				let total = total!(done_total);
+				Some(done_total!(total, total))
+			});
+
+			// Shut 'er down!
+			self.flags.store(0, SeqCst);
 
 			// Freeze the time.
 			self.elapsed.store(
-- 
2.43.0


From 14aab0c2dcae9c0642ee36e308b81b76c9c11b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 06/18] fix: don't paint progress that ended while waiting for
 STDERR

A tick that was waiting for the STDERR lock when another thread finished
the progress would go on to repaint the bar that had just been erased.
---
 fyi_msg/src/progress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 5e389fa..ee3ea9e 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -590,6 +590,9 @@ impl ProglessInner {
 		// possible, even though we may well not end up using it.
 		let mut handle = std::io::stderr().lock();
 
+		// Things might have ended while we were waiting for the lock.
+		if ! self.running() { return false; }
+
 		// Pull the terminal dimensions.
 		let Some((width, height)) = self.tick_set_size() else {
 			// The size either changed between ticks or cannot be determined.
-- 
2.43.0


From 0ccde784005a738174ad0ab2912bb9f1782df7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 07/18] fix: don't accept tasks after progress has ended

A task added while another thread was finishing could land on the list
after it had been cleared, resurfacing after a reset.
---
 fyi_msg/src/progress/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index ee3ea9e..90ee62f 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -386,7 +386,12 @@ impl ProglessInner {
 	fn add(&self, txt: &str) -> bool {
 		if
 			self.running() &&
-			progless_task(txt).is_some_and(|m| mutex!(self.doing).insert(m))
+			progless_task(txt).is_some_and(|m| {
+				// The list is cleared at the end of the run, so make sure
+				// that hasn't come and gone in the meantime.
+				let mut ptr = mutex!(self.doing);
+				self.running() && ptr.insert(m)
+			})
 		{
 			self.flags.fetch_or(TICK_DOING, SeqCst);
 			true
-- 
2.43.0


From 2cb0834144964f0656bacf645dc92797d5dd28c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 08/18] fix: calculate bar widths without overflow

The product of done and the available space overflowed for large counts,
panicking (debug) or drawing the wrong amount of bar (release).
---
 fyi_msg/src/progress/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 90ee62f..783c4c2 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -985,7 +985,9 @@ impl ProglessBuffer {
 			else if done == total { w_done = space; }
 			// Working on it!
 			else {
-				w_done = u8::saturating_from((done * u32::from(space)).wrapping_div(total));
+				w_done = u8::saturating_from(
+					(u64::from(done) * u64::from(space)).wrapping_div(u64::from(total))
+				);
 				w_undone = space.saturating_sub(w_done);
 			}
 
-- 
2.43.0


From 90b933e79be3ee8fdbdec1ae521a6a860d4ed90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 09/18] fix: don't let the progress line outgrow the screen

With large totals the progress line is too wide for screens of 40 to 52
columns even without a bar. It wrapped, and the cursor didn't make it
back to the start, leaving a mess behind with each tick. Print only the
percentage in such cases, as is done for narrower screens.
---
 fyi_msg/src/progress/mod.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 783c4c2..2279e79 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -817,6 +817,18 @@ struct ProglessBuffer {
 }
 
 impl ProglessBuffer {
+	/// # Fixed Width.
+	///
+	/// The width of the progress line without the bar, done, total, and
+	/// percent parts. This is made up of the following hard-coded pieces:
+	/// 10: elapsed time and braces;
+	/// 2: spaces after elapsed time;
+	/// 1: the "/" between done and total;
+	/// 2: the spaces after total;
+	/// 2: the braces around the bar itself;
+	/// 2: the spaces after the bar itself;
+	const FIXED_WIDTH: usize = 19;
+
 	/// # Default.
 	const DEFAULT: Self = Self {
 		title: Vec::new(),
@@ -866,7 +878,10 @@ impl ProglessBuffer {
 		let mut parts: &mut [IoSlice] =
 			// If the screen is too small for everything, print the percentage
 			// by itself to give them some indication of progress.
-			if width.get() < 40 {
+			if
+				width.get() < 40 ||
+				usize::from(width.get()) < Self::FIXED_WIDTH + self.done.len() + self.total.len() + self.percent.len()
+			{
 				&mut [
 					IoSlice::new(concat!(
 						"\x1b[J ",
@@ -963,15 +978,8 @@ impl ProglessBuffer {
 		let mut w_undone = 0_u8;
 
 		// How much room do we have for the bar(s)?
-		// The magic "19" is made up of the following hard-coded pieces:
-		// 10: elapsed time and braces;
-		// 2: spaces after elapsed time;
-		// 1: the "/" between done and total;
-		// 2: the spaces after total;
-		// 2: the braces around the bar itself;
-		// 2: the spaces after the bar itself;
 		let space: u8 = width.get().saturating_sub(u8::saturating_from(
-			19 +
+			Self::FIXED_WIDTH +
 			self.done.len() +
 			self.total.len() +
 			self.percent.len()
-- 
2.43.0


From d50d66bb730996ef7fcff3164d439856a1626572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 10/18] fix: don't let concurrent resets/finishes lose track of
 the ticker

A reset could revoke the shutdown order another thread had just issued,
leaving the latter waiting for a ticker that would never die, and two
resets at once could leave behind an extra, unjoinable ticker.
---
 fyi_msg/src/progress/steady.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/fyi_msg/src/progress/steady.rs b/fyi_msg/src/progress/steady.rs
index 618dd6b..80576d5 100644
--- a/fyi_msg/src/progress/steady.rs
+++ b/fyi_msg/src/progress/steady.rs
@@ -77,12 +77,13 @@ impl ProglessSteady {
 	/// Make sure the steady ticker is up and running!
 	pub(super) fn start(&self, t_inner: Arc<ProglessInner>) {
 		// Make sure the old steady ticker is dead.
-		self.stop();
+		let mut ticker = mutex!(self.ticker);
+		self.stop_ticker(ticker.take());
 
 		// Reset!
 		*mutex!(self.state.0) = false;
 		let t_state = Arc::clone(&self.state);
-		mutex!(self.ticker).replace(spawn_ticker(t_state, t_inner));
+		ticker.replace(spawn_ticker(t_state, t_inner));
 	}
 
 	#[inline]
@@ -92,7 +93,16 @@ impl ProglessSteady {
 	/// automatically when [`Progless::finish`](crate::Progless::finish) is called or the instance is
 	/// dropped.
 	pub(super) fn stop(&self) {
-		let handle = mutex!(self.ticker).take();
+		// Hold the lock until we're done so nobody else can restart it before
+		// then, or think it dead already.
+		let mut ticker = mutex!(self.ticker);
+		self.stop_ticker(ticker.take());
+	}
+
+	/// # Stop Ticker.
+	///
+	/// Signal the ticker to stop and wait for it to do so.
+	fn stop_ticker(&self, handle: Option<JoinHandle<()>>) {
 		if let Some(handle) = handle {
 			if ! *mutex!(self.state.0) {
 				*mutex!(self.state.0) = true;
-- 
2.43.0


From 56cef13b71ef934138454f926a8be8c87ff7f402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 11/18] fix: bring back tasks when the removal of a title makes
 room for them

Tasks omitted for want of a line weren't redrawn after the title went
away.
---
 fyi_msg/src/progress/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 2279e79..6bd7347 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -664,16 +664,16 @@ impl ProglessInner {
 		// Titles don't change very often, but they're given display priority
 		// over the tasks so need to be checked first.
 		if TICK_TITLE == ticked & TICK_TITLE {
-			// Did we have a title and tasks last time?
-			let before = buf.doing.is_empty() || ! buf.title.is_empty();
+			// Did we have a title last time?
+			let before = buf.title.is_empty();
 
 			// Update it.
 			buf.set_title(mutex!(self.title).as_ref(), width, height);
 
-			// If we now have a title and didn't before, and there were tasks
-			// potentially competing for space, force a task redraw to make
-			// sure the extra (title) line isn't one line too many.
-			if ! before && ! buf.title.is_empty() {
+			// If we now have a title and didn't before, or vice versa, force
+			// a task redraw as they might be competing for space; there is
+			// now one line less, or more, for them.
+			if before != buf.title.is_empty() {
 				ticked |= TICK_DOING;
 			}
 		}
-- 
2.43.0


From 943fb74c2e3ae93804c459a61656845e1a56c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 12/18] fix: replace non-space whitespace in titles with spaces
 as documented

Titles were cut off at the first line break instead, and other
whitespace (tabs, carriage returns, etc.) was printed as-is.
---
 fyi_msg/src/progress/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 6bd7347..ab77875 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -1055,15 +1055,15 @@ impl ProglessBuffer {
 		// We need at least two lines of screen space to fit a title.
 		if 2 <= height.get() {
 			if let Some(title) = title {
-				let title = title.fitted(usize::from(width.get()));
+				// Line breaks and the like would ruin the layout.
+				let title: String = title.as_str()
+					.chars()
+					.map(|c| if c.is_whitespace() { ' ' } else { c })
+					.collect();
+				let title = crate::fit_to_width(&title, usize::from(width.get()));
 				if ! title.is_empty() {
-					// Truncate to first line.
-					let slice = title.as_bytes();
-					let end = slice.iter().copied().position(|b| b == b'\n').unwrap_or(slice.len());
-					if end != 0 {
-						self.title.extend_from_slice(&slice[..end]);
-						self.title.push(b'\n');
-					}
+					self.title.extend_from_slice(title.as_bytes());
+					self.title.push(b'\n');
 				}
 			}
 		}
-- 
2.43.0


From c9c4bd02cfc1d8b57d7a3a1c11f28dbfac1da931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 13/18] fix: don't miss resizes during forced repaints

If the size changed while a pushed message was repainting the bar, it
could consume the change flags without having seen the new size, leaving
the bar formatted for the old one.
---
 fyi_msg/src/progress/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index ab77875..0c10efb 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -737,6 +737,10 @@ impl ProglessInner {
 		if self.running() {
 			if let Some((width, height)) = term_size() {
 				let wh = u16::from_le_bytes([width.get(), height.get()]);
+
+				// The size and flags have to change together, so make sure
+				// there aren't any ticks in progress.
+				let _handle = std::io::stderr().lock();
 				if wh != self.last_size.swap(wh, SeqCst) {
 					self.flags.fetch_or(TICK_RESIZED, SeqCst);
 				}
-- 
2.43.0


From f0a7f8c761cdfe64870ae7879ea033d506e203bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:34 +0000
Subject: [PATCH 14/18] fix: don't deadlock, panic, or leave the cursor hidden
 after SIGINT

The SIGINT handlers printed through the (locked) STDERR handle, so would
panic if the interrupted thread was in the middle of printing something,
or deadlock if it was holding something the printing thread needed.

Additionally, a second SIGINT terminated the program before the first
one's handler had unhidden the cursor if it arrived on another thread
quickly enough.

Lastly, failure to write the cursor sequences panicked the ticker, and in
turn the thread finishing or dropping the progress.
---
 fyi_msg/src/progress/signals.rs | 56 ++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index b4152c4..95077f0 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -13,6 +13,7 @@ use std::sync::{
 		Ordering::SeqCst,
 	},
 };
+#[cfg(feature = "signals_sigint")] use std::io::Write;
 #[cfg(feature = "signals_sigint")] use super::Progless;
 #[cfg(feature = "signals_sigint")] use std::sync::OnceLock;
 use super::ProglessInner;
@@ -167,7 +168,9 @@ impl Default for ProglessSignals {
 		let sigint = SIGINT_HANLDER.get_or_init(sigint_default);
 
 		#[cfg(feature = "signals_sigint")]
-		if ! sigint.load(SeqCst) { eprint!("{}", Progless::CURSOR_HIDE); }
+		if ! sigint.load(SeqCst) {
+			let _res = std::io::stderr().write_all(Progless::CURSOR_HIDE.as_bytes());
+		}
 
 		Self {
 			#[cfg(feature = "signals_sigint")]
@@ -185,7 +188,7 @@ impl Drop for ProglessSignals {
 	fn drop(&mut self) {
 		// The `ProglessSignal` drop glue handles unregistration; at this
 		// level we just need to make sure the cursor gets unhidden.
-		eprint!("{}", Progless::CURSOR_UNHIDE);
+		let _res = std::io::stderr().write_all(Progless::CURSOR_UNHIDE.as_bytes());
 	}
 }
 
@@ -274,10 +277,9 @@ fn sigint_default() -> Arc<AtomicBool> {
 	unsafe {
 		let t_switch = Arc::clone(&switch);
 		if signal_hook::low_level::register(SIGINT, move || {
-			// Unhide our cursor if we changed state.
-			if ! t_switch.swap(true, SeqCst) {
-				eprint!("{}", Progless::CURSOR_UNHIDE);
-			}
+			// Unhide our cursor.
+			t_switch.store(true, SeqCst);
+			sigint_unhide();
 
 			// One strike and you're out!
 			signal_hook::low_level::exit(1);
@@ -304,12 +306,15 @@ fn sigint_two_strike() -> Arc<AtomicBool> {
 	// callbacks can be race-prone, but our inner operations are atomic.
 	unsafe {
 		let t_switch = Arc::clone(&switch);
-		if signal_hook::low_level::register(SIGINT, move ||
+		if signal_hook::low_level::register(SIGINT, move || {
+			// Unhide the cursor either way; if this is the second strike, the
+			// first might not have gotten around to it yet.
+			let dead = t_switch.swap(true, SeqCst);
+			sigint_unhide();
+
 			// Terminate the process if the switch was already true.
-			if t_switch.swap(true, SeqCst) { signal_hook::low_level::exit(1); }
-			// Otherwise just unhide the cursor.
-			else { eprint!("{}", Progless::CURSOR_UNHIDE); }
-		).is_err() { sigint_error(); }
+			if dead { signal_hook::low_level::exit(1); }
+		}).is_err() { sigint_error(); }
 	}
 
 	switch
@@ -334,15 +339,38 @@ fn sigint_keepalive() -> Arc<AtomicBool> {
 		let t_switch = Arc::clone(&switch);
 		if signal_hook::low_level::register(SIGINT, move ||
 			// Unhide the cursor.
-			if ! t_switch.swap(true, SeqCst) {
-				eprint!("{}", Progless::CURSOR_UNHIDE);
-			}
+			if ! t_switch.swap(true, SeqCst) { sigint_unhide(); }
 		).is_err() { sigint_error(); }
 	}
 
 	switch
 }
 
+#[cfg(feature = "signals_sigint")]
+#[cfg_attr(unix, expect(unsafe_code, reason = "For raw STDERR."))]
+/// # Unhide Cursor (from `SIGINT` Handler).
+///
+/// The interrupted thread might be using STDERR itself, or be holding
+/// something wanted by the thread that is, so signal handlers have to bypass
+/// the usual locks. They can't afford to panic if the write fails either.
+fn sigint_unhide() {
+	#[cfg(unix)]
+	{
+		use std::{
+			fs::File,
+			mem::ManuallyDrop,
+			os::fd::FromRawFd,
+		};
+
+		// Safety: STDERR is always open, and `ManuallyDrop` keeps it that way.
+		let mut raw = unsafe { ManuallyDrop::new(File::from_raw_fd(2)) };
+		let _res = raw.write_all(Progless::CURSOR_UNHIDE.as_bytes());
+	}
+
+	#[cfg(not(unix))]
+	let _res = std::io::stderr().write_all(Progless::CURSOR_UNHIDE.as_bytes());
+}
+
 #[cfg(feature = "signals_sigint")]
 #[inline]
 /// # `SIGINT` Handler Registration Error.
-- 
2.43.0


From 3fc9fadd639ca901d1707bb3eaa2663772da1789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 15/18] fix: finishing and resetting concurrently can't leave
 an active run without a ticker

---
 fyi_msg/src/progress/mod.rs    |  6 ++----
 fyi_msg/src/progress/steady.rs | 27 +++++++++++++++++++++------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 0c10efb..2c66fdf 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -1361,8 +1361,7 @@ impl Progless {
 	/// pbar.finish();
 	/// ```
 	pub fn finish(&self) -> Duration {
-		self.inner.stop();
-		self.steady.stop();
+		self.steady.finish(&self.inner);
 		self.inner.started.elapsed()
 	}
 
@@ -1507,8 +1506,7 @@ impl Progless {
 	/// you need start a brand new instance instead of resetting an existing
 	/// one.
 	pub fn reset(&self, total: NonZeroU32) {
-		self.inner.reset(total);
-		self.steady.start(Arc::clone(&self.inner));
+		self.steady.start(Arc::clone(&self.inner), total);
 	}
 
 	/// # Reset (Fallible).
diff --git a/fyi_msg/src/progress/steady.rs b/fyi_msg/src/progress/steady.rs
index 80576d5..5c2bb9a 100644
--- a/fyi_msg/src/progress/steady.rs
+++ b/fyi_msg/src/progress/steady.rs
@@ -3,6 +3,7 @@
 */
 
 use std::{
+	num::NonZeroU32,
 	sync::{
 		Arc,
 		Mutex,
@@ -74,10 +75,14 @@ impl ProglessSteady {
 
 	/// # Start.
 	///
-	/// Make sure the steady ticker is up and running!
-	pub(super) fn start(&self, t_inner: Arc<ProglessInner>) {
-		// Make sure the old steady ticker is dead.
+	/// Reset the progress and make sure the steady ticker is up and running!
+	pub(super) fn start(&self, t_inner: Arc<ProglessInner>, total: NonZeroU32) {
+		// The progress and its ticker come and go together, so nobody else
+		// can be allowed to (only) stop one or the other in the meantime.
 		let mut ticker = mutex!(self.ticker);
+		t_inner.reset(total);
+
+		// Make sure the old steady ticker is dead.
 		self.stop_ticker(ticker.take());
 
 		// Reset!
@@ -86,13 +91,23 @@ impl ProglessSteady {
 		ticker.replace(spawn_ticker(t_state, t_inner));
 	}
 
+	/// # Finish.
+	///
+	/// Stop the progress and make sure the steady ticker has actually aborted.
+	/// This is called when [`Progless::finish`](crate::Progless::finish) is.
+	pub(super) fn finish(&self, inner: &ProglessInner) {
+		// As with starting, this has to be all or nothing.
+		let mut ticker = mutex!(self.ticker);
+		inner.stop();
+		self.stop_ticker(ticker.take());
+	}
+
 	#[inline]
 	/// # Stop.
 	///
 	/// Make sure the steady ticker has actually aborted. This is called
-	/// automatically when [`Progless::finish`](crate::Progless::finish) is called or the instance is
-	/// dropped.
-	pub(super) fn stop(&self) {
+	/// automatically when the instance is dropped.
+	fn stop(&self) {
 		// Hold the lock until we're done so nobody else can restart it before
 		// then, or think it dead already.
 		let mut ticker = mutex!(self.ticker);
-- 
2.43.0


From 2b35eb3ae2c133a005fd2c9b8eb928c0410309fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 16/18] fix: updates racing with a reset can't end the new run

---
 fyi_msg/src/progress/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 2c66fdf..14f7e28 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -487,6 +487,8 @@ impl ProglessInner {
 	/// you need start a brand new instance instead of resetting an existing
 	/// one.
 	fn reset(&self, total: NonZeroU32) {
+		// Hang onto the lock so nobody can (re)stop anything in the middle.
+		let _handle = std::io::stderr().lock();
 		self.stop();
 		self.done_total.store(u64::from(total.get()), SeqCst);
 		self.flags.store(TICK_RESET, SeqCst);
@@ -524,8 +526,13 @@ impl ProglessInner {
 			Some(done_total!(new, total))
 		});
 
-		// Time to call it quits!
-		if complete { self.stop(); }
+		// Time to call it quits! Unless somebody else already did, and started
+		// over.
+		if complete {
+			let _handle = std::io::stderr().lock();
+			let done_total = self.done_total.load(SeqCst);
+			if done!(done_total) == total!(done_total) { self.stop(); }
+		}
 		else if changed { self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst); }
 	}
 
-- 
2.43.0


From d059c1a2a618507e51b2e760e4dc0cb097d90030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 17/18] fix: messages pushed as a run begins can't overwrite
 the bar

---
 fyi_msg/src/progress/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 14f7e28..c732726 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -427,10 +427,12 @@ impl ProglessInner {
 	fn push_msg(&self, msg: Msg) -> Result<(), Msg> {
 		let msg = msg.with_newline(true);
 
+		// Acquire the lock first so progress can't begin or end in the middle.
+		let mut handle = std::io::stderr().lock();
+
 		// If the progress is active, we have to do some things.
 		if self.running() {
 			// Clear the screen, then print the message.
-			let mut handle = std::io::stderr().lock();
 			let res = handle.write_all(CLS)
 				.and_then(|()| handle.write_all(msg.as_bytes()))
 				.and_then(|()| handle.flush())
-- 
2.43.0


From 7e24ccab821e5512ef1d93612ed8fbd38d155cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:27 +0000
Subject: [PATCH 18/18] fix: the elapsed time shown isn't stale after a reset

---
 fyi_msg/src/progress/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index c732726..32139b1 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -347,10 +347,7 @@ impl ProglessInner {
 			self.flags.store(0, SeqCst);
 
 			// Freeze the time.
-			self.elapsed.store(
-				u32::saturating_from(self.started.elapsed().as_secs()),
-				SeqCst
-			);
+			self.tick_set_secs();
 
 			// Clear the tasks.
 			mutex!(self.doing).clear();
-- 
2.43.0

