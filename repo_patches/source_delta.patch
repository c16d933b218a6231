From d10b8376b4c7cc99e5f7b9b394a61532d64b53b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:23 +0000
Subject: [PATCH 01/11] fix: find_peaks honours minimum distances and indices
 beyond i32::MAX

---
 src/features/period/peak_picking.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/period/peak_picking.rs b/src/features/period/peak_picking.rs
index fbca90b..b3eeafc 100644
--- a/src/features/period/peak_picking.rs
+++ b/src/features/period/peak_picking.rs
@@ -107,7 +107,7 @@ pub fn find_peaks(signal: &[f32], threshold: f32, min_distance: usize) -> Vec<(u
         for (idx, value) in peaks {
             // Check if too close to any existing peak
             let too_close = filtered_peaks.iter().any(|(existing_idx, _)| {
-                (idx as i32 - *existing_idx as i32).abs() < min_distance as i32
+                idx.abs_diff(*existing_idx) < min_distance
             });
 
             if !too_close {
-- 
2.43.0


From 34e0dda7549b328d3f1779d8749a4e0e4e8140f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:23 +0000
Subject: [PATCH 02/11] fix: detect_and_trim no longer divides by zero for a
 frame size of one sample

---
 src/preprocessing/silence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessing/silence.rs b/src/preprocessing/silence.rs
index d314764..b31a8df 100644
--- a/src/preprocessing/silence.rs
+++ b/src/preprocessing/silence.rs
@@ -141,7 +141,7 @@ pub fn detect_and_trim(
     let threshold_linear = 10.0_f32.powf(detector.threshold_db / 20.0);
 
     // Step 1: Frame audio and compute RMS per frame
-    let hop_size = detector.frame_size / 2; // 50% overlap for smoother detection
+    let hop_size = (detector.frame_size / 2).max(1); // 50% overlap for smoother detection
     let num_frames = if samples.len() >= detector.frame_size {
         (samples.len() - detector.frame_size) / hop_size + 1
     } else {
-- 
2.43.0


From 4aca8fe0214ad3c2e46caf68dc095920548a0f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:10 +0000
Subject: [PATCH 03/11] fix: Key::from_numerical no longer panics on text
 ending in a multi-byte character

---
 src/analysis/result.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/result.rs b/src/analysis/result.rs
index a5df132..de17569 100644
--- a/src/analysis/result.rs
+++ b/src/analysis/result.rs
@@ -115,7 +115,7 @@ impl Key {
             return None;
         }
 
-        let (num_str, suffix) = notation.split_at(notation.len() - 1);
+        let (num_str, suffix) = notation.split_at_checked(notation.len() - 1)?;
         let num: u32 = num_str.parse().ok()?;
 
         if !(1..=12).contains(&num) {
-- 
2.43.0


From ff11f75cc89fd6e30ac8be9dbaa8cd0086a56830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:24 +0000
Subject: [PATCH 04/11] fix: vote_onsets compares onset positions beyond
 i32::MAX correctly

---
 src/features/onset/consensus.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/features/onset/consensus.rs b/src/features/onset/consensus.rs
index 2847473..59b3bd1 100644
--- a/src/features/onset/consensus.rs
+++ b/src/features/onset/consensus.rs
@@ -213,9 +213,7 @@ pub fn vote_onsets(
         for cluster in &mut clusters {
             // Check if this onset is within tolerance of any onset in the cluster
             for existing_onset in cluster.iter() {
-                if (onset.sample as i32 - existing_onset.sample as i32).unsigned_abs() as usize
-                    <= tolerance_samples
-                {
+                if onset.sample.abs_diff(existing_onset.sample) <= tolerance_samples {
                     cluster.push(onset);
                     added = true;
                     break;
-- 
2.43.0


From 43f8fb7dd106b9a03452c08918367df00b8a2fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:44 +0000
Subject: [PATCH 05/11] fix: novelty filters and the mel filterbank accept any
 width and lower frequency

---
 src/features/period/novelty.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/features/period/novelty.rs b/src/features/period/novelty.rs
index c651b5e..425ade3 100644
--- a/src/features/period/novelty.rs
+++ b/src/features/period/novelty.rs
@@ -100,7 +100,7 @@ impl MelFilterbank {
         if !(fmax.is_finite() && fmax > 0.0) {
             fmax = nyquist;
         }
-        let fmax = fmax.clamp(fmin + 1.0, nyquist);
+        let fmax = fmax.max(fmin + 1.0).min(nyquist);
 
         // Infer FFT size from rFFT bins: n_bins = fft_size/2 + 1
         let fft_size = (n_bins - 1) * 2;
@@ -364,7 +364,7 @@ pub fn superflux_novelty(
         #[allow(clippy::needless_range_loop)]
         for b in 0..n_bins {
             let start = b.saturating_sub(k);
-            let end = (b + k + 1).min(n_bins);
+            let end = b.saturating_add(k).saturating_add(1).min(n_bins);
             let mut prev_max = 0.0f32;
             for v in &prev[start..end] {
                 prev_max = prev_max.max(*v);
@@ -431,7 +431,7 @@ pub fn superflux_novelty_band(
         #[allow(clippy::needless_range_loop)]
         for b in start..end {
             let local_start = b.saturating_sub(k).max(start);
-            let local_end = (b + k + 1).min(end);
+            let local_end = b.saturating_add(k).saturating_add(1).min(end);
             let mut prev_max = 0.0f32;
             for v in &prev[local_start..local_end] {
                 prev_max = prev_max.max(*v);
@@ -585,7 +585,7 @@ pub fn mel_superflux_novelty(
         #[allow(clippy::needless_range_loop)]
         for b in 0..n {
             let start = b.saturating_sub(k);
-            let end = (b + k + 1).min(n);
+            let end = b.saturating_add(k).saturating_add(1).min(n);
             let mut prev_max = 0.0f32;
             for v in &prev[start..end] {
                 prev_max = prev_max.max(*v);
-- 
2.43.0


From dec116547fa5076da8411aae32f070eef00a15ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:25 +0000
Subject: [PATCH 06/11] fix: key detection settles tied votes by rank, not by
 hash order

---
 src/features/key/detector.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 2ca72c8..0fc46ac 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -258,16 +258,18 @@ pub fn detect_key_weighted(
 
     let final_key = if use_weighted_voting {
         // Weighted voting: count occurrences of each key in top 3, weighted by score
-        let mut key_votes: std::collections::HashMap<Key, f32> = std::collections::HashMap::new();
+        // (votes are kept in rank order, so that equal votes go to the better-ranked key)
+        let mut key_votes: Vec<(Key, f32)> = Vec::with_capacity(3);
         for (key, score) in scores.iter().take(3) {
             let vote_weight = *score / best_score; // Normalize by best score
-            *key_votes.entry(*key).or_insert(0.0) += vote_weight;
+            key_votes.push((*key, vote_weight));
         }
 
         // Select key with highest vote count
         key_votes
             .iter()
-            .max_by(|a, b| a.1.partial_cmp(b.1).unwrap_or(std::cmp::Ordering::Equal))
+            .rev()
+            .max_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(std::cmp::Ordering::Equal))
             .map(|(k, _)| *k)
             .unwrap_or(best_key)
     } else {
@@ -770,17 +772,21 @@ pub fn detect_key_median(
     }
 
     // Count key occurrences (weighted by confidence)
-    let mut key_counts: std::collections::HashMap<Key, (usize, f32)> =
-        std::collections::HashMap::new();
+    // (kept in order of first appearance, so that ties are settled the same way every time)
+    let mut key_counts: Vec<(Key, (usize, f32))> = Vec::new();
     for (key, result) in segment_keys.iter().zip(segment_scores.iter()) {
-        let entry = key_counts.entry(*key).or_insert((0, 0.0));
-        entry.0 += 1;
-        entry.1 += result.confidence;
+        if let Some(i) = key_counts.iter().position(|(k, _)| k == key) {
+            key_counts[i].1 .0 += 1;
+            key_counts[i].1 .1 += result.confidence;
+        } else {
+            key_counts.push((*key, (1, result.confidence)));
+        }
     }
 
     // Select median key (most common, with confidence as tiebreaker)
     let (median_key, (count, _total_conf)) = key_counts
         .iter()
+        .rev()
         .max_by(|a, b| {
             // First by count, then by total confidence
             match a.1 .0.cmp(&b.1 .0) {
-- 
2.43.0


From 42e79363c79d00436fc4fc3dafbc15245946e479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:25 +0000
Subject: [PATCH 07/11] fix: the primary key of tied segments does not depend
 on hash order

---
 src/features/key/key_changes.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/features/key/key_changes.rs b/src/features/key/key_changes.rs
index bd33df1..bc78a4c 100644
--- a/src/features/key/key_changes.rs
+++ b/src/features/key/key_changes.rs
@@ -132,16 +132,20 @@ pub fn detect_key_changes(
     }
 
     // Find primary key (most common)
-    let mut key_counts: std::collections::HashMap<Key, (usize, f32)> =
-        std::collections::HashMap::new();
+    // (kept in order of first appearance, so that ties are settled the same way every time)
+    let mut key_counts: Vec<(Key, (usize, f32))> = Vec::new();
     for (_, key, confidence) in &segment_keys {
-        let entry = key_counts.entry(*key).or_insert((0, 0.0));
-        entry.0 += 1;
-        entry.1 += confidence;
+        if let Some(i) = key_counts.iter().position(|(k, _)| k == key) {
+            key_counts[i].1 .0 += 1;
+            key_counts[i].1 .1 += confidence;
+        } else {
+            key_counts.push((*key, (1, *confidence)));
+        }
     }
 
     let (primary_key, (count, total_confidence)) = key_counts
         .iter()
+        .rev()
         .max_by_key(|(_, (count, _))| *count)
         .unwrap();
 
-- 
2.43.0


From 199bde6f772574f242949e5e38016df8b4a96670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:25 +0000
Subject: [PATCH 08/11] fix: key change analysis rejects an overlap longer than
 the segment instead of underflowing

---
 src/features/key/key_changes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/key/key_changes.rs b/src/features/key/key_changes.rs
index bc78a4c..85332c2 100644
--- a/src/features/key/key_changes.rs
+++ b/src/features/key/key_changes.rs
@@ -92,7 +92,7 @@ pub fn detect_key_changes(
     let frames_per_second = sample_rate as f32 / hop_size as f32;
     let segment_frames = (segment_duration * frames_per_second) as usize;
     let overlap_frames = (segment_overlap * frames_per_second) as usize;
-    let hop_frames = segment_frames - overlap_frames;
+    let hop_frames = segment_frames.saturating_sub(overlap_frames);
 
     if segment_frames == 0 || hop_frames == 0 {
         return Err(AnalysisError::InvalidInput(
-- 
2.43.0


From f85122bd4ce63795268b11f18bea35e21b9fe97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:25 +0000
Subject: [PATCH 09/11] fix: a beat reported by two overlapping tempo segments
 is listed once in the grid

---
 src/features/beat_tracking/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/features/beat_tracking/mod.rs b/src/features/beat_tracking/mod.rs
index 533f7aa..133f902 100644
--- a/src/features/beat_tracking/mod.rs
+++ b/src/features/beat_tracking/mod.rs
@@ -307,6 +307,9 @@ fn generate_beat_grid_from_positions_with_time_sig(
     // Sort by time (should already be sorted, but ensure it)
     beats.sort_by(|a, b| a.partial_cmp(b).unwrap());
 
+    // Overlapping tempo segments can report the same beat twice: keep it once
+    beats.dedup();
+
     // Detect downbeats (beat 1 of each bar) using detected time signature
     let downbeats = detect_downbeats_with_time_sig(&beats, bpm_estimate, time_sig)?;
 
-- 
2.43.0


From a36e5f6a3b79d9dc5502765ad0e5ba5cd9b59dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:44 +0000
Subject: [PATCH 10/11] fix: count interval pairs as usize, so that time
 signature scoring cannot overflow for more than 2^31 beats

---
 src/features/beat_tracking/time_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/beat_tracking/time_signature.rs b/src/features/beat_tracking/time_signature.rs
index 8f45285..e746d14 100644
--- a/src/features/beat_tracking/time_signature.rs
+++ b/src/features/beat_tracking/time_signature.rs
@@ -160,7 +160,7 @@ fn score_time_signature(intervals: &[f32], beats_per_bar: u32, mean_interval: f3
     // Calculate autocorrelation at lag = beats_per_bar
     let lag = beats_per_bar as usize;
     let mut autocorr_sum = 0.0;
-    let mut count = 0;
+    let mut count = 0usize;
 
     for i in 0..(intervals.len() - lag) {
         // Compare interval at position i with interval at position i + lag
-- 
2.43.0


From 1e077d57064a928ec61499136c151c2c8876fb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:08 +0000
Subject: [PATCH 11/11] fix: clamp the reported BPM confidence to 0-1

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3dcbf84..518c26b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -899,6 +899,9 @@ pub fn analyze_audio(
             .unwrap_or((0.0, 0.0))
     };
 
+    // Legacy estimates carry boosted confidences above 1.0; the reported one is a 0-1 score
+    let bpm_confidence = bpm_confidence.clamp(0.0, 1.0);
+
     if bpm == 0.0 {
         log::warn!("Could not estimate BPM: tempogram and legacy methods both failed");
     } else {
-- 
2.43.0

