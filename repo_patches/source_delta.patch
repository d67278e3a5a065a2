From 122c5778c8e2b2ceb19d2152bf82666708e53e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 01/20] fix: report a malformed hierarchy as an error instead
 of panicking

---
 src/errors.rs |  9 +++++++++
 src/parse.rs  | 16 +++++++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 1359c52..1d3512b 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -120,6 +120,11 @@ pub enum LoadJointsError {
         /// Line number in the source bvh where the error occurred.
         line: usize,
     },
+    /// A keyword or brace was encountered in the wrong location.
+    UnexpectedSection {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
     /// An `OFFSET` section was encountered in the wrong location.
     UnexpectedOffsetSection {
         /// Line number in the source bvh where the error occurred.
@@ -153,6 +158,7 @@ impl LoadJointsError {
             | LoadJointsError::UnexpectedChannelsSection { line }
             | LoadJointsError::ParseNumChannelsError { line, .. }
             | LoadJointsError::ParseChannelError { line, .. }
+            | LoadJointsError::UnexpectedSection { line }
             | LoadJointsError::UnexpectedOffsetSection { line }
             | LoadJointsError::ParseOffsetError { line, .. }
             | LoadJointsError::MissingOffsetAxis { line, .. } => Some(line),
@@ -188,6 +194,9 @@ impl fmt::Display for LoadJointsError {
             LoadJointsError::ParseChannelError { line, .. } => {
                 write!(f, "{}: could not parse channel", line)
             }
+            LoadJointsError::UnexpectedSection { line } => {
+                write!(f, "{}: unexpectedly encountered a keyword or brace", line)
+            }
             LoadJointsError::UnexpectedOffsetSection { line } => write!(
                 f,
                 "{}: unexpectedly encountered an \"OFFSET\" section",
diff --git a/src/parse.rs b/src/parse.rs
index 48d7f0e..7ad2c26 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -227,7 +227,6 @@ Ok((data, (frame_time, num_frames, motion_data)))
 */
 
 impl Bvh {
-    // @TODO: Remove panics
     /// Logic for parsing the data from a `BufRead`.
     pub(crate) fn read_joints(
         &mut self,
@@ -298,7 +297,7 @@ impl Bvh {
             match first_token.as_bytes() {
                 HEIRARCHY_KEYWORD => {
                     if curr_mode != ParseMode::NotStarted {
-                        panic!("Unexpected hierarchy");
+                        return Err(LoadJointsError::UnexpectedSection { line: line_num });
                     }
                     curr_mode = ParseMode::InHeirarchy;
                     next_expected_line = NextExpectedLine::RootName;
@@ -307,19 +306,22 @@ impl Bvh {
                     if curr_mode != ParseMode::InHeirarchy
                         || next_expected_line != NextExpectedLine::RootName
                     {
-                        panic!("Unexpected root: {:?}", curr_mode);
+                        return Err(LoadJointsError::UnexpectedSection { line: line_num });
                     }
 
                     if let Some(name) = tokens.next() {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing root name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
                 }
                 OPEN_BRACE => {
                     curr_depth += 1;
                 }
                 CLOSE_BRACE => {
+                    if curr_depth == 0 {
+                        return Err(LoadJointsError::UnexpectedSection { line: line_num });
+                    }
                     curr_depth -= 1;
                     if curr_depth == 0 {
                         // We have closed the brace of the root joint.
@@ -347,12 +349,12 @@ impl Bvh {
                     if tokens.next() == Some(ENDSITE_KEYWORDS[1]) {
                         in_end_site = true;
                     } else {
-                        panic!("Unexpected end keyword");
+                        return Err(LoadJointsError::UnexpectedSection { line: line_num });
                     }
                 }
                 JOINT_KEYWORD => {
                     if curr_mode != ParseMode::InHeirarchy {
-                        panic!("Unexpected Joint");
+                        return Err(LoadJointsError::UnexpectedSection { line: line_num });
                     }
 
                     if !pushed_end_site_joint {
@@ -376,7 +378,7 @@ impl Bvh {
                     if let Some(mut name) = tokens.next() {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing joint name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
                 }
                 OFFSET_KEYWORD => {
-- 
2.43.0


From 3909bd178ee40091be98d2986ad379b1611e5dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 02/20] fix: do not reserve memory for a channel count the file
 merely claims

---
 src/parse.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 7ad2c26..b9e32e1 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -417,7 +417,7 @@ impl Bvh {
                         return Err(LoadJointsError::UnexpectedChannelsSection { line: line_num });
                     }
 
-                    let num_channels: usize = tokens
+                    let _num_channels: usize = tokens
                         .next()
                         .ok_or(LoadJointsError::ParseNumChannelsError {
                             error: None,
@@ -432,7 +432,6 @@ impl Bvh {
                         })?;
 
                     let mut channels: SmallVec<[Channel; 6]> = Default::default();
-                    channels.reserve(num_channels);
 
                     while let Some(tok) = tokens.next() {
                         let channel_ty = ChannelType::try_from(tok).map_err(|e| {
-- 
2.43.0


From 594d69e9b62ebaa12a2096a2585b3fe15b74ecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 03/20] fix: neither overflow on nor reserve memory for a frame
 count the file merely claims

---
 src/parse.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index b9e32e1..00231d8 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -595,9 +595,7 @@ impl Bvh {
                 }
             })?;
 
-        let expected_total_motion_values = self.num_channels * num_frames;
-
-        self.motion_values.reserve(expected_total_motion_values);
+        let expected_total_motion_values = self.num_channels.saturating_mul(num_frames);
 
         for (line_num, line) in lines {
             let line = line?;
@@ -613,7 +611,7 @@ impl Bvh {
             }
         }
 
-        if self.motion_values.len() != self.num_channels * num_frames {
+        if self.motion_values.len() != expected_total_motion_values {
             return Err(LoadMotionError::MotionCountMismatch {
                 actual_total_motion_values: self.motion_values.len(),
                 expected_total_motion_values,
-- 
2.43.0


From 839045873f9fbf34d8e243755da7e5925b07dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 04/20] fix: report a negative, infinite or NaN frame time as
 an error instead of panicking

---
 src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 00231d8..5d12e73 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -576,7 +576,12 @@ impl Bvh {
                                 line: line_num,
                             }
                         })?;
-                        Ok(Duration::from_secs_f64(frame_time_secs))
+                        Duration::try_from_secs_f64(frame_time_secs).map_err(|_| {
+                            LoadMotionError::MissingFrameTime {
+                                parse_error: None,
+                                line: line_num,
+                            }
+                        })
                     } else {
                         Err(LoadMotionError::MissingFrameTime {
                             parse_error: None,
-- 
2.43.0


From f4ffbdf7062ee90bcb82355a0c662312b2ada877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 05/20] fix: report a missing frame time as such

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 5d12e73..5873cef 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -593,7 +593,7 @@ impl Bvh {
                 match tokens.next() {
                     Some(tok) if tok == b":" => parse_frame_time(tokens.next()),
                     Some(tok) => parse_frame_time(Some(tok)),
-                    None => Err(LoadMotionError::MissingNumFrames {
+                    None => Err(LoadMotionError::MissingFrameTime {
                         parse_error: None,
                         line: line_num,
                     }),
-- 
2.43.0


From f829b7af1b856d9483f18f56a0d81902edad42dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 06/20] fix: keep the offset of a root joint which has an end
 site

---
 src/joint.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index cda2fd4..0b80535 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -26,6 +26,8 @@ pub(crate) enum JointData {
         offset: Offset,
         /// The channels applicable to this `Joint`.
         channels: SmallVec<[Channel; 6]>,
+        /// The `Offset` of the end site of the root joint, if any.
+        end_site_offset: Option<Offset>,
     },
     /// A child joint in the skeleton.
     Child {
@@ -81,8 +83,11 @@ impl JointData {
             JointData::Child {
                 ref end_site_offset,
                 ..
+            }
+            | JointData::Root {
+                ref end_site_offset,
+                ..
             } => end_site_offset.as_ref(),
-            _ => None,
         }
     }
 
@@ -145,6 +150,7 @@ impl JointData {
             name: Default::default(),
             offset: [0.0, 0.0, 0.0].into(),
             channels: Default::default(),
+            end_site_offset: Default::default(),
         }
     }
 
@@ -170,8 +176,12 @@ impl JointData {
     pub(crate) fn set_offset(&mut self, new_offset: impl Into<Offset>, is_site: bool) {
         let new_offset = new_offset.into();
         match *self {
-            JointData::Root { ref mut offset, .. } => *offset = new_offset,
-            JointData::Child {
+            JointData::Root {
+                ref mut offset,
+                ref mut end_site_offset,
+                ..
+            }
+            | JointData::Child {
                 ref mut offset,
                 ref mut end_site_offset,
                 ..
-- 
2.43.0


From 83b935fda017c02807fb9bf15772986c652d508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 07/20] fix: keep joints which have neither child joints nor an
 end site

---
 src/parse.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 5873cef..21649d6 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -343,6 +343,20 @@ impl Bvh {
                         curr_index += 1;
                         in_end_site = false;
                         pushed_end_site_joint = true;
+                    } else if !pushed_end_site_joint {
+                        // This joint has neither child joints nor an end site.
+                        if let JointData::Child {
+                            ref mut private, ..
+                        } = curr_joint
+                        {
+                            private.self_index = curr_index;
+                            private.parent_index = get_parent_index(&joints, curr_depth + 1);
+                            private.depth = curr_depth;
+                        }
+
+                        joints.push(mem::replace(&mut curr_joint, JointData::empty_child()));
+                        curr_index += 1;
+                        pushed_end_site_joint = true;
                     }
                 }
                 kw if kw == ENDSITE_KEYWORDS[0] => {
-- 
2.43.0


From e357592a17c1eadd3a8eb47270ada9597f3766a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 08/20] fix: close the braces of joints which have no end site
 when writing

---
 src/write.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 688356c..d2194b2 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -267,28 +267,26 @@ impl WriteOptions {
                                 chunk.extend(self.indent.prefix_chars(depth));
                                 chunk.push(b'}');
                                 chunk.extend_from_slice(terminator);
+                            }
 
-                                let next_joint = joints.next();
-                                let prev_joint = mem::replace(current_joint, next_joint).unwrap();
-
-                                let (curr_depth, mut depth_difference) =
-                                    if let Some(ref curr_j) = *current_joint {
-                                        let curr_depth = curr_j.data().depth();
-                                        (curr_depth, Some(prev_joint.data().depth() - curr_depth))
-                                    } else {
-                                        (0, Some(prev_joint.data().depth()))
-                                    };
-
-                                while let Some(d) = depth_difference {
-                                    chunk.extend(self.indent.prefix_chars(curr_depth + d));
-                                    chunk.push(b'}');
-                                    chunk.extend_from_slice(terminator);
-                                    depth_difference =
-                                        depth_difference.and_then(|d| d.checked_sub(1));
-                                }
-                            } else {
-                                *current_joint = joints.next();
+                            let next_joint = joints.next();
+                            let prev_joint = mem::replace(current_joint, next_joint).unwrap();
+
+                            let (curr_depth, mut depth_difference) =
+                                if let Some(ref curr_j) = *current_joint {
+                                    let curr_depth = curr_j.data().depth();
+                                    (curr_depth, prev_joint.data().depth().checked_sub(curr_depth))
+                                } else {
+                                    (0, Some(prev_joint.data().depth()))
+                                };
+
+                            while let Some(d) = depth_difference {
+                                chunk.extend(self.indent.prefix_chars(curr_depth + d));
+                                chunk.push(b'}');
+                                chunk.extend_from_slice(terminator);
+                                depth_difference = depth_difference.and_then(|d| d.checked_sub(1));
                             }
+
                             *wrote_name = false;
                             *wrote_offset = false;
                             *wrote_channels = false;
-- 
2.43.0


From a53ddd8e7a615178b20cc93ccdd28727f937bfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 09/20] fix: write everything to writers which accept only part
 of a buffer at a time

---
 src/write.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index d2194b2..4040fe7 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -56,21 +56,11 @@ impl WriteOptions {
     /// Output the `Bvh` file to the `writer` with the given options.
     pub fn write<W: Write>(&self, bvh: &Bvh, writer: &mut W) -> io::Result<()> {
         let mut curr_chunk = vec![];
-        let mut curr_bytes_written = 0usize;
-        let mut curr_string_len = 0usize;
         let mut iter_state = WriteOptionsIterState::new();
 
         while self.next_chunk(bvh, &mut curr_chunk, &mut iter_state) != false {
             let bytes: &[u8] = curr_chunk.as_ref();
-            curr_string_len += bytes.len();
-            curr_bytes_written += writer.write(bytes)?;
-
-            if curr_bytes_written != curr_string_len {
-                return Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "Data has been dropped while writing to file",
-                ));
-            }
+            writer.write_all(bytes)?;
         }
         writer.flush()
     }
-- 
2.43.0


From 1f48074703628ed1ebbb4adb6c4cf69bab326028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 10/20] fix: reject OFFSET and CHANNELS sections which are
 misplaced or repeated

---
 src/parse.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 21649d6..09a8d4a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -272,6 +272,7 @@ impl Bvh {
         let mut curr_joint = JointData::empty_root();
         let mut in_end_site = false;
         let mut pushed_end_site_joint = false;
+        let (mut has_offset, mut has_channels) = (false, false);
 
         #[inline]
         fn get_parent_index(joints: &[JointData], for_depth: usize) -> usize {
@@ -362,6 +363,7 @@ impl Bvh {
                 kw if kw == ENDSITE_KEYWORDS[0] => {
                     if tokens.next() == Some(ENDSITE_KEYWORDS[1]) {
                         in_end_site = true;
+                        has_offset = false;
                     } else {
                         return Err(LoadJointsError::UnexpectedSection { line: line_num });
                     }
@@ -388,6 +390,8 @@ impl Bvh {
                     } else {
                         pushed_end_site_joint = false;
                     }
+                    has_offset = false;
+                    has_channels = false;
 
                     if let Some(mut name) = tokens.next() {
                         curr_joint.set_name(name);
@@ -396,9 +400,15 @@ impl Bvh {
                     }
                 }
                 OFFSET_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    // The members of a joint come before its children.
+                    if curr_mode != ParseMode::InHeirarchy
+                        || curr_depth == 0
+                        || pushed_end_site_joint
+                        || has_offset
+                    {
                         return Err(LoadJointsError::UnexpectedOffsetSection { line: line_num });
                     }
+                    has_offset = true;
 
                     let mut offset = [0.0, 0.0, 0.0];
 
@@ -427,9 +437,15 @@ impl Bvh {
                     curr_joint.set_offset(offset, in_end_site);
                 }
                 CHANNELS_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    if curr_mode != ParseMode::InHeirarchy
+                        || curr_depth == 0
+                        || in_end_site
+                        || pushed_end_site_joint
+                        || has_channels
+                    {
                         return Err(LoadJointsError::UnexpectedChannelsSection { line: line_num });
                     }
+                    has_channels = true;
 
                     let _num_channels: usize = tokens
                         .next()
-- 
2.43.0


From 2c67766f829ccd1d2bd9406200d38bf21b8549f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 11/20] fix: reject hierarchies whose keywords and braces do
 not nest

---
 src/parse.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 09a8d4a..f9b7153 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -295,6 +295,13 @@ impl Bvh {
                 None => continue,
             };
 
+            // A joint or end site is followed by its opening brace, and by nothing else.
+            if (next_expected_line == NextExpectedLine::OpeningBrace)
+                != (first_token == OPEN_BRACE)
+            {
+                return Err(LoadJointsError::UnexpectedSection { line: line_num });
+            }
+
             match first_token.as_bytes() {
                 HEIRARCHY_KEYWORD => {
                     if curr_mode != ParseMode::NotStarted {
@@ -310,6 +317,8 @@ impl Bvh {
                         return Err(LoadJointsError::UnexpectedSection { line: line_num });
                     }
 
+                    next_expected_line = NextExpectedLine::OpeningBrace;
+
                     if let Some(name) = tokens.next() {
                         curr_joint.set_name(name);
                     } else {
@@ -318,6 +327,7 @@ impl Bvh {
                 }
                 OPEN_BRACE => {
                     curr_depth += 1;
+                    next_expected_line = NextExpectedLine::Offset;
                 }
                 CLOSE_BRACE => {
                     if curr_depth == 0 {
@@ -361,17 +371,23 @@ impl Bvh {
                     }
                 }
                 kw if kw == ENDSITE_KEYWORDS[0] => {
+                    if curr_depth == 0 || in_end_site || pushed_end_site_joint {
+                        return Err(LoadJointsError::UnexpectedSection { line: line_num });
+                    }
+
                     if tokens.next() == Some(ENDSITE_KEYWORDS[1]) {
                         in_end_site = true;
+                        next_expected_line = NextExpectedLine::OpeningBrace;
                         has_offset = false;
                     } else {
                         return Err(LoadJointsError::UnexpectedSection { line: line_num });
                     }
                 }
                 JOINT_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    if curr_mode != ParseMode::InHeirarchy || curr_depth == 0 || in_end_site {
                         return Err(LoadJointsError::UnexpectedSection { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
 
                     if !pushed_end_site_joint {
                         if let JointData::Child {
-- 
2.43.0


From 3ba2ef3178796d77f7ffc92e4aaec6253f1688c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 12/20] fix: keep the whole name of a joint whose name contains
 a colon

---
 src/parse.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index f9b7153..9f3ba7f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -286,6 +286,11 @@ impl Bvh {
 
         for (line_num, line) in lines {
             let line = line?;
+            // Unlike the other tokens, joint names may contain any non-blank character.
+            let joint_name = line
+                .trim_start()
+                .fields_with(|c: char| c.is_ascii_whitespace())
+                .nth(1);
             let line = line.trim();
 
             let mut tokens = line.fields_with(|c: char| c.is_ascii_whitespace() || c == ':');
@@ -319,7 +324,7 @@ impl Bvh {
 
                     next_expected_line = NextExpectedLine::OpeningBrace;
 
-                    if let Some(name) = tokens.next() {
+                    if let Some(name) = joint_name {
                         curr_joint.set_name(name);
                     } else {
                         return Err(LoadJointsError::MissingJointName { line: line_num });
@@ -409,7 +414,7 @@ impl Bvh {
                     has_offset = false;
                     has_channels = false;
 
-                    if let Some(mut name) = tokens.next() {
+                    if let Some(mut name) = joint_name {
                         curr_joint.set_name(name);
                     } else {
                         return Err(LoadJointsError::MissingJointName { line: line_num });
-- 
2.43.0


From 0f978d3f8f668c5995a19057430203acf917bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 13/20] fix: keep the order of the frames after the one
 inserted

---
 src/frame_cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 7835fe2..7efe6fb 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -567,7 +567,7 @@ fn vec_insert_slice<T: Clone + Default>(vec: &mut Vec<T>, index: usize, slice: &
     vec.resize_with(new_len, T::default);
 
     // Move the existing items to the end
-    for (to_move, end_index) in (index..old_len).into_iter().zip(old_len + index..new_len) {
+    for (to_move, end_index) in (index..old_len).zip(index + slice.len()..new_len).rev() {
         vec.swap(to_move, end_index);
     }
 
-- 
2.43.0


From 0b7145500dabcde0709d3a803b1802572a0b7a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 14/20] fix: removing a frame fails when there is none after
 the cursor

---
 src/frame_cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 7efe6fb..e6778d9 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -403,7 +403,7 @@ impl<'bvh> FrameCursor<'bvh> {
     /// # } // fn main()
     /// ```
     pub fn remove_frame(&mut self) -> Result<&mut Self, FrameRemoveError> {
-        if self.len() == 0 {
+        if self.index >= self.len() {
             return Err(FrameRemoveError::new(self.index));
         }
 
-- 
2.43.0


From 263c4b32131236e06369b11475544d67a3233e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 15/20] fix: move the cursor to the start when removing all
 frames

---
 src/frame_cursor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index e6778d9..5b96427 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -481,6 +481,7 @@ impl<'bvh> FrameCursor<'bvh> {
     #[inline]
     pub fn remove_all_frames(&mut self) -> &mut Self {
         self.bvh.motion_values.clear();
+        self.index = 0;
         self
     }
 
-- 
2.43.0


From 59bc21c1ab68063be249ba0df5147ce238a884b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 16/20] fix: do not reserve memory for the most frames an
 iterator might yield

---
 src/frame_cursor.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 5b96427..0feecd3 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -317,12 +317,11 @@ impl<'bvh> FrameCursor<'bvh> {
     {
         let frames = frames.into_iter();
         let num_channels = self.num_channels();
-        let num_frames = {
-            let (low, up) = frames.size_hint();
-            up.unwrap_or(low)
-        };
+        let (num_frames, _) = frames.size_hint();
 
-        self.bvh.motion_values.reserve(num_frames * num_channels);
+        self.bvh
+            .motion_values
+            .reserve(num_frames.saturating_mul(num_channels));
 
         for frame in frames.into_iter() {
             let frame = frame.as_ref();
-- 
2.43.0


From f992dc097a50157b81ae4028483af9ec20a1e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 17/20] fix: implement iterating over the children of a joint
 instead of panicking

---
 src/joint.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index 0b80535..cbdc292 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -431,24 +431,11 @@ impl<'a> Joints<'a> {
     /// need to iterate through to the end sites of all children, you will
     /// need to continually call `iter_children` on each `Joint` in the iterator.
     pub(crate) fn iter_children(joint: &Joint<'a>) -> Self {
-        let first_child = joint
-            .joints
-            .iter()
-            .find(|jd| {
-                if let Some(p) = jd.private_data() {
-                    p.parent_index == joint.index
-                } else {
-                    false
-                }
-            })
-            .map(JointData::index)
-            .unwrap();
-
         Joints {
             joints: joint.joints,
             // clips: joint.clips,
             current_joint: joint.data().index(),
-            from_child: Some(first_child),
+            from_child: Some(joint.index),
         }
     }
 
@@ -472,6 +459,15 @@ impl<'a> Joints<'a> {
 impl<'a> Iterator for Joints<'a> {
     type Item = Joint<'a>;
     fn next(&mut self) -> Option<Self::Item> {
+        if let Some(parent) = self.from_child {
+            // Skip everything which is not a direct child.
+            while self.current_joint < self.joints.len()
+                && self.joints[self.current_joint].parent_index() != Some(parent)
+            {
+                self.current_joint += 1;
+            }
+        }
+
         if self.current_joint >= self.joints.len() {
             return None;
         }
@@ -481,11 +477,7 @@ impl<'a> Iterator for Joints<'a> {
             joints: self.joints,
         });
 
-        if self.from_child.is_none() {
-            self.current_joint += 1;
-        } else {
-            unimplemented!()
-        }
+        self.current_joint += 1;
 
         joint
     }
-- 
2.43.0


From 744ca5bb02fb96715f44df151d35442a30add37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 18/20] fix: list the joints when iterating over them mutably

---
 src/joint.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index cbdc292..b7b662e 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -8,7 +8,7 @@ use std::{
     ffi::{CStr, CString},
     fmt, mem,
     ops::{Deref, DerefMut},
-    str,
+    slice, str,
 };
 
 /// A 3-element point representing the location of a joint offset or
@@ -506,7 +506,14 @@ impl<'a> Iterator for JointsMut<'a> {
     type Item = JointMut<'a>;
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        None
+        let (joint, rest) = mem::take(&mut self.joints).split_first_mut()?;
+        self.joints = rest;
+        self.current_joint += 1;
+
+        Some(JointMut {
+            index: 0,
+            joints: slice::from_mut(joint),
+        })
     }
 }
 
@@ -814,9 +821,9 @@ impl fmt::Debug for Joint<'_> {
 
 /// A view of a joint which provides mutable access.
 pub struct JointMut<'a> {
-    /// Index of the `Joint` in the skeleton.
+    /// Index of the `Joint` in `joints`.
     pub(crate) index: usize,
-    /// `Joints` array which the joint is part of.
+    /// The part of the `Joints` array which holds the joint.
     pub(crate) joints: &'a mut [JointData],
 }
 
-- 
2.43.0


From a0d52385c950f4c96dc6f305c298eb72557dc32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 19/20] fix: accept joints of 4, 5 and 7 channels in bvh
 literals

---
 src/macros.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index d17bd0c..57701f6 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -110,9 +110,9 @@ macro_rules! parse_joints_internal {
         CHANNELS 4 $ch0:ident $ch1:ident $ch2:ident $ch3:ident
         $($rest:tt)*
     )) => {
-        bvh_anim$crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim$crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
-        bvh_anim$crate::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -125,9 +125,9 @@ macro_rules! parse_joints_internal {
             $ch4:ident
         $($rest:tt)*
     )) => {
-        bvh_anim::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
-        bvh_anim::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -148,6 +148,7 @@ macro_rules! parse_joints_internal {
     };
 
     ($builder:ident (
+        OFFSET $ofst_x:literal $ofst_y:literal $ofst_z:literal
         CHANNELS 7
             $ch0:ident
             $ch1:ident
-- 
2.43.0


From b96c4988bf35827628d4aadafa16cfade13d05e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 20/20] fix: write any number of decimals instead of panicking
 beyond 65535

---
 src/write.rs | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 4040fe7..bf60cf3 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -3,7 +3,7 @@
 use crate::{frames::Frames, Bvh, Joint, Joints};
 use smallvec::SmallVec;
 use std::{
-    fmt,
+    cmp, fmt,
     io::{self, Write},
     iter, mem,
     num::NonZeroUsize,
@@ -210,7 +210,12 @@ impl WriteOptions {
                             let [x, y, z] = joint_data.offset();
                             let offset_str = match self.offset_significant_figures {
                                 Some(sf) => {
-                                    format!("OFFSET {:.*} {:.*} {:.*}", sf, x, sf, y, sf, z,)
+                                    format!(
+                                        "OFFSET {} {} {}",
+                                        Rounded(*x, sf),
+                                        Rounded(*y, sf),
+                                        Rounded(*z, sf)
+                                    )
                                 }
                                 None => format!("OFFSET {:.} {:.} {:.}", x, y, z),
                             };
@@ -247,7 +252,12 @@ impl WriteOptions {
                                 chunk.extend(self.indent.prefix_chars(depth + 1));
                                 let offset_str = match self.offset_significant_figures {
                                     Some(sf) => {
-                                        format!("OFFSET {:.*} {:.*} {:.*}", sf, x, sf, y, sf, z)
+                                        format!(
+                                            "OFFSET {} {} {}",
+                                            Rounded(*x, sf),
+                                            Rounded(*y, sf),
+                                            Rounded(*z, sf)
+                                        )
                                     }
                                     None => format!("OFFSET {:.} {:.} {:.}", x, y, z),
                                 };
@@ -306,7 +316,7 @@ impl WriteOptions {
                 if !*written {
                     *chunk = match self.frame_time_significant_figures {
                         Some(sf) => {
-                            format!("Frame Time: {:.*}", sf, bvh.frame_time().as_secs_f64())
+                            format!("Frame Time: {}", Rounded(bvh.frame_time().as_secs_f64(), sf))
                                 .into_bytes()
                         }
                         None => {
@@ -328,7 +338,7 @@ impl WriteOptions {
                             .as_slice()
                             .iter()
                             .map(|motion| match self.motion_values_significant_figures {
-                                Some(sf) => format!("{:.*}", sf, motion),
+                                Some(sf) => Rounded(*motion, sf).to_string(),
                                 None => format!("{:.}", motion),
                             })
                             .collect::<Vec<_>>()
@@ -345,6 +355,25 @@ impl WriteOptions {
     }
 }
 
+/// Displays a number with the given number of decimals, which may be more than
+/// `std` formats at once.
+struct Rounded<T>(T, usize);
+
+impl<T: Copy + fmt::Display + Into<f64>> fmt::Display for Rounded<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let Rounded(number, sf) = *self;
+        let std_sf = cmp::min(sf, u16::MAX as usize);
+        write!(f, "{:.*}", std_sf, number)?;
+        if number.into().is_finite() {
+            // No number has this many decimals which aren't zero.
+            for _ in std_sf..sf {
+                f.write_str("0")?;
+            }
+        }
+        Ok(())
+    }
+}
+
 enum WriteOptionsIterState<'a> {
     WriteHierarchy {
         written: bool,
-- 
2.43.0

