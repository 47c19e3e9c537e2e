From c9b5a3c0194545191093db0d2920833e93a81ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 01/58] fix: MinesweeperBoard::reset also clears the pre-flag
 count and the middle button

---
 base/src/videos/minesweeper_board.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index e85f783..5245eb7 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -139,6 +139,8 @@ impl MinesweeperBoard<Vec<Vec<i32>>> {
         self.bbbv_solved = 0;
         self.flagedList = vec![];
         self.mouse_state = MouseState::UpUp;
+        self.middle_hold = false;
+        self.pre_flag_num = 0;
         self.game_board_state = GameBoardState::Ready;
         self.pointer_x = 0;
         self.pointer_y = 0;
-- 
2.43.0


From 39e5a8cedff002c45b1f7e4f91b2145970483218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 02/58] fix: cancelling all pre-game flags also clears the
 effective-click counter

---
 base/src/videos/minesweeper_board.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 5245eb7..2ff6916 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -545,6 +545,7 @@ impl<T> MinesweeperBoard<T> {
                                     self.double = 0;
                                     self.left = 0;
                                     self.right = 0;
+                                    self.ce = 0;
                                     self.game_board[pos.0][pos.1] = 10;
                                     return Ok(0);
                                 } else {
@@ -849,6 +850,7 @@ impl<T> MinesweeperBoard<T> {
         self.double = 0;
         self.left = 0;
         self.right = 0;
+        self.ce = 0;
     }
 }
 
-- 
2.43.0


From 07a125378f77557f9808517fa540c7ab5edbd1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 03/58] fix: an opening split by flags counts once in
 bbbv_solved, when its last cell opens

---
 base/src/videos/minesweeper_board.rs | 33 ++++++++++++++--------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 2ff6916..c135274 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -178,11 +178,11 @@ impl<T> MinesweeperBoard<T> {
         // refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
         match self.board[x][y] {
             0 => {
+                refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
                 if self.cell_is_op_completed(x, y, &mut vec![vec![false; self.column]; self.row]) {
                     self.bbbv_solved += 1;
                 }
                 self.ce += 1;
-                refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
                 if self.is_win() {
                     self.game_board_state = GameBoardState::Win;
                 }
@@ -295,8 +295,8 @@ impl<T> MinesweeperBoard<T> {
             }
             self.ce += 1;
             self.bbbv_solved += surround3BV;
-            self.bbbv_solved += self.op_num_around_cell(x, y);
-            refresh_board(&self.board, &mut self.game_board, chording_cells);
+            refresh_board(&self.board, &mut self.game_board, chording_cells.clone());
+            self.bbbv_solved += self.op_num_in_cells(&chording_cells);
             // if flag_ch_op {
             //     if self.cell_is_op_completed(surround_op_x, surround_op_y) {
             //         self.bbbv_solved += 1;
@@ -329,29 +329,27 @@ impl<T> MinesweeperBoard<T> {
         }
         true
     }
-    // 在传入格子上双击以后，将新打开的（完整）op数。（已打开的不算）
-    // 这个格子不是雷、双击是合法的
+    // 双击打开传入的格子以后，新打开的（完整）op数。（已打开的不算）
+    // 双击是合法的
     // 只可能返回0，1，2
-    fn op_num_around_cell(&self, x: usize, y: usize) -> usize
+    fn op_num_in_cells(&self, cells: &[(usize, usize)]) -> usize
     where
         T: std::ops::Index<usize> + BoardSize,
         T::Output: std::ops::Index<usize, Output = i32>,
     {
         let mut op_num = 0;
         let mut game_board_mark = vec![vec![false; self.column]; self.row];
-        for i in max(1, x) - 1..min(self.row, x + 2) {
-            for j in max(1, y) - 1..min(self.column, y + 2) {
-                if self.game_board[i][j] == 10 && self.board[i][j] == 0 && !game_board_mark[i][j] {
-                    if self.cell_is_op_completed(i, j, &mut game_board_mark) {
-                        op_num += 1;
-                    }
+        for &(i, j) in cells {
+            if self.board[i][j] == 0 && !game_board_mark[i][j] {
+                if self.cell_is_op_completed(i, j, &mut game_board_mark) {
+                    op_num += 1;
                 }
             }
         }
         op_num
     }
 
-    // 是局面上能够完全打开的op（在游戏局面上是没有打开的状态，点下后能够完全打开）
+    // 是局面上已经完全打开的op（点下以后判断）
     // 这是为了防范一种特殊情况，在空上面右击标雷使得空打开的时候不能完全打开；没有完全打开的空，不应计入3bv。
     fn cell_is_op_completed(&self, x: usize, y: usize, game_board_mark: &mut Vec<Vec<bool>>) -> bool
     where
@@ -359,16 +357,17 @@ impl<T> MinesweeperBoard<T> {
         T::Output: std::ops::Index<usize, Output = i32>,
     {
         // let mut game_board_mark = vec![vec![false; self.column]; self.row];
+        let mut completed = true;
         let mut poses = vec![(x, y)];
         while let Some(top) = poses.pop() {
             let (i, j) = top;
             if self.board[i][j] > 0 {
                 continue;
             } else if self.board[i][j] == 0 {
-                if self.game_board[i][j] == 11 {
-                    return false;
-                }
                 game_board_mark[i][j] = true;
+                if self.game_board[i][j] != 0 {
+                    completed = false;
+                }
                 for m in max(1, i) - 1..min(self.row, i + 2) {
                     for n in max(1, j) - 1..min(self.column, j + 2) {
                         if (i != m || j != n) && (!game_board_mark[m][n]) {
@@ -379,7 +378,7 @@ impl<T> MinesweeperBoard<T> {
             } else {
             }
         }
-        true
+        completed
     }
     /// 返回的值的含义是：0：没有任何作用的操作，例如左键数字、踩雷。  
     /// 1：推进了局面，但没有改变ai对局面的判断，特指标雷。  
-- 
2.43.0


From a6f0002bfe5221745346d39752593ff9490ebbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 04/58] fix: a right press outside the board is not a right
 click to take back when chording

---
 base/src/videos/minesweeper_board.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index c135274..66b53a8 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -670,7 +670,8 @@ impl<T> MinesweeperBoard<T> {
                         }
                         return self.right_click(pos.0, pos.1);
                     } else {
-                        self.mouse_state = MouseState::UpDownNotFlag;
+                        // 没有计入右键数，双击时也就不需要减回去
+                        self.mouse_state = MouseState::UpDown;
                     }
                 }
                 MouseState::DownUp => self.mouse_state = MouseState::Chording,
-- 
2.43.0


From 5f505be9be1fbda896d3e376a617bfac8b49eae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 05/58] fix: events outside the board never index it

---
 base/src/videos/minesweeper_board.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 66b53a8..f32561e 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -407,6 +407,12 @@ impl<T> MinesweeperBoard<T> {
         //         _ => {}
         //     }
         // }
+        // 任何一个方向越界都是局面外
+        let pos = if pos.0 >= self.row || pos.1 >= self.column {
+            (self.row, self.column)
+        } else {
+            pos
+        };
         match self.game_board_state {
             GameBoardState::Ready => match e {
                 "mv" => {
@@ -727,6 +733,10 @@ impl<T> MinesweeperBoard<T> {
                 }
                 // 以下情况其实是不可能的
                 MouseState::UpUp => {
+                    if pos.0 == self.row && pos.1 == self.column {
+                        self.mouse_state = MouseState::UpDown;
+                        return Ok(0);
+                    }
                     if self.game_board[pos.0][pos.1] < 10 {
                         self.mouse_state = MouseState::UpDownNotFlag;
                     } else {
@@ -744,11 +754,17 @@ impl<T> MinesweeperBoard<T> {
             }
             "mr" => {
                 self.middle_hold = false;
+                if pos.0 == self.row && pos.1 == self.column {
+                    return Ok(0);
+                }
                 return self.chording_click(pos.0, pos.1);
             }
             "m" => {
                 self.middle_hold = !self.middle_hold;
                 if !self.middle_hold {
+                    if pos.0 == self.row && pos.1 == self.column {
+                        return Ok(0);
+                    }
                     return self.chording_click(pos.0, pos.1);
                 }
             }
-- 
2.43.0


From 89839d85d608d455ac94bf66f02f80d246f97908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 06/58] fix: a pre-flag event on a flag or outside the board is
 refused instead of aborting

---
 base/src/videos/minesweeper_board.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index f32561e..c4a9136 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -434,10 +434,10 @@ impl<T> MinesweeperBoard<T> {
                     return Ok(0);
                 }
                 "pf" => {
-                    assert!(
-                        self.game_board[pos.0][pos.1] == 10,
-                        "按定义，pf不能在标雷上执行。请报告这个奇怪的录像。"
-                    );
+                    // 按定义，pf不能在标雷上执行
+                    if pos.0 == self.row || self.game_board[pos.0][pos.1] != 10 {
+                        return Err(());
+                    }
                     self.pre_flag_num += 1;
                     self.game_board_state = GameBoardState::PreFlaging;
                     return self.right_click(pos.0, pos.1);
@@ -526,10 +526,10 @@ impl<T> MinesweeperBoard<T> {
                     _ => return Err(()),
                 },
                 "pf" => {
-                    assert!(
-                        self.game_board[pos.0][pos.1] == 10,
-                        "按定义，pf不能在标雷上执行。请报告这个奇怪的录像。"
-                    );
+                    // 按定义，pf不能在标雷上执行
+                    if pos.0 == self.row || self.game_board[pos.0][pos.1] != 10 {
+                        return Err(());
+                    }
                     self.pre_flag_num += 1;
                     return self.right_click(pos.0, pos.1);
                 }
-- 
2.43.0


From f0c74d1898477690f3a74d719eef9b4dc71ae21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 07/58] fix: after a board swap the win test looks at the whole
 new board

---
 base/src/videos/base_video.rs        | 2 +-
 base/src/videos/minesweeper_board.rs | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 766973c..7a9b8e8 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -674,7 +674,7 @@ impl BaseVideo<SafeBoard> {
             self.level = 6;
         }
         self.board = SafeBoard::new(board);
-        self.minesweeper_board.board = self.board.clone();
+        self.minesweeper_board.replace_board(self.board.clone());
         Ok(0)
     }
 }
diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index c4a9136..267f176 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -165,6 +165,13 @@ impl MinesweeperBoard<SafeBoard> {
 }
 
 impl<T> MinesweeperBoard<T> {
+    /// 更换局面，已扫过的部分也要重新判断是否胜利
+    #[cfg(any(feature = "py", feature = "rs"))]
+    pub(crate) fn replace_board(&mut self, board: T) {
+        self.board = board;
+        self.pointer_x = 0;
+        self.pointer_y = 0;
+    }
     /// Playing状态下的左击，没有按下抬起之分
     fn left_click(&mut self, x: usize, y: usize) -> Result<u8, ()>
     where
-- 
2.43.0


From ca67c4e4e1c5564fc3832bee1278f85eae140981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 08/58] fix: saving a replay never overwrites a file created at
 the same moment

---
 base/src/videos/base_video.rs | 37 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 7a9b8e8..35ecb99 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -12,6 +12,8 @@ use crate::videos::analyse_methods::{
 };
 use std::fs;
 #[cfg(any(feature = "py", feature = "rs"))]
+use std::io::Write;
+#[cfg(any(feature = "py", feature = "rs"))]
 use std::time::{Instant, SystemTime, UNIX_EPOCH};
 #[cfg(feature = "js")]
 use web_sys::console;
@@ -1881,27 +1883,24 @@ impl<T> BaseVideo<T> {
     // }
     /// 存evf文件，自动加后缀，xxx.evf重复变成xxx(2).evf
     pub fn save_to_evf_file(&self, file_name: &str) {
-        let file_exist =
-            std::path::Path::new((file_name.to_string() + &(".evf".to_string())).as_str()).exists();
-        if !file_exist {
-            fs::write(
-                (file_name.to_string() + &(".evf".to_string())).as_str(),
-                &self.raw_data,
-            )
-            .unwrap();
-            return;
-        } else {
-            let mut id = 2;
-            let mut format_name;
-            loop {
-                format_name = file_name.to_string() + &(format!("({}).evf", id).to_string());
-                let new_file_name = format_name.as_str();
-                let file_exist = std::path::Path::new(new_file_name).exists();
-                if !file_exist {
-                    fs::write(new_file_name, &self.raw_data).unwrap();
+        let mut format_name = file_name.to_string() + ".evf";
+        let mut id = 2;
+        loop {
+            // 检查与创建必须是一步，否则同时保存的录像会互相覆盖
+            match fs::OpenOptions::new()
+                .write(true)
+                .create_new(true)
+                .open(&format_name)
+            {
+                Ok(mut file) => {
+                    file.write_all(&self.raw_data).unwrap();
                     return;
                 }
-                id += 1;
+                Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => {
+                    format_name = file_name.to_string() + &format!("({}).evf", id);
+                    id += 1;
+                }
+                Err(e) => panic!("{}: {}", format_name, e),
             }
         }
     }
-- 
2.43.0


From 2eeda9b89b79afbd134686c6413ac8e9872a8723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 09/58] fix: set_checksum can be called before encoding and
 remembers a replaced checksum

---
 base/src/videos/base_video.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 35ecb99..fc678d3 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1364,11 +1364,16 @@ impl<T> BaseVideo<T> {
         {
             return Err(());
         };
+        self.checksum = checksum;
+        if self.raw_data.is_empty() {
+            // 生成二进制数据时写入
+            self.has_checksum = true;
+            return Ok(0);
+        }
         if !self.has_checksum {
             *self.raw_data.last_mut().unwrap() = 0;
             self.raw_data
                 .append(&mut checksum.clone().to_vec().to_owned());
-            self.checksum = checksum;
             self.has_checksum = true;
             return Ok(0);
         } else {
-- 
2.43.0


From 218a5895a34959b4559e6a15a11b2d16b691edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 10/58] fix: running times round like the recorded ones, so
 they never underflow

---
 base/src/videos/base_video.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index fc678d3..56d6731 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1157,12 +1157,12 @@ impl<T> BaseVideo<T> {
             GameBoardState::Playing => {
                 let now = Instant::now();
                 // return now.duration_since(self.game_start_instant).as_millis() as f64 / 1000.0;
-                let time_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let time_ms = time_ms_between(now, self.video_start_instant);
                 return (time_ms - self.game_start_ms) as f64 / 1000.0;
             }
             GameBoardState::PreFlaging => {
                 let now = Instant::now();
-                return now.duration_since(self.video_start_instant).as_millis() as f64 / 1000.0;
+                return time_ms_between(now, self.video_start_instant) as f64 / 1000.0;
             }
             GameBoardState::Loss | GameBoardState::Win => self.game_dynamic_params.rtime,
             GameBoardState::Ready => 0.0,
@@ -1449,7 +1449,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_left() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1469,7 +1469,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_right() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1489,7 +1489,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_double() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1509,7 +1509,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_cl() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1529,7 +1529,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_flag() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
-- 
2.43.0


From e69ae8696e1a7055f33d4cb34c7ddaa0a871bb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 11/58] fix: a game decided by its first click gets its own
 start time

---
 base/src/videos/base_video.rs | 40 +++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 56d6731..b5d2b15 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -802,6 +802,27 @@ impl<T> BaseVideo<T> {
 
         let a = self.minesweeper_board.step(e, (x, y))?;
         self.game_board_state = self.minesweeper_board.game_board_state;
+        if (old_state == GameBoardState::Ready || old_state == GameBoardState::PreFlaging)
+            && (self.game_board_state == GameBoardState::Playing
+                || self.game_board_state == GameBoardState::Loss
+                || self.game_board_state == GameBoardState::Win)
+        {
+            // 第一次左键，可能直接结束
+            if old_state == GameBoardState::Ready {
+                self.video_start_instant = step_instant;
+                time_ms = time_ms_between(step_instant, self.video_start_instant);
+                time = time_ms as f64 / 1000.0;
+            }
+            self.game_start_ms = time_ms;
+            // 高精度的时间戳，单位为微秒
+            // https://doc.rust-lang.org/std/time/struct.Instant.html
+            self.start_time = SystemTime::now()
+                .duration_since(UNIX_EPOCH)
+                .unwrap()
+                .as_micros()
+                .to_string()
+                .into_bytes();
+        }
         match self.game_board_state {
             GameBoardState::Ready => {
                 self.game_board_stream.clear();
@@ -815,24 +836,7 @@ impl<T> BaseVideo<T> {
                     time = time_ms as f64 / 1000.0;
                 }
             }
-            GameBoardState::Playing => {
-                if old_state != GameBoardState::Playing {
-                    if old_state == GameBoardState::Ready {
-                        self.video_start_instant = step_instant;
-                        time_ms = time_ms_between(step_instant, self.video_start_instant);
-                        time = time_ms as f64 / 1000.0;
-                    }
-                    self.game_start_ms = time_ms;
-                    // 高精度的时间戳，单位为微秒
-                    // https://doc.rust-lang.org/std/time/struct.Instant.html
-                    self.start_time = SystemTime::now()
-                        .duration_since(UNIX_EPOCH)
-                        .unwrap()
-                        .as_micros()
-                        .to_string()
-                        .into_bytes();
-                }
-            }
+            GameBoardState::Playing => {}
             // 不可能
             GameBoardState::Display => {}
             GameBoardState::Loss => {
-- 
2.43.0


From b869b65142719890c69a53e22dc4df17cc44145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 12/58] fix: seeking to the time of the current event stays on
 it

---
 base/src/videos/base_video.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index b5d2b15..a79040e 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1219,7 +1219,7 @@ impl<T> BaseVideo<T> {
             self.current_time = self.get_video_end_time().unwrap()
         }
         time += self.delta_time;
-        if time > self.video_action_state_recorder[self.current_event_id].time {
+        if time >= self.video_action_state_recorder[self.current_event_id].time {
             loop {
                 if self.current_event_id >= self.video_action_state_recorder.len() - 1 {
                     // 最后一帧
-- 
2.43.0


From aa96b98a96c23c75aa3156a9cfa989b7727892ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 13/58] fix: set_current_event_id refuses an event out of range

---
 base/src/videos/base_video.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index a79040e..c5c1def 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1254,6 +1254,9 @@ impl<T> BaseVideo<T> {
         if self.game_board_state != GameBoardState::Display {
             return Err(());
         };
+        if id >= self.video_action_state_recorder.len() {
+            return Err(());
+        }
         self.current_event_id = id;
         self.current_time = self.video_action_state_recorder[id].time - self.delta_time;
         Ok(0)
-- 
2.43.0


From 7af1d86a1aa97c69be755cf34719333eb315ad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 14/58] fix: get_game_board_poss works on the first event and
 has the board's shape

---
 base/src/videos/base_video.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index c5c1def..e3086ea 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1127,11 +1127,11 @@ impl<T> BaseVideo<T> {
         let mut id = self.current_event_id;
         loop {
             if self.video_action_state_recorder[id].useful_level < 2 {
-                id -= 1;
-                if id <= 0 {
+                if id == 0 {
                     let p = self.mine_num as f64 / (self.height * self.width) as f64;
-                    return vec![vec![p; self.height]; self.width];
+                    return vec![vec![p; self.width]; self.height];
                 }
+                id -= 1;
             } else {
                 // println!("{:?}, {:?}",self.current_event_id, self.video_action_state_recorder.len());
                 return self.game_board_stream[self.video_action_state_recorder
-- 
2.43.0


From 88c73fbd4cacca6cc0f3a61ecf82b91c5cf1cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 15/58] fix: rqp, qg and ce/s of a finished live game use its
 final time

---
 base/src/videos/base_video.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index e3086ea..bf04d18 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1621,19 +1621,27 @@ impl<T> BaseVideo<T> {
             )
         }
     }
+    // 计算指标用的时间：播放录像时是当前时间，否则是最终成绩
+    fn get_indicator_time(&self) -> f64 {
+        if self.game_board_state == GameBoardState::Display {
+            self.current_time
+        } else {
+            self.game_dynamic_params.rtime
+        }
+    }
     pub fn get_rqp(&self) -> Result<f64, ()> {
         let bbbv_solved = self.get_bbbv_solved()?;
         if bbbv_solved == 0 {
             return Ok(0.0);
         }
-        Ok(self.current_time.powf(2.0) / bbbv_solved as f64)
+        Ok(self.get_indicator_time().powf(2.0) / bbbv_solved as f64)
     }
     pub fn get_qg(&self) -> Result<f64, ()> {
         let bbbv_solved = self.get_bbbv_solved()?;
         if bbbv_solved == 0 {
             return Ok(0.0);
         }
-        Ok(self.current_time.powf(1.7) / bbbv_solved as f64)
+        Ok(self.get_indicator_time().powf(1.7) / bbbv_solved as f64)
     }
     pub fn get_ce(&self) -> Result<usize, ()> {
         match self.game_board_state {
@@ -1651,10 +1659,11 @@ impl<T> BaseVideo<T> {
     }
     pub fn get_ce_s(&self) -> Result<f64, ()> {
         let ce = self.get_ce()?;
-        if self.current_time < 0.00099 {
+        let t = self.get_indicator_time();
+        if t < 0.00099 {
             return Ok(0.0);
         }
-        Ok(ce as f64 / self.current_time)
+        Ok(ce as f64 / t)
     }
     pub fn get_corr(&self) -> Result<f64, ()> {
         let ce = self.get_ce()?;
-- 
2.43.0


From 165d9c0585e3711ce1388047494ef96c341206d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 16/58] fix: get_x_y before the pointer first enters the board
 does not underflow

---
 base/src/videos/base_video.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index bf04d18..c65be81 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1748,6 +1748,7 @@ impl<T> BaseVideo<T> {
         loop {
             if self.video_action_state_recorder[self.current_event_id - k].x
                 < self.cell_pixel_size as u16 * self.width as u16
+                || k == self.current_event_id
             {
                 return Ok((
                     (self.video_action_state_recorder[self.current_event_id - k].x as f64
-- 
2.43.0


From 943b9cd946923d175b6569a44283242af671cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 17/58] fix: reset of a session forgets everything about the
 earlier game

---
 base/src/videos/base_video.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index c65be81..11679d5 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -444,6 +444,8 @@ impl BaseVideo<Vec<Vec<i32>>> {
         self.game_dynamic_params = GameDynamicParams::default();
         self.video_dynamic_params = VideoDynamicParams::default();
         self.game_board_state = GameBoardState::Ready;
+        self.board = vec![vec![0; column]; row];
+        self.reset_single_game_state();
     }
     /// 进行局面的推衍，计算基本的局面参数，记录所有中间过程。不包含概率计算。
     /// - 对于avf录像，必须analyse以后才能正确获取是否扫完。
@@ -647,6 +649,8 @@ impl BaseVideo<SafeBoard> {
         self.game_dynamic_params = GameDynamicParams::default();
         self.video_dynamic_params = VideoDynamicParams::default();
         self.game_board_state = GameBoardState::Ready;
+        self.board = SafeBoard::new(vec![vec![0; column]; row]);
+        self.reset_single_game_state();
     }
     /// 两种情况调用：游戏开始前、可猜模式（尺寸相等，雷数不检查）
     pub fn set_board(&mut self, board: Vec<Vec<i32>>) -> Result<u8, ()> {
@@ -682,6 +686,27 @@ impl BaseVideo<SafeBoard> {
 }
 
 impl<T> BaseVideo<T> {
+    // 清除只属于某一局的状态
+    fn reset_single_game_state(&mut self) {
+        self.mine_num = 0;
+        self.is_completed = false;
+        self.is_offical = false;
+        self.is_fair = false;
+        self.level = 0;
+        #[cfg(any(feature = "py", feature = "rs"))]
+        {
+            self.game_start_ms = 0;
+        }
+        self.delta_time = 0.0;
+        self.current_time = 0.0;
+        self.current_event_id = 0;
+        self.start_time.clear();
+        self.end_time.clear();
+        self.offset = 0;
+        self.checksum = [0; 32];
+        self.can_analyse = false;
+        self.has_checksum = false;
+    }
     pub fn get_u8(&mut self) -> Result<u8, ErrReadVideoReason> {
         let t = self.raw_data.get(self.offset);
         self.offset += 1;
-- 
2.43.0


From a31db2e2cf358dde64997abef34a2af480c171b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 18/58] fix: every return to the Ready phase clears the click
 counters

---
 base/src/videos/minesweeper_board.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 267f176..7bac052 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -571,6 +571,7 @@ impl<T> MinesweeperBoard<T> {
                         if pos.0 < self.row && pos.1 < self.column {
                             if self.pre_flag_num == 0 {
                                 self.game_board_state = GameBoardState::Ready;
+                                self.clear_click_num();
                             }
                         }
                     }
@@ -583,6 +584,7 @@ impl<T> MinesweeperBoard<T> {
                             if pos.0 < self.row && pos.1 < self.column {
                                 if self.pre_flag_num == 0 {
                                     self.game_board_state = GameBoardState::Ready;
+                                    self.clear_click_num();
                                 }
                             }
                             self.mouse_state = MouseState::Chording;
-- 
2.43.0


From 9a699635d75882bad252f24f8e07d6bd1624e99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 19/58] fix: the playback clock of a game lost by its first
 click starts at that click

---
 base/src/videos/base_video.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 11679d5..d5aa3df 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -478,6 +478,13 @@ impl BaseVideo<Vec<Vec<i32>>> {
                     .unwrap();
                 // println!("{:?}, {:?}", svi.mouse, b.game_board);
                 svi.useful_level = u_level;
+                if old_state != GameBoardState::Playing
+                    && old_state != b.game_board_state
+                    && b.game_board_state == GameBoardState::Loss
+                {
+                    // 第一下就踩雷
+                    self.delta_time = svi.time;
+                }
                 if u_level >= 1 {
                     let mut g_b = GameBoard::new(self.mine_num);
                     g_b.set_game_board(&b.game_board);
-- 
2.43.0


From 9aea42dd0494b475668a2987df0773d62f825a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 20/58] fix: an evf or mvf file with an empty board is refused
 instead of aborting

---
 base/src/videos/evf_video.rs | 3 +++
 base/src/videos/mvf_video.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/base/src/videos/evf_video.rs b/base/src/videos/evf_video.rs
index 1ffba40..8be122e 100644
--- a/base/src/videos/evf_video.rs
+++ b/base/src/videos/evf_video.rs
@@ -130,6 +130,9 @@ impl EvfVideo {
             self.data.device_uuid.push(the_byte as u8);
         }
 
+        if self.data.height == 0 || self.data.width == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
 
         let mut byte = 0;
diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index c37a8a9..8724974 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -44,6 +44,9 @@ impl MvfVideo {
         // int board_sz,i,pos;
         self.data.width = self.data.get_u8()?.into();
         self.data.height = self.data.get_u8()?.into();
+        if self.data.height == 0 || self.data.width == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
 
         self.data.mine_num = self.data.get_u16()?.into();
-- 
2.43.0


From 75610913e9cbc9edc8147ec7d874d8cd97560968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 21/58] fix: a mine outside the board of an avf or mvf file is
 refused instead of aborting

---
 base/src/videos/avf_video.rs | 3 +++
 base/src/videos/mvf_video.rs | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/avf_video.rs b/base/src/videos/avf_video.rs
index 3c58127..f5cabe4 100644
--- a/base/src/videos/avf_video.rs
+++ b/base/src/videos/avf_video.rs
@@ -106,6 +106,9 @@ impl AvfVideo {
         for _ in 0..self.data.mine_num {
             let c = self.data.get_u8()? as usize;
             let d = self.data.get_u8()? as usize;
+            if c < 1 || c > self.data.height || d < 1 || d > self.data.width {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
             self.data.board[c - 1][d - 1] = -1;
         }
 
diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index 8724974..5c7d252 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -53,7 +53,9 @@ impl MvfVideo {
         for _ in 0..self.data.mine_num {
             let w = (self.data.get_u8()? as i32 + add) as usize;
             let h = (self.data.get_u8()? as i32 + add) as usize;
-            // 要检查
+            if w >= self.data.width || h >= self.data.height {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
             self.data.board[h][w] = -1;
         }
         cal_board_numbers(&mut self.data.board);
-- 
2.43.0


From c3750b766381f0477c6e70e8a0d451f1addbf964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 22/58] fix: impossible sizes, levels and event counts in rmv
 and mvf files are refused instead of overflowing

---
 base/src/videos/mvf_video.rs |  8 +++++++-
 base/src/videos/rmv_video.rs | 22 ++++++++++++++++++----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index 5c7d252..4b844e4 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -121,7 +121,10 @@ impl MvfVideo {
         let _second = self.data.get_u8()?;
 
         // //Next 2 bytes are Level and Mode
-        self.data.level = self.data.get_u8()? + 2;
+        let level = self.data.get_u8()?;
+        self.data.level = level
+            .checked_add(2)
+            .ok_or(ErrReadVideoReason::InvalidLevel)?;
         let mode = self.data.get_u8()?;
         if mode == 1 {
             self.data.mode = 0;
@@ -209,6 +212,9 @@ impl MvfVideo {
         // println!("s: {:?}, byte: {:?}, bit: {:?}", s, byte, bit);
 
         let event_size = self.data.get_u24()?;
+        if event_size == 0 {
+            return Err(ErrReadVideoReason::InvalidParams);
+        }
         let mut prev_rb;
         let mut prev_mb;
         let mut prev_lb;
diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index 4de14b6..c7626cf 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -101,6 +101,9 @@ impl RmvVideo {
             // 2 beta和更早的版本里没有3bv和时间戳
         } else {
             self.data.static_params.bbbv = 0;
+            if result_string_size < 3 {
+                return Err(ErrReadVideoReason::InvalidParams);
+            }
             for _ in 0..result_string_size - 3 {
                 self.data.get_u8()?;
             }
@@ -147,6 +150,9 @@ impl RmvVideo {
         self.data.height = self.data.get_u8()?.into();
         self.data.mine_num = self.data.get_u16()?.into();
 
+        if self.data.height == 0 || self.data.width == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
 
         // Every 2 bytes is x,y with 0,0 being the top left corner
@@ -183,8 +189,14 @@ impl RmvVideo {
             false
         };
         self.data.mode = self.data.get_u8()? as u16;
-        self.data.level = self.data.get_u8()? + 3;
+        let level = self.data.get_u8()?;
+        self.data.level = level
+            .checked_add(3)
+            .ok_or(ErrReadVideoReason::InvalidLevel)?;
 
+        if properties_size < 4 {
+            return Err(ErrReadVideoReason::InvalidParams);
+        }
         self.data.offset += (properties_size - 4) as usize;
 
         // 是不是第一个操作。录像里省略了第一个左键按下。
@@ -243,9 +255,11 @@ impl RmvVideo {
                 return Err(ErrReadVideoReason::InvalidParams);
             }
         }
-        self.data
-            .set_rtime(self.data.video_action_state_recorder.last().unwrap().time)
-            .unwrap();
+        let rtime = match self.data.video_action_state_recorder.last() {
+            Some(e) => e.time,
+            None => return Err(ErrReadVideoReason::InvalidParams),
+        };
+        self.data.set_rtime(rtime).unwrap();
         self.data.software = "Viennasweeper".as_bytes().to_vec();
         self.data.can_analyse = true;
         return Ok(());
-- 
2.43.0


From c946ab6e680bd70080d39a9fa237a535b3b94c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 23/58] fix: pre-game flags of an rmv file are column, row like
 its mines

---
 base/src/videos/rmv_video.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index c7626cf..fd4e623 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -175,8 +175,8 @@ impl RmvVideo {
                     .video_action_state_recorder
                     .push(VideoActionStateRecorder {
                         mouse: "pf".to_string(),
-                        x: d * 16,
-                        y: c * 16,
+                        x: c * 16,
+                        y: d * 16,
                         ..VideoActionStateRecorder::default()
                     });
             }
-- 
2.43.0


From 8136fcde70895947bb7315c190edc6e6121ca8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 24/58] fix: taking back the last pre-game flag is rated as
 changing the board, so playback shows it

---
 base/src/videos/minesweeper_board.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 7bac052..d3f8504 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -559,7 +559,7 @@ impl<T> MinesweeperBoard<T> {
                                     self.right = 0;
                                     self.ce = 0;
                                     self.game_board[pos.0][pos.1] = 10;
-                                    return Ok(0);
+                                    return Ok(1);
                                 } else {
                                     return self.right_click(pos.0, pos.1);
                                 }
-- 
2.43.0


From 53772fce1af7c9c2d798460591545ba24265c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 25/58] fix: moves after the first event of an mvf file are
 relative to its position

---
 base/src/videos/mvf_video.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index 4b844e4..23dbf31 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -227,8 +227,6 @@ impl MvfVideo {
         // println!("rb: {:?}, mb: {:?}, lb: {:?}", rb, mb, lb);
         let mut x = 0u16;
         let mut y = 0u16;
-        let mut prev_x = 0u16;
-        let mut prev_y = 0u16;
         let mut ths = 0;
         let mut sec = 0;
         let mouse;
@@ -245,6 +243,8 @@ impl MvfVideo {
             sec |= self.apply_perm(28 + j, &byte, &bit, &e) << j;
         }
 
+        let mut prev_x = x;
+        let mut prev_y = y;
         if prev_mb > 0 {
             mouse = "mc".to_string()
         } else if prev_rb > 0 {
-- 
2.43.0


From 74391fdf669e7a6edf8118aceb3e866b84b5eb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 26/58] fix: the opening rule counts the protected cells of
 single rows and columns correctly

---
 base/src/algorithms.rs | 14 ++------------
 base/src/utils.rs      | 14 ++------------
 2 files changed, 4 insertions(+), 24 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 608f86a..4dee2b4 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -803,18 +803,8 @@ pub fn laymine_solvable_adjust(
 ) -> (Vec<Vec<i32>>, bool) {
     // 利用局面调整算法，无猜埋雷
     let mut board;
-    let mut area_op = 9;
-    if x0 == 0 || y0 == 0 || x0 == row - 1 || y0 == column - 1 {
-        if x0 == 0 && y0 == 0
-            || x0 == 0 && y0 == column - 1
-            || x0 == row - 1 && y0 == 0
-            || x0 == row - 1 && y0 == column - 1
-        {
-            area_op = 4;
-        } else {
-            area_op = 6;
-        }
-    }
+    // 起手位置及其周围的格子数，单行、单列的局面也适用
+    let area_op = (min(row, x0 + 2) - (max(1, x0) - 1)) * (min(column, y0 + 2) - (max(1, y0) - 1));
     if row * column - area_op < minenum {
         // 雷数太多以致起手无法开空，此时放弃无猜，返回任意一种局面
         let t = laymine(row, column, minenum, x0, y0);
diff --git a/base/src/utils.rs b/base/src/utils.rs
index 001bb21..88496d4 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -509,18 +509,8 @@ pub fn laymine_op(
     X0: usize,
     Y0: usize,
 ) -> Vec<Vec<i32>> {
-    let mut areaOp = 9;
-    if X0 == 0 || Y0 == 0 || X0 == row - 1 || Y0 == column - 1 {
-        if X0 == 0 && Y0 == 0
-            || X0 == 0 && Y0 == column - 1
-            || X0 == row - 1 && Y0 == 0
-            || X0 == row - 1 && Y0 == column - 1
-        {
-            areaOp = 4;
-        } else {
-            areaOp = 6;
-        }
-    }
+    // 起手位置及其周围的格子数，单行、单列的局面也适用
+    let areaOp = (min(row, X0 + 2) - (max(1, X0) - 1)) * (min(column, Y0 + 2) - (max(1, Y0) - 1));
     let area = row * column - areaOp;
     let mut board1_dim = vec![0; area - minenum];
     board1_dim.append(&mut vec![-1; minenum]);
-- 
2.43.0


From 0f4c9839f115421ab6e55d0cb3526ac4e37a3fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 27/58] fix: the threaded no-guess generator returns the board
 of a worker that succeeded

---
 base/src/algorithms.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 4dee2b4..dee7e9d 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -745,7 +745,14 @@ pub fn laymine_solvable_thread(
     for handle in handles {
         handle.join().unwrap();
     }
-    let received = rx.recv().unwrap(); // 尝试次数仅仅为单个线程的次数，并不准
+    let mut received = rx.recv().unwrap(); // 尝试次数仅仅为单个线程的次数，并不准
+    while !received.1 {
+        // 失败的线程可能比成功的线程先发送
+        match rx.try_recv() {
+            Ok(r) => received = r,
+            Err(_) => break,
+        }
+    }
     for i in 0..row {
         for j in 0..column {
             game_board[i][j] = received.0[i][j];
-- 
2.43.0


From 0093a82041c375a3f3640bda3946bf65d850c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 28/58] fix: the unsolvable patterns are only looked for on
 boards with room for them

---
 base/src/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 88496d4..2533e7a 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1192,6 +1192,10 @@ pub fn cal_table_minenum_enum(
 pub fn unsolvable_structure(BoardCheck: &Vec<Vec<i32>>) -> bool {
     let row = BoardCheck.len();
     let column = BoardCheck[0].len();
+    if row < 5 || column < 5 {
+        // 局面放不下这些模板，无法用模板判断
+        return false;
+    }
     let mut Board = vec![vec![0; column]; row];
     for i in 0..row {
         for j in 0..column {
-- 
2.43.0


From 4d3a3df612092164aaa5a3ee3587f429cd426550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 29/58] fix: the fast expert 3BV counts every opening once

---
 base/src/utils.rs | 93 ++++++++++-------------------------------------
 1 file changed, 20 insertions(+), 73 deletions(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 2533e7a..d336832 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1415,90 +1415,37 @@ pub fn unsolvable_structure(BoardCheck: &Vec<Vec<i32>>) -> bool {
 
 // 专用于高级局面的3BV快速计算
 pub fn cal_bbbv_exp(Board: &Vec<Vec<i32>>) -> usize {
-    let mut board = Board.clone();
-    let mut op_id = 0;
-    let mut op_list = [false; 200];
+    let mut seen = [[false; 30]; 16];
     let mut bv = 0;
+    let mut stack = vec![];
     for x in 0..16 {
         for y in 0..30 {
-            if board[x][y] > 0 {
-                board[x][y] = 1000000;
-                bv += 1;
-            } else if board[x][y] == 0 {
-                let mut min_op_id = 1000;
-                let mut flag_op = false; // 该空周围有无空的标志位
-                if x >= 1 {
-                    for j in max(1, y) - 1..min(30, y + 2) {
-                        if board[x - 1][j] > 999999 {
-                            board[x - 1][j] = 1;
-                            bv -= 1;
-                        } else if Board[x - 1][j] == 0 {
-                            if board[x - 1][j] < min_op_id {
-                                if flag_op {
-                                    op_list[min_op_id as usize] = false;
-                                } else {
-                                    flag_op = true;
-                                }
-                                min_op_id = board[x - 1][j];
-                            }
-                        }
-                    }
-                }
-                if y >= 1 {
-                    if board[x][y - 1] > 999999 {
-                        board[x][y - 1] = 1;
-                        bv -= 1;
-                    } else if Board[x][y - 1] == 0 {
-                        if board[x][y - 1] < min_op_id {
-                            if flag_op {
-                                op_list[min_op_id as usize] = false;
-                            } else {
-                                flag_op = true;
-                            }
-                            min_op_id = board[x][y - 1];
-                        }
-                    }
-                }
-                if !flag_op {
-                    op_id += 1;
-                    op_list[op_id as usize] = true;
-                }
+            if Board[x][y] != 0 || seen[x][y] {
+                continue;
             }
-        }
-    }
-    for x in (0..16).rev() {
-        for y in (0..30).rev() {
-            if board[x][y] == 0 {
-                if x <= 14 {
-                    for j in max(1, y) - 1..min(30, y + 2) {
-                        if board[x + 1][j] > 999999 {
-                            board[x + 1][j] = 1;
-                            bv -= 1;
-                        } else if Board[x + 1][j] == 0 {
-                            if board[x + 1][j] < board[x][y] {
-                                op_list[board[x][y] as usize] = false;
-                                board[x][y] = board[x + 1][j];
+            // 一片新的空，连同其边缘的数字一起标记
+            bv += 1;
+            seen[x][y] = true;
+            stack.push((x, y));
+            while let Some((i, j)) = stack.pop() {
+                for m in max(1, i) - 1..min(16, i + 2) {
+                    for n in max(1, j) - 1..min(30, j + 2) {
+                        if !seen[m][n] {
+                            seen[m][n] = true;
+                            if Board[m][n] == 0 {
+                                stack.push((m, n));
                             }
                         }
                     }
                 }
-                if y <= 28 {
-                    if board[x][y + 1] > 999999 {
-                        board[x][y + 1] = 1;
-                        bv -= 1;
-                    } else if Board[x][y + 1] == 0 {
-                        if board[x][y + 1] < board[x][y] {
-                            op_list[board[x][y] as usize] = false;
-                            board[x][y] = board[x][y + 1];
-                        }
-                    }
-                }
             }
         }
     }
-    for i in 0..op_id + 1 {
-        if op_list[i] {
-            bv += 1;
+    for x in 0..16 {
+        for y in 0..30 {
+            if Board[x][y] > 0 && !seen[x][y] {
+                bv += 1;
+            }
         }
     }
     bv
-- 
2.43.0


From c7efac0a116ea80936555a42df26a97a5b644609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 30/58] fix: the adjusting no-guess generator lays exactly the
 requested mines and only solvable boards

---
 base/src/algorithms.rs | 52 +++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index dee7e9d..d6c6e63 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -841,13 +841,22 @@ pub fn laymine_solvable_adjust(
         }
     }
     // 开始递归求解
-    let (mut b, flag) = adjust_step(
-        &board,
-        &board_of_game,
-        &cells_plan_to_click,
-        remain_minenum,
-        remain_not_minenum,
-    );
+    // 每次求解限制尝试的次数，陷入死胡同后从头再来
+    let (mut b, mut flag) = (vec![], false);
+    for _ in 0..1000 {
+        let mut budget = 2 * row * column;
+        (b, flag) = adjust_step(
+            &board,
+            &board_of_game,
+            &cells_plan_to_click,
+            remain_minenum,
+            remain_not_minenum,
+            &mut budget,
+        );
+        if flag {
+            break;
+        }
+    }
     // println!("+++++");
     // b.iter().for_each(|i| {
     //     i.iter()
@@ -895,6 +904,7 @@ fn adjust_step(
     plan_click: &Vec<(usize, usize)>, // 当前计划点开的格子，递归部分要保证点开后，局面是有解开的可能的
     remain_minenum: usize,           // 当前还要埋的雷数
     remain_not_minenum: usize,       // 当前还要埋的非雷数
+    budget: &mut usize,              // 剩余的尝试次数
 ) -> (Vec<Vec<i32>>, bool) {
     let mut b = board.clone(); // 克隆一个board的备份
     let mut bg = board_of_game.clone(); // 克隆一个board_of_game的备份
@@ -904,6 +914,11 @@ fn adjust_step(
     for (x, y) in plan_click.into_iter() {
         bg[*x][*y] = 1;
     } // 点开当前的board_of_game的备份上的计划点开的格子，用1临时表示
+    let bg_opened = bg.clone(); // 某次尝试失败后，恢复到这个局面
+    if rn == 0 && (0..b.len()).all(|i| (0..b[0].len()).all(|j| b[i][j] != 0 || bg[i][j] < 10)) {
+        // 非雷全部埋完，并且全部点开
+        return (b, true);
+    }
       // let b_backup = b.clone(); // 克隆一个board的备份
       // let bg_backup = bg.clone(); // 克隆一个board_of_game的备份
 
@@ -925,13 +940,6 @@ fn adjust_step(
     front_xs_0
         .iter_mut()
         .for_each(|p| p.retain(|x| b[x.0][x.1] == -10));
-    if front_xs_0[0].is_empty() {
-        if rn > 0 {
-            return (vec![], false);
-        } else {
-            return (b, true);
-        }
-    }
     // 前沿格子————此格子在边缘，且是没有埋过雷的
     let xs_cell_num = front_xs_0.iter().fold(0, |acc, x| acc + x.len());
     let minenum_except = (xs_cell_num as f64 * r as f64 / (rn + r) as f64) as usize;
@@ -975,8 +983,13 @@ fn adjust_step(
         if minenum > r || xs_cell_num - minenum > rn {
             continue;
         }
-        // 对每种雷数，重复尝试5次。
-        for _u in 0..3 {
+        // 对每种雷数，重复尝试3次。只有一种埋法时，只需要尝试1次。
+        let times = if minenum == 0 || minenum == xs_cell_num { 1 } else { 3 };
+        for _u in 0..times {
+            if *budget == 0 {
+                return (vec![], false);
+            }
+            *budget -= 1;
             adjust_the_area_on_board(&mut b, &front_xs_0, minenum);
             // 以下的循环用来修正b向量
             for bb in 0..bs_0.len() {
@@ -1008,20 +1021,17 @@ fn adjust_step(
                 i.iter().for_each(|x| bg[x.0][x.1] = 11);
                 // println!("当前步骤成功！");
                 // success_flag = true; // 当前步骤成功
-                if rn <= n.len() {
-                    return (b.clone(), true);
-                }
                 // pc.append(&mut n);
                 r -= minenum;
                 rn -= xs_cell_num - minenum;
-                let a = adjust_step(&b, &bg, &n, r, rn);
+                let a = adjust_step(&b, &bg, &n, r, rn, budget);
                 if a.1 {
                     if !a.0.is_empty() {
                         return (a.0, true);
                     }
                 } else {
                     b = board.clone();
-                    bg = board_of_game.clone();
+                    bg = bg_opened.clone();
                     r = remain_minenum;
                     rn = remain_not_minenum;
                     // continue 'inner;
-- 
2.43.0


From 7e910c531c96e4cf7eb98a30e684e6da7883fc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:20 +0000
Subject: [PATCH 31/58] fix: iterating over a protected row yields the cells,
 not their codes

---
 base/src/safe_board.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/src/safe_board.rs b/base/src/safe_board.rs
index 72a6a88..279bfc9 100644
--- a/base/src/safe_board.rs
+++ b/base/src/safe_board.rs
@@ -172,17 +172,21 @@ impl Iterator for SafeBoardRow {
                 self.value_3[self.counter],
             );
             self.counter += 1;
-            Some(t)
+            Some(self.table[t as usize])
         } else {
             None
         }
     }
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let n = self.value_1.len() - self.counter;
+        (n, Some(n))
+    }
 }
 
 #[cfg(any(feature = "py", feature = "rs"))]
 impl ExactSizeIterator for SafeBoardRow {
     fn len(&self) -> usize {
-        self.value_1.len()
+        self.value_1.len() - self.counter
     }
 }
 
-- 
2.43.0


From e30a204d21b09ce1ec8517ec3b2c7cac2b9b342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:20 +0000
Subject: [PATCH 32/58] fix: a protected board with new content is iterated
 from its first row

---
 base/src/safe_board.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/src/safe_board.rs b/base/src/safe_board.rs
index 279bfc9..8fb78ec 100644
--- a/base/src/safe_board.rs
+++ b/base/src/safe_board.rs
@@ -121,6 +121,7 @@ impl SafeBoard {
             safe_board.push(SafeBoardRow::new(row));
         }
         self.value = safe_board;
+        self.counter = 0;
     }
 }
 
-- 
2.43.0


From 254ee2f49a9772f5e19771780381183fc5db0506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 33/58] fix: a protected cell holding 9 has a code of its own

---
 base/src/safe_board.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/safe_board.rs b/base/src/safe_board.rs
index 8fb78ec..e3ea0b7 100644
--- a/base/src/safe_board.rs
+++ b/base/src/safe_board.rs
@@ -20,7 +20,7 @@ fn encode(v: i32, rng: &mut rand::rngs::ThreadRng) -> (i32, i32, i32) {
     let a = rng.gen_range(-2_0000_0000i32..2_0000_0001);
     let b = rng.gen_range(-1_0000i32..1_0001);
     let code = [
-        7, 1, 3, 14, 16, 17, 9, 11, 12, 5, 6, 13, 19, 19, 18, 15, 4, 8, 2, 0,
+        7, 1, 3, 14, 16, 17, 9, 11, 12, 5, 6, 13, 10, 19, 18, 15, 4, 8, 2, 0,
     ][(v + 3) as usize];
     let c = code + rng.gen_range(-1000_0000i32..1000_0001) * 20 - a - b;
     (a, b, c)
-- 
2.43.0


From 066ed4810416ffd5230e1251385a93817b4f3164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 34/58] fix: cached openings, 3BV and islands of a Board are
 stored

---
 base/src/board.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/base/src/board.rs b/base/src/board.rs
index 12f2280..1029cfa 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -209,22 +209,25 @@ impl Board {
             self.openings = cal_op(&self.board);
             self.has_cal_openings = true;
         }
+        self.bbbv = a + self.openings;
         self.has_cal_bbbv = true;
-        return a + self.openings;
+        return self.bbbv;
     }
     pub fn get_op(&mut self) -> usize {
         if self.has_cal_openings {
             return self.openings;
         }
+        self.openings = cal_op(&self.board);
         self.has_cal_openings = true;
-        return cal_op(&self.board);
+        return self.openings;
     }
     pub fn get_isl(&mut self) -> usize {
         if self.has_cal_islands {
             return self.islands;
         }
+        self.islands = cal_isl(&self.board);
         self.has_cal_islands = true;
-        return cal_isl(&self.board);
+        return self.islands;
     }
     fn cal_cell_nums(&mut self) {
         let ans = cal_cell_nums(&self.board);
-- 
2.43.0


From 1eae2c17d6efd62fc46dc06f3c1d9b0af9a8b903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 35/58] fix: a GameBoard given a new position forgets the
 answers for the old one

---
 base/src/board.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/src/board.rs b/base/src/board.rs
index 1029cfa..6d3c529 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -63,6 +63,12 @@ impl GameBoard {
         }
         self.game_board = board.clone();
         self.game_board_marked = game_board_marked;
+        self.is_marked = false;
+        self.has_poss = false;
+        self.basic_not_mine.clear();
+        self.basic_is_mine.clear();
+        self.enum_not_mine.clear();
+        self.enum_is_mine.clear();
     }
     fn mark(&mut self) {
         // 一旦被标记，那么就会用3大判雷引擎都分析一遍
-- 
2.43.0


From 9f66ad6e032a9a8bd51d74eca4f935f75cd4a180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 36/58] fix: GameBoard reports the mines found by enumeration

---
 base/src/board.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/base/src/board.rs b/base/src/board.rs
index 6d3c529..1d199fa 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -96,15 +96,7 @@ impl GameBoard {
                 }
             }
         }
-        self.enum_not_mine = solve_enumerate(&a_s, &x_s, &b_s).0;
-        // println!("yyyyyyyyyyyyyyyyy");
-        for i in 0..self.game_board_marked.len() {
-            for j in 0..self.game_board_marked[0].len() {
-                if self.game_board_marked[i][j] == 11 && !self.basic_is_mine.contains(&(i, j)) {
-                    self.enum_is_mine.push((i, j));
-                }
-            }
-        }
+        (self.enum_not_mine, self.enum_is_mine) = solve_enumerate(&a_s, &x_s, &b_s);
         self.is_marked = true;
     }
     pub fn get_poss(&mut self) -> &Vec<Vec<f64>> {
-- 
2.43.0


From 3c8a404cd5d92a62757929cee5c40d2b2f5112fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 37/58] fix: the needless-guess verdict on a cell off the front
 is not that of the front cell next to it

---
 base/src/algorithms.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index d6c6e63..6d524dc 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -1358,8 +1358,8 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
         }
         flag_need = n.is_empty();
         match board_of_game[xy.0][xy.1] {
-            12 => return 1,
-            11 => return 4,
+            12 if flag_border => return 1,
+            11 if flag_border => return 4,
             _ => {
                 let (n, _) = solve_minus(As, xs, bs, board_of_game).unwrap();;
                 if !flag_border && !n.is_empty() {
@@ -1367,8 +1367,8 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
                 }
                 flag_need = flag_need && n.is_empty();
                 match board_of_game[xy.0][xy.1] {
-                    12 => return 1,
-                    11 => return 4,
+                    12 if flag_border => return 1,
+                    11 if flag_border => return 4,
                     _ => {
                         let (n, i) = solve_enumerate(As, xs, bs);
                         if !flag_border && !n.is_empty() {
@@ -1377,7 +1377,7 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
                         flag_need = flag_need && n.is_empty();
                         if n.contains(&xy) {
                             return 1;
-                        } else if i.contains(&xy) {
+                        } else if flag_border && i.contains(&xy) {
                             return 4;
                         } else if flag_need {
                             return 2;
-- 
2.43.0


From 0c6664f156e50d08945b59423a227c584579b7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 38/58] fix: a position with room for fewer mines than there
 are has no probabilities

---
 base/src/algorithms.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 6d524dc..36ba55a 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -308,6 +308,9 @@ pub fn cal_possibility(
         }
     };
 
+    if max_minenum + unknow_block < minenum {
+        return Err(4); // 剩下的格子放不下所有的雷
+    }
     max_minenum = min(max_minenum, minenum);
     if max_minenum < min_minenum {
         return Err(3); // 这种错误，例如一共10个雷，却出现了3个不相邻的5
-- 
2.43.0


From 529f6dba5ea9c2adc65f143039120e7c0a1ceb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 39/58] fix: enumeration reports mines among cells that see the
 same numbers

---
 base/src/algorithms.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 36ba55a..852652b 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -609,8 +609,7 @@ pub fn solve_enumerate(
                 for kk in &comb_relp_s[i][jj] {
                     not_mine.push(xs[i][*kk]);
                 }
-            } else if s_num == table_minenum_i[1].iter().sum::<usize>() * comb_relp_s[i][jj].len()
-            {
+            } else if s_num == table_minenum_i[1].iter().sum::<usize>() {
                 for kk in &comb_relp_s[i][jj] {
                     is_mine.push(xs[i][*kk]);
                 }
-- 
2.43.0


From 6b90de97e1de74ae2ed5e6e0a1c77b36af82a653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 40/58] fix: a share of mines below the number already marked
 does not underflow

---
 base/src/algorithms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 852652b..20d902b 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -296,7 +296,7 @@ pub fn cal_possibility(
     let minenum = if minenum < 1.0 {
         let mn = ((board_of_game.len() * board_of_game[0].len()) as f64 * minenum) as usize;
         min(
-            max(mn - is_minenum, min_minenum),
+            max(mn.saturating_sub(is_minenum), min_minenum),
             max_minenum + unknow_block,
         )
     } else {
-- 
2.43.0


From 9429355a9f16ebeb0a721403923c6ce66394dd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 41/58] fix: blocks of one front are kept together whatever
 their order

---
 base/src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index d336832..459b55e 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -385,6 +385,9 @@ pub fn refresh_matrixses(
 
         while !buffer.is_empty() {
             let t = buffer.pop().unwrap();
+            if As[t].is_empty() {
+                continue; // 已经在其中了
+            }
             Ases.last_mut().unwrap().push(vec![]);
             Ases.last_mut()
                 .unwrap()
@@ -403,7 +406,7 @@ pub fn refresh_matrixses(
                 .last_mut()
                 .unwrap()
                 .append(&mut bs[t]);
-            for idj in t..As.len() {
+            for idj in 0..As.len() {
                 if adjacency_matrix[t][idj] {
                     buffer.push(idj);
                 }
-- 
2.43.0


From 6a8338aa4deb90a0ed6a7153ec8b3cf956636443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 42/58] fix: the greatest possible number of mines does not
 depend on the number given

---
 base/src/algorithms.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 20d902b..72a1cce 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -311,6 +311,7 @@ pub fn cal_possibility(
     if max_minenum + unknow_block < minenum {
         return Err(4); // 剩下的格子放不下所有的雷
     }
+    let max_possible = max_minenum + is_minenum + unknow_block;
     max_minenum = min(max_minenum, minenum);
     if max_minenum < min_minenum {
         return Err(3); // 这种错误，例如一共10个雷，却出现了3个不相邻的5
@@ -414,7 +415,7 @@ pub fn cal_possibility(
         [
             min_minenum + is_minenum,
             minenum + is_minenum,
-            max_minenum + is_minenum + unknow_block,
+            max_possible,
         ],
         exceed_len,
     ))
-- 
2.43.0


From 8092e5930e4cf383480922bb142545f8ff367abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 43/58] fix: a number of mines in a gap of the possible totals
 is refused

---
 base/src/algorithms.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 72a1cce..c3cade2 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -381,6 +381,9 @@ pub fn cal_possibility(
         T.add_big_number(&t);
     }
     // 第五步，计算局面总情况数
+    if T.a == 0.0 {
+        return Err(3); // 没有一种情况正好是这个雷数
+    }
 
     for i in 0..block_num {
         for cells_id in 0..comb_relp_s[i].len() {
-- 
2.43.0


From 2a0a0167da874dc98ea15a1c24fb88c1bb9823aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 44/58] fix: the survival chance is added to the remarks of the
 last event, not put in their place

---
 base/src/videos/analyse_methods.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 04a12f0..1781a84 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -240,7 +240,7 @@ pub fn analyse_survive_poss(video: &mut BaseVideo<Vec<Vec<i32>>>) {
     } else {
         message.push_str("1;");
     }
-    video.video_action_state_recorder.last_mut().unwrap().comments = message;
+    video.video_action_state_recorder.last_mut().unwrap().comments.push_str(&message);
 }
 
 #[derive(Debug, PartialEq)]
-- 
2.43.0


From fcf2dfa52c387fd0225b9f21419a28a1543c853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 45/58] fix: the good-chord test stays inside the last column

---
 base/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 459b55e..b95f4e3 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1677,7 +1677,7 @@ pub fn is_good_chording(board_of_game: &Vec<Vec<i32>>, pos: (usize, usize)) -> b
             return false;
         }
     }
-    if pos.1 < column + 1 {
+    if pos.1 + 1 < column {
         if mid_num < surround_cell_num(board_of_game, (pos.0, pos.1 + 1)) {
             return false;
         }
-- 
2.43.0


From 4df004a60bb516cec522e17331101424ac0cbffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 46/58] fix: a right click outside the board is no flag in
 flag-style analysis

---
 base/src/videos/analyse_methods.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 1781a84..353dc05 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -273,8 +273,8 @@ pub fn analyse_super_fl_local(video: &mut BaseVideo<Vec<Vec<i32>>>) {
         // }
 
         if video.video_action_state_recorder[ide].mouse == "rc"
-            && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
             && video.video_action_state_recorder[ide].useful_level == 1
+            && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
         {
             // 正确的标雷
             match state {
-- 
2.43.0


From a3684b2c379e0a9462e71f779792898b08c019e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 47/58] fix: a guess that nothing could have spared is no
 needless guess

---
 base/src/videos/analyse_methods.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 353dc05..920bb26 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -90,6 +90,13 @@ pub fn analyse_needless_guess(video: &mut BaseVideo<Vec<Vec<i32>>>) {
                 && !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
                     .get_enum_not_mine()
                     .contains(&(x, y))
+                // 没有可以判出的安全格时，猜雷是必须的
+                && !(video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
+                    .get_basic_not_mine()
+                    .is_empty()
+                    && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
+                        .get_enum_not_mine()
+                        .is_empty())
             {
                 video.video_action_state_recorder[ide].comments = format!(
                     "{}{}",
-- 
2.43.0


From 0799748e211d0804d7db5b4562f7c6eb1cc83582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:44 +0000
Subject: [PATCH 48/58] fix: taking a flag back is not a hard deduction of a
 mine

---
 base/src/videos/analyse_methods.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 920bb26..969ee9e 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -58,7 +58,9 @@ pub fn analyse_jump_judge(video: &mut BaseVideo<Vec<Vec<i32>>>) {
                 );
             }
         } else if video.video_action_state_recorder[ide].useful_level == 1 && video.video_action_state_recorder[ide].mouse == "rc" {
-            if !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
+            // 取消标雷不是判雷
+            if video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
+                && !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
                 .get_basic_is_mine()
                 .contains(&(x, y))
                 && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
-- 
2.43.0


From d9b15d7d78e59d2e308c882d05c45e4f867384b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 49/58] fix: openings of large boards are flooded without
 recursion

---
 base/src/utils.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index b95f4e3..bf466bd 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -47,10 +47,15 @@ fn infect_board(board: &mut Vec<Vec<i32>>, x: usize, y: usize) {
     let row = board.len();
     let column = board[0].len();
     board[x][y] = 1;
-    for i in max(1, x) - 1..min(row, x + 2) {
-        for j in max(1, y) - 1..min(column, y + 2) {
-            if board[i][j] == 0 {
-                infect_board(board, i, j);
+    // 局面很大时递归会栈溢出,故用显式的栈
+    let mut stack = vec![(x, y)];
+    while let Some((x, y)) = stack.pop() {
+        for i in max(1, x) - 1..min(row, x + 2) {
+            for j in max(1, y) - 1..min(column, y + 2) {
+                if board[i][j] == 0 {
+                    board[i][j] = 1;
+                    stack.push((i, j));
+                }
             }
         }
     }
-- 
2.43.0


From 7a2f9cd4f1c265cbed444e6737a1bc9739c82265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 50/58] fix: mouse travel in a replay leaves out the same
 events as in the game

---
 base/src/videos/base_video.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index d5aa3df..d5cad93 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -513,7 +513,7 @@ impl BaseVideo<Vec<Vec<i32>>> {
                 || b.game_board_state == GameBoardState::Loss
             {
                 if svi.y >= self.height as u16 * self.cell_pixel_size as u16
-                    && svi.x >= self.width as u16 * self.cell_pixel_size as u16
+                    || svi.x >= self.width as u16 * self.cell_pixel_size as u16
                 {
                     self.video_action_state_recorder[ide].path =
                         self.video_action_state_recorder[ide - 1].path;
@@ -528,7 +528,7 @@ impl BaseVideo<Vec<Vec<i32>>> {
                         svi_1_x = svis.x;
                         svi_1_path = svis.path;
                         if svi_1_y >= self.height as u16 * self.cell_pixel_size as u16
-                            && svi_1_x >= self.width as u16 * self.cell_pixel_size as u16
+                            || svi_1_x >= self.width as u16 * self.cell_pixel_size as u16
                         {
                             skip += 1;
                             continue;
-- 
2.43.0


From 9f61d8b42720e0c0742e48520e04def308092a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 51/58] fix: is_valid panics on a Viennasweeper replay whose
 start time is short or not a number

---
 base/src/videos/base_video.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index d5cad93..2086b3d 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1970,16 +1970,14 @@ impl<T> BaseVideo<T> {
         if self.software == "Arbiter".as_bytes().to_vec() {
             // 对于arbiter，开源界没有鉴定的能力，只能追溯
         } else if self.software == "Viennasweeper".as_bytes().to_vec() {
-            let start_time = ((self.start_time[0] - 48) as u64) * 1000000000
-                + ((self.start_time[1] - 48) as u64) * 100000000
-                + ((self.start_time[2] - 48) as u64) * 10000000
-                + ((self.start_time[3] - 48) as u64) * 1000000
-                + ((self.start_time[4] - 48) as u64) * 100000
-                + ((self.start_time[5] - 48) as u64) * 10000
-                + ((self.start_time[6] - 48) as u64) * 1000
-                + ((self.start_time[7] - 48) as u64) * 100
-                + ((self.start_time[8] - 48) as u64) * 10
-                + (self.start_time[9] - 48) as u64;
+            // 前10位是秒级时间戳
+            let start_time = match self.start_time.get(..10) {
+                Some(s) if s.iter().all(|c| c.is_ascii_digit()) => {
+                    s.iter().fold(0, |t, &c| t * 10 + (c - 48) as u64)
+                }
+                // 看不出是什么时候玩的，不确定
+                _ => return 3,
+            };
             if start_time > 1682265600 {
                 // 2023-04-24 00:00:00后被禁
                 return 1;
-- 
2.43.0


From 12bbfc8e3aeb8715ff6562e31141407d1d27f32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 52/58] fix: the bindings' boards keep where the win scan
 stopped when another board is put in

---
 base/src/videos/minesweeper_board.rs | 3 +--
 python_package/src/board.rs          | 4 ++--
 wasm/src/board.rs                    | 2 +-
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index d3f8504..cfbe0bc 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -166,8 +166,7 @@ impl MinesweeperBoard<SafeBoard> {
 
 impl<T> MinesweeperBoard<T> {
     /// 更换局面，已扫过的部分也要重新判断是否胜利
-    #[cfg(any(feature = "py", feature = "rs"))]
-    pub(crate) fn replace_board(&mut self, board: T) {
+    pub fn replace_board(&mut self, board: T) {
         self.board = board;
         self.pointer_x = 0;
         self.pointer_y = 0;
diff --git a/python_package/src/board.rs b/python_package/src/board.rs
index f702781..c8fb168 100644
--- a/python_package/src/board.rs
+++ b/python_package/src/board.rs
@@ -31,7 +31,7 @@ impl PyMinesweeperBoard {
     // 这个方法与强可猜、弱可猜、埋雷有关
     #[setter]
     fn set_board(&mut self, board: Vec<Vec<i32>>) {
-        self.core.board = board;
+        self.core.replace_board(board);
     }
     // #[setter]
     // fn set_game_board(&mut self, game_board: Vec<Vec<i32>>) {
@@ -155,7 +155,7 @@ impl PySafeMinesweeperBoard {
     // 这个方法与强可猜、弱可猜、埋雷有关
     #[setter]
     fn set_board(&mut self, board: Vec<Vec<i32>>) {
-        self.core.board.set(board);
+        self.core.replace_board(SafeBoard::new(board));
     }
     // #[setter]
     // fn set_game_board(&mut self, game_board: Vec<Vec<i32>>) {
diff --git a/wasm/src/board.rs b/wasm/src/board.rs
index a4aed12..9f83602 100644
--- a/wasm/src/board.rs
+++ b/wasm/src/board.rs
@@ -40,7 +40,7 @@ impl MinesweeperBoard {
     // 这个方法与强可猜、弱可猜有关
     #[wasm_bindgen(setter)]
     pub fn set_board(&mut self, board: &str) {
-        self.core.board = json2vec(board);
+        self.core.replace_board(json2vec(board));
     }
     // 直接设置游戏局面是不安全的！但在一些游戏中，结束时需要修改再展示
     #[wasm_bindgen(setter)]
-- 
2.43.0


From 691b8536570ab7a47f5066e33ac201caf329b39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 53/58] fix: jumping to an event through the bindings leaves
 the time behind and takes events past the end

---
 python_package/src/avf_video.rs  | 2 +-
 python_package/src/base_video.rs | 2 +-
 python_package/src/evf_video.rs  | 2 +-
 python_package/src/mvf_video.rs  | 2 +-
 python_package/src/rmv_video.rs  | 2 +-
 wasm/src/board.rs                | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/python_package/src/avf_video.rs b/python_package/src/avf_video.rs
index c42942f..f11ae73 100644
--- a/python_package/src/avf_video.rs
+++ b/python_package/src/avf_video.rs
@@ -305,7 +305,7 @@ impl PyAvfVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/python_package/src/base_video.rs b/python_package/src/base_video.rs
index 5fb2e2a..c8b1f4b 100644
--- a/python_package/src/base_video.rs
+++ b/python_package/src/base_video.rs
@@ -367,7 +367,7 @@ impl PyBaseVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.current_event_id = id
+        self.core.set_current_event_id(id).unwrap();
     }
     // 这个方法与强可猜、弱可猜、埋雷有关
     #[setter]
diff --git a/python_package/src/evf_video.rs b/python_package/src/evf_video.rs
index 9fc15a2..2bb4d28 100644
--- a/python_package/src/evf_video.rs
+++ b/python_package/src/evf_video.rs
@@ -305,7 +305,7 @@ impl PyEvfVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/python_package/src/mvf_video.rs b/python_package/src/mvf_video.rs
index 1492c1f..c8b8a52 100644
--- a/python_package/src/mvf_video.rs
+++ b/python_package/src/mvf_video.rs
@@ -305,7 +305,7 @@ impl PyMvfVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/python_package/src/rmv_video.rs b/python_package/src/rmv_video.rs
index 6051c7b..4231e14 100644
--- a/python_package/src/rmv_video.rs
+++ b/python_package/src/rmv_video.rs
@@ -305,7 +305,7 @@ impl PyRmvVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/wasm/src/board.rs b/wasm/src/board.rs
index 9f83602..041c7ac 100644
--- a/wasm/src/board.rs
+++ b/wasm/src/board.rs
@@ -404,7 +404,7 @@ macro_rules! generate_video {
                 }
                 #[wasm_bindgen(setter)]
                 pub fn set_current_event_id(&mut self, id: usize) {
-                    self.core.data.current_event_id = id
+                    self.core.data.set_current_event_id(id).unwrap();
                 }
                 #[wasm_bindgen(getter)]
                 pub fn get_game_board(&self) -> String {
-- 
2.43.0


From c96d2dc8bd174187ef541f1ddbd5dae6b3aaf214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:14 +0000
Subject: [PATCH 54/58] fix: a replay read from an evf file keeps its checksum
 when it is written again

---
 base/src/videos/base_video.rs | 2 +-
 base/src/videos/evf_video.rs  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 2086b3d..f19e045 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -329,7 +329,7 @@ pub struct BaseVideo<T> {
     // 允许设置最终成绩，解析录像文件时用
     allow_set_rtime: bool,
     // 是否有checksum
-    has_checksum: bool,
+    pub(crate) has_checksum: bool,
     // 播放录像文件时用，按几倍放大来播放，涉及回报的鼠标位置
     video_playing_pix_size_k: f64,
 }
diff --git a/base/src/videos/evf_video.rs b/base/src/videos/evf_video.rs
index 8be122e..43b722a 100644
--- a/base/src/videos/evf_video.rs
+++ b/base/src/videos/evf_video.rs
@@ -205,6 +205,7 @@ impl EvfVideo {
             }
         }
         self.data.checksum = csum;
+        self.data.has_checksum = have_checksum;
         self.data.can_analyse = true;
         return Ok(());
     }
-- 
2.43.0


From 8be3a9f1ecaa21f86ff17276978d85f7e08fb8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 55/58] fix: the C interface compiles again, cal3BV is called
 cal_bbbv in the library

---
 c/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/lib.rs b/c/src/lib.rs
index 6008ace..a396595 100644
--- a/c/src/lib.rs
+++ b/c/src/lib.rs
@@ -1,5 +1,5 @@
 extern crate libc;
-use ms_toollib::cal3BV as rs_cal3BV;
+use ms_toollib::cal_bbbv as rs_cal3BV;
 use ms_toollib::cal_possibility_onboard as rs_cal_possibility_onboard;
 use ms_toollib::laymine as rs_laymine;
 use ms_toollib::MinesweeperBoard as RustMinesweeperBoard;
-- 
2.43.0


From c6610bce3a02dd32bac703ddad22e13ec3a8e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:12 +0000
Subject: [PATCH 56/58] fix: the C interface frees boards with the layout they
 were allocated with and leaks nothing

---
 c/src/lib.rs | 67 +++++++++++++++++++++++-----------------------------
 1 file changed, 29 insertions(+), 38 deletions(-)

diff --git a/c/src/lib.rs b/c/src/lib.rs
index a396595..49fd67a 100644
--- a/c/src/lib.rs
+++ b/c/src/lib.rs
@@ -3,7 +3,6 @@ use ms_toollib::cal_bbbv as rs_cal3BV;
 use ms_toollib::cal_possibility_onboard as rs_cal_possibility_onboard;
 use ms_toollib::laymine as rs_laymine;
 use ms_toollib::MinesweeperBoard as RustMinesweeperBoard;
-use std::alloc::{alloc, dealloc, Layout};
 use std::mem;
 use std::ptr;
 use std::slice;
@@ -108,20 +107,31 @@ fn struct_board_to_vec_board(board: Board) -> Vec<Vec<i32>> {
     b
 }
 
-fn vec_board_to_struct_board(mut b: Vec<Vec<i32>>) -> Board {
+// 把内存交给调用者，容量等于长度，之后用release释放
+fn give<T>(v: Vec<T>) -> *mut T {
+    let mut v = v.into_boxed_slice();
+    let p = v.as_mut_ptr();
+    mem::forget(v);
+    p
+}
+
+// 收回give给出的内存
+unsafe fn release<T>(p: *mut T, n: usize) -> Vec<T> {
+    Vec::from_raw_parts(p, n, n)
+}
+
+fn vec_board_to_struct_board(b: Vec<Vec<i32>>) -> Board {
     let mut board: Vec<Row> = vec![];
     let n_row = b.len();
-    for i in 0..n_row {
+    for row in b {
+        let n_column = row.len();
         board.push(Row {
-            cells: b[i].as_mut_ptr(),
-            n_column: b[0].len(),
+            cells: give(row),
+            n_column,
         });
     }
-    let p = board.as_mut_ptr();
-    mem::forget(b);
-    mem::forget(board);
     Board {
-        rows: p,
+        rows: give(board),
         n_row: n_row,
     }
 }
@@ -178,21 +188,18 @@ pub extern "C" fn cal_possibility_onboard(board_of_game: Board, mine_num: f64) -
             b[i].push(array[j]);
         }
     }
-    let (mut b, c) = rs_cal_possibility_onboard(&b, mine_num).unwrap();
+    let (b, c) = rs_cal_possibility_onboard(&b, mine_num).unwrap();
 
     let mut board: Vec<RowPoss> = vec![];
-    for i in 0..b.len() {
+    for row in b {
+        let n_column = row.len();
         board.push(RowPoss {
-            cells_poss: b[i].as_mut_ptr(),
-            n_column: b[0].len(),
+            cells_poss: give(row),
+            n_column,
         });
     }
-    let p = board.as_mut_ptr();
-
-    mem::forget(b);
-    mem::forget(board);
     let t = BoardPoss {
-        rows_poss: p,
+        rows_poss: give(board),
         n_row: board_of_game.n_row,
     };
     BoardPossReturn {
@@ -207,13 +214,9 @@ pub extern "C" fn cal_possibility_onboard(board_of_game: Board, mine_num: f64) -
 pub extern "C" fn free_board(board: Board) {
     // 由rust分配的局面内存，也应该由rust释放
     unsafe {
-        for i in 0..board.n_row {
-            let layout =
-                Layout::from_size_align_unchecked((*(board.rows)).n_column, mem::size_of::<i32>());
-            dealloc((*(board.rows).offset(i as isize)).cells as *mut u8, layout);
+        for row in release(board.rows, board.n_row) {
+            drop(release(row.cells, row.n_column));
         }
-        let layout = Layout::from_size_align_unchecked(board.n_row as usize, mem::size_of::<Row>());
-        dealloc(board.rows as *mut u8, layout);
     }
 }
 
@@ -221,21 +224,9 @@ pub extern "C" fn free_board(board: Board) {
 pub extern "C" fn free_board_poss(board_poss: BoardPossReturn) {
     // 由rust分配的局面内存，也应该由rust释放
     unsafe {
-        for i in 0..board_poss.board_poss.n_row {
-            let layout = Layout::from_size_align_unchecked(
-                (*(board_poss.board_poss.rows_poss)).n_column,
-                mem::size_of::<f64>(),
-            );
-            dealloc(
-                (*(board_poss.board_poss.rows_poss).offset(i as isize)).cells_poss as *mut u8,
-                layout,
-            );
+        for row in release(board_poss.board_poss.rows_poss, board_poss.board_poss.n_row) {
+            drop(release(row.cells_poss, row.n_column));
         }
-        let layout = Layout::from_size_align_unchecked(
-            board_poss.board_poss.n_row,
-            mem::size_of::<RowPoss>(),
-        );
-        dealloc(board_poss.board_poss.rows_poss as *mut u8, layout);
     }
 }
 
-- 
2.43.0


From 13e5bcf4b2e4adbc6756ba973477caabc850607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:17 +0000
Subject: [PATCH 57/58] fix: refresh_matrix leaves out zeros that touch covered
 cells

---
 base/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index bf466bd..93a90cd 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -127,7 +127,7 @@ pub fn refresh_matrix(
 
     for i in 0..row {
         for j in 0..column {
-            if game_board[i][j] > 0 && game_board[i][j] < 10 {
+            if game_board[i][j] >= 0 && game_board[i][j] < 10 {
                 let mut flag: bool = false;
                 for m in max(1, i) - 1..min(row, i + 2) {
                     for n in max(1, j) - 1..min(column, j + 2) {
-- 
2.43.0


From 5e9ec625f755dfe4669de88f4b738520001acda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:33 +0000
Subject: [PATCH 58/58] fix: a board of more than 255 rows or columns is
 encoded as a replay of a smaller one

---
 base/src/videos/base_video.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index f19e045..d0d2de6 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1827,8 +1827,8 @@ impl<T> BaseVideo<T> {
         if self.is_fair {
             self.raw_data[1] |= 0b0010_0000;
         }
-        self.raw_data.push(self.height as u8);
-        self.raw_data.push(self.width as u8);
+        self.raw_data.push(self.height.try_into().unwrap());
+        self.raw_data.push(self.width.try_into().unwrap());
         self.raw_data.push((self.mine_num >> 8).try_into().unwrap());
         self.raw_data
             .push((self.mine_num % 256).try_into().unwrap());
-- 
2.43.0

