From 1d8f48192101abdba74a52baa2fc6fa6ade71138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 01/26] fix: clamp a region's bottom edge against the height,
 not the width

---
 region.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region.go b/region.go
index ae93c48..b809c1e 100644
--- a/region.go
+++ b/region.go
@@ -43,6 +43,6 @@ func (r Region) Clamp(rc Region) Region {
 		X:  nx,
 		X2: clamp(r.X2, nx, rc.X2),
 		Y:  ny,
-		Y2: clamp(r.Y2, ny, rc.X2),
+		Y2: clamp(r.Y2, ny, rc.Y2),
 	}
 }
-- 
2.43.0


From e50f4c43b201998a5bbda3c7823169c1d43dc016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 02/26] fix: limit scroll distances to the region and ignore
 IL/DL outside it

---
 escapes.go     | 14 ++++++++++++--
 screen.go      |  7 ++++---
 screen_grid.go |  7 ++++---
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/escapes.go b/escapes.go
index a70bc01..56eb69a 100644
--- a/escapes.go
+++ b/escapes.go
@@ -252,6 +252,12 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 	return true
 }
 
+// cursorInScrollRegion reports whether the cursor row lies inside the scroll margins.
+func (t *terminal) cursorInScrollRegion() bool {
+	y := t.screen().CursorPos().Y
+	return y >= t.screen().TopMargin() && y <= t.screen().BottomMargin()
+}
+
 func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 	b, err := r.ReadByte()
@@ -642,7 +648,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), params[0])
+			if t.cursorInScrollRegion() {
+				t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), params[0])
+			}
 
 		case 'M': // Delete lines, scroll up
 			if paramCount == 0 {
@@ -650,7 +658,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), -params[0])
+			if t.cursorInScrollRegion() {
+				t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), -params[0])
+			}
 
 		case 'S': // Scroll up
 			if paramCount == 0 {
diff --git a/screen.go b/screen.go
index 4d652f9..efb77c7 100644
--- a/screen.go
+++ b/screen.go
@@ -3,7 +3,6 @@ package termemu
 import (
 	"bytes"
 	"fmt"
-	"os"
 	"strings"
 )
 
@@ -434,9 +433,11 @@ func (s *spanScreen) scroll(y1 int, y2 int, dy int) {
 	debugPrintln(debugScroll, "scroll:", y1, y2, dy)
 	y1 = clamp(y1, 0, s.size.Y-1)
 	y2 = clamp(y2, 0, s.size.Y-1)
-	if y1 > y2 {
-		fmt.Fprintln(os.Stderr, "scroll ys out of order", y1, y2, dy)
+	if y1 > y2 || dy == 0 {
+		return
 	}
+	// A distance larger than the region simply clears it.
+	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1)
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
diff --git a/screen_grid.go b/screen_grid.go
index 634d210..21d2da0 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -3,7 +3,6 @@ package termemu
 import (
 	"bytes"
 	"fmt"
-	"os"
 	"strings"
 	"unicode/utf8"
 
@@ -578,9 +577,11 @@ func (s *gridScreen) scroll(y1 int, y2 int, dy int) {
 	// if y < s.topMargin || y > s.bottomMargin {
 	// 	fmt.Println("scroll outside margin", y, s.topMargin, s.bottomMargin)
 	// }
-	if y1 > y2 {
-		fmt.Fprintln(os.Stderr, "scroll ys out of order", y1, y2, dy)
+	if y1 > y2 || dy == 0 {
+		return
 	}
+	// A distance larger than the region simply clears it.
+	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1)
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
-- 
2.43.0


From 26588d812ca9d513a7828d4dffdaa31d42b41f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 03/26] fix: CUD stops at the bottom of the screen, and an
 omitted motion count is 1

---
 escapes.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/escapes.go b/escapes.go
index 56eb69a..e0518b6 100644
--- a/escapes.go
+++ b/escapes.go
@@ -329,28 +329,28 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 	if prefix == 0 {
 		switch b {
 		case 'A': // Move cursor up
-			if paramCount == 0 {
+			if paramCount == 0 || params[0] == 0 {
 				paramStore[0] = 1
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
 			t.screen().moveCursor(0, -params[0], false, false)
 		case 'B': // Move cursor down
-			if paramCount == 0 {
+			if paramCount == 0 || params[0] == 0 {
 				paramStore[0] = 1
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().moveCursor(0, params[0], false, true)
+			t.screen().moveCursor(0, params[0], false, false)
 		case 'C': // Move cursor forward
-			if paramCount == 0 {
+			if paramCount == 0 || params[0] == 0 {
 				paramStore[0] = 1
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
 			t.screen().moveCursor(params[0], 0, false, false)
 		case 'D': // Move cursor backward
-			if paramCount == 0 {
+			if paramCount == 0 || params[0] == 0 {
 				paramStore[0] = 1
 				paramCount = 1
 				params = paramStore[:paramCount]
-- 
2.43.0


From e9e63b536eecfeccc9f95b038e3b5b89f6fa4002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 04/26] fix: line feeds and wraps scroll only when they cross a
 scroll region edge

---
 screen.go      |  9 +++++----
 screen_grid.go | 21 +++++++++++----------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/screen.go b/screen.go
index efb77c7..1b1f268 100644
--- a/screen.go
+++ b/screen.go
@@ -466,6 +466,7 @@ func (s *spanScreen) clampRegion(r Region) Region {
 }
 
 func (s *spanScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
+	startY := s.cursorPos.Y
 	if wrap && s.autoWrap {
 		s.cursorPos.X += dx
 		for s.cursorPos.X < 0 {
@@ -483,17 +484,17 @@ func (s *spanScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
 
 	s.cursorPos.Y += dy
 	if scroll {
-		if s.cursorPos.Y < s.topMargin {
+		// Only crossing an edge of the scroll region from within scrolls it.
+		if startY >= s.topMargin && s.cursorPos.Y < s.topMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.topMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.topMargin
 		}
-		if s.cursorPos.Y > s.bottomMargin {
+		if startY <= s.bottomMargin && s.cursorPos.Y > s.bottomMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.bottomMargin
 		}
-	} else {
-		s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	}
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	if s.cursorPos.Y >= s.size.Y {
 		panic(fmt.Sprintf("moveCursor outside, %v %v  %v, %v, %v, %v", s.cursorPos, s.size, dx, dy, wrap, scroll))
 	}
diff --git a/screen_grid.go b/screen_grid.go
index 21d2da0..95a9e7a 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -630,6 +630,7 @@ func (s *gridScreen) clampRegion(r Region) Region {
 }
 
 func (s *gridScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
+	startY := s.cursorPos.Y
 	if wrap && s.autoWrap {
 		s.cursorPos.X += dx
 		for s.cursorPos.X < 0 {
@@ -647,23 +648,23 @@ func (s *gridScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
 
 	s.cursorPos.Y += dy
 	if scroll {
-		if s.cursorPos.Y < s.topMargin {
+		// Only crossing an edge of the scroll region from within scrolls it.
+		if startY >= s.topMargin && s.cursorPos.Y < s.topMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.topMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.topMargin
 		}
-		if s.cursorPos.Y > s.bottomMargin {
+		if startY <= s.bottomMargin && s.cursorPos.Y > s.bottomMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.bottomMargin
 		}
-	} else {
-		/*for s.cursorPos.Y < 0 {
-			s.cursorPos.Y += s.size.Y
-		}
-		for s.cursorPos.Y >= s.size.Y {
-			s.cursorPos.Y -= s.size.Y
-		}*/
-		s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	}
+	/*for s.cursorPos.Y < 0 {
+		s.cursorPos.Y += s.size.Y
+	}
+	for s.cursorPos.Y >= s.size.Y {
+		s.cursorPos.Y -= s.size.Y
+	}*/
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	if s.cursorPos.Y >= s.size.Y {
 		panic(fmt.Sprintf("moveCursor outside, %v %v  %v, %v, %v, %v", s.cursorPos, s.size, dx, dy, wrap, scroll))
 	}
-- 
2.43.0


From 7e0d9d8e6bd3bef2a9416cb87d8c5c3a7710694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 05/26] fix: saturate CSI parameters and keep all of them

---
 escapes.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/escapes.go b/escapes.go
index e0518b6..b132e27 100644
--- a/escapes.go
+++ b/escapes.go
@@ -252,6 +252,9 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 	return true
 }
 
+// maxCSIParam is the value larger CSI parameters saturate at.
+const maxCSIParam = 1 << 24
+
 // cursorInScrollRegion reports whether the cursor row lies inside the scroll margins.
 func (t *terminal) cursorInScrollRegion() bool {
 	y := t.screen().CursorPos().Y
@@ -282,6 +285,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 	// This cannot escape to the heap! Use append([]int(nil), params...) instead of params to make a copy if needed, such as to debug calls
 	var paramStore [8]int
+	params := paramStore[:0]
 	paramCount := 0
 	param := 0
 	paramSet := false
@@ -292,15 +296,15 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			if paramSet || sawSeparator || paramCount > 0 {
 				value = param
 			}
-			if paramCount < len(paramStore) {
-				paramStore[paramCount] = value
-				paramCount++
-			}
+			params = append(params, value)
+			paramCount++
 			param = 0
 			paramSet = false
 			sawSeparator = true
 		} else {
-			param = param*10 + int(b-'0')
+			if param = param*10 + int(b-'0'); param > maxCSIParam {
+				param = maxCSIParam
+			}
 			paramSet = true
 			sawSeparator = false
 		}
@@ -318,14 +322,10 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		if paramSet {
 			value = param
 		}
-		if paramCount < len(paramStore) {
-			paramStore[paramCount] = value
-			paramCount++
-		}
+		params = append(params, value)
+		paramCount++
 	}
 
-	params := paramStore[:paramCount]
-
 	if prefix == 0 {
 		switch b {
 		case 'A': // Move cursor up
-- 
2.43.0


From d776e365a5ba236eff51e8f3848c14ff9524e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:44 +0000
Subject: [PATCH 06/26] fix: make ?1049 level-triggered and announce the cursor
 and style of the buffer it shows

---
 escapes.go  | 4 +++-
 terminal.go | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index b132e27..c2f418f 100644
--- a/escapes.go
+++ b/escapes.go
@@ -828,7 +828,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 					debugPrintf(debugTodo, "TODO: Interpret Meta key = %v\n", value)
 
 				case 1049: // Save/Restore cursor and alternate screen
-					t.switchScreen()
+					if value != t.onAltScreen {
+						t.switchScreen()
+					}
 
 				case 2004: // Bracketed paste
 					t.setViewFlag(VFBracketedPaste, value)
diff --git a/terminal.go b/terminal.go
index 245d013..49d43da 100644
--- a/terminal.go
+++ b/terminal.go
@@ -327,9 +327,14 @@ func (t *terminal) WithLock(f func()) {
 }
 
 func (t *terminal) switchScreen() {
+	style := t.screen().Style()
 	t.onAltScreen = !t.onAltScreen
+	// The current rendition is the terminal's, not the buffer's.
+	t.screen().setStyle(style)
 	size := t.screen().Size()
 	t.frontend.RegionChanged(Region{X: 0, Y: 0, X2: size.X, Y2: size.Y}, CRScreenSwitch)
+	pos := t.screen().CursorPos()
+	t.frontend.CursorMoved(pos.X, pos.Y)
 }
 
 // testHandleCommand is only for testing.
-- 
2.43.0


From d39ca7bc38d17a28fd53ebac280e441f9d02b23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:25 +0000
Subject: [PATCH 07/26] fix: bring the cursor, saved cursor and margins inside
 the screen on resize and announce them

---
 screen.go      | 14 +++++++-------
 screen_grid.go | 15 +++++++--------
 terminal.go    |  5 +++++
 3 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/screen.go b/screen.go
index 1b1f268..143a854 100644
--- a/screen.go
+++ b/screen.go
@@ -273,19 +273,19 @@ func (s *spanScreen) setSize(w, h int) {
 
 	s.lines = newLines
 
-	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
+	s.topMargin = clamp(s.topMargin, 0, h-1)
+	s.bottomMargin = clamp(h-(s.size.Y-s.bottomMargin), 0, h-1)
+	if s.topMargin > s.bottomMargin {
+		s.topMargin, s.bottomMargin = 0, h-1
+	}
 
 	s.size = Pos{X: w, Y: h}
 
 	// Resize buffers
 	s.renderBuffer = make([]rune, w)
 
-	if s.cursorPos.X > w {
-		s.cursorPos.X = 0
-	}
-	if s.cursorPos.Y > h {
-		s.cursorPos.Y = 0
-	}
+	s.cursorPos = Pos{X: clamp(s.cursorPos.X, 0, w-1), Y: clamp(s.cursorPos.Y, 0, h-1)}
+	s.savedCursorPos = Pos{X: clamp(s.savedCursorPos.X, 0, w-1), Y: clamp(s.savedCursorPos.Y, 0, h-1)}
 
 	s.setStyle(s.style)
 }
diff --git a/screen_grid.go b/screen_grid.go
index 95a9e7a..b8ae11f 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -266,17 +266,16 @@ func (s *gridScreen) setSize(w, h int) {
 	}
 	s.cellStyles = styleRect
 
-	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
+	s.topMargin = clamp(s.topMargin, 0, h-1)
+	s.bottomMargin = clamp(h-(s.size.Y-s.bottomMargin), 0, h-1)
+	if s.topMargin > s.bottomMargin {
+		s.topMargin, s.bottomMargin = 0, h-1
+	}
 
 	s.size = Pos{X: w, Y: h}
 
-	// TODO: Logic for cursor position on resize?
-	if s.cursorPos.X > w {
-		s.cursorPos.X = 0
-	}
-	if s.cursorPos.Y > h {
-		s.cursorPos.Y = 0
-	}
+	s.cursorPos = Pos{X: clamp(s.cursorPos.X, 0, w-1), Y: clamp(s.cursorPos.Y, 0, h-1)}
+	s.savedCursorPos = Pos{X: clamp(s.savedCursorPos.X, 0, w-1), Y: clamp(s.savedCursorPos.Y, 0, h-1)}
 
 	s.setStyle(s.style)
 }
diff --git a/terminal.go b/terminal.go
index 49d43da..8ab1df5 100644
--- a/terminal.go
+++ b/terminal.go
@@ -147,6 +147,11 @@ func (t *terminal) Resize(w, h int) error {
 	t.mainScreen.setSize(w, h)
 	t.altScreen.setSize(w, h)
 
+	// Both buffers report their style and the cursor may have been moved inside.
+	t.screen().setStyle(t.screen().Style())
+	pos := t.screen().CursorPos()
+	t.frontend.CursorMoved(pos.X, pos.Y)
+
 	if t.backend == nil {
 		return nil
 	}
-- 
2.43.0


From 79c873b1c00faeebcb06c67d4fd5cddc5d37e8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 08/26] fix: EL 1 erases up to and including the cursor cell

---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index c2f418f..819ce88 100644
--- a/escapes.go
+++ b/escapes.go
@@ -573,7 +573,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				t.screen().eraseRegion(Region{
 					X:  0,
 					Y:  t.screen().CursorPos().Y,
-					X2: t.screen().CursorPos().X,
+					X2: t.screen().CursorPos().X + 1,
 					Y2: t.screen().CursorPos().Y + 1,
 				}, CRClear)
 			case params[0] == 2: // Erase entire line
-- 
2.43.0


From 6acb035536531a699a5c91e0d6e6a6c4a3a7ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 09/26] fix: ignore an inverted DECSTBM and default its omitted
 bottom to the last row

---
 escapes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 819ce88..b08d522 100644
--- a/escapes.go
+++ b/escapes.go
@@ -705,9 +705,12 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			if len(params) >= 1 {
 				top = params[0]
 			}
-			if len(params) >= 2 {
+			if len(params) >= 2 && params[1] > 0 {
 				bottom = params[1]
 			}
+			if top > bottom {
+				return true
+			}
 			// debugPrintf("cursor home: %v, %v\n", x, y)
 			t.screen().setScrollMarginTopBottom(top-1, bottom-1)
 
-- 
2.43.0


From 5044892f20dcb3f51e63f8dcb3e5dc8f096a6ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 10/26] fix: answer the primary device attributes query when
 its parameter is omitted

---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index b08d522..b6f1d7c 100644
--- a/escapes.go
+++ b/escapes.go
@@ -367,7 +367,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 		case 'c': // Send Device Attributes
 			if paramCount == 0 {
-				paramStore[0] = 1
+				paramStore[0] = 0
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-- 
2.43.0


From a15703cce392b07ded75923420a21a8f6a10d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 11/26] fix: do not read a truncated extended colour as text
 modes

---
 escapes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/escapes.go b/escapes.go
index b6f1d7c..7ca952d 100644
--- a/escapes.go
+++ b/escapes.go
@@ -514,11 +514,15 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 								}
 								style.SetColorRGB(component, params[i+2], params[i+3], params[i+4])
 								i += 4
+							} else {
+								i = len(params) // truncated
 							}
 						default:
 							debugPrintln(debugTodo, "TODO: unhandled extended color: ", params[i+1])
 							continue
 						}
+					} else if i+1 < len(params) && (params[i+1] == 5 || params[i+1] == 2) {
+						i = len(params) // truncated
 					}
 
 				case p >= 90 && p <= 97:
-- 
2.43.0


From dfe2359e4051a4c39473ba92ded546c134d50766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 12/26] fix: consume escape and CSI sequences with intermediate
 or unsupported parameter bytes whole

---
 escapes.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 7ca952d..2ea6ff4 100644
--- a/escapes.go
+++ b/escapes.go
@@ -228,7 +228,9 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 			}
 			return false
 		}
-		_ = C
+		if C >= 0x20 && C <= 0x2f {
+			return t.skipSequence(r, 0x30)
+		}
 		return true
 
 	case '=': // Application Keypad
@@ -247,11 +249,31 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 		debugPrintln("Memory Unlock") // TODO*/
 
 	default:
+		if b >= 0x20 && b <= 0x2f {
+			t.skipSequence(r, 0x30)
+		}
 		return false
 	}
 	return true
 }
 
+// skipSequence discards the rest of an unsupported escape sequence, up to and
+// including its final byte, which is the first one from lowestFinal on.
+func (t *terminal) skipSequence(r escapeReader, lowestFinal byte) bool {
+	for {
+		b, err := r.ReadByte()
+		if err != nil {
+			if err != io.EOF {
+				debugPrintln(debugErrors, "ERR ReadByteSkip:", err)
+			}
+			return false
+		}
+		if b < 0x20 || b >= lowestFinal {
+			return true
+		}
+	}
+}
+
 // maxCSIParam is the value larger CSI parameters saturate at.
 const maxCSIParam = 1 << 24
 
@@ -326,6 +348,12 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		paramCount++
 	}
 
+	if b >= 0x20 && b <= 0x3f {
+		// No supported command has intermediate bytes or other parameter bytes.
+		t.skipSequence(r, 0x40)
+		return true
+	}
+
 	if prefix == 0 {
 		switch b {
 		case 'A': // Move cursor up
-- 
2.43.0


From 2e3b501e79874130bb80403e342572e053ab0afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 13/26] fix: consume OSC strings whole and do not end a string
 inside a UTF-8 character

---
 escapes.go | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/escapes.go b/escapes.go
index 2ea6ff4..9b68708 100644
--- a/escapes.go
+++ b/escapes.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"unicode/utf8"
 )
 
 // colorModes maps SGR codes 1-7 to their Mode values
@@ -992,7 +993,7 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 				}
 				return false
 			}
-			if b == 7 || b == 0x9c { // BEL , ST
+			if b == 7 || b == 0x9c && !inPartialRune(param2) { // BEL , ST
 				break
 			}
 			if len(param2) > 0 && param2[len(param2)-1] == 27 && b == '\\' { // ESC \ is also ST
@@ -1003,8 +1004,30 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 			param2 = append(param2, byte(b))
 		}
 	} else if b != 7 && b != 0x9c { // BEL, ST
-		debugPrintln(debugErrors, "OSC command number not followed by ;, BEL, or ST?", b)
-		return false
+		// Not a command number: consume the string, but only "ESC \" right
+		// after the number leaves a command to run.
+		rest := []byte{b}
+		for rest[len(rest)-1] != 7 {
+			b, err = r.ReadByte()
+			if err != nil {
+				if err != io.EOF {
+					debugPrintln(debugErrors, "ERR ReadByte10:", err)
+				}
+				return false
+			}
+			if b == 0x9c && !inPartialRune(rest) || b == '\\' && rest[len(rest)-1] == 27 {
+				break
+			}
+			rest = append(rest, b)
+		}
+		if b != '\\' || len(rest) != 1 || len(paramBytes) == 0 {
+			debugPrintln(debugErrors, "OSC command number not followed by ;, BEL, or ST?", rest)
+			return false
+		}
+	}
+	if len(paramBytes) == 0 {
+		debugPrintln(debugTodo, "TODO: Unhandled OSC without a number: ", string(param2))
+		return true
 	}
 
 	switch param {
@@ -1049,6 +1072,7 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 
 func (t *terminal) handleDCS(r escapeReader) bool {
 	prev := byte(0)
+	var tail []byte // the last bytes of the payload
 	var payload []byte
 	for {
 		b, err := r.ReadByte()
@@ -1058,7 +1082,7 @@ func (t *terminal) handleDCS(r escapeReader) bool {
 			}
 			return false
 		}
-		if b == 0x9c {
+		if b == 0x9c && !inPartialRune(tail) {
 			if *debugCmd {
 				debugPrintf(debugCmd, "DCS payload: %q\n", string(payload))
 			}
@@ -1077,5 +1101,20 @@ func (t *terminal) handleDCS(r escapeReader) bool {
 			payload = append(payload, b)
 		}
 		prev = b
+		if len(tail) == utf8.UTFMax-1 {
+			tail = append(tail[:0], tail[1:]...)
+		}
+		tail = append(tail, b)
+	}
+}
+
+// inPartialRune reports whether p ends inside a UTF-8 sequence, so that the
+// next byte can be a continuation byte rather than a C1 control.
+func inPartialRune(p []byte) bool {
+	for i := len(p) - 1; i >= 0 && i > len(p)-utf8.UTFMax; i-- {
+		if utf8.RuneStart(p[i]) {
+			return !utf8.FullRune(p[i:])
+		}
 	}
+	return false
 }
-- 
2.43.0


From d47e66abec813ea4e878b09165de111ad3171596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 14/26] fix: replaced cells take the whole style, leave no
 empty runs and split at cluster boundaries

---
 screen.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/screen.go b/screen.go
index 143a854..a63bb66 100644
--- a/screen.go
+++ b/screen.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 type screen interface {
@@ -620,7 +621,7 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 		return left, right, Span{}
 	}
 
-	if mode == TextReadModeRune && sp.Width == len(sp.Text) {
+	if mode == TextReadModeRune && sp.Width == len(sp.Text) && isASCII(sp.Text) {
 		// Simple mode where each rune is one cell - can't have wide clusters
 		leftText := sp.Text[:cellOffset]
 		rightText := sp.Text[cellOffset:]
@@ -649,7 +650,10 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 		}
 
 		clusterEnd := cellPos + width
-		if cellOffset >= cellPos && cellOffset < clusterEnd {
+		if cellOffset == cellPos {
+			break
+		}
+		if cellOffset > cellPos && cellOffset < clusterEnd {
 			// Split point is within this cluster
 			if width > 1 {
 				// We're breaking a wide cluster - return the wide char we're splitting
@@ -695,6 +699,16 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 	return left, right, Span{}
 }
 
+// isASCII reports whether every character of text is a single byte, one cell wide.
+func isASCII(text string) bool {
+	for i := 0; i < len(text); i++ {
+		if text[i] >= utf8.RuneSelf {
+			return false
+		}
+	}
+	return true
+}
+
 func byteIndexForCell(text []byte, cellOffset int, mode TextReadMode) (int, int) {
 	if cellOffset <= 0 || len(text) == 0 {
 		return 0, 0
@@ -796,7 +810,9 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 	spans := line.spans
 	// Handle empty lines by inserting directly.
 	if len(spans) == 0 {
-		line.spans = append(line.spans[:0], insert)
+		if insert.Width > 0 {
+			line.spans = append(line.spans[:0], insert)
+		}
 		line.width = insert.Width
 		return
 	}
@@ -850,7 +866,10 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 		}
 	}
 	if x == 0 && n >= totalWidth {
-		line.spans = append(line.spans[:0], insert)
+		line.spans = line.spans[:0]
+		if insert.Width > 0 {
+			line.spans = append(line.spans, insert)
+		}
 		line.width = insert.Width
 		return
 	}
@@ -867,21 +886,16 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 	// Fast paths for in-place replacements inside a single span.
 	if startIdx == endIdx {
 		sp := spans[startIdx]
-		if startOffset == 0 && endOffset == sp.Width {
+		if startOffset == 0 && endOffset == sp.Width && insert.Width > 0 {
 			spans[startIdx] = insert
 			line.width = totalWidth - n + insert.Width
 			return
 		}
-		// Compare styles
-		spFG, _, _ := sp.Style.GetColor(ComponentFG)
-		insertFG, _, _ := insert.Style.GetColor(ComponentFG)
-		spBG, _, _ := sp.Style.GetColor(ComponentBG)
-		insertBG, _, _ := insert.Style.GetColor(ComponentBG)
-		if insert.Width == n && spFG == insertFG && spBG == insertBG {
+		if insert.Width == n && sp.Style == insert.Style {
 			if sp.Text == "" && insert.Text == "" && sp.Rune == insert.Rune {
 				return
 			}
-			if sp.Text != "" && insert.Text != "" && mode == TextReadModeRune && sp.Width == len(sp.Text) && insert.Width == len(insert.Text) {
+			if sp.Text != "" && insert.Text != "" && mode == TextReadModeRune && sp.Width == len(sp.Text) && insert.Width == len(insert.Text) && isASCII(sp.Text) && isASCII(insert.Text) {
 				sp.Text = sp.Text[:startOffset] + insert.Text + sp.Text[startOffset+n:]
 				spans[startIdx] = sp
 				line.width = totalWidth
-- 
2.43.0


From 49a6537756f60556d395ff4aea0d00d7234084bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 15/26] fix: keep rows well-formed around wide characters in
 the span buffer

Erasing, deleting, overwriting, resizing and reading across half of a wide
character blanks the other half, an insert after a wide character no longer
makes the row wider than the screen, text is placed character by character
where it does not fit in the row, a merged fragment only joins the cell it
forms one character with, and invalid bytes become U+FFFD.
---
 screen.go | 212 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 140 insertions(+), 72 deletions(-)

diff --git a/screen.go b/screen.go
index a63bb66..771a89b 100644
--- a/screen.go
+++ b/screen.go
@@ -199,14 +199,23 @@ func (s *spanScreen) StyledLine(x, w, y int) Line {
 			if offset == 0 && width == sp.Width {
 				spans = append(spans, sp)
 			} else {
-				// We need a sub-span
-				_, sub, _ := splitSpan(sp, offset, s.textMode) // skip left part
-				// now sub is from offset to end. we might need to truncate it if it's too long
-				if sub.Width > width {
-					keep, _, _ := splitSpan(sub, width, s.textMode)
-					spans = append(spans, keep)
-				} else {
-					spans = append(spans, sub)
+				// We need a sub-span. The visible half of a wide character
+				// that is cut by the edge shows as blanks.
+				_, sub, wide := splitSpan(sp, offset, s.textMode) // skip left part
+				if wide.Width > 0 {
+					blank := min(sp.Width-sub.Width-offset, width)
+					spans = append(spans, Span{Style: sp.Style, Rune: ' ', Width: blank})
+					width -= blank
+				}
+				if width > 0 {
+					// now sub starts inside the region. we might need to truncate it if it's too long
+					keep, _, wide := splitSpan(sub, width, s.textMode)
+					if keep.Width > 0 {
+						spans = append(spans, keep)
+					}
+					if wide.Width > 0 {
+						spans = append(spans, Span{Style: sp.Style, Rune: ' ', Width: width - keep.Width})
+					}
 				}
 			}
 		}
@@ -299,6 +308,9 @@ func (s *spanScreen) eraseRegion(r Region, cr ChangeReason) {
 
 	for i := r.Y; i < r.Y2; i++ {
 		debugPrintln(debugErase, "erase: ", r.X, i, emptySpan.Width)
+		if emptySpan.Width > 0 {
+			s.breakWideAt(i, r.X)
+		}
 		s.rawWriteSpan(r.X, i, emptySpan, cr)
 	}
 }
@@ -316,15 +328,32 @@ func (s *spanScreen) writeString(text string, width int, merge bool, mode TextRe
 		return
 	}
 	s.textMode = mode
-	if merge {
-		s.mergeIntoPreviousCell(text)
+	text = string([]rune(text)) // invalid bytes become replacement characters
+	if ch, start, ok := charAt(&s.lines[s.cursorPos.Y], s.cursorPos.X, mode); !merge && width > 0 &&
+		s.cursorPos.X+width <= s.size.X && !(ok && start < s.cursorPos.X && ch.Width > 1) {
+		s.writeCells(text, width)
 		return
 	}
-	if width < 1 {
-		width = 1
+	// Part of the text wraps, is pinned to the edge or moves other cells.
+	for buf := []byte(text); len(buf) > 0; {
+		cluster, consumed, cellWidth, _, ok := stepTextCluster(buf, -1, mode)
+		if !ok || consumed <= 0 {
+			return
+		}
+		if !merge {
+			s.writeCells(string(cluster), max(cellWidth, 1))
+		} else if !s.mergeIntoPreviousCell(string(cluster)) && cellWidth > 0 {
+			s.writeCells(string(cluster), cellWidth)
+		}
+		buf = buf[consumed:]
 	}
+}
+
+// writeCells writes text at the cursor. Unless it fits in the row, text is a single character.
+func (s *spanScreen) writeCells(text string, width int) {
 	if width > s.size.X {
-		width = s.size.X
+		// No row can hold this character.
+		text, width = string(utf8.RuneError), 1
 	}
 	if s.cursorPos.X+width > s.size.X {
 		if s.autoWrap {
@@ -366,10 +395,40 @@ func (s *spanScreen) rawWriteSpan(x int, y int, sp Span, cr ChangeReason) {
 	if y >= s.size.Y || x+sp.Width > s.size.X {
 		panic(fmt.Sprintf("rawWriteSpan out of range: %v  %v,%v,%v %v\n", s.size, x, y, x+sp.Width, sp.Width))
 	}
+	if ch, start, ok := charAt(&s.lines[y], x, s.textMode); ok && start < x {
+		// A write that starts on the second half of a wide character goes after it.
+		if end := start + ch.Width; end+sp.Width <= s.size.X {
+			s.insertAfterWide(x, y, end, sp, cr)
+			return
+		}
+		s.breakWideAt(y, x)
+	}
+	s.breakWideAt(y, x+sp.Width)
 	replaceRange(&s.lines[y], x, sp.Width, sp, s.textMode)
 	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + sp.Width}, cr)
 }
 
+// insertAfterWide replaces the cells from x with sp, but keeps the wide character
+// that covers x and ends at end: sp goes after it and the rest of the row moves right.
+func (s *spanScreen) insertAfterWide(x, y, end int, sp Span, cr ChangeReason) {
+	line := &s.lines[y]
+	if n := x + sp.Width - end; n > 0 {
+		s.breakWideAt(y, end+n)
+		replaceRange(line, end, n, Span{}, s.textMode)
+	}
+	insertSpan(line, end, sp, s.textMode)
+	breakWide(line, s.size.X, s.style, s.textMode)
+	truncateLine(line, s.size.X, s.textMode)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: end, X2: s.size.X}, cr)
+}
+
+// breakWideAt blanks the wide character that straddles the left edge of column x, if any.
+func (s *spanScreen) breakWideAt(y, x int) {
+	if start, end, ok := breakWide(&s.lines[y], x, s.style, s.textMode); ok {
+		s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: start, X2: end}, CRClear)
+	}
+}
+
 func (s *spanScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
 	if width < 1 {
 		width = 1
@@ -404,6 +463,8 @@ func (s *spanScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 		n = s.size.X - x
 	}
 
+	s.breakWideAt(y, x)
+	s.breakWideAt(y, x+n)
 	line := &s.lines[y]
 	// Delete characters from x to x+n, shift remaining chars left, and append spaces at the end
 	replaceRange(line, x, n, Span{}, s.textMode)
@@ -578,6 +639,7 @@ func blankSpanLine(width int, style Style) spanLine {
 func resizeLine(line *spanLine, width int, style Style, mode TextReadMode) {
 	cur := lineCellWidth(line)
 	if cur > width {
+		breakWide(line, width, style, mode)
 		truncateLine(line, width, mode)
 		return
 	}
@@ -587,6 +649,56 @@ func resizeLine(line *spanLine, width int, style Style, mode TextReadMode) {
 	line.width = width
 }
 
+// charAt finds the character that covers column x, and the column it starts at.
+func charAt(line *spanLine, x int, mode TextReadMode) (ch Span, start int, ok bool) {
+	if x < 0 {
+		return Span{}, 0, false
+	}
+	pos := 0
+	for _, sp := range line.spans {
+		if x >= pos+sp.Width {
+			pos += sp.Width
+			continue
+		}
+		ch = sp
+		ch.Width = 1
+		if sp.Text == "" {
+			return ch, x, true
+		}
+		if sp.Width == len(sp.Text) && isASCII(sp.Text) {
+			ch.Text = sp.Text[x-pos : x-pos+1]
+			return ch, x, true
+		}
+		text := []byte(sp.Text)
+		for len(text) > 0 {
+			cluster, consumed, width, _, ok := stepTextCluster(text, -1, mode)
+			if !ok || consumed <= 0 {
+				return Span{}, 0, false
+			}
+			if x < pos+width {
+				ch.Text = string(cluster)
+				ch.Width = width
+				return ch, pos, true
+			}
+			pos += width
+			text = text[consumed:]
+		}
+		return Span{}, 0, false
+	}
+	return Span{}, 0, false
+}
+
+// breakWide blanks the wide character that straddles the left edge of column x, if
+// any, and returns the columns it covered.
+func breakWide(line *spanLine, x int, style Style, mode TextReadMode) (start, end int, ok bool) {
+	ch, start, ok := charAt(line, x, mode)
+	if !ok || start >= x {
+		return 0, 0, false
+	}
+	replaceRange(line, start, ch.Width, Span{Style: style, Rune: ' ', Width: ch.Width}, mode)
+	return start, start + ch.Width, true
+}
+
 func lineCellWidth(line *spanLine) int {
 	if line == nil {
 		return 0
@@ -730,29 +842,6 @@ func byteIndexForCell(text []byte, cellOffset int, mode TextReadMode) (int, int)
 	return idx, width
 }
 
-// findSpanAtX returns the span index at position x and the offset within that span.
-// It does NOT modify the line. The returned index points to the span that contains x.
-// If x exactly matches a span boundary, it returns the index of the span after the boundary.
-func findSpanAtX(line *spanLine, x int) (int, int) {
-	if x <= 0 {
-		return 0, 0
-	}
-	pos := 0
-	for i := 0; i < len(line.spans); i++ {
-		sp := line.spans[i]
-		next := pos + sp.Width
-		if x == next {
-			return i + 1, 0
-		}
-		if x < next {
-			offset := x - pos
-			return i, offset
-		}
-		pos = next
-	}
-	return len(line.spans), 0
-}
-
 // func mergeAdjacent(line *spanLine) {
 // 	if len(line.spans) < 2 {
 // 		return
@@ -1038,46 +1127,25 @@ func truncateLine(line *spanLine, width int, mode TextReadMode) {
 	replaceRange(line, width, lineCellWidth(line)-width, Span{}, mode)
 }
 
-func (s *spanScreen) mergeIntoPreviousCell(text string) {
-	if s.cursorPos.X <= 0 {
-		return
-	}
+// mergeIntoPreviousCell appends text to the character before the cursor. It reports
+// false, and changes nothing, when the two do not form one character of the same width.
+func (s *spanScreen) mergeIntoPreviousCell(text string) bool {
 	y := s.cursorPos.Y
-	line := &s.lines[y]
-	cell := s.cursorPos.X - 1
-
-	// Find the span at cell position
-	idx, offset := findSpanAtX(line, cell)
-	if idx >= len(line.spans) {
-		return
+	ch, start, ok := charAt(&s.lines[y], s.cursorPos.X-1, s.textMode)
+	if !ok {
+		return false
 	}
-
-	sp := &line.spans[idx]
-
-	// If we're at an offset within the span, we need to split it first
-	if offset > 0 {
-		left, right, _ := splitSpan(*sp, offset, s.textMode)
-
-		// Update spans: replace current span with left and right
-		newSpans := make([]Span, 0, len(line.spans)+1)
-		newSpans = append(newSpans, line.spans[:idx]...)
-		newSpans = append(newSpans, left, right)
-		newSpans = append(newSpans, line.spans[idx+1:]...)
-		line.spans = newSpans
-
-		// Now the cell we want to merge into is at idx+1
-		idx++
+	if ch.Text == "" {
+		ch.Text = string(ch.Rune)
 	}
-
-	// Convert repeat to text if needed and merge
-	sp = &line.spans[idx]
-	if sp.Text == "" {
-		sp.Text = strings.Repeat(string(sp.Rune), sp.Width)
+	ch.Text += text
+	_, consumed, width, _, ok := stepTextCluster([]byte(ch.Text), -1, s.textMode)
+	if !ok || consumed != len(ch.Text) || width != ch.Width {
+		return false
 	}
-	sp.Text += text
-	// Width doesn't change for merge
-
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: cell, X2: cell + 1}, CRText)
+	replaceRange(&s.lines[y], start, ch.Width, ch, s.textMode)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: start, X2: start + ch.Width}, CRText)
+	return true
 }
 
 func max(a, b int) int {
-- 
2.43.0


From b088404548c22e098cfcb2d7c37aa6b6f5f04f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 16/26] fix: tokenize grapheme clusters independently of reads,
 flags and zero-width characters

---
 grapheme_reader.go | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index ff06e11..b26f6d1 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -1,6 +1,7 @@
 package termemu
 
 import (
+	"bytes"
 	"io"
 	"unicode"
 	"unicode/utf8"
@@ -41,6 +42,9 @@ type GraphemeReader struct {
 
 const graphemeReadBufferSize = 4096
 
+// maxEmptyReads is how often in a row the source may return no data and no error.
+const maxEmptyReads = 100
+
 func NewGraphemeReader(src io.Reader) *GraphemeReader {
 	return NewGraphemeReaderWithMode(src, TextReadModeRune)
 }
@@ -64,6 +68,9 @@ func (r *GraphemeReader) ReadByte() (byte, error) {
 	}
 	b := r.data[r.start]
 	r.start++
+	// A control byte ends any pending cluster.
+	r.forceMergeNext = false
+	r.lastWasRI = false
 	return b, nil
 }
 
@@ -125,7 +132,7 @@ func (r *GraphemeReader) ReadPrintableBytes(maxWidth int) (string, int, bool, er
 			}
 			break
 		}
-		if mergeRun && !merge {
+		if merge != mergeRun && r.start > runStart {
 			break
 		}
 
@@ -237,11 +244,16 @@ func (r *GraphemeReader) fill() error {
 		copy(newBuf, r.data[:r.end])
 		r.data = newBuf
 	}
-	n, err := r.src.Read(r.data[r.end:])
-	if n > 0 {
-		r.end += n
+	for range maxEmptyReads {
+		n, err := r.src.Read(r.data[r.end:])
+		if n > 0 {
+			r.end += n
+		}
+		if n > 0 || err != nil {
+			return err
+		}
 	}
-	return err
+	return io.ErrNoProgress
 }
 
 func isPrintableByte(b byte) bool {
@@ -280,6 +292,9 @@ func stepGraphemeCluster(buf []byte, state int) ([]byte, int, int, int, bool) {
 		return nil, 0, 0, state, false
 	}
 	width := boundaries >> uniseg.ShiftWidth
+	if width < 1 && !isCombiningOnly(cluster) && !isZWJOnly(cluster) && !isVariationSelectorOnly(cluster) {
+		width = 1
+	}
 	consumed := len(buf) - len(rest)
 	return cluster, consumed, width, newState, true
 }
@@ -300,7 +315,8 @@ func nextRuneTokenInfo(buf []byte, state int, forceMergeNext bool, lastWasRI boo
 }
 
 func nextGraphemeTokenInfo(buf []byte, state int, forceMergeNext bool, lastWasRI bool) ([]byte, int, int, bool, int, bool, bool, bool) {
-	cluster, consumed, width, newState, ok := stepGraphemeCluster(buf, state)
+	// buf may hold bytes the state was not computed with, so every cluster starts afresh.
+	cluster, consumed, width, newState, ok := stepGraphemeCluster(buf, -1)
 	if !ok {
 		return nil, 0, 0, false, state, forceMergeNext, lastWasRI, false
 	}
@@ -316,6 +332,7 @@ func nextGraphemeTokenInfo(buf []byte, state int, forceMergeNext bool, lastWasRI
 	switch {
 	case isCombiningOnly(cluster):
 		merge = true
+		nextForceMergeNext = bytes.HasSuffix(cluster, []byte("\u200d"))
 	case isZWJOnly(cluster):
 		merge = true
 		nextForceMergeNext = true
@@ -347,7 +364,7 @@ func isCombiningOnly(b []byte) bool {
 		if r == utf8.RuneError && size == 1 {
 			return false
 		}
-		if !unicode.Is(unicode.Mn, r) && !unicode.Is(unicode.Me, r) {
+		if !unicode.Is(unicode.Mn, r) && !unicode.Is(unicode.Me, r) && r != '\u200d' {
 			return false
 		}
 		b = b[size:]
@@ -386,16 +403,8 @@ func isVariationSelectorOnly(b []byte) bool {
 	return true
 }
 
+// isRegionalIndicator reports whether b is a single regional indicator, half a flag.
 func isRegionalIndicator(b []byte) bool {
-	if len(b) == 0 {
-		return false
-	}
-	for len(b) > 0 {
-		r, size := utf8.DecodeRune(b)
-		if r < 0x1f1e6 || r > 0x1f1ff {
-			return false
-		}
-		b = b[size:]
-	}
-	return true
+	r, size := utf8.DecodeRune(b)
+	return size == len(b) && r >= 0x1f1e6 && r <= 0x1f1ff
 }
-- 
2.43.0


From b1644fabbb5c9a0b0c0c9b747497976abc4a701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 17/26] fix: keep grid rows well-formed around wide characters
 and clusters

The grid buffer breaks wide characters at both edges of a change, stores and
renders a whole cluster per cell, announces merged fragments and handles
characters wider than the screen like the span buffer.
---
 screen_grid.go | 205 ++++++++++++++++++++++---------------------------
 1 file changed, 92 insertions(+), 113 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index b8ae11f..5c19464 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -77,17 +77,8 @@ func (s *gridScreen) getLine(y int) []rune {
 }
 
 func (s *gridScreen) Line(y int) string {
-	line := s.chars[y]
-	// Convert null bytes (wide character continuation markers) to spaces
-	result := make([]rune, len(line))
-	for i, r := range line {
-		if r == 0 {
-			result[i] = ' '
-		} else {
-			result[i] = r
-		}
-	}
-	return string(result)
+	// Continuation cells of wide characters have no text of their own.
+	return strings.Join(s.cellText[y], "")
 }
 
 func (s *gridScreen) StyledLine(x, w, y int) Line {
@@ -120,7 +111,7 @@ func (s *gridScreen) StyledLine(x, w, y int) Line {
 		isRepeat := true
 		for k := 0; k < width; k++ {
 			idx := start + k
-			if text[idx] != firstRune || s.cellWidth[y][idx] != 1 || s.cellCont[y][idx] {
+			if text[idx] != firstRune || cellText[idx] != string(firstRune) || s.cellWidth[y][idx] != 1 || s.cellCont[y][idx] {
 				isRepeat = false
 				break
 			}
@@ -134,15 +125,23 @@ func (s *gridScreen) StyledLine(x, w, y int) Line {
 			spanWidth := 0
 			for k := 0; k < width; k++ {
 				idx := start + k
+				base := idx
+				for base > 0 && s.cellCont[y][base] {
+					base--
+				}
+				spanWidth++ // visual width increases
+				if base < x || base+int(s.cellWidth[y][base]) > x+w {
+					// an edge cuts this wide char, its visible half is blank
+					sb.WriteByte(' ')
+					continue
+				}
 				if s.cellCont[y][idx] {
 					// continuation cell, don't add text, it's part of previous
-					spanWidth++ // visual width increases
 					continue
 				}
 				// It's a start of a char
 				// If visual width is > 1, next cells will be cont.
 				sb.WriteString(cellText[idx])
-				spanWidth++
 			}
 
 			spans = append(spans, Span{Style: style, Text: sb.String(), Width: spanWidth})
@@ -172,9 +171,7 @@ func (s *gridScreen) renderLineANSI(y int) string {
 		buf.Write(currentStyle.ANSIEscape())
 
 		for x < len(line) && styles[x] == currentStyle {
-			if line[x] != 0 {
-				buf.WriteRune(line[x])
-			}
+			buf.WriteString(s.cellText[y][x])
 			x++
 		}
 	}
@@ -205,6 +202,13 @@ func (s *gridScreen) setSize(w, h int) {
 		minH = prevH
 	}
 
+	for y := 0; y < minH && w < prevW; y++ {
+		// The new right edge does not cut wide characters in half.
+		if s.cellCont[y][w] {
+			s.blankWideAt(y, w)
+		}
+	}
+
 	rect := make([][]rune, h)
 	raw := make([]rune, w*h)
 	for i := range rect {
@@ -297,85 +301,65 @@ func (s *gridScreen) eraseRegion(r Region, cr ChangeReason) {
 // the bytes are printable bytes
 func (s *gridScreen) writeRunes(b []rune) {
 	for _, r := range b {
-		width := runeCellWidth(r)
-		if width > s.size.X {
-			width = s.size.X
-		}
-		if s.cursorPos.X+width > s.size.X {
-			if s.autoWrap {
-				s.moveCursor(-s.cursorPos.X, 1, false, true)
-			} else {
-				s.cursorPos.X = s.size.X - width
-			}
-		}
-		s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-		s.moveCursor(width, 0, true, true)
+		s.writeCell(string(r), runeCellWidth(r))
 	}
 }
 
 func (s *gridScreen) writeTokens(tokens []GraphemeToken) {
 	for _, tok := range tokens {
-		text := string(tok.Bytes)
+		text := string([]rune(string(tok.Bytes))) // invalid bytes become replacement characters
 		if len(text) == 0 {
 			continue
 		}
+		width := tok.Width
 		if tok.Merge {
-			s.mergeIntoPreviousCell(text)
-			continue
-		}
-		if utf8.RuneCountInString(text) == 1 {
-			r, _ := utf8.DecodeRuneInString(text)
-			width := tok.Width
-			if width < 1 {
-				width = 1
+			if s.mergeIntoPreviousCell(text) {
+				continue
 			}
-			if width > s.size.X {
-				width = s.size.X
-			}
-			if s.cursorPos.X+width > s.size.X {
-				if s.autoWrap {
-					s.moveCursor(-s.cursorPos.X, 1, false, true)
-				} else {
-					s.cursorPos.X = s.size.X - width
-				}
+			if _, _, width, _, _ = stepGraphemeCluster([]byte(text), -1); width < 1 {
+				continue
 			}
-			s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-			s.moveCursor(width, 0, true, true)
-			continue
 		}
-		for len(text) > 0 {
-			r, size := utf8.DecodeRuneInString(text)
-			if size == 0 || r == utf8.RuneError && size == 1 {
-				break
-			}
-			text = text[size:]
-			width := runeCellWidth(r)
-			if width > s.size.X {
-				width = s.size.X
-			}
-			if s.cursorPos.X+width > s.size.X {
-				if s.autoWrap {
-					s.moveCursor(-s.cursorPos.X, 1, false, true)
-				} else {
-					s.cursorPos.X = s.size.X - width
-				}
-			}
-			s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-			s.moveCursor(width, 0, true, true)
+		s.writeCell(text, max(width, 1))
+	}
+}
+
+// writeCell writes one character at the cursor, wrapping as necessary.
+func (s *gridScreen) writeCell(text string, width int) {
+	if width > s.size.X {
+		// No row can hold this character.
+		text, width = string(utf8.RuneError), 1
+	}
+	if s.cursorPos.X+width > s.size.X {
+		if s.autoWrap {
+			s.moveCursor(-s.cursorPos.X, 1, false, true)
+		} else {
+			s.cursorPos.X = s.size.X - width
 		}
 	}
+	s.rawWriteText(s.cursorPos.X, s.cursorPos.Y, text, width, CRText)
+	s.moveCursor(width, 0, true, true)
 }
 
-func (s *gridScreen) mergeIntoPreviousCell(text string) {
-	if len(text) == 0 || s.cursorPos.X <= 0 {
-		return
+// mergeIntoPreviousCell appends text to the character before the cursor. It reports
+// false, and changes nothing, when the two do not form one character of the same width.
+func (s *gridScreen) mergeIntoPreviousCell(text string) bool {
+	if s.cursorPos.X <= 0 {
+		return false
 	}
 	y := s.cursorPos.Y
 	x := s.cursorPos.X - 1
 	for x > 0 && s.cellCont[y][x] {
 		x--
 	}
-	s.cellText[y][x] += text
+	merged := s.cellText[y][x] + text
+	_, consumed, width, _, ok := stepGraphemeCluster([]byte(merged), -1)
+	if !ok || consumed != len(merged) || width != int(s.cellWidth[y][x]) {
+		return false
+	}
+	s.cellText[y][x] = merged
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + width}, CRText)
+	return true
 }
 
 // This is like writeRunes, but it moves existing runes to the right
@@ -403,14 +387,15 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 	if y >= s.size.Y || x+len(b) > s.size.X {
 		panic(fmt.Sprintf("rawWriteBytes out of range: %v  %v,%v,%v %v %#v, %v,%v\n", s.size, x, y, x+len(b), len(b), string(b), len(s.chars), len(s.chars[0])))
 	}
+	if len(b) > 0 {
+		s.breakWideAt(y, x)
+		s.breakWideAt(y, x+len(b))
+	}
 	textRow := s.cellText[y]
 	widthRow := s.cellWidth[y]
 	contRow := s.cellCont[y]
 	for i, r := range b {
 		idx := x + i
-		if contRow[idx] {
-			s.clearWideAt(y, idx)
-		}
 		s.chars[y][idx] = r
 		textRow[idx] = string(r)
 		widthRow[idx] = 1
@@ -421,23 +406,22 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 }
 
 func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
+	s.rawWriteText(x, y, string(r), width, cr)
+}
+
+// rawWriteText writes one character, which may consist of several runes.
+func (s *gridScreen) rawWriteText(x int, y int, text string, width int, cr ChangeReason) {
 	if width < 1 {
 		width = 1
 	}
 	if y >= s.size.Y || x+width > s.size.X {
-		panic(fmt.Sprintf("rawWriteRune out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, string(r)))
-	}
-	if s.cellCont[y][x] {
-		s.clearWideAt(y, x)
+		panic(fmt.Sprintf("rawWriteText out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, text))
 	}
+	s.breakWideAt(y, x)
+	s.breakWideAt(y, x+width)
 
-	prevWidth := int(s.cellWidth[y][x])
-	if prevWidth < 1 {
-		prevWidth = 1
-	}
-
-	s.chars[y][x] = r
-	s.cellText[y][x] = string(r)
+	s.chars[y][x], _ = utf8.DecodeRuneInString(text)
+	s.cellText[y][x] = text
 	s.cellWidth[y][x] = uint8(width)
 	s.cellCont[y][x] = false
 	for i := 1; i < width; i++ {
@@ -447,37 +431,29 @@ func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 		s.cellWidth[y][idx] = 0
 		s.cellCont[y][idx] = true
 	}
-	for i := width; i < prevWidth; i++ {
-		idx := x + i
-		if idx >= s.size.X {
-			break
-		}
-		s.chars[y][idx] = ' '
-		s.cellText[y][idx] = " "
-		s.cellWidth[y][idx] = 1
-		s.cellCont[y][idx] = false
-	}
-	end := x + width
-	if prevWidth > width {
-		end = x + prevWidth
-	}
-	if end > s.size.X {
-		end = s.size.X
+	s.rawWriteStyles(y, x, x+width)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + width}, cr)
+}
+
+// breakWideAt blanks the wide character that straddles the left edge of column x, if any.
+func (s *gridScreen) breakWideAt(y int, x int) {
+	if x < s.size.X && s.cellCont[y][x] {
+		s.clearWideAt(y, x)
 	}
-	s.rawWriteStyles(y, x, end)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: end}, cr)
 }
 
 func (s *gridScreen) clearWideAt(y int, x int) {
-	base := x
+	base, end := s.blankWideAt(y, x)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: base, X2: end}, CRClear)
+}
+
+// blankWideAt blanks the character that covers column x and returns the columns it covered.
+func (s *gridScreen) blankWideAt(y int, x int) (base, end int) {
+	base = x
 	for base > 0 && s.cellCont[y][base] {
 		base--
 	}
-	width := int(s.cellWidth[y][base])
-	if width <= 1 {
-		return
-	}
-	end := min(base+width, s.size.X)
+	end = min(base+int(s.cellWidth[y][base]), s.size.X)
 	for i := base; i < end; i++ {
 		s.chars[y][i] = ' '
 		s.cellText[y][i] = " "
@@ -485,7 +461,7 @@ func (s *gridScreen) clearWideAt(y int, x int) {
 		s.cellCont[y][i] = false
 	}
 	s.rawWriteStyles(y, base, end)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: base, X2: end}, CRClear)
+	return base, end
 }
 
 func runeCellWidth(r rune) int {
@@ -523,6 +499,9 @@ func (s *gridScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 		n = s.size.X - x
 	}
 
+	s.breakWideAt(y, x)
+	s.breakWideAt(y, x+n)
+
 	line := s.chars[y]
 	copy(line[x:], line[x+n:])
 	textLine := s.cellText[y]
-- 
2.43.0


From ca753a3e6bb23305fcb56304dfb636346ee9045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:14 +0000
Subject: [PATCH 18/26] fix: stop reading the backend once a read has reported
 an error

---
 escapes.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 9b68708..b1c191a 100644
--- a/escapes.go
+++ b/escapes.go
@@ -21,7 +21,7 @@ var colorModes = [7]Mode{
 }
 
 func (t *terminal) ptyReadLoop() {
-	reader := bufio.NewReader(t.backend)
+	reader := bufio.NewReader(&stickyErrReader{r: t.backend})
 	gr := NewGraphemeReaderWithMode(reader, t.textReadMode)
 
 	for {
@@ -31,6 +31,21 @@ func (t *terminal) ptyReadLoop() {
 	}
 }
 
+// stickyErrReader reads from r until it reports an error, and never again after it.
+type stickyErrReader struct {
+	r   io.Reader
+	err error
+}
+
+func (s *stickyErrReader) Read(p []byte) (int, error) {
+	if s.err != nil {
+		return 0, s.err
+	}
+	n, err := s.r.Read(p)
+	s.err = err
+	return n, err
+}
+
 func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 	bw, useBytes := t.screen().(interface {
 		writeString(string, int, bool, TextReadMode)
-- 
2.43.0


From 74d2ad15dcc20d25285c3dc4443ce1fb38584bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 19/26] fix: run callbacks and shared state accesses under the
 terminal lock

The read loop takes its view of the screen under the lock and releases the
lock while it waits for the rest of an escape sequence; Resize, SetFrontend,
SendKey and SendMouseRaw lock for the state they touch, backend writes are
serialized, debug output is initialized once, and TTYFrontend.Attach takes the
terminal lock before its own like the callbacks do.
---
 debug.go        | 16 ++++++----------
 escapes.go      | 34 +++++++++++++++++++++++++++-------
 keys.go         |  2 ++
 terminal.go     | 32 +++++++++++++++++++++++---------
 tty_frontend.go | 31 ++++++++++++++++++++-----------
 5 files changed, 78 insertions(+), 37 deletions(-)

diff --git a/debug.go b/debug.go
index 4efdb11..9ff7cd4 100644
--- a/debug.go
+++ b/debug.go
@@ -5,12 +5,13 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sync"
 )
 
 var (
-	debugOutput     io.Writer = os.Stderr
-	debugFile                 = flag.String("debugFile", "", "File to send debug info to")
-	debugInitCalled           = false
+	debugOutput io.Writer = os.Stderr
+	debugFile             = flag.String("debugFile", "", "File to send debug info to")
+	debugInit   sync.Once
 
 	debugCursor  = new(bool)
 	debugCharSet = new(bool)
@@ -38,7 +39,6 @@ func DebugFlags() {
 }
 
 func initDebug() {
-	debugInitCalled = true
 	if *debugFile != "" {
 		f, err := os.OpenFile(*debugFile, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
 		if err != nil {
@@ -59,9 +59,7 @@ func debugPause(debugFlag *bool) {
 }
 
 func debugPrintln(debugFlag *bool, args ...interface{}) {
-	if !debugInitCalled {
-		initDebug()
-	}
+	debugInit.Do(initDebug)
 	if *debugFlag {
 		fmt.Fprintln(debugOutput, args...)
 		debugPause(debugFlag)
@@ -69,9 +67,7 @@ func debugPrintln(debugFlag *bool, args ...interface{}) {
 }
 
 func debugPrintf(debugFlag *bool, f string, args ...interface{}) {
-	if !debugInitCalled {
-		initDebug()
-	}
+	debugInit.Do(initDebug)
 	if *debugFlag {
 		fmt.Fprintf(debugOutput, f, args...)
 		debugPause(debugFlag)
diff --git a/escapes.go b/escapes.go
index b1c191a..7e6e969 100644
--- a/escapes.go
+++ b/escapes.go
@@ -47,17 +47,21 @@ func (s *stickyErrReader) Read(p []byte) (int, error) {
 }
 
 func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
-	bw, useBytes := t.screen().(interface {
+	type textWriter interface {
 		writeString(string, int, bool, TextReadMode)
-	})
-	if useBytes {
-		maxWidth := 0
+	}
+	useBytes := false
+	maxWidth := 0
+	t.WithLock(func() {
+		_, useBytes = t.screen().(textWriter)
 		if t.screen().AutoWrap() {
 			maxWidth = t.screen().Size().X - t.screen().CursorPos().X
 			if maxWidth < 1 {
 				maxWidth = 1
 			}
 		}
+	})
+	if useBytes {
 		data, width, merge, err := gr.ReadPrintableBytes(maxWidth)
 		if err != nil {
 			if err != io.EOF {
@@ -67,7 +71,8 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 		}
 		if len(data) > 0 {
 			t.WithLock(func() {
-				bw.writeString(data, width, merge, t.textReadMode)
+				// The size may have changed while waiting for data.
+				t.screen().(textWriter).writeString(data, width, merge, t.textReadMode)
 			})
 			if *debugTxt {
 				debugPrintf(debugTxt, "\033[32mtxt: %#v\033[0m %v\n", data, len(data))
@@ -152,9 +157,10 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 	case 27: // ESC ^[ Escape Character
 
 		t.WithLock(func() {
+			lr := &unlockingReader{t: t, gr: gr}
 			if *debugCmd || *debugTodo {
 				var cmdBytes bytes.Buffer
-				cmdReader := &captureReader{r: gr, buf: &cmdBytes}
+				cmdReader := &captureReader{r: lr, buf: &cmdBytes}
 				success := t.handleCommand(cmdReader)
 				cmd := cmdBytes.Bytes()
 
@@ -164,7 +170,7 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 					debugPrintf(debugTodo, "TODO: Unhandled command: %#v\n", string(cmd))
 				}
 			} else {
-				_ = t.handleCommand(gr)
+				_ = t.handleCommand(lr)
 			}
 		})
 
@@ -183,6 +189,20 @@ type escapeReader interface {
 	// Buffered() int
 }
 
+// unlockingReader releases the terminal lock, which its user holds, while it waits for input.
+type unlockingReader struct {
+	t  *terminal
+	gr *GraphemeReader
+}
+
+func (u *unlockingReader) ReadByte() (byte, error) {
+	if u.gr.Buffered() == 0 {
+		u.t.Unlock()
+		defer u.t.Lock()
+	}
+	return u.gr.ReadByte()
+}
+
 type captureReader struct {
 	r   escapeReader
 	buf *bytes.Buffer
diff --git a/keys.go b/keys.go
index a30d8e9..03ee984 100644
--- a/keys.go
+++ b/keys.go
@@ -185,7 +185,9 @@ type KeyEvent struct {
 }
 
 func (t *terminal) SendKey(ev KeyEvent) (int, error) {
+	t.Lock()
 	seq := t.encodeKey(ev)
+	t.Unlock()
 	if len(seq) == 0 {
 		return 0, nil
 	}
diff --git a/terminal.go b/terminal.go
index 8ab1df5..67749d0 100644
--- a/terminal.go
+++ b/terminal.go
@@ -49,6 +49,9 @@ type terminal struct {
 
 	keyboardMain keyboardMode
 	keyboardAlt  keyboardMode
+
+	writeMu  sync.Mutex // serializes writes to the backend
+	resizeMu sync.Mutex // keeps the screen and backend sizes of concurrent Resizes together
 }
 
 // New makes a new terminal using the provided Frontend, Backend, and default text read mode.
@@ -93,6 +96,8 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 }
 
 func (t *terminal) SetFrontend(f Frontend) {
+	t.Lock()
+	defer t.Unlock()
 	t.frontend = f
 	t.mainScreen.SetFrontend(f)
 	t.altScreen.SetFrontend(f)
@@ -114,6 +119,8 @@ func (t *terminal) Write(b []byte) (int, error) {
 	if t.backend == nil {
 		return 0, errors.New("backend is nil")
 	}
+	t.writeMu.Lock()
+	defer t.writeMu.Unlock()
 	total := 0
 	for len(b) > 0 {
 		n, err := t.backend.Write(b)
@@ -144,13 +151,17 @@ type winsize struct {
 }
 
 func (t *terminal) Resize(w, h int) error {
-	t.mainScreen.setSize(w, h)
-	t.altScreen.setSize(w, h)
-
-	// Both buffers report their style and the cursor may have been moved inside.
-	t.screen().setStyle(t.screen().Style())
-	pos := t.screen().CursorPos()
-	t.frontend.CursorMoved(pos.X, pos.Y)
+	t.resizeMu.Lock()
+	defer t.resizeMu.Unlock()
+	t.WithLock(func() {
+		t.mainScreen.setSize(w, h)
+		t.altScreen.setSize(w, h)
+
+		// Both buffers report their style and the cursor may have been moved inside.
+		t.screen().setStyle(t.screen().Style())
+		pos := t.screen().CursorPos()
+		t.frontend.CursorMoved(pos.X, pos.Y)
+	})
 
 	if t.backend == nil {
 		return nil
@@ -233,7 +244,11 @@ const (
 // x and y should start at 1
 // wheel events should use btn1 for wheel up, btn2 for wheel down, true for press, and M_wheel for mods
 func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y int) error {
-	switch t.viewInts[VIMouseMode] {
+	t.Lock()
+	mouseMode, mouseEncoding := t.viewInts[VIMouseMode], t.viewInts[VIMouseEncoding]
+	t.Unlock()
+
+	switch mouseMode {
 	case MMNone:
 		return nil
 	case MMPress:
@@ -251,7 +266,6 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 	case MMPressReleaseMoveAll:
 	}
 
-	mouseEncoding := t.viewInts[VIMouseEncoding]
 	switch mouseEncoding {
 	case MEX10:
 		btnByte := (byte(btn) & mWhichBtn) | byte(mods)
diff --git a/tty_frontend.go b/tty_frontend.go
index b31ba12..cf1906c 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -49,21 +49,30 @@ func (t *TTYFrontend) SetTerminal(term Terminal) {
 // Attach starts updating the provided region.
 func (t *TTYFrontend) Attach(r Region) {
 	t.mu.Lock()
-	defer t.mu.Unlock()
+	term := t.term
+	t.mu.Unlock()
 
-	t.region = r
-	t.attached = true
-	if !t.showCur {
-		t.showCur = true
-	}
+	// Callbacks take mu with the terminal locked, so take the two in the same order here.
+	attach := func() {
+		t.mu.Lock()
+		defer t.mu.Unlock()
 
-	if t.term == nil {
-		return
-	}
+		t.region = r
+		t.attached = true
+		if !t.showCur {
+			t.showCur = true
+		}
 
-	t.term.WithLock(func() {
+		if t.term == nil {
+			return
+		}
 		t.renderRegionLocked(t.region)
-	})
+	}
+	if term == nil {
+		attach()
+		return
+	}
+	term.WithLock(attach)
 }
 
 // Detach stops updating the attached region.
-- 
2.43.0


From 012acb3cbe828ec850e4640bde5efe26daa24866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 20/26] fix: announce lines scrolled off the top of the main
 screen through ScrollLines

---
 frontend.go    | 2 +-
 screen.go      | 3 +++
 screen_grid.go | 3 +++
 terminal.go    | 9 +++++++--
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/frontend.go b/frontend.go
index 27c1474..1549c35 100644
--- a/frontend.go
+++ b/frontend.go
@@ -80,7 +80,7 @@ type Frontend interface {
 	Bell()
 	RegionChanged(Region, ChangeReason)
 
-	// ScrollLines is called when lines are about to be scrolled off the
+	// ScrollLines is called when y lines are about to be scrolled off the
 	// top of the main (not alternate) screen. If you want to save to a scrollback
 	// buffer, do it now.
 	ScrollLines(y int)
diff --git a/screen.go b/screen.go
index 771a89b..1acb737 100644
--- a/screen.go
+++ b/screen.go
@@ -500,6 +500,9 @@ func (s *spanScreen) scroll(y1 int, y2 int, dy int) {
 	}
 	// A distance larger than the region simply clears it.
 	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1)
+	if dy < 0 && y1 == 0 {
+		s.frontend.ScrollLines(-dy)
+	}
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
diff --git a/screen_grid.go b/screen_grid.go
index 5c19464..c5dbdc7 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -560,6 +560,9 @@ func (s *gridScreen) scroll(y1 int, y2 int, dy int) {
 	}
 	// A distance larger than the region simply clears it.
 	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1)
+	if dy < 0 && y1 == 0 {
+		s.frontend.ScrollLines(-dy)
+	}
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
diff --git a/terminal.go b/terminal.go
index 67749d0..8118384 100644
--- a/terminal.go
+++ b/terminal.go
@@ -86,7 +86,7 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 	return &terminal{
 		frontend:     f,
 		mainScreen:   newScreen(f),
-		altScreen:    newScreen(f),
+		altScreen:    newScreen(altFrontend{f}),
 		backend:      backend,
 		viewFlags:    make([]bool, viewFlagCount),
 		viewInts:     make([]int, viewIntCount),
@@ -100,9 +100,14 @@ func (t *terminal) SetFrontend(f Frontend) {
 	defer t.Unlock()
 	t.frontend = f
 	t.mainScreen.SetFrontend(f)
-	t.altScreen.SetFrontend(f)
+	t.altScreen.SetFrontend(altFrontend{f})
 }
 
+// altFrontend is the frontend the alternate screen uses: it has no scrollback.
+type altFrontend struct{ Frontend }
+
+func (altFrontend) ScrollLines(int) {}
+
 // func NewNoPTY(f Frontend) Terminal {
 // 	return &terminal{
 // 		frontend: f,
-- 
2.43.0


From 59ce1ec35f0670082fca1296947b09d9d4f4efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 21/26] fix: announce the screen a Resize leaves

---
 terminal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/terminal.go b/terminal.go
index 8118384..08cb22d 100644
--- a/terminal.go
+++ b/terminal.go
@@ -166,6 +166,7 @@ func (t *terminal) Resize(w, h int) error {
 		t.screen().setStyle(t.screen().Style())
 		pos := t.screen().CursorPos()
 		t.frontend.CursorMoved(pos.X, pos.Y)
+		t.frontend.RegionChanged(Region{X: 0, Y: 0, X2: w, Y2: h}, CRRedraw)
 	})
 
 	if t.backend == nil {
-- 
2.43.0


From 3915e5669ce02e516fa9d7ed759cdecba90ca5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 22/26] fix: report mouse events in single X10 bytes, only in
 the modes that include them, and return write errors

---
 terminal.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/terminal.go b/terminal.go
index 08cb22d..aaee3c7 100644
--- a/terminal.go
+++ b/terminal.go
@@ -258,7 +258,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 	case MMNone:
 		return nil
 	case MMPress:
-		if !press {
+		if !press || mods&MMotion != 0 {
 			return nil
 		}
 	case MMPressRelease:
@@ -266,7 +266,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			return nil
 		}
 	case MMPressReleaseMove:
-		if byte(mods)&mWhichBtn == byte(MRelease) {
+		if mods&MMotion != 0 && byte(btn)&mWhichBtn == byte(MRelease) {
 			return nil
 		}
 	case MMPressReleaseMoveAll:
@@ -279,18 +279,11 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			btnByte |= byte(MRelease)
 		}
 
-		if 32+x > 255 {
-			x = 255 - 32
-		}
-		if 32+y > 255 {
-			y = 255 - 32
-		}
+		x = clamp(x, 1, 255-32)
+		y = clamp(y, 1, 255-32)
 
-		mouseCmd := []byte("\033[M" + string(32+btnByte) + string(byte(32+x)) + string(byte(32+y)))
+		mouseCmd := []byte{'\033', '[', 'M', 32 + btnByte, byte(32 + x), byte(32 + y)}
 		_, err := t.Write(mouseCmd)
-		if err != nil {
-			panic(fmt.Sprintf("error %v", err))
-		}
 		return err
 
 	case MEUTF8:
@@ -299,7 +292,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			btnByte |= byte(MRelease)
 		}
 
-		_, err := t.Write([]byte("\033[M" + string(32+btnByte) + string(rune(32+x)) + string(rune(32+y))))
+		_, err := t.Write([]byte("\033[M" + string(rune(32+btnByte)) + string(rune(32+x)) + string(rune(32+y))))
 		return err
 
 	case MESGR:
-- 
2.43.0


From 96b2ac6f8c64539ce74f16bf00d7c2d3b7af05b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 23/26] fix: a detached TTYFrontend stays silent and attaching
 does not unhide the cursor

---
 tty_frontend.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index cf1906c..0de90f5 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -59,9 +59,6 @@ func (t *TTYFrontend) Attach(r Region) {
 
 		t.region = r
 		t.attached = true
-		if !t.showCur {
-			t.showCur = true
-		}
 
 		if t.term == nil {
 			return
@@ -78,11 +75,10 @@ func (t *TTYFrontend) Attach(r Region) {
 // Detach stops updating the attached region.
 func (t *TTYFrontend) Detach() {
 	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.attached = false
-	out := t.out
-	t.mu.Unlock()
-	if out != nil {
-		_, _ = out.Write([]byte(ansiCursorShow))
+	if t.out != nil {
+		_, _ = t.out.Write([]byte(ansiCursorShow))
 	}
 }
 
@@ -97,11 +93,10 @@ func (t *TTYFrontend) Focus() {
 // Blur disables cursor updates and restores cursor visibility.
 func (t *TTYFrontend) Blur() {
 	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.focused = false
-	out := t.out
-	t.mu.Unlock()
-	if out != nil {
-		_, _ = out.Write([]byte(ansiCursorShow))
+	if t.out != nil {
+		_, _ = t.out.Write([]byte(ansiCursorShow))
 	}
 }
 
@@ -177,10 +172,10 @@ func (t *TTYFrontend) renderRegionLocked(r Region) {
 }
 
 func (t *TTYFrontend) renderCursorLocked() {
-	if t.term == nil || t.out == nil {
+	if t.term == nil || t.out == nil || !t.attached {
 		return
 	}
-	if !t.attached || !t.showCur || !t.focused {
+	if !t.showCur || !t.focused {
 		_, _ = t.out.Write([]byte(ansiCursorHide))
 		return
 	}
-- 
2.43.0


From a5bc7e2dbcfe8cc88dcf2f57cb697d4dcd4e3f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 24/26] fix: encode key events as the keyboard protocol defines
 for the active mode

---
 keys.go | 193 +++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 134 insertions(+), 59 deletions(-)

diff --git a/keys.go b/keys.go
index 03ee984..07153fa 100644
--- a/keys.go
+++ b/keys.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 // KeyMod is a bitmask of active modifier keys.
@@ -21,6 +22,9 @@ const (
 	ModNumLock
 )
 
+// modLocks are the modifiers that are not encoded for text keys and in legacy mode.
+const modLocks = ModCapsLock | ModNumLock
+
 // KeyEventType is press/repeat/release. Zero is treated as press.
 type KeyEventType uint8
 
@@ -180,7 +184,8 @@ type KeyEvent struct {
 	BaseLayout rune
 
 	// Text is optional associated text codepoints used when report-text is
-	// enabled with report-all-keys. If empty, Rune is used for KeyRune.
+	// enabled with report-all-keys. If empty, Rune (Shifted with shift) is used
+	// for KeyRune unless other modifiers keep the key from producing text.
 	Text []rune
 }
 
@@ -196,15 +201,49 @@ func (t *terminal) SendKey(ev KeyEvent) (int, error) {
 
 func (t *terminal) encodeKey(ev KeyEvent) []byte {
 	flags := t.keyboardFlags()
+	if isModifierKey(ev.Code) && flags&int(KbdReportAllKeys) == 0 {
+		return nil
+	}
+	release := normalizeEventType(ev.Event) == KeyRelease
+	if release && flags&int(KbdReportEvents) == 0 {
+		return nil
+	}
 	if flags != 0 {
 		if seq := t.encodeKittyKey(ev, flags); seq != nil {
 			return seq
 		}
 	}
+	if release {
+		return nil // only escape codes have an event type
+	}
 	return t.encodeLegacyKey(ev)
 }
 
+// unshiftedKey returns ev with an upper-case Rune split into the key and its shifted version.
+func unshiftedKey(ev KeyEvent) KeyEvent {
+	if ev.Code == KeyRune && ev.Mod&ModShift != 0 && unicode.IsUpper(ev.Rune) {
+		if ev.Shifted == 0 {
+			ev.Shifted = ev.Rune
+		}
+		ev.Rune = unicode.ToLower(ev.Rune)
+	}
+	return ev
+}
+
+// shiftedRune returns the character that ev produces when only shift matters.
+func shiftedRune(ev KeyEvent) rune {
+	switch {
+	case ev.Mod&ModShift == 0:
+		return ev.Rune
+	case ev.Shifted != 0:
+		return ev.Shifted
+	default:
+		return unicode.ToUpper(ev.Rune)
+	}
+}
+
 func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
+	ev.Mod &^= modLocks
 	if isKeypadKey(ev.Code) {
 		if mapped, ok := keypadEquivalent(ev); ok {
 			return t.encodeLegacyKey(mapped)
@@ -212,7 +251,7 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 	}
 	switch ev.Code {
 	case KeyRune:
-		return t.encodeRuneKey(ev.Rune, ev.Mod)
+		return t.encodeRuneKey(ev)
 	case KeyUp:
 		return t.encodeCursorKey('A', ev.Mod)
 	case KeyDown:
@@ -265,6 +304,8 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 		return encodeTildeKey(23, ev.Mod)
 	case KeyF12:
 		return encodeTildeKey(24, ev.Mod)
+	case KeyMenu:
+		return encodeTildeKey(29, ev.Mod)
 	default:
 		if code, ok := kittyFunctionalCode(ev.Code); ok {
 			return kittyCSIu(kittyKeyField(code, ev, 0), kittyModField(ev.Mod, ev.Event, 0), "")
@@ -274,7 +315,8 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 }
 
 func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
-	if isKeypadKey(ev.Code) && flags&int(KbdDisambiguate) == 0 {
+	ev = unshiftedKey(ev)
+	if isKeypadKey(ev.Code) && flags&int(KbdDisambiguate|KbdReportAllKeys) == 0 {
 		if mapped, ok := keypadEquivalent(ev); ok {
 			return t.encodeKittyKey(mapped, flags)
 		}
@@ -308,7 +350,7 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	case KeyF2:
 		return kittyCSI1('Q', modField)
 	case KeyF3:
-		return kittyCSI1('R', modField)
+		return kittyCSITilde(13, modField) // CSI R is a cursor position report
 	case KeyF4:
 		return kittyCSI1('S', modField)
 	case KeyF5:
@@ -328,25 +370,18 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	case KeyF12:
 		return kittyCSITilde(24, modField)
 	case KeyEscape:
-		if flags&int(KbdReportAllKeys) != 0 || flags&int(KbdDisambiguate) != 0 {
+		if flags&int(KbdReportAllKeys) != 0 || flags&int(KbdDisambiguate) != 0 || strings.Contains(modField, ":") {
 			return kittyCSIu(kittyKeyField(27, ev, flags), modField, kittyTextField(ev, flags))
 		}
 		return nil
 	case KeyEnter:
-		if flags&int(KbdReportAllKeys) != 0 {
-			return kittyCSIu(kittyKeyField(13, ev, flags), modField, kittyTextField(ev, flags))
-		}
-		return nil
+		return kittyC0Key(13, ev, flags)
 	case KeyTab:
-		if flags&int(KbdReportAllKeys) != 0 {
-			return kittyCSIu(kittyKeyField(9, ev, flags), modField, kittyTextField(ev, flags))
-		}
-		return nil
+		return kittyC0Key(9, ev, flags)
 	case KeyBackspace:
-		if flags&int(KbdReportAllKeys) != 0 {
-			return kittyCSIu(kittyKeyField(127, ev, flags), modField, kittyTextField(ev, flags))
-		}
-		return nil
+		return kittyC0Key(127, ev, flags)
+	case KeyKPBegin:
+		return kittyCSI1('E', modField)
 	default:
 		if code, ok := kittyFunctionalCode(ev.Code); ok {
 			return kittyCSIu(kittyKeyField(code, ev, flags), modField, kittyTextField(ev, flags))
@@ -364,12 +399,37 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	}
 	if flags&int(KbdDisambiguate) != 0 {
 		if ev.Mod&(ModAlt|ModCtrl|ModSuper|ModHyper|ModMeta) != 0 {
-			return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), "")
+			return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod&^modLocks, ev.Event, flags), "")
 		}
 	}
 	return nil
 }
 
+// kittyC0Key encodes Enter, Tab and Backspace, which keep their legacy bytes without
+// modifiers and have no release events unless all keys are reported.
+func kittyC0Key(code int, ev KeyEvent, flags int) []byte {
+	if flags&int(KbdReportAllKeys) != 0 {
+		return kittyCSIu(kittyKeyField(code, ev, flags), kittyModField(ev.Mod, ev.Event, flags), kittyTextField(ev, flags))
+	}
+	mod := ev.Mod &^ modLocks
+	if flags&int(KbdDisambiguate) != 0 && mod != 0 && normalizeEventType(ev.Event) != KeyRelease {
+		return kittyCSIu(kittyKeyField(code, ev, flags), kittyModField(mod, ev.Event, flags), "")
+	}
+	return nil
+}
+
+// isModifierKey reports whether code is a modifier itself.
+func isModifierKey(code KeyCode) bool {
+	switch code {
+	case KeyLeftShift, KeyLeftControl, KeyLeftAlt, KeyLeftSuper, KeyLeftHyper, KeyLeftMeta,
+		KeyRightShift, KeyRightControl, KeyRightAlt, KeyRightSuper, KeyRightHyper, KeyRightMeta,
+		KeyISOLevel3Shift, KeyISOLevel5Shift:
+		return true
+	default:
+		return false
+	}
+}
+
 func isKeypadKey(code KeyCode) bool {
 	switch code {
 	case KeyKP0, KeyKP1, KeyKP2, KeyKP3, KeyKP4, KeyKP5, KeyKP6, KeyKP7, KeyKP8, KeyKP9,
@@ -626,22 +686,33 @@ func kittyFunctionalCode(code KeyCode) (int, bool) {
 	}
 }
 
-func (t *terminal) encodeRuneKey(r rune, mod KeyMod) []byte {
+// modifyOtherKeys returns the xterm setting, which the Kitty flags override.
+func (t *terminal) modifyOtherKeys() int {
+	if t.keyboardFlags() != 0 {
+		return 0
+	}
+	return t.viewInts[VIModifyOtherKeys]
+}
+
+func (t *terminal) encodeRuneKey(ev KeyEvent) []byte {
+	r, mod := ev.Rune, ev.Mod
 	if r == 0 {
 		return nil
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 && mod != 0 {
+	if t.modifyOtherKeys() > 0 && mod != 0 {
 		return encodeModifyOtherKeys(int(r), mod)
 	}
+	if mod&(ModSuper|ModHyper|ModMeta) != 0 || mod&(ModCtrl|ModShift) == ModCtrl|ModShift && r != ' ' {
+		// The legacy encoding has no bytes for these.
+		ev = unshiftedKey(ev)
+		return kittyCSIu(kittyKeyField(int(ev.Rune), ev, 0), kittyModField(mod, KeyPress, 0), "")
+	}
+	out := []byte(string(shiftedRune(ev)))
 	if mod&ModCtrl != 0 {
 		if b, ok := ctrlByte(r); ok {
-			if mod&ModAlt != 0 {
-				return []byte{0x1b, b}
-			}
-			return []byte{b}
+			out = []byte{b}
 		}
 	}
-	out := []byte(string(r))
 	if mod&ModAlt != 0 {
 		return append([]byte{0x1b}, out...)
 	}
@@ -672,13 +743,26 @@ func (t *terminal) encodeBackspaceKey(mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{0x7f}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() > 0 {
 		return encodeModifyOtherKeys(127, mod)
 	}
+	b := byte(0x7f)
+	if mod&ModCtrl != 0 {
+		b = 0x08
+	}
+	return encodeC0Key(127, mod, b)
+}
+
+// encodeC0Key encodes a key that sends the control bytes seq in legacy mode.
+func encodeC0Key(code int, mod KeyMod, seq ...byte) []byte {
+	if mod&(ModSuper|ModHyper|ModMeta) != 0 {
+		// The legacy encoding has no bytes for these.
+		return kittyCSIu(strconv.Itoa(code), kittyModField(mod, KeyPress, 0), "")
+	}
 	if mod&ModAlt != 0 {
-		return []byte{0x1b, 0x7f}
+		return append([]byte{0x1b}, seq...)
 	}
-	return []byte{0x7f}
+	return seq
 }
 
 func (t *terminal) encodeTabKey(mod KeyMod) []byte {
@@ -688,36 +772,33 @@ func (t *terminal) encodeTabKey(mod KeyMod) []byte {
 	if mod == ModShift {
 		return []byte{0x1b, '[', 'Z'}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() > 0 {
 		return encodeModifyOtherKeys(9, mod)
 	}
-	if mod&ModAlt != 0 {
-		return []byte{0x1b, '\t'}
+	if mod&ModShift != 0 {
+		return encodeC0Key(9, mod, 0x1b, '[', 'Z')
 	}
-	return []byte{'\t'}
+	return encodeC0Key(9, mod, '\t')
 }
 
 func (t *terminal) encodeEnterKey(mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{'\r'}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() > 0 {
 		return encodeModifyOtherKeys(13, mod)
 	}
-	if mod&ModAlt != 0 {
-		return []byte{0x1b, '\r'}
-	}
-	return []byte{'\r'}
+	return encodeC0Key(13, mod, '\r')
 }
 
 func (t *terminal) encodeEscapeKey(mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{0x1b}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() > 0 {
 		return encodeModifyOtherKeys(27, mod)
 	}
-	return []byte{0x1b}
+	return encodeC0Key(27, mod, 0x1b)
 }
 
 func encodeTildeKey(code int, mod KeyMod) []byte {
@@ -784,14 +865,18 @@ func kittyTextField(ev KeyEvent, flags int) string {
 		return ""
 	}
 	text := ev.Text
-	if len(text) == 0 && ev.Code == KeyRune && ev.Rune != 0 {
-		text = []rune{ev.Rune}
+	if len(text) == 0 && ev.Code == KeyRune && ev.Rune != 0 &&
+		ev.Mod&(ModAlt|ModCtrl|ModSuper|ModHyper|ModMeta) == 0 {
+		text = []rune{shiftedRune(ev)}
 	}
 	if len(text) == 0 {
 		return ""
 	}
 	parts := make([]string, 0, len(text))
 	for _, r := range text {
+		if unicode.IsControl(r) {
+			continue
+		}
 		parts = append(parts, strconv.Itoa(int(r)))
 	}
 	return strings.Join(parts, ":")
@@ -826,17 +911,7 @@ func kittyCSIu(keyField, modField, textField string) []byte {
 }
 
 func xtermModParam(mod KeyMod) int {
-	param := 1
-	if mod&ModShift != 0 {
-		param += 1
-	}
-	if mod&ModAlt != 0 {
-		param += 2
-	}
-	if mod&ModCtrl != 0 {
-		param += 4
-	}
-	return param
+	return 1 + int(mod&^modLocks)
 }
 
 func normalizeEventType(event KeyEventType) KeyEventType {
@@ -854,19 +929,19 @@ func ctrlByte(r rune) (byte, bool) {
 		return byte(r - 'A' + 1), true
 	}
 	switch r {
-	case '@':
+	case ' ', '2', '@':
 		return 0, true
-	case '[':
+	case '3', '[':
 		return 27, true
-	case '\\':
+	case '4', '\\':
 		return 28, true
-	case ']':
+	case '5', ']':
 		return 29, true
-	case '^':
+	case '6', '^', '~':
 		return 30, true
-	case '_':
+	case '7', '/', '_':
 		return 31, true
-	case '?':
+	case '8', '?':
 		return 127, true
 	default:
 		return 0, false
-- 
2.43.0


From 675aacd02668692071b880caccae9b2aa3da2aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 25/26] fix: count the whole row when a replacement ends before
 it

---
 screen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/screen.go b/screen.go
index 1acb737..f0515e7 100644
--- a/screen.go
+++ b/screen.go
@@ -945,8 +945,11 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 		pos = endPos
 	}
 
-	// Clamp to total width (tracked by pos after the scan).
+	// Clamp to total width (pos after the scan, plus the spans it did not reach).
 	totalWidth := pos
+	for j := i + 1; j < len(spans); j++ {
+		totalWidth += spans[j].Width
+	}
 	if x > totalWidth {
 		x = totalWidth
 	}
-- 
2.43.0


From 1abde773aede1b2139dabbcbb3591a759ec5e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:22 +0000
Subject: [PATCH 26/26] fix: grid rows keep characters apart that would join in
 a text

---
 screen_grid.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index c5dbdc7..949ff50 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -98,7 +98,7 @@ func (s *gridScreen) StyledLine(x, w, y int) Line {
 		start := i
 
 		// Find run of identical styles
-		for i < x+w && styles[i] == style {
+		for i < x+w && styles[i] == style && (i == start || !s.joinsPreviousCell(y, i)) {
 			width++
 			i++
 		}
@@ -170,14 +170,32 @@ func (s *gridScreen) renderLineANSI(y int) string {
 		currentStyle := styles[x]
 		buf.Write(currentStyle.ANSIEscape())
 
-		for x < len(line) && styles[x] == currentStyle {
+		for start := x; x < len(line) && styles[x] == currentStyle && (x == start || !s.joinsPreviousCell(y, x)); x++ {
 			buf.WriteString(s.cellText[y][x])
-			x++
 		}
 	}
 	return buf.String()
 }
 
+// joinsPreviousCell reports whether the character at x would become part of the one
+// before it if the two were next to each other in a text.
+func (s *gridScreen) joinsPreviousCell(y, x int) bool {
+	text := s.cellText[y][x]
+	if x == 0 || text == "" {
+		return false
+	}
+	x--
+	for x > 0 && s.cellCont[y][x] {
+		x--
+	}
+	prev := s.cellText[y][x]
+	if len(prev) == 1 && text[0] < utf8.RuneSelf {
+		return false
+	}
+	_, consumed, _, _, _ := stepGraphemeCluster([]byte(prev+text), -1)
+	return consumed > len(prev)
+}
+
 func (s *gridScreen) setStyle(style Style) {
 	s.style = style
 	s.frontend.StyleChanged(style)
-- 
2.43.0

