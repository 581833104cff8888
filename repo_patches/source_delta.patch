From b58cb6e232eac91859ffe0a1022d4d2d4dfebbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 01/14] fix: return the process count when the caller's array
 is too small

winpty_get_console_process_list left the PIDs unread when they did not fit,
so assertEof failed, the call returned an error, and the control pipe was
closed, instead of returning the actual count as documented.
---
 src/libwinpty/winpty.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index 3d97749..044de55 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -950,9 +950,12 @@ winpty_get_console_process_list(winpty_t *wp, int *processList, const int proces
 
         auto actualProcessCount = reply.getInt32();
 
-        if (actualProcessCount <= processCount) {
-            for (auto i = 0; i < actualProcessCount; i++) {
-                processList[i] = reply.getInt32();
+        // Consume every PID, even those that do not fit, so that the reply is
+        // fully decoded and a too-small array does not look like an RPC error.
+        for (auto i = 0; i < actualProcessCount; i++) {
+            const int pid = reply.getInt32();
+            if (actualProcessCount <= processCount) {
+                processList[i] = pid;
             }
         }
 
-- 
2.43.0


From 49d6d1f6ee41e67c7b87c4f2a8713a5a766ede06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 02/14] fix: keep track of the hidden terminal cursor across a
 reset

Terminal::reset sends no sequence that shows the cursor, so a hidden
cursor is still hidden afterwards.
---
 src/agent/Terminal.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index afa0a36..a8dbc44 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -311,7 +311,6 @@ void Terminal::reset(SendClearFlag sendClearFirst, int64_t newLine)
     m_remoteLine = newLine;
     m_remoteColumn = 0;
     m_lineData.clear();
-    m_cursorHidden = false;
     m_remoteColor = -1;
 }
 
-- 
2.43.0


From f8174f3782bc198c4ac834a8e578bea60cbb9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 03/14] fix: read the cursor visibility of the buffer being
 scraped

---
 src/agent/Scraper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index 21f9c67..62c4e02 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -336,7 +336,7 @@ void Scraper::syncConsoleContentAndSize(
     const ConsoleScreenBufferInfo info = m_consoleBuffer->bufferInfo();
     bool cursorVisible = true;
     CONSOLE_CURSOR_INFO cursorInfo = {};
-    if (!GetConsoleCursorInfo(GetStdHandle(STD_OUTPUT_HANDLE), &cursorInfo)) {
+    if (!GetConsoleCursorInfo(m_consoleBuffer->conout(), &cursorInfo)) {
         trace("GetConsoleCursorInfo failed");
     } else {
         cursorVisible = cursorInfo.bVisible != 0;
-- 
2.43.0


From 5f417c740d61d8f3312237b7d2511fef5bc7829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 04/14] fix: never pass control characters on to the terminal
 as cell or title text

---
 src/agent/Agent.cc    |  9 ++++++++-
 src/agent/Terminal.cc | 15 ++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/agent/Agent.cc b/src/agent/Agent.cc
index 986edea..ca32090 100644
--- a/src/agent/Agent.cc
+++ b/src/agent/Agent.cc
@@ -603,8 +603,15 @@ void Agent::syncConsoleTitle()
     std::wstring newTitle = m_console.title();
     if (newTitle != m_currentTitle) {
         if (!m_plainMode && !m_conoutPipe->isClosed()) {
+            // A control character would end the sequence early.
+            std::wstring safeTitle = newTitle;
+            for (wchar_t &ch : safeTitle) {
+                if (ch < 0x20 || (ch >= 0x7f && ch <= 0x9f)) {
+                    ch = L'?';
+                }
+            }
             std::string command = std::string("\x1b]0;") +
-                    utf8FromWide(newTitle) + "\x07";
+                    utf8FromWide(safeTitle) + "\x07";
             m_conoutPipe->write(command.c_str());
         }
         m_currentTitle = newTitle;
diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index a8dbc44..a3b39c8 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -213,8 +213,11 @@ static void outputSetColor(std::string &out, int color)
 
 static inline unsigned int fixSpecialCharacters(unsigned int ch)
 {
-    if (ch <= 0x1b) {
+    if (ch < 0x20 || (ch >= 0x7f && ch <= 0x9f)) {
         switch (ch) {
+            // The console displays a NUL cell as a blank.
+            case 0: return ' ';
+
             // The Windows Console has a popup window (e.g. that appears with
             // F7) that is sometimes bordered with box-drawing characters.
             // With the Japanese and Korean system locales (CP932 and CP949),
@@ -233,14 +236,16 @@ static inline unsigned int fixSpecialCharacters(unsigned int ch)
             case 5: return 0x2551; // BOX DRAWINGS DOUBLE VERTICAL
             case 6: return 0x2550; // BOX DRAWINGS DOUBLE HORIZONTAL
 
-            // Convert an escape character to some other character.  This
-            // conversion only applies to console cells containing an escape
-            // character.  In newer versions of Windows 10 (e.g. 10.0.10586),
+            // Convert an escape character (or any other control character) to
+            // some other character.  A control character would alter the
+            // terminal's state rather than occupy a cell.  This conversion
+            // only applies to console cells containing an escape character.
+            // In newer versions of Windows 10 (e.g. 10.0.10586),
             // the non-legacy console recognizes escape sequences in
             // WriteConsole and interprets them without writing them to the
             // cells of the screen buffer.  In that case, the conversion here
             // does not apply.
-            case 0x1b: return '?';
+            default: return '?';
         }
     }
     return ch;
-- 
2.43.0


From e1c9d1d93a6848ba344ddbf8ba4d70c3f24424df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:00 +0000
Subject: [PATCH 05/14] fix: resend a line with colored blanks when the window
 becomes wider

---
 src/agent/ConsoleLine.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/agent/ConsoleLine.cc b/src/agent/ConsoleLine.cc
index 1d2bcb7..85b0221 100644
--- a/src/agent/ConsoleLine.cc
+++ b/src/agent/ConsoleLine.cc
@@ -54,6 +54,24 @@ static bool isLineBlank(const CHAR_INFO *line, int length, WORD attributes)
     return true;
 }
 
+// Does a blank with these attributes look like one in the terminal's default
+// colors?
+static bool isDefaultBlank(WORD attributes)
+{
+    // Work around the old MinGW, which lacks COMMON_LVB_REVERSE_VIDEO and
+    // COMMON_LVB_UNDERSCORE.
+    const WORD WINPTY_COMMON_LVB_REVERSE_VIDEO = 0x4000;
+    const WORD WINPTY_COMMON_LVB_UNDERSCORE    = 0x8000;
+    const WORD visible =
+        BACKGROUND_BLUE |
+        BACKGROUND_GREEN |
+        BACKGROUND_RED |
+        BACKGROUND_INTENSITY |
+        WINPTY_COMMON_LVB_REVERSE_VIDEO |
+        WINPTY_COMMON_LVB_UNDERSCORE;
+    return (attributes & visible) == 0;
+}
+
 static inline bool areLinesEqual(
     const CHAR_INFO *line1,
     const CHAR_INFO *line2,
@@ -110,7 +128,8 @@ bool ConsoleLine::detectChangeAndSetLine(const CHAR_INFO *const line, const int
             //
             // The line has become longer.  The lines are equal if the common
             // part is equal, and if both the extra characters and any
-            // potentially reexposed characters are blank.
+            // potentially reexposed characters are blank.  The terminal fills
+            // the columns it gains with blanks of its default colors.
             //
             // Two of the most relevant terminals for winpty--mintty and
             // jediterm--don't (currently) erase the obscured content when a
@@ -122,6 +141,7 @@ bool ConsoleLine::detectChangeAndSetLine(const CHAR_INFO *const line, const int
             //
             ASSERT(newLength > m_prevLength);
             equalLines =
+                isDefaultBlank(prevBlank) &&
                 areLinesEqual(m_prevData.data(), line, m_prevLength) &&
                 isLineBlank(m_prevData.data() + m_prevLength,
                             std::min<int>(m_prevData.size(), newLength) - m_prevLength,
-- 
2.43.0


From 78501b828344a2c8bf3a464ab0fee0fce4b7d6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 06/14] fix: do not send half of a full-width character at the
 end of a line

---
 src/agent/Terminal.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index a3b39c8..8f2bf3d 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -281,6 +281,15 @@ static inline void scanUnicodeScalarValue(
 {
     ASSERT(width >= 1);
 
+    if (width == 1 &&
+            (data[0].Attributes & WINPTY_COMMON_LVB_LEADING_BYTE)) {
+        // The line ends in the middle of a full-width character, which would
+        // not fit onto the terminal's line.
+        outCellCount = 1;
+        outCharValue = '?';
+        return;
+    }
+
     const int w1 = isFullWidthCharacter(data, width) ? 2 : 1;
     const wchar_t c1 = data[0].Char.UnicodeChar;
 
-- 
2.43.0


From 69cd8b4db958b9078d7a878db6ff55ce94eaf2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 07/14] fix: query the console again after freezing it to retry
 a scrape

---
 src/agent/Scraper.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index 62c4e02..55c226e 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -369,10 +369,13 @@ void Scraper::syncConsoleContentAndSize(
     } else {
         if (!m_console.frozen()) {
             if (!scrollingScrapeOutput(info, cursorVisible, true)) {
+                // The console may have changed since we queried it, so start
+                // over, now with the console frozen.
                 m_console.setFrozen(true);
+                syncConsoleContentAndSize(forceResize, finalInfoOut);
+                return;
             }
-        }
-        if (m_console.frozen()) {
+        } else {
             scrollingScrapeOutput(info, cursorVisible, false);
         }
         // In scrolling mode, we want to scrape before resizing, because we'll
-- 
2.43.0


From 277d06d86922f2162815b09455a00d0d29541bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 08/14] fix: Resize the console before scraping it when leaving
 direct mode

---
 src/agent/Scraper.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index 55c226e..9f5a835 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -333,7 +333,7 @@ void Scraper::syncConsoleContentAndSize(
         m_console.setFrozen(true);
     }
 
-    const ConsoleScreenBufferInfo info = m_consoleBuffer->bufferInfo();
+    ConsoleScreenBufferInfo info = m_consoleBuffer->bufferInfo();
     bool cursorVisible = true;
     CONSOLE_CURSOR_INFO cursorInfo = {};
     if (!GetConsoleCursorInfo(m_consoleBuffer->conout(), &cursorInfo)) {
@@ -344,19 +344,24 @@ void Scraper::syncConsoleContentAndSize(
 
     // If an app resizes the buffer height, then we enter "direct mode", where
     // we stop trying to track incremental console changes.
-    const bool newDirectMode = (info.bufferSize().Y != BUFFER_LINE_COUNT);
+    bool newDirectMode = (info.bufferSize().Y != BUFFER_LINE_COUNT);
+
+    // When we switch from direct->scrolling mode, make sure the console is the
+    // right size.  Do it before scraping: outputting a window taller than the
+    // terminal would scroll the terminal.
+    if (m_directMode && !newDirectMode) {
+        m_console.setFrozen(true);
+        resizeImpl(info);
+        forceResize = false;
+        info = m_consoleBuffer->bufferInfo();
+        newDirectMode = (info.bufferSize().Y != BUFFER_LINE_COUNT);
+    }
+
     if (newDirectMode != m_directMode) {
         trace("Entering %s mode", newDirectMode ? "direct" : "scrolling");
         resetConsoleTracking(Terminal::SendClear,
                              newDirectMode ? 0 : info.windowRect().top());
         m_directMode = newDirectMode;
-
-        // When we switch from direct->scrolling mode, make sure the console is
-        // the right size.
-        if (!m_directMode) {
-            m_console.setFrozen(true);
-            forceResize = true;
-        }
     }
 
     if (m_directMode) {
-- 
2.43.0


From e16d08b40e364e5ef153b29c64645afae3934933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 09/14] fix: Resend a line when a surrogate pair is completed
 after its first half was output

---
 src/agent/Terminal.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index 8f2bf3d..6bb7362 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -262,6 +262,17 @@ static inline bool isFullWidthCharacter(const CHAR_INFO *data, int width)
         data[0].Char.UnicodeChar == data[1].Char.UnicodeChar;
 }
 
+// Returns true if the first `count` cells end with a high surrogate that the
+// next cell completes.  (On its own, it was output as an invalid character.)
+static inline bool splitsSurrogatePair(
+    const CHAR_INFO *data, int count, int width)
+{
+    return
+        count > 0 && count < width &&
+        (data[count - 1].Char.UnicodeChar & 0xFC00) == 0xD800 &&
+        (data[count].Char.UnicodeChar & 0xFC00) == 0xDC00;
+}
+
 // Scan to find a single Unicode Scalar Value.  Full-width characters occupy
 // two console cells, and this code also tries to handle UTF-16 surrogate
 // pairs.
@@ -353,7 +364,8 @@ void Terminal::sendLine(int64_t line, const CHAR_INFO *lineData, int width,
             }
             if (!okWidth ||
                     memcmp(m_lineData.data(), lineData,
-                           sizeof(CHAR_INFO) * m_lineData.size()) != 0) {
+                           sizeof(CHAR_INFO) * m_lineData.size()) != 0 ||
+                    splitsSurrogatePair(lineData, m_lineData.size(), width)) {
                 m_lineDataValid = false;
             }
         }
-- 
2.43.0


From 4982169b42b2953be15269c94840571831c3ad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 10/14] fix: a malformed UTF-8 character no longer swallows the
 input after it

A lead byte followed by too few continuation bytes was discarded together with
the full length it announced, so the following keys were lost (or merged into
an incomplete character and dropped by the timeout).  Discard only the bytes
before the first one that cannot belong to the character.
---
 src/agent/ConsoleInput.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/agent/ConsoleInput.cc b/src/agent/ConsoleInput.cc
index 192cac2..1665eb5 100644
--- a/src/agent/ConsoleInput.cc
+++ b/src/agent/ConsoleInput.cc
@@ -190,6 +190,19 @@ static int matchMouseRecord(const char *input, int inputSize, MouseRecord &out)
 #undef ADVANCE
 #undef SCAN_INT
 
+// The first byte announces a UTF-8 character of charLen bytes.  If one of the
+// bytes after it cannot continue the character, return the number of bytes
+// before that one, so that it keeps its own meaning.  Otherwise, return 0.
+static int malformedUtf8Length(const char *input, int inputSize, int charLen)
+{
+    for (int i = 1; i < std::min(charLen, inputSize); ++i) {
+        if ((input[i] & 0xC0) != 0x80) {
+            return i;
+        }
+    }
+    return 0;
+}
+
 } // anonymous namespace
 
 ConsoleInput::ConsoleInput(HANDLE conin, int mouseMode, DsrSender &dsrSender,
@@ -456,6 +469,12 @@ int ConsoleInput::scanInput(std::vector<INPUT_RECORD> &records,
     if (input[0] == '\x1B' && inputSize >= 2 && input[1] != '\x1B') {
         const int len = utf8CharLength(input[1]);
         if (len > 0) {
+            const int malformedLen =
+                malformedUtf8Length(&input[1], inputSize - 1, len);
+            if (malformedLen > 0) {
+                trace("Discarding malformed UTF-8 character in Alt-<Char>");
+                return 1 + malformedLen;
+            }
             if (1 + len > inputSize) {
                 // Incomplete character.
                 trace("Incomplete UTF-8 character in Alt-<Char>");
@@ -476,6 +495,11 @@ int ConsoleInput::scanInput(std::vector<INPUT_RECORD> &records,
         }
         return 1;
     }
+    const int malformedLen = malformedUtf8Length(&input[0], inputSize, len);
+    if (malformedLen > 0) {
+        trace("Discarding malformed UTF-8 character");
+        return malformedLen;
+    }
     if (len > inputSize) {
         // Incomplete character.
         trace("Incomplete UTF-8 character");
-- 
2.43.0


From f34a26144e86a4acc08858052243bea8c9b39837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 11/14] fix: do not take a control character after ESC [ M as
 part of a mouse report

ESC [ M is also the keypad's Enter key.  While it was waiting to be resolved, the
reply to the device status query sent for that purpose was taken as the rest of a
mouse report, so the key was lost and the tail of the reply was typed into the
application.
---
 src/agent/ConsoleInput.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/agent/ConsoleInput.cc b/src/agent/ConsoleInput.cc
index 1665eb5..b8900d5 100644
--- a/src/agent/ConsoleInput.cc
+++ b/src/agent/ConsoleInput.cc
@@ -129,6 +129,10 @@ static int matchMouseDefault(const char *input, int inputSize,
     CHECK(*pch == '\x1B');              ADVANCE();
     CHECK(*pch == '[');                 ADVANCE();
     CHECK(*pch == 'M');                 ADVANCE();
+    // ESC [ M is also the keypad's Enter key.  The flags of a mouse record are
+    // biased by 32, so a control character (e.g. the ESC beginning the DSR
+    // reply) isn't part of one.
+    CHECK(static_cast<unsigned char>(*pch) >= 32);
     out.flags = (*pch - 32) & 0xFF;     ADVANCE();
     out.coord.X = (*pch - '!') & 0xFF;
     ADVANCE();
-- 
2.43.0


From 7248cedfde7b69af2ba79e9e21acbf0302e5b3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 12/14] fix: recognise the device status reply that resolves a
 lone ESC

With the cursor in the first row and one of the columns 2 to 8, the reply ESC [1;2R
and the pending ESC before it were taken as Alt-Shift-F3 and so on, so the ESC key
became another key and the query remained outstanding for good.
---
 src/agent/ConsoleInput.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/agent/ConsoleInput.cc b/src/agent/ConsoleInput.cc
index b8900d5..58ed826 100644
--- a/src/agent/ConsoleInput.cc
+++ b/src/agent/ConsoleInput.cc
@@ -439,6 +439,15 @@ int ConsoleInput::scanInput(std::vector<INPUT_RECORD> &records,
         }
     }
 
+    // A lone ESC is resolved by the DSR reply coming right after it.  Together
+    // they can look like a key sequence (e.g. ESC ESC [1;2R is Alt-Shift-F3).
+    if (m_dsrSent && inputSize >= 2 &&
+            input[0] == '\x1B' && input[1] == '\x1B' &&
+            matchDsr(&input[1], inputSize - 1) > 0) {
+        appendUtf8Char(records, &input[0], 1, false);
+        return 1;
+    }
+
     // Search the input map.
     InputMap::Key match;
     bool incomplete;
-- 
2.43.0


From c373594fa8b201eda7c511fecefe77e94b55768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:35 +0000
Subject: [PATCH 13/14] fix: ignore an unknown or zero terminal size in the
 Unix adapter

A terminal that reports a size of zero made winpty_config_set_initial_size or
winpty_set_size abort the adapter, and a failing ioctl in the main loop passed
uninitialised values on.
---
 src/unix-adapter/main.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index 992cb70..a807f0c 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -198,6 +198,17 @@ static void registerResizeSignalHandler()
     sigaction(SIGWINCH, &resizeSigAct, NULL);
 }
 
+// Get the size of the terminal.  Leave the output alone if stdin isn't a
+// terminal or if the terminal doesn't know its size (and reports zeros).
+static void queryTerminalSize(winsize &sz)
+{
+    winsize cur;
+    if (ioctl(STDIN_FILENO, TIOCGWINSZ, &cur) == 0 &&
+            cur.ws_col > 0 && cur.ws_row > 0) {
+        sz = cur;
+    }
+}
+
 // Convert the path to a Win32 path if it is a POSIX path, and convert slashes
 // to backslashes.
 static std::string convertPosixPathToWin(const std::string &path)
@@ -592,7 +603,7 @@ int main(int argc, char *argv[])
     winsize sz = { 0 };
     sz.ws_col = 80;
     sz.ws_row = 25;
-    ioctl(STDIN_FILENO, TIOCGWINSZ, &sz);
+    queryTerminalSize(sz);
 
     DWORD agentFlags = WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION;
     if (args.testConerr)        { agentFlags |= WINPTY_FLAG_CONERR; }
@@ -686,8 +697,8 @@ int main(int argc, char *argv[])
 
         // Check for terminal resize.
         {
-            winsize sz2;
-            ioctl(STDIN_FILENO, TIOCGWINSZ, &sz2);
+            winsize sz2 = sz;
+            queryTerminalSize(sz2);
             if (memcmp(&sz, &sz2, sizeof(sz)) != 0) {
                 sz = sz2;
                 winpty_set_size(wp, sz.ws_col, sz.ws_row, NULL);
-- 
2.43.0


From 2a93e5d92a05a7ab8d829da96ec928e259665c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:35 +0000
Subject: [PATCH 14/14] fix: notice a terminal resize during the startup of the
 Unix adapter

The size is queried before the session is opened, but SIGWINCH is only handled
once the child runs.  A change in between went unnoticed until the next one.
---
 src/unix-adapter/main.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index a807f0c..3d75504 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -678,6 +678,8 @@ int main(int argc, char *argv[])
     }
 
     registerResizeSignalHandler();
+    // The terminal could have been resized since its size was queried.
+    mainWakeup().set();
     SavedTermiosMode mode =
         setRawTerminalMode(args.testAllowNonTtys, true, args.testConerr);
 
-- 
2.43.0

