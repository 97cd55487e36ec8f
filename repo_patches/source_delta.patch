From 44702a6916bedacf7d135308f3cacedb1f9472e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 1/7] fix: do not mistake namespace identifiers starting with
 'u' for the reserved "urn"

In RFC 2141 mode the lookahead guarding the reserved "urn" identifier only
checked that the third byte from the identifier start is a colon, so it
refused any two-more-byte identifier starting with 'u' (urn:uci:I001) and
identifiers such as urn:u:b:c, too. Check the "rn" in between as well.
---
 machine.go    | 2 +-
 machine.go.rl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/machine.go b/machine.go
index aec1ba6..4659ddb 100644
--- a/machine.go
+++ b/machine.go
@@ -4360,7 +4360,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			// Throw an error when:
 			// - we are entering here matching the the prefix in the namespace identifier part
 			// - looking ahead (3 chars) we find a colon
-			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && m.data[m.p+1]|32 == 'r' && m.data[m.p+2]|32 == 'n' && output.prefix != "" {
 				m.err = fmt.Errorf(errNoUrnWithinID, pos)
 				(m.p)--
 
diff --git a/machine.go.rl b/machine.go.rl
index 0a17421..a96e5e7 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -50,7 +50,7 @@ action throw_pre_urn_err {
         // Throw an error when:
         // - we are entering here matching the the prefix in the namespace identifier part
         // - looking ahead (3 chars) we find a colon
-        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && m.data[m.p+1]|32 == 'r' && m.data[m.p+2]|32 == 'n' && output.prefix != "" {
             m.err = fmt.Errorf(errNoUrnWithinID, pos)
             fhold;
             fgoto fail;
-- 
2.43.0


From 3f04a7ff55e33a6de1e06203891308295a913aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 2/7] fix: report an error for malformed RFC 8141 components

In RFC 8141 mode some malformed inputs (urn:ex:ex?, urn:ex:ex?x,
urn:ex:ex#a#b) stopped the machine without setting an error, so
Machine.Parse returned (nil, nil) and Parse returned (nil, true).
---
 machine.go    | 4 ++++
 machine.go.rl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/machine.go b/machine.go
index 4659ddb..0f22a6e 100644
--- a/machine.go
+++ b/machine.go
@@ -24,6 +24,7 @@ var (
 	err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
 	err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
 	err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+	err8141Malformed       = "expecting a well-formed r-component (starting with ?+), q-component (starting with ?=), or f-component (starting with #) [col %d]"
 )
 var _toStateActions []byte = []byte{
 	0, 0, 0, 0, 0, 0, 0, 0,
@@ -5026,6 +5027,9 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	}
 
 	if m.cs < firstFinal || m.cs == enFail {
+		if m.err == nil {
+			m.err = fmt.Errorf(err8141Malformed, m.p)
+		}
 		return nil, m.err
 	}
 
diff --git a/machine.go.rl b/machine.go.rl
index a96e5e7..e844ba5 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -24,6 +24,7 @@ var (
     err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
     err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
     err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+    err8141Malformed       = "expecting a well-formed r-component (starting with ?+), q-component (starting with ?=), or f-component (starting with #) [col %d]"
 )
 
 %%{
@@ -366,6 +367,9 @@ func (m *machine) Parse(input []byte) (*URN, error) {
     %% write exec;
 
     if m.cs < first_final || m.cs == en_fail {
+        if m.err == nil {
+            m.err = fmt.Errorf(err8141Malformed, m.p)
+        }
         return nil, m.err
     }
 
-- 
2.43.0


From f9b743cb2cc5535c4693c17e4b18d3d74fe7a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 3/7] fix: make the Default parsing mode parse RFC 2141 strings

WithParsingMode(Default) (or an unknown mode) left the machine without a
start state: every Parse call returned (nil, nil).
---
 machine.go    | 4 ++++
 machine.go.rl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/machine.go b/machine.go
index 0f22a6e..9c0b949 100644
--- a/machine.go
+++ b/machine.go
@@ -5045,6 +5045,10 @@ func (m *machine) WithParsingMode(x ParsingMode) {
 		m.startParsingAt = enRfc8141Only
 	case RFC7643Only:
 		m.startParsingAt = enScimOnly
+	default:
+		// Default, or an unknown mode
+		m.parsingMode = DefaultParsingMode
+		m.startParsingAt = enMain
 	}
 	m.parsingModeSet = true
 }
diff --git a/machine.go.rl b/machine.go.rl
index e844ba5..4720ab1 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -385,6 +385,10 @@ func (m *machine) WithParsingMode(x ParsingMode) {
             m.startParsingAt = en_rfc8141_only
         case RFC7643Only:
             m.startParsingAt = en_scim_only
+        default:
+            // Default, or an unknown mode
+            m.parsingMode = DefaultParsingMode
+            m.startParsingAt = en_main
     }
     m.parsingModeSet = true
 }
\ No newline at end of file
-- 
2.43.0


From d453d21bb71fc4c4bf2254416a531b8faf711a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 4/7] fix: keep the prefix of RFC 8141 informal URNs

The prefix was set again when the namespace identifier started with
"urn-", so urn:URN-7:x yielded a URN with prefix URN, and its String()
differed from the parsed input.
---
 machine.go    | 4 +++-
 machine.go.rl | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/machine.go b/machine.go
index 9c0b949..22c2982 100644
--- a/machine.go
+++ b/machine.go
@@ -4160,7 +4160,9 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f2:
 
-		output.prefix = string(m.text())
+		if output.prefix == "" {
+			output.prefix = string(m.text())
+		}
 
 		goto _again
 	f6:
diff --git a/machine.go.rl b/machine.go.rl
index 4720ab1..fbf49e5 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -43,7 +43,9 @@ action tolower {
 }
 
 action set_pre {
-    output.prefix = string(m.text())
+    if output.prefix == "" {
+        output.prefix = string(m.text())
+    }
 }
 
 action throw_pre_urn_err {
-- 
2.43.0


From 91a556b4303c746bdd7a94fb21dea62d3a62ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 5/7] fix: make Normalize idempotent and work on URNs not
 coming from the parser

Normalize read the normalized specific string the parser left, which
neither its own result nor a URN built by hand has: normalizing them lost
the specific string, and Equal ignored it.
---
 urn.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/urn.go b/urn.go
index 894d625..7a8720e 100644
--- a/urn.go
+++ b/urn.go
@@ -34,16 +34,37 @@ type URN struct {
 //
 // Which means: lowercase prefix, lowercase namespace identifier, and immutate namespace specific string chars (except <hex> tokens which are lowercased).
 func (u *URN) Normalize() *URN {
+	norm := u.norm
+	if norm == "" {
+		// Not coming from the parser
+		norm = normalizeSS(u.SS)
+	}
+
 	return &URN{
 		prefix: "urn",
 		ID:     strings.ToLower(u.ID),
-		SS:     u.norm,
+		SS:     norm,
+		norm:   norm,
 		// rComponent: u.rComponent,
 		// qComponent: u.qComponent,
 		// fComponent: u.fComponent,
 	}
 }
 
+// normalizeSS lowercases the <hex> tokens in the input namespace specific string.
+func normalizeSS(ss string) string {
+	norm := []byte(ss)
+	for i := 1; i < len(norm); i++ {
+		if norm[i-1] == '%' || i > 1 && norm[i-2] == '%' {
+			if c := norm[i]; 'A' <= c && c <= 'Z' {
+				norm[i] = c + 32
+			}
+		}
+	}
+
+	return string(norm)
+}
+
 // Equal checks the lexical equivalence of the current URN with another one.
 func (u *URN) Equal(x *URN) bool {
 	if x == nil {
-- 
2.43.0


From 89c981745f9cc9cea5150499644e4ef5fd193424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 6/7] fix: do not write into the input while parsing

Parse lowered the <hex> tokens in the caller's buffer and reverted them
afterwards: a data race when the buffer is shared (e.g., parsed by two
goroutines), and a fault when it is read-only.
---
 machine.go    | 60 +++++++++++++--------------------------------------
 machine.go.rl | 20 +++++++++--------
 2 files changed, 26 insertions(+), 54 deletions(-)

diff --git a/machine.go b/machine.go
index 22c2982..d87a891 100644
--- a/machine.go
+++ b/machine.go
@@ -135,6 +135,16 @@ func (m *machine) text() []byte {
 	return m.data[m.pb:m.p]
 }
 
+// lowered returns a copy of the current text with the upper letters at the given positions lowered.
+func (m *machine) lowered(positions []int) string {
+	text := append([]byte{}, m.text()...)
+	for _, i := range positions {
+		text[i] = text[i] + 32
+	}
+
+	return string(text)
+}
+
 // Parse parses the input byte array as a RFC 2141 or RFC7643 string.
 func (m *machine) Parse(input []byte) (*URN, error) {
 	m.data = input
@@ -4173,15 +4183,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	f38:
 
 		output.SS = string(m.text())
-		// Iterate upper letters lowering them
-		for _, i := range output.tolower {
-			m.data[m.pb+i] = m.data[m.pb+i] + 32
-		}
-		output.norm = string(m.text())
-		// Revert the buffer to the original
-		for _, i := range output.tolower {
-			m.data[m.pb+i] = m.data[m.pb+i] - 32
-		}
+		output.norm = m.lowered(output.tolower)
 
 		goto _again
 	f0:
@@ -4748,30 +4750,14 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			case 34:
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.norm = m.lowered(output.tolower)
 
 				output.kind = RFC2141
 
 			case 38:
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.norm = m.lowered(output.tolower)
 
 				output.kind = RFC8141
 
@@ -4960,15 +4946,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				output.scim.Name = string(m.data[output.scim.pos:m.p])
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.norm = m.lowered(output.tolower)
 
 				output.kind = RFC7643
 
@@ -4977,15 +4955,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				output.scim.Other = string(m.data[output.scim.pos:m.p])
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.norm = m.lowered(output.tolower)
 
 				output.kind = RFC7643
 
diff --git a/machine.go.rl b/machine.go.rl
index fbf49e5..003a18b 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -67,15 +67,7 @@ action set_nid {
 
 action set_nss {
     output.SS = string(m.text())
-    // Iterate upper letters lowering them
-    for _, i := range output.tolower {
-        m.data[m.pb+i] = m.data[m.pb+i] + 32
-    }
-    output.norm = string(m.text())
-    // Revert the buffer to the original
-    for _, i := range output.tolower {
-        m.data[m.pb+i] = m.data[m.pb+i] - 32
-    }
+    output.norm = m.lowered(output.tolower)
 }
 
 action err_pre {
@@ -353,6 +345,16 @@ func (m *machine) text() []byte {
     return m.data[m.pb:m.p]
 }
 
+// lowered returns a copy of the current text with the upper letters at the given positions lowered.
+func (m *machine) lowered(positions []int) string {
+    text := append([]byte{}, m.text()...)
+    for _, i := range positions {
+        text[i] = text[i] + 32
+    }
+
+    return string(text)
+}
+
 // Parse parses the input byte array as a RFC 2141 or RFC7643 string.
 func (m *machine) Parse(input []byte) (*URN, error) {
     m.data = input
-- 
2.43.0


From f2498ea533a4db07413e341e0de6fc6dcc9998e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 7/7] fix: do not panic marshaling a zero URN8141

URN8141{} embeds a nil *URN, on which String panicked.
---
 urn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/urn.go b/urn.go
index 7a8720e..1af5820 100644
--- a/urn.go
+++ b/urn.go
@@ -84,7 +84,7 @@ func (u *URN) Equal(x *URN) bool {
 // Default URN prefix is "urn".
 func (u *URN) String() string {
 	var res string
-	if u.ID != "" && u.SS != "" {
+	if u != nil && u.ID != "" && u.SS != "" {
 		if u.prefix == "" {
 			res += "urn"
 		}
-- 
2.43.0

