From 3f602a42bf884264e135c15ba088c4b9e8a99de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 01/25] fix: a variable with string and regex selectors covers
 the union of both

---
 modsecurity/variables/filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modsecurity/variables/filter.go b/modsecurity/variables/filter.go
index 0fe135c..6b0c63d 100644
--- a/modsecurity/variables/filter.go
+++ b/modsecurity/variables/filter.go
@@ -76,8 +76,9 @@ func (f *filter) Names(vs map[string][]string) []string {
 func (f *filter) FetchWithNames(vs map[string][]string) map[string][]string {
 	var res = make(map[string][]string)
 	for k, v := range vs {
-		if (f.include != nil && !utils.StringInSlice(k, f.include)) ||
-			(f.includeRegex != nil && !utils.StringInRegexSlice(k, f.includeRegex)) {
+		if (f.include != nil || f.includeRegex != nil) &&
+			!utils.StringInSlice(k, f.include) &&
+			!utils.StringInRegexSlice(k, f.includeRegex) {
 			continue
 		}
 		if (f.exclude != nil && utils.StringInSlice(k, f.exclude)) ||
-- 
2.43.0


From 3395dc19c58683a6871b1d40e5879dfc02a91159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 02/25] fix: a variable listed without selector is inspected as
 a whole

---
 seclang/variable.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/seclang/variable.go b/seclang/variable.go
index 5408859..6bc1a6a 100644
--- a/seclang/variable.go
+++ b/seclang/variable.go
@@ -42,6 +42,11 @@ func variableNoArgErrWrapper(f func() modsecurity.Variable) func(v *parser.Varia
 	}
 }
 
+type wholeKey struct {
+	tk    int
+	count bool
+}
+
 type VariableFactory func(*parser.Variable) (modsecurity.Variable, error)
 
 func (dr *DireRule) applyVariables(vs []*parser.Variable) error {
@@ -51,6 +56,14 @@ func (dr *DireRule) applyVariables(vs []*parser.Variable) error {
 		factory  VariableFactory
 		variable modsecurity.Variable
 	)
+	// A variable listed without a selector is inspected as a whole, whatever
+	// selectors accompany it.
+	whole := make(map[wholeKey]bool)
+	for _, v := range vs {
+		if v.Index == "" && !v.Exclusion {
+			whole[wholeKey{v.Tk, v.Count}] = true
+		}
+	}
 	varMap := make(map[int]modsecurity.Variable)
 	countVarMap := make(map[int]modsecurity.Variable)
 	for _, v := range vs {
@@ -75,6 +88,9 @@ func (dr *DireRule) applyVariables(vs []*parser.Variable) error {
 		}
 		if v.Index != "" {
 			if !v.Exclusion {
+				if whole[wholeKey{v.Tk, v.Count}] {
+					continue
+				}
 				err := variable.Include(v.Index)
 				if err != nil {
 					return err
-- 
2.43.0


From 59117027e4766fa05142417e8e97d0b7e61a5e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 03/25] fix: ARGS_POST_NAMES no longer panics on a malformed
 multipart body

---
 modsecurity/variables/args_post_names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/variables/args_post_names.go b/modsecurity/variables/args_post_names.go
index e66eab2..e272ad2 100644
--- a/modsecurity/variables/args_post_names.go
+++ b/modsecurity/variables/args_post_names.go
@@ -30,7 +30,7 @@ func (v *VariableArgsPostNames) Fetch(t *modsecurity.Transaction) []string {
 		return v.filter.Names(content)
 	case bodyTypeMultipart:
 		content, ok := parsed.(*multipart.Form)
-		if !ok {
+		if content == nil || !ok {
 			return nil
 		}
 		return v.filter.Names(content.Value)
-- 
2.43.0


From ee553fd870b647e091d2143b3aa81f683f810401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 04/25] fix: reading a body buffer advances to its end and
 closes it for writes

---
 modsecurity/buffer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 27a982c..c710310 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -84,7 +84,10 @@ func (b *buffer) Len() int64 {
 func (b *buffer) initRead() {
 	if !b.readed {
 		b.memReader = bytes.NewReader(b.memBuf.Bytes())
-		b.fileBuf.Seek(0, 0)
+		if b.fileBuf != nil {
+			b.fileBuf.Seek(0, 0)
+		}
+		b.readed = true
 	}
 	return
 }
-- 
2.43.0


From 7ebd0e6ca3a87dbbb1bbe0b25fb22b44abfaf882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 05/25] fix: a body write that spills to disk is stored once

---
 modsecurity/buffer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index c710310..9263fb2 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -44,7 +44,6 @@ func (b *buffer) Write(p []byte) (wn int, err error) {
 	case b.length+int64(len(p)) > b.fileLimit:
 		return 0, ErrOutOfFileLimit
 	case b.fileBuf == nil && b.length+int64(len(p)) > b.memLimit:
-		b.memBuf.Write(p[:b.memLimit-b.length])
 		b.fileBuf, err = ioutil.TempFile(b.dir, "modsecurity-buffer-*.data")
 		if err != nil {
 			return 0, err
@@ -54,6 +53,9 @@ func (b *buffer) Write(p []byte) (wn int, err error) {
 			return 0, err
 		}
 		wn, err = b.fileBuf.Write(p)
+		if room := b.memLimit - b.length; err == nil && room > 0 {
+			b.memBuf.Write(p[:room])
+		}
 	case b.fileBuf == nil:
 		wn, err = b.memBuf.Write(p)
 	default:
-- 
2.43.0


From 1063966ebc68ac92bdfdfd896ac7e3d7c0f8cc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 06/25] fix: closing a body buffer that stayed in memory no
 longer panics

---
 modsecurity/buffer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 9263fb2..d2a0f7c 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -116,6 +116,9 @@ func (b *buffer) Seek(offset int64, whence int) (int64, error) {
 }
 
 func (b *buffer) Close() error {
+	if b.fileBuf == nil {
+		return nil
+	}
 	filename := b.fileBuf.Name()
 	err := b.fileBuf.Close()
 	err2 := os.Remove(filename)
-- 
2.43.0


From 3e7878a688b2eae5c15ab6ecfc765e0ef0b7a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 07/25] fix: a stray backslash no longer hangs the SecLang
 scanner

---
 seclang/parser/scanner.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 7b8f4b2..d373c07 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -354,11 +354,11 @@ func (s *Scanner) SkipBlank() error {
 		case isBlank(s.current):
 			s.advance()
 		case s.current == '\\':
-			if s.next() == '\n' {
-				s.advance()             //skip '\\'
-				s.incrementLineNumber() // skip newlines
-
+			if !isNewLine(s.next()) {
+				return nil
 			}
+			s.advance()             //skip '\\'
+			s.incrementLineNumber() // skip newlines
 		default:
 			return nil
 
-- 
2.43.0


From d87097f5fc8eb4fdba4fa9739a8fd38764d40562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:52 +0000
Subject: [PATCH 08/25] fix: a SecRule without phase action is no longer
 dropped silently

---
 seclang/actions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seclang/actions.go b/seclang/actions.go
index 6765170..5cb8701 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -92,6 +92,9 @@ type actionProcessor struct {
 func (dr *DireRule) applyActions(actions *parser.Actions) error {
 	dr.rule.Id = actions.Id
 	dr.rule.Phase = actions.Phase
+	if dr.rule.Phase == 0 { // no phase action
+		dr.rule.Phase = parser.PhaseRequestBody
+	}
 	dr.chain = actions.Chain
 	for _, action := range actions.Action {
 		processor, has := actionFactorys[action.Tk]
-- 
2.43.0


From 83344ca37fd658855ed7362950a1fc6f14e81cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 09/25] fix: support the documented actions pass, severity and
 logdata

---
 seclang/actions.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/seclang/actions.go b/seclang/actions.go
index 5cb8701..635488f 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -22,6 +22,9 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 	parser.TkActionBlock: &actionProcessor{
 		factory: actionWrapper(actions.NewActionBlock),
 	},
+	parser.TkActionPass: &actionProcessor{
+		factory: actionWrapper(actions.NewActionPass),
+	},
 	parser.TkActionStatus: &actionProcessor{
 		factory: actionNumArgWrapper(actions.NewActionStatus),
 	},
@@ -40,6 +43,12 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 	parser.TkActionVer: &actionProcessor{
 		meta: metaFactory("ver"),
 	},
+	parser.TkActionSeverity: &actionProcessor{
+		meta: metaFactory("severity"),
+	},
+	parser.TkActionLogData: &actionProcessor{
+		meta: metaFactory("logdata"),
+	},
 }
 
 func isQuote(c rune) bool { return '\'' == c || '"' == c }
-- 
2.43.0


From 68f1a0651244785220cfd61945e0c551eee22b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 10/25] fix: REQUEST_HEADERS_NAMES depends on the headers only

---
 modsecurity/variables/request_headers_names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/variables/request_headers_names.go b/modsecurity/variables/request_headers_names.go
index b3a2568..7b615d6 100644
--- a/modsecurity/variables/request_headers_names.go
+++ b/modsecurity/variables/request_headers_names.go
@@ -16,7 +16,7 @@ func (*VariableRequestHeadersNames) Name() string {
 	return "REQUEST_HEADERS_NAMES"
 }
 func (v *VariableRequestHeadersNames) Fetch(t *modsecurity.Transaction) []string {
-	if t == nil || t.URL == nil {
+	if t == nil || t.Request.Header == nil {
 		return nil
 	}
 	return v.filter.Names(t.Request.Header)
-- 
2.43.0


From d5a0ff0fbc674c30c428cca7874898bc4b2bea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 11/25] fix: a partly malformed request body is inspected the
 same way by every variable

---
 modsecurity/variables/request_body_parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 80c3986..3434831 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -41,9 +41,11 @@ var parsers = map[int]*bodyParser{
 			form, err := mr.ReadForm(t.Engine.RequestBodyInMem)
 			if err == multipart.ErrMessageTooLarge {
 				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
+			}
+			if err != nil {
 				return nil, err
 			}
-			return form, err
+			return form, nil
 		},
 	},
 }
@@ -76,7 +78,6 @@ func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{
 			t.VariableCache[cacheKey] = res
 			if err != nil {
 				t.RequestBodyError = err
-				break
 			}
 		}
 		if res != nil {
-- 
2.43.0


From 78e06c0bb3011cdfb8b8b6a9b603b31fba525bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 12/25] fix: allow runs the phase it resumes at, and never
 restarts a phase

---
 modsecurity/actions/allow.go | 14 ++++++++++++--
 modsecurity/transaction.go   |  6 +++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/modsecurity/actions/allow.go b/modsecurity/actions/allow.go
index 7374b42..ac8493d 100644
--- a/modsecurity/actions/allow.go
+++ b/modsecurity/actions/allow.go
@@ -27,10 +27,20 @@ func (a *ActionAllow) Value() string {
 func (a *ActionAllow) Do(t *modsecurity.Transaction) {
 	switch a.arg {
 	case "":
-		t.JumpToPhase(modsecurity.PhaseLogging)
+		skipToPhase(t, modsecurity.PhaseLogging)
 	case "phase":
 		t.NextPhase()
 	case "request":
-		t.JumpToPhase(modsecurity.PhaseResponseHeaders)
+		skipToPhase(t, modsecurity.PhaseResponseHeaders)
 	}
 }
+
+// skipToPhase ends the current phase; the next one to run is phase, or the
+// following one when phase has been reached already.
+func skipToPhase(t *modsecurity.Transaction, phase int) {
+	if t.CurrentPhase() >= phase {
+		t.NextPhase()
+		return
+	}
+	t.JumpToPhase(phase)
+}
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 8f9a256..b9e4f57 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -26,6 +26,8 @@ type Transaction struct {
 	currentRule  int
 	nextRule     int
 	Data         map[string]interface{}
+	// last phase whose rules were run
+	processedPhase int
 }
 
 const StatusNotStarted = -1
@@ -153,9 +155,11 @@ func (t *Transaction) NextPhase() int {
 }
 
 func (t *Transaction) ProcessPhase(phase int) {
-	if t.currentPhase >= phase {
+	// A jump forward skips the phases before its target, not the target itself.
+	if phase <= t.processedPhase || phase < t.currentPhase {
 		return
 	}
+	t.processedPhase = phase
 	t.JumpToPhase(phase)
 	t.processPhase(phase)
 }
-- 
2.43.0


From f52e40d58504618e16ef22152de427a49d0458a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 13/25] fix: the deny log entry names the status the client
 gets

---
 modsecurity/actions/deny.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/actions/deny.go b/modsecurity/actions/deny.go
index 94f35ce..80d8fb1 100644
--- a/modsecurity/actions/deny.go
+++ b/modsecurity/actions/deny.go
@@ -35,5 +35,5 @@ func (*ActionDeny) Do(t *modsecurity.Transaction) {
 
 	}
 	i.Disruptive = true
-	t.Logf("ModSecurity: Access denied with code 403")
+	t.Logf("ModSecurity: Access denied with code %d", i.Status)
 }
-- 
2.43.0


From b90e961c17e961284ff2ba9bb1155a942c3b969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 14/25] fix: no further rule runs while a blocking verdict is
 pending

---
 modsecurity/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index b9e4f57..a948351 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -165,7 +165,7 @@ func (t *Transaction) ProcessPhase(phase int) {
 }
 
 func (t *Transaction) processPhase(phase int) {
-	if t.Abort {
+	if t.Abort || t.Intervention().Disruptive {
 		return
 	}
 	next := t.Next()
-- 
2.43.0


From e6f20374546dfcf11b1762ce2f831959a0f4cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 15/25] fix: honour SecRuleEngine Off and DetectionOnly

---
 modsecurity/engine.go      |  1 +
 modsecurity/sec_rule.go    |  5 ++++-
 modsecurity/transaction.go | 11 +++++++----
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/modsecurity/engine.go b/modsecurity/engine.go
index 34f47d3..24b0459 100644
--- a/modsecurity/engine.go
+++ b/modsecurity/engine.go
@@ -35,6 +35,7 @@ func NewDefaultLimits() *Limits {
 
 func NewEngine() *Engine {
 	return &Engine{
+		Enabled: true,
 		RuleSet: NewSecRuleSet(),
 		Limits:  NewDefaultLimits(),
 		Config:  NewDefaultConfig(),
diff --git a/modsecurity/sec_rule.go b/modsecurity/sec_rule.go
index e157122..743a0f2 100644
--- a/modsecurity/sec_rule.go
+++ b/modsecurity/sec_rule.go
@@ -106,7 +106,10 @@ func ActionsExecute(t *Transaction, as []Action) {
 	for _, a := range as {
 		actionMap[a.ActionGroup()] = append(actionMap[a.ActionGroup()], a)
 	}
-	for _, actions := range actionMap {
+	for group, actions := range actionMap {
+		if group == ActionGroupDisruptive && t.Engine.DetectionOnly {
+			continue
+		}
 		for _, action := range actions {
 			action.Do(t)
 		}
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index a948351..0d63d73 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -165,6 +165,9 @@ func (t *Transaction) ProcessPhase(phase int) {
 }
 
 func (t *Transaction) processPhase(phase int) {
+	if !t.Engine.Enabled && !t.Engine.DetectionOnly {
+		return
+	}
 	if t.Abort || t.Intervention().Disruptive {
 		return
 	}
@@ -244,15 +247,15 @@ func (t *Transaction) ResetIntervention() {
 }
 
 func (t *Transaction) AbortWithError(code int, err error) {
-	t.Abort = true
-	i := t.Intervention()
-	i.Status = code
-	i.Disruptive = true
+	t.AbortWithStatus(code)
 	t.Logf("abort process with error %s", err.Error())
 }
 
 func (t *Transaction) AbortWithStatus(code int) {
 	t.Abort = true
+	if t.Engine.DetectionOnly {
+		return
+	}
 	i := t.Intervention()
 	i.Status = code
 	i.Disruptive = true
-- 
2.43.0


From c20619c359e41730fd03f6c5a25b2e1415e1ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 16/25] fix: numbers out of range no longer compare as 0

---
 modsecurity/operators/compare.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modsecurity/operators/compare.go b/modsecurity/operators/compare.go
index e9873db..2f9ccef 100644
--- a/modsecurity/operators/compare.go
+++ b/modsecurity/operators/compare.go
@@ -63,9 +63,7 @@ func (o *OperatorCompare) Args() string {
 
 func (o *OperatorCompare) Match(tr *modsecurity.Transaction, s string) bool {
 	s = strings.TrimSpace(s)
-	v, err := strconv.ParseInt(s, 10, 64)
-	if err != nil {
-		v = 0
-	}
+	// not a number: 0; out of range: the nearest representable number
+	v, _ := strconv.ParseInt(s, 10, 64)
 	return o.fn(v, o.arg)
 }
-- 
2.43.0


From e2bb87564bc0999188bc04c7067b9a1d5c5df87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 17/25] fix: a jump to a negative rule offset no longer panics

---
 modsecurity/sec_rule.go    | 2 +-
 modsecurity/transaction.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modsecurity/sec_rule.go b/modsecurity/sec_rule.go
index 743a0f2..3749b0e 100644
--- a/modsecurity/sec_rule.go
+++ b/modsecurity/sec_rule.go
@@ -153,7 +153,7 @@ func (rs *SecRuleSet) Process(t *Transaction, phase int, offset int) {
 		return
 	}
 	p := rs.Phases[phase]
-	if len(p) > offset {
+	if offset >= 0 && len(p) > offset {
 		p[offset].Do(t)
 	}
 }
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 0d63d73..c9d171c 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -126,7 +126,7 @@ func (s *Transaction) CurrentSecRule() *SecRule {
 }
 
 func (s *Transaction) JumpTo(i int) int {
-	if len(s.RuleSet.Phases[s.currentPhase]) <= i {
+	if i < 0 || len(s.RuleSet.Phases[s.currentPhase]) <= i {
 		s.nextRule = StatusEndOfRules
 		return StatusEndOfRules
 	}
-- 
2.43.0


From 51b1be48c9742b7dfac35c05c13938a980c200ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 18/25] fix: block among the default actions no longer recurses
 forever

---
 modsecurity/sec_rule.go    | 5 +++++
 modsecurity/transaction.go | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/modsecurity/sec_rule.go b/modsecurity/sec_rule.go
index 3749b0e..36f73eb 100644
--- a/modsecurity/sec_rule.go
+++ b/modsecurity/sec_rule.go
@@ -128,7 +128,12 @@ type SecRuleSet struct {
 }
 
 func (rs *SecRuleSet) ExecuteDefaultActions(t *Transaction) {
+	if t.inDefaultActions { // block among the default actions
+		return
+	}
+	t.inDefaultActions = true
 	ActionsExecute(t, rs.DefaultActions)
+	t.inDefaultActions = false
 }
 
 func (rs *SecRuleSet) AddDefaultActions(rules ...Action) {
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index c9d171c..d4a43c7 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -28,6 +28,8 @@ type Transaction struct {
 	Data         map[string]interface{}
 	// last phase whose rules were run
 	processedPhase int
+	// default actions are running
+	inDefaultActions bool
 }
 
 const StatusNotStarted = -1
-- 
2.43.0


From ce699d6cfdce45e75a5071ccbd7354090d93d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 19/25] fix: skip honours its argument

---
 modsecurity/actions/skip.go | 19 ++++++++++++++++---
 seclang/actions.go          | 16 +++++++++++++++-
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/modsecurity/actions/skip.go b/modsecurity/actions/skip.go
index d08e718..ff0b298 100644
--- a/modsecurity/actions/skip.go
+++ b/modsecurity/actions/skip.go
@@ -1,14 +1,27 @@
 package actions
 
 import (
+	"strconv"
+
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
 type ActionSkip struct {
+	count int
 }
 
 func NewActionSkip() modsecurity.Action {
-	return &ActionSkip{}
+	return NewActionSkipN(1)
+}
+
+// NewActionSkipN skips the next count rules of the phase.
+func NewActionSkipN(count int) modsecurity.Action {
+	if count < 1 {
+		count = 1
+	}
+	return &ActionSkip{
+		count: count,
+	}
 }
 func (*ActionSkip) ActionGroup() int {
 	return modsecurity.ActionGroupFlow
@@ -18,9 +31,9 @@ func (*ActionSkip) Name() string {
 	return "skip"
 }
 func (a *ActionSkip) Value() string {
-	return ""
+	return strconv.Itoa(a.count)
 
 }
 func (a *ActionSkip) Do(t *modsecurity.Transaction) {
-	t.JumpTo(t.CurrentRule() + 2)
+	t.JumpTo(t.CurrentRule() + 1 + a.count)
 }
diff --git a/seclang/actions.go b/seclang/actions.go
index 635488f..01cb726 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -14,7 +14,7 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 		factory: actionWrapper(actions.NewActionDeny),
 	},
 	parser.TkActionSkip: &actionProcessor{
-		factory: actionWrapper(actions.NewActionSkip),
+		factory: skipFactory,
 	},
 	parser.TkActionLog: &actionProcessor{
 		factory: actionWrapper(actions.NewActionLog),
@@ -87,6 +87,20 @@ func actionNumArgWrapper(f func(int) modsecurity.Action) func(v *parser.Action)
 	}
 }
 
+func skipFactory(v *parser.Action) (modsecurity.Action, error) {
+	if v.Argument == "" {
+		return actions.NewActionSkip(), nil
+	}
+	count, err := toNum(v.Argument)
+	if err != nil {
+		return nil, err
+	}
+	if count < 1 {
+		return nil, fmt.Errorf("unsupported skip count %d", count)
+	}
+	return actions.NewActionSkipN(count), nil
+}
+
 func actionWrapper(f func() modsecurity.Action) func(v *parser.Action) (modsecurity.Action, error) {
 	return func(v *parser.Action) (modsecurity.Action, error) {
 		return f(), nil
-- 
2.43.0


From 09fde90bc792239afa5040b5fdc2bea1578b5e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 20/25] fix: reject an unknown argument of allow instead of
 ignoring the action

---
 seclang/actions.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/seclang/actions.go b/seclang/actions.go
index 01cb726..d5dc224 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -29,7 +29,7 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 		factory: actionNumArgWrapper(actions.NewActionStatus),
 	},
 	parser.TkActionAllow: &actionProcessor{
-		factory: actionArgWrapper(actions.NewActionAllow),
+		factory: allowFactory,
 	},
 	parser.TkActionTag: &actionProcessor{
 		meta: metaFactory("tag"),
@@ -72,9 +72,12 @@ func metaFactory(name string) func(*parser.Action) (map[string]string, error) {
 	}
 }
 
-func actionArgWrapper(f func(string) modsecurity.Action) func(v *parser.Action) (modsecurity.Action, error) {
-	return func(v *parser.Action) (modsecurity.Action, error) {
-		return f(trimQuote(v.Argument)), nil
+func allowFactory(v *parser.Action) (modsecurity.Action, error) {
+	switch arg := trimQuote(v.Argument); arg {
+	case "", "phase", "request":
+		return actions.NewActionAllow(arg), nil
+	default:
+		return nil, fmt.Errorf("unsupported allow argument %s", arg)
 	}
 }
 func actionNumArgWrapper(f func(int) modsecurity.Action) func(v *parser.Action) (modsecurity.Action, error) {
-- 
2.43.0


From e7ffb7d4b9228be5322b2e91a72d64e28d11a741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 21/25] fix: reject a chain whose last rule is missing

---
 seclang/rule_set.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seclang/rule_set.go b/seclang/rule_set.go
index 74b4dcb..e283a5e 100644
--- a/seclang/rule_set.go
+++ b/seclang/rule_set.go
@@ -1,6 +1,7 @@
 package seclang
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
@@ -69,6 +70,9 @@ func (rs *DireSet) AddSecLangString(str string) error {
 		}
 		rs.dires = append(rs.dires, dire)
 	}
+	if chainParent != nil {
+		return errors.New("the last rule of the chain is missing")
+	}
 	return nil
 }
 
-- 
2.43.0


From 056bf0fe7d010af715fe44014d00c892d1345ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 22/25] fix: the whitespace transformations handle every
 whitespace character

---
 modsecurity/transforms/compress_whitespace.go |  4 +++-
 modsecurity/transforms/map_rune.go            | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/modsecurity/transforms/compress_whitespace.go b/modsecurity/transforms/compress_whitespace.go
index e5ed722..a16c07e 100644
--- a/modsecurity/transforms/compress_whitespace.go
+++ b/modsecurity/transforms/compress_whitespace.go
@@ -2,6 +2,7 @@ package transforms
 
 import (
 	"strings"
+	"unicode"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
@@ -19,11 +20,12 @@ func (t *TransCompressWhitespace) Name() string {
 func (t *TransCompressWhitespace) Trans(tr *modsecurity.Transaction, s string) string {
 	var previousIsSpace bool
 	return strings.Map(func(i rune) rune {
-		if i == ' ' {
+		if unicode.IsSpace(i) {
 			if previousIsSpace {
 				return -1
 			}
 			previousIsSpace = true
+			return ' '
 		} else {
 			previousIsSpace = false
 		}
diff --git a/modsecurity/transforms/map_rune.go b/modsecurity/transforms/map_rune.go
index 73ea7ca..61b560a 100644
--- a/modsecurity/transforms/map_rune.go
+++ b/modsecurity/transforms/map_rune.go
@@ -2,6 +2,7 @@ package transforms
 
 import (
 	"strings"
+	"unicode"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
@@ -14,7 +15,7 @@ type TransMapRune struct {
 func NewTransRemoveWhitespace() modsecurity.Trans {
 	return &TransMapRune{
 		name:    "removeWhitespace",
-		mapping: replaceRune(' ', -1),
+		mapping: removeSpace,
 	}
 }
 
@@ -32,6 +33,13 @@ func NewTransReplaceNulls() modsecurity.Trans {
 	}
 }
 
+func removeSpace(i rune) rune {
+	if unicode.IsSpace(i) {
+		return -1
+	}
+	return i
+}
+
 func replaceRune(from, to rune) func(rune) rune {
 	return func(i rune) rune {
 		if i == from {
-- 
2.43.0


From f6456f5477fa4dff45f7b3e85d85ab1ea6fed624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 23/25] fix: a transaction can release its temporary files

---
 modsecurity/transaction.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index d4a43c7..5fe4849 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -35,6 +35,23 @@ type Transaction struct {
 const StatusNotStarted = -1
 const StatusEndOfRules = -2
 
+// Close releases the temporary files of the transaction, which cannot be used
+// afterwards.
+func (t *Transaction) Close() error {
+	err := t.Request.Body.Close()
+	if err2 := t.Response.Body.Close(); err == nil {
+		err = err2
+	}
+	for _, v := range t.VariableCache {
+		if f, ok := v.(interface{ RemoveAll() error }); ok {
+			if err2 := f.RemoveAll(); err == nil {
+				err = err2
+			}
+		}
+	}
+	return err
+}
+
 type NetInfo struct {
 	SrcIp   string
 	SrcPort string
-- 
2.43.0


From 12cabbe6d8e959d6b8d4df4c6e492811271c2c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 24/25] fix: a read error of the scanner's input ended the
 rules silently

---
 seclang/parser/scanner.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index d373c07..eaccfb2 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -35,6 +35,7 @@ type Scanner struct {
 	r                    *bufio.Reader
 	current              rune
 	LineNumber, LastLine int
+	err                  error // reading failed before the end of the input
 }
 
 func NewSecLangScanner(r io.Reader) *Scanner {
@@ -132,6 +133,9 @@ func (s *Scanner) ReadDirective() (Directive, error) {
 		case 0:
 			s.advance()
 		case EOS:
+			if s.err != nil {
+				return nil, s.err
+			}
 			return nil, ErrEOS
 		default:
 			dir, err := s.readDirective()
@@ -405,8 +409,16 @@ func (s *Scanner) incrementLineNumber() {
 	s.LineNumber++
 }
 
+func (s *Scanner) readByte() (byte, error) {
+	c, err := s.r.ReadByte()
+	if err != nil && err != io.EOF {
+		s.err = err
+	}
+	return c, err
+}
+
 func (s *Scanner) advance() {
-	if c, err := s.r.ReadByte(); err != nil {
+	if c, err := s.readByte(); err != nil {
 		s.current = EOS
 	} else {
 		s.current = rune(c)
@@ -414,7 +426,7 @@ func (s *Scanner) advance() {
 }
 
 func (s *Scanner) next() rune {
-	if c, err := s.r.ReadByte(); err != nil {
+	if c, err := s.readByte(); err != nil {
 		return EOS
 	} else {
 		s.r.UnreadByte()
-- 
2.43.0


From 6dd75b4eb8dd30b6b1f3728a8eedfeb209e8c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:06 +0000
Subject: [PATCH 25/25] fix: an invalid selector next to the whole variable was
 accepted

---
 seclang/variable.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seclang/variable.go b/seclang/variable.go
index 6bc1a6a..42dfc26 100644
--- a/seclang/variable.go
+++ b/seclang/variable.go
@@ -88,10 +88,14 @@ func (dr *DireRule) applyVariables(vs []*parser.Variable) error {
 		}
 		if v.Index != "" {
 			if !v.Exclusion {
+				selected := variable
 				if whole[wholeKey{v.Tk, v.Count}] {
-					continue
+					// the selector adds nothing, but it must be valid
+					if selected, err = factory(v); err != nil {
+						return err
+					}
 				}
-				err := variable.Include(v.Index)
+				err := selected.Include(v.Index)
 				if err != nil {
 					return err
 				}
-- 
2.43.0

