From bc5731cdb6717d3b37c7320417c53a4a961505d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 01/61] fix: int data generator returns values in [min, max],
 including max

rand.Int63n(max) never returned max, returned min far too often when
min > 1, and panicked when max <= 0. The normal distribution fell back
to a mean that can be outside [min, max].
---
 data/integer.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/data/integer.go b/data/integer.go
index 66f9b6f..562b9cb 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -91,16 +91,25 @@ func (g *Int) Values(_ RunCount) []interface{} {
 		if v < g.min || v > g.max {
 			v = int64(math.Floor(rand.NormFloat64()*g.stddev + g.mean))
 			if v < g.min || v > g.max {
-				return []interface{}{int64(g.mean)}
+				v = int64(g.mean)
+				if v < g.min { // mean can be outside [min, max]
+					v = g.min
+				} else if v > g.max {
+					v = g.max
+				}
 			}
 		}
 		return []interface{}{v}
 	default: // uniform
-		v := rand.Int63n(g.max)
-		if v < g.min {
-			v = g.min
+		n := uint64(g.max) - uint64(g.min) // [0, n] + min = [min, max]
+		switch {
+		case n < math.MaxInt64:
+			return []interface{}{g.min + rand.Int63n(int64(n)+1)}
+		case n == math.MaxUint64: // every int64
+			return []interface{}{int64(rand.Uint64())}
+		default: // range too large for Int63n
+			return []interface{}{int64(uint64(g.min) + rand.Uint64()%(n+1))}
 		}
-		return []interface{}{v}
 	}
 }
 
-- 
2.43.0


From edefd772275d07fcd2a84c9d67e0c65683d1280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 02/61] fix: int-gaps data generator does not crash or leave
 [min, max]

With fewer than two values (p percent of the range), the slope was
infinite or NaN, or rand.Int63n panicked. float64 rounding of large
values could return a value outside [min, max].
---
 data/integer.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/data/integer.go b/data/integer.go
index 562b9cb..7c3378c 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -119,6 +119,8 @@ func (g *Int) Values(_ RunCount) []interface{} {
 type IntGaps struct {
 	params       map[string]string
 	input_max    int64
+	min          int64
+	max          int64
 	output_start float64
 	slope        float64
 }
@@ -148,12 +150,19 @@ func NewIntGaps(params map[string]string) (*IntGaps, error) {
 		return nil, fmt.Errorf("invalid int-gaps p: %d, must be between 1 to 100 (inclusive)", p)
 	}
 	input_max := int64(float64(size) * (float64(p) / 100.0))
+	if input_max < 1 {
+		input_max = 1 // at least one value
+	}
 
 	g := &IntGaps{
 		params:       params,
 		input_max:    input_max,
+		min:          min,
+		max:          max,
 		output_start: float64(min),
-		slope:        float64(max-min) / float64(input_max-1),
+	}
+	if input_max > 1 { // else always min
+		g.slope = float64(max-min) / float64(input_max-1)
 	}
 	finch.Debug("1..%d -> %d..%d (%d%% of %d) gap: %d records", input_max, min, max, p, size, int(g.slope))
 	return g, nil
@@ -169,7 +178,13 @@ func (g *IntGaps) Copy() Generator {
 }
 
 func (g *IntGaps) Values(_ RunCount) []interface{} {
-	return []interface{}{int64(g.output_start + float64(rand.Int63n(g.input_max))*g.slope)}
+	v := int64(g.output_start + float64(rand.Int63n(g.input_max))*g.slope)
+	if v < g.min { // float64 rounding
+		v = g.min
+	} else if v > g.max {
+		v = g.max
+	}
+	return []interface{}{v}
 }
 
 // --------------------------------------------------------------------------
-- 
2.43.0


From 2bcda9b32dd27f1d83c8f266c67a53971501f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 03/61] fix: int-range data generator rejects size < 1 and does
 not overflow

size < 1 returned pairs in the wrong order (and less than min), and
lower+size-1 overflowed near the largest int64.
---
 data/integer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/data/integer.go b/data/integer.go
index 7c3378c..7373391 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -220,6 +220,9 @@ func NewIntRange(params map[string]string) (*IntRange, error) {
 	if g.min >= g.max {
 		return nil, fmt.Errorf("invalid int range: min %d >= max %d", g.min, g.max)
 	}
+	if g.size < 1 {
+		return nil, fmt.Errorf("invalid int range: size %d, must be >= 1", g.size)
+	}
 	if g.size > (g.max - g.min) {
 		return nil, fmt.Errorf("invalid int range: size %d > (max %d - min %d)", g.size, g.max, g.min)
 	}
@@ -240,9 +243,9 @@ func (g *IntRange) Values(_ RunCount) []interface{} {
 	// is 10 and size is 3, then 10+3=13 but that's 4 values: 10, 11, 12, 13.
 	// So we -1 to make BETWEEEN 10 AND 12, which is 3 values.
 	lower := g.min + rand.Int63n(g.max-g.min)
-	upper := lower + g.size - 1
-	if upper > g.max {
-		upper = g.max
+	upper := g.max
+	if g.size-1 < g.max-lower { // lower+size-1 can overflow
+		upper = lower + g.size - 1
 	}
 	return []interface{}{lower, upper}
 }
-- 
2.43.0


From 3c77be2cb582f5b4b0a1321c1a3852632334b419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 04/61] fix: int-range-seq data generator rejects size < 1 and
 does not overflow

size < 1 never advanced (or went backwards), and the next chunk
overflowed near the largest int64 instead of restarting from begin.
---
 data/integer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/data/integer.go b/data/integer.go
index 7373391..aff69e6 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -286,6 +286,9 @@ func NewIntRangeSeq(params map[string]string) (*IntRangeSeq, error) {
 	if g.begin > g.end {
 		return nil, fmt.Errorf("invalid int-range-seq: begin (%d) > end (%d)", g.begin, g.end)
 	}
+	if g.size < 1 {
+		return nil, fmt.Errorf("invalid int-range-seq: size (%d), must be >= 1", g.size)
+	}
 	if g.size > (g.end - g.begin) {
 		return nil, fmt.Errorf("invalid int-range-seq: size (%d) > end (%d) - begin (%d)", g.size, g.end, g.begin)
 	}
@@ -303,13 +306,14 @@ func (g *IntRangeSeq) Copy() Generator {
 
 func (g *IntRangeSeq) Values(_ RunCount) []interface{} {
 	g.Lock()
-	if g.n > g.end {
-		g.n = g.begin // reset  [begin, m]
+	n, m := g.n, g.end        // short chunk [n, end]
+	if g.size-1 < g.end-g.n { // g.n+g.size can overflow
+		m = g.n + g.size - 1 // next chunk [n, m]
 	}
-	n, m := g.n, g.n+g.size-1 // next chunk [n, m]
-	g.n += g.size
-	if m > g.end {
-		m = g.end // short chunk [n, end]
+	if m == g.end {
+		g.n = g.begin // reset  [begin, m]
+	} else {
+		g.n = m + 1
 	}
 	g.Unlock()
 	return []interface{}{n, m}
-- 
2.43.0


From e8f05b8f5c8c72bf97e0e7bf3dc8f5db225442a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 05/61] fix: int-gaps data generator rejects max < min when
 max-min overflows

---
 data/integer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/integer.go b/data/integer.go
index aff69e6..57086b5 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -138,7 +138,7 @@ func NewIntGaps(params map[string]string) (*IntGaps, error) {
 		return nil, err
 	}
 	size := max - min + 1
-	if size <= 0 {
+	if max < min || size <= 0 { // size can overflow
 		return nil, fmt.Errorf("invalid int-gaps: max - min must be > 0")
 	}
 
-- 
2.43.0


From 628d67dd0b3c8d004a937ec83417fc97f5e68d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:17 +0000
Subject: [PATCH 06/61] fix: str-fill-az data generator can be shared by
 clients

rand.Source is not safe for concurrent use.
---
 data/string.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/data/string.go b/data/string.go
index 2131341..ab4f755 100644
--- a/data/string.go
+++ b/data/string.go
@@ -6,13 +6,15 @@ import (
 	"fmt"
 	"math/rand"
 	"strings"
+	"sync"
 	"time"
 )
 
 // StrFillAz implemnts the str-fill-az data generator.
 type StrFillAz struct {
-	len int64
-	src rand.Source
+	len         int64
+	src         rand.Source
+	*sync.Mutex // src is not safe for concurrent use
 }
 
 var _ Generator = &StrFillAz{}
@@ -27,8 +29,9 @@ const (
 
 func NewStrFillAz(params map[string]string) (*StrFillAz, error) {
 	g := &StrFillAz{
-		len: 100,
-		src: rand.NewSource(time.Now().UnixNano()),
+		len:   100,
+		src:   rand.NewSource(time.Now().UnixNano()),
+		Mutex: &sync.Mutex{},
 	}
 	if err := int64From(params, "len", &g.len, false); err != nil {
 		return nil, err
@@ -45,14 +48,17 @@ func (g *StrFillAz) Scan(any interface{}) error { return nil }
 
 func (g *StrFillAz) Copy() Generator {
 	return &StrFillAz{
-		len: g.len,
-		src: rand.NewSource(time.Now().UnixNano()),
+		len:   g.len,
+		src:   rand.NewSource(time.Now().UnixNano()),
+		Mutex: &sync.Mutex{},
 	}
 }
 
 func (g *StrFillAz) Values(_ RunCount) []interface{} {
 	sb := strings.Builder{}
 	sb.Grow(int(g.len))
+	g.Lock()
+	defer g.Unlock()
 	// A src.Int63() generates 63 random bits, enough for letterIdxMax characters!
 	for i, cache, remain := g.len-1, g.src.Int63(), letterIdxMax; i >= 0; {
 		if remain == 0 {
-- 
2.43.0


From 4f02838ffeb637bb94c134d8c49cd96e40322396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 07/61] fix: stage and global scope data keys return one value

The check was inverted: the value was never generated, so Values always
returned nil. The keys are shared by clients, so guard the value, too.
---
 data/scope.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index 4969e47..081f547 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -152,6 +152,7 @@ type ScopedGenerator struct {
 	vals         []interface{}          //   last value
 	singleClient bool                   // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
 	oneTime      bool                   // One time scopes: STAGE and GLOBAL
+	otMux        *sync.Mutex            //   guards vals if oneTime == true
 	cgMux        *sync.RWMutex          // Multi client: client-group, exec-group, workload
 	cgIter       map[uint]uint          //   last client iter
 	cgVals       map[uint][]interface{} //   last client value
@@ -180,6 +181,7 @@ func NewScopedGenerator(id Id, g Generator) *ScopedGenerator {
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_GLOBAL) {
 		// One time scopes
 		s.oneTime = true
+		s.otMux = &sync.Mutex{}
 	} else {
 		panic("invalid scope: " + id.Scope)
 	}
@@ -210,6 +212,12 @@ func (s *ScopedGenerator) Call(cnt RunCount) []interface{} {
 		s.cgMux.Unlock()
 		return v
 	}
+	if s.oneTime { // shared by many clients
+		s.otMux.Lock()
+		defer s.otMux.Unlock()
+		s.vals = s.g.Values(cnt)
+		return s.vals
+	}
 	s.last[s.sno] = cnt[s.sno] // save last run counter value
 	s.vals = s.g.Values(cnt)   // generate new data value
 	return s.vals
@@ -247,9 +255,10 @@ func (s *ScopedGenerator) Values(cnt RunCount) []interface{} {
 
 	// One time scopes: STAGE and GLOBAL
 	if s.oneTime {
-		// @todo guard with mux
-		if s.vals != nil {
-			return s.Call(cnt)
+		s.otMux.Lock()
+		defer s.otMux.Unlock()
+		if s.vals == nil {
+			s.vals = s.g.Values(cnt)
 		}
 		return s.vals
 	}
-- 
2.43.0


From b758d24ead44fb65a1920b2bd5dfb0ce4cb3ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 08/61] fix: multi client data scopes distinguish clients of
 different groups

Client numbers repeat in each client group, so a client reused the value
of (or suppressed a new value for) the same client number in another
client or exec group.
---
 data/scope.go | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index 081f547..106220f 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -145,17 +145,17 @@ func (s *Scope) Reset() {
 // care which--to handle either scoped value generator or explicit calls like
 // @d().
 type ScopedGenerator struct {
-	id           Id                     // identify this copy of the real Generator for debugging
-	g            Generator              // real Generator:
-	sno          byte                   //   scope number in RunCount (if singleClient == true)
-	last         RunCount               //   last time value was generated
-	vals         []interface{}          //   last value
-	singleClient bool                   // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
-	oneTime      bool                   // One time scopes: STAGE and GLOBAL
-	otMux        *sync.Mutex            //   guards vals if oneTime == true
-	cgMux        *sync.RWMutex          // Multi client: client-group, exec-group, workload
-	cgIter       map[uint]uint          //   last client iter
-	cgVals       map[uint][]interface{} //   last client value
+	id           Id                         // identify this copy of the real Generator for debugging
+	g            Generator                  // real Generator:
+	sno          byte                       //   scope number in RunCount (if singleClient == true)
+	last         RunCount                   //   last time value was generated
+	vals         []interface{}              //   last value
+	singleClient bool                       // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
+	oneTime      bool                       // One time scopes: STAGE and GLOBAL
+	otMux        *sync.Mutex                //   guards vals if oneTime == true
+	cgMux        *sync.RWMutex              // Multi client: client-group, exec-group, workload
+	cgIter       map[clientId]uint          //   last client iter
+	cgVals       map[clientId][]interface{} //   last client value
 }
 
 var _ Generator = &ScopedGenerator{}
@@ -176,8 +176,8 @@ func NewScopedGenerator(id Id, g Generator) *ScopedGenerator {
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_WORKLOAD) {
 		// Multi client scopes: iter = each <client, iter>
 		s.cgMux = &sync.RWMutex{}
-		s.cgIter = map[uint]uint{}
-		s.cgVals = map[uint][]interface{}{}
+		s.cgIter = map[clientId]uint{}
+		s.cgVals = map[clientId][]interface{}{}
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_GLOBAL) {
 		// One time scopes
 		s.oneTime = true
@@ -204,7 +204,7 @@ func (s *ScopedGenerator) Call(cnt RunCount) []interface{} {
 		Don't debug or call anything slow/superfluous.
 	*/
 	if s.cgMux != nil { // multi client
-		clientNo := cnt[CLIENT]
+		clientNo := newClientId(cnt)
 		v := s.g.Values(cnt)
 		s.cgMux.Lock()
 		s.cgIter[clientNo] = cnt[ITER]
@@ -241,7 +241,7 @@ func (s *ScopedGenerator) Values(cnt RunCount) []interface{} {
 
 	// Multi client scopes: CLIENT_GROUP, EXEC_GROUP, WORKLOAD
 	if s.cgMux != nil {
-		clientNo := cnt[CLIENT]
+		clientNo := newClientId(cnt)
 		s.cgMux.RLock()
 		prevIter, ok := s.cgIter[clientNo]
 		if !ok || cnt[ITER] > prevIter {
@@ -267,6 +267,16 @@ func (s *ScopedGenerator) Values(cnt RunCount) []interface{} {
 	return s.g.Values(cnt)
 }
 
+// clientId uniquely identifies a client for multi client scopes because client
+// numbers repeat in every client group, and client groups in every exec group.
+type clientId struct {
+	execGroup, clientGroup, client uint
+}
+
+func newClientId(cnt RunCount) clientId {
+	return clientId{execGroup: cnt[EXEC_GROUP], clientGroup: cnt[CLIENT_GROUP], client: cnt[CLIENT]}
+}
+
 // RunCount counts execution (or changes) at each level in the order defined
 // by the const below: STATEMENT and up the run levels. Each Client maintains
 // a RunCount that is used by ScopedGenerator.Values to determine when it's
-- 
2.43.0


From a6d2f5c480e75e055f30067f020fae2e6de38df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 09/61] fix: global scope data keys have a generator

The global run level never changes, so Scope.Copy never made the first
(and only) copy and returned nil.
---
 data/scope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/scope.go b/data/scope.go
index 106220f..2d068f5 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -107,7 +107,7 @@ func (s *Scope) Copy(keyName string, rl finch.RunLevel) *ScopedGenerator {
 	}
 
 	prev := s.CopiedAt[keyName] // last time we saw this @d
-	if rl.GreaterThan(prev, k.Scope) {
+	if s.CopyOf[keyName] == nil || rl.GreaterThan(prev, k.Scope) {
 		s.CopyCount[keyName] += 1
 		id := Id{
 			RunLevel: rl,
-- 
2.43.0


From 22392cfe2ca27897e04ab1f9dbc2f60c18a5511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:46 +0000
Subject: [PATCH 10/61] fix: idle statement first in a trx counts the trx

---
 client/client.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/client/client.go b/client/client.go
index 5cfe61e..e8d28e9 100644
--- a/client/client.go
+++ b/client/client.go
@@ -238,12 +238,6 @@ ITER:
 		trxActive = false
 
 		for i := range c.Statements {
-			// Idle time
-			if c.Statements[i].Idle != 0 {
-				time.Sleep(c.Statements[i].Idle)
-				continue
-			}
-
 			// Is this query the start of a new (finch) trx file? This is not
 			// a MySQL trx (either BEGIN or implicit). It marks finch trx scope
 			// "trx" is a trx file in the config assigned to this client.
@@ -255,6 +249,13 @@ ITER:
 				trxActive = false
 			}
 
+			// Idle time. After trx boundary because an idle statement can be
+			// the first statement in a trx.
+			if c.Statements[i].Idle != 0 {
+				time.Sleep(c.Statements[i].Idle)
+				continue
+			}
+
 			// If BEGIN, check TPS rate limiter
 			if c.TPS != nil && c.Statements[i].Begin {
 				<-c.TPS
-- 
2.43.0


From 45f30cb18526d81da8967734a4b19f2dd27acc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:46 +0000
Subject: [PATCH 11/61] fix: roll back when the last statement of a trx fails

---
 client/client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index e8d28e9..5243f4a 100644
--- a/client/client.go
+++ b/client/client.go
@@ -244,9 +244,7 @@ ITER:
 			if c.Data[i].TrxBoundary&trx.BEGIN != 0 {
 				rc[data.TRX] += 1
 				trxNo += 1
-				trxActive = true
-			} else if c.Data[i].TrxBoundary&trx.END != 0 {
-				trxActive = false
+				trxActive = true // until next iter: rollback if last statement fails, too
 			}
 
 			// Idle time. After trx boundary because an idle statement can be
-- 
2.43.0


From 563e1daa1ae8d0899154be044b21af0499e2dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:46 +0000
Subject: [PATCH 12/61] fix: prepare statements again after reconnecting

---
 client/client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client/client.go b/client/client.go
index 5243f4a..dbe0a75 100644
--- a/client/client.go
+++ b/client/client.go
@@ -115,6 +115,14 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 	}
 
 	if c.conn != nil {
+		// Prepared statements belong to the conn, so prepare them again on the new conn
+		for i := range c.ps {
+			if c.ps[i] == nil {
+				continue
+			}
+			c.ps[i].Close()
+			c.ps[i] = nil
+		}
 		c.conn.Close()
 		c.conn = nil
 		time.Sleep(ConnectRetryWait)
-- 
2.43.0


From cdef62ce24373e84650568a3c6d10db6a5be50ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:46 +0000
Subject: [PATCH 13/61] fix: handle errors that a query returns while reading
 its rows

---
 client/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index dbe0a75..a677130 100644
--- a/client/client.go
+++ b/client/client.go
@@ -308,8 +308,14 @@ ITER:
 							goto ERROR
 						}
 					}
+					if err = rows.Err(); err != nil {
+						rows.Close()
+						goto ERROR
+					}
+				}
+				if err = rows.Close(); err != nil {
+					goto ERROR
 				}
-				rows.Close()
 			} else {
 				//
 				// Write or query without result set (e.g. BEGIN, SET, etc.)
-- 
2.43.0


From 7dafb6e2082eed2b34c2f6e3b251c2dde70c2618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:46 +0000
Subject: [PATCH 14/61] fix: client at its own iteration limit does not use up
 a shared iteration

---
 client/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index a677130..1fc1f61 100644
--- a/client/client.go
+++ b/client/client.go
@@ -232,13 +232,15 @@ func (c *Client) Run(ctxExec context.Context) {
 	//
 ITER:
 	for {
-		if c.IterExecGroup > 0 && atomic.AddUint32(c.IterExecGroupPtr, 1) > c.IterExecGroup {
+		// Least shared limit first, else a client that reached its own limit
+		// takes an iter away from clients it shares the other limits with
+		if c.Iter > 0 && rc[data.ITER] == c.Iter {
 			return
 		}
 		if c.IterClients > 0 && atomic.AddUint32(c.IterClientsPtr, 1) > c.IterClients {
 			return
 		}
-		if c.Iter > 0 && rc[data.ITER] == c.Iter {
+		if c.IterExecGroup > 0 && atomic.AddUint32(c.IterExecGroupPtr, 1) > c.IterExecGroup {
 			return
 		}
 		rc[data.ITER] += 1
-- 
2.43.0


From 501a5217575169feb0bde915cfcdf3b54d1d0546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:46 +0000
Subject: [PATCH 15/61] fix: duplicate key error does not reconnect, as
 documented

---
 finch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finch.go b/finch.go
index 9148000..1f0fa34 100644
--- a/finch.go
+++ b/finch.go
@@ -194,7 +194,7 @@ const (
 
 var MySQLErrorHandling = map[uint16]byte{
 	1046: Eabort,                // no database selected
-	1062: Eabort,                // duplicate key
+	1062: Econtinue,             // duplicate key
 	1064: Eabort,                // You have an error in your SQL syntax
 	1146: Eabort,                // table doesn't exist
 	1205: Erollback | Econtinue, // lock wait timeout; no automatic rollback (innodb_rollback_on_timeout=OFF by default)
-- 
2.43.0


From 28a252b6961c7101a4f2bd27cbab0397220889aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:53 +0000
Subject: [PATCH 16/61] fix: client disconnects from MySQL when it ends and
 when it reconnects

---
 client/client.go | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/client/client.go b/client/client.go
index 1fc1f61..e1b8fa5 100644
--- a/client/client.go
+++ b/client/client.go
@@ -5,6 +5,7 @@ package client
 import (
 	"context"
 	"database/sql"
+	"database/sql/driver"
 	"errors"
 	"fmt"
 	"log"
@@ -115,16 +116,7 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 	}
 
 	if c.conn != nil {
-		// Prepared statements belong to the conn, so prepare them again on the new conn
-		for i := range c.ps {
-			if c.ps[i] == nil {
-				continue
-			}
-			c.ps[i].Close()
-			c.ps[i] = nil
-		}
-		c.conn.Close()
-		c.conn = nil
+		c.disconnect()
 		time.Sleep(ConnectRetryWait)
 	}
 
@@ -178,6 +170,26 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 	return nil
 }
 
+// disconnect closes all prepared statements and the connection to MySQL.
+// Prepared statements belong to the connection, so Connect prepares them again.
+func (c *Client) disconnect() {
+	for i := range c.ps {
+		if c.ps[i] == nil {
+			continue
+		}
+		c.ps[i].Close()
+		c.ps[i] = nil
+	}
+	if c.conn == nil {
+		return
+	}
+	// Conn.Close only returns the connection to the pool (c.DB), which leaves it
+	// connected with its transaction, if any. ErrBadConn makes the pool close it.
+	c.conn.Raw(func(interface{}) error { return driver.ErrBadConn })
+	c.conn.Close()
+	c.conn = nil
+}
+
 func (c *Client) Run(ctxExec context.Context) {
 	finch.Debug("run client %s: %d stmts, iter %d/%d/%d", c.RunLevel.ClientId(), len(c.Statements), c.IterExecGroup, c.IterClients, c.Iter)
 	var err error
@@ -187,15 +199,7 @@ func (c *Client) Run(ctxExec context.Context) {
 			n := runtime.Stack(b, false)
 			err = fmt.Errorf("PANIC: %v\n%s", r, string(b[0:n]))
 		}
-		for i := range c.ps {
-			if c.ps[i] == nil {
-				continue
-			}
-			c.ps[i].Close()
-		}
-		if c.conn != nil {
-			c.conn.Close()
-		}
+		c.disconnect()
 		// Context cancellation is not an error it's runtime elapsing or CTRL-C
 		if !errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded) {
 			c.Error.Err = err
-- 
2.43.0


From 06d4927c0854399d3d98cd42041814a8ac8f463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:40 +0000
Subject: [PATCH 17/61] fix: runtime that elapses while a client connects is
 not an error

---
 client/client.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/client/client.go b/client/client.go
index e1b8fa5..95845c4 100644
--- a/client/client.go
+++ b/client/client.go
@@ -102,6 +102,9 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 			if errFlags&finch.Erollback != 0 && trxActive {
 				finch.Debug("%s: rollback", c.RunLevel.ClientId())
 				if _, err := c.conn.ExecContext(ctx, "ROLLBACK"); err != nil {
+					if ctx.Err() != nil { // finch terminated (CTRL-C)?
+						return ctx.Err()
+					}
 					return fmt.Errorf("ROLLBACK failed: %s (on err: %s) (query: %s)", err, cerr, c.Statements[stmtNo].Query)
 				}
 			}
@@ -142,6 +145,9 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 	if c.DefaultDb != "" {
 		_, err := c.conn.ExecContext(ctx, "USE `"+c.DefaultDb+"`")
 		if err != nil {
+			if ctx.Err() != nil { // finch terminated (CTRL-C)?
+				return ctx.Err()
+			}
 			return err
 		}
 	}
@@ -156,6 +162,9 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 		}
 		c.ps[i], err = c.conn.PrepareContext(ctx, s.Query)
 		if err != nil {
+			if ctx.Err() != nil { // finch terminated (CTRL-C)?
+				return ctx.Err()
+			}
 			c.Error.StatementNo = i
 			return fmt.Errorf("prepare: %s", err)
 		}
-- 
2.43.0


From df2b6e3633431a42cac3e33bdf618ccf969638a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:59 +0000
Subject: [PATCH 18/61] fix: panic while saving a column does not hang the
 client

---
 client/client.go | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/client/client.go b/client/client.go
index 95845c4..72dc455 100644
--- a/client/client.go
+++ b/client/client.go
@@ -51,9 +51,10 @@ type Client struct {
 	Error Error
 
 	// --
-	ps     []*sql.Stmt
-	values [][]interface{}
-	conn   *sql.Conn
+	ps      []*sql.Stmt
+	values  [][]interface{}
+	outputs [][]interface{}
+	conn    *sql.Conn
 }
 
 type Error struct {
@@ -68,13 +69,42 @@ type StatementData struct {
 	TrxBoundary byte
 }
 
+// output saves a column in a data generator. If the generator panics, Scan returns
+// the panic as an error because sql.Rows.Scan does not unlock the rows on panic, so
+// closing the connection would wait for that forever.
+type output struct {
+	sql.Scanner
+}
+
+type outputPanic struct {
+	r interface{}
+}
+
+func (p outputPanic) Error() string { return fmt.Sprintf("PANIC: %v", p.r) }
+
+func (o output) Scan(v interface{}) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = outputPanic{r}
+		}
+	}()
+	return o.Scanner.Scan(v)
+}
+
 func (c *Client) Init() error {
 	c.ps = make([]*sql.Stmt, len(c.Statements))
 	c.values = make([][]interface{}, len(c.Statements))
+	c.outputs = make([][]interface{}, len(c.Statements))
 	for i, s := range c.Statements {
 		if len(s.Inputs) > 0 {
 			c.values[i] = make([]interface{}, len(s.Inputs))
 		}
+		for _, v := range c.Data[i].Outputs {
+			if g, ok := v.(sql.Scanner); ok {
+				v = output{g}
+			}
+			c.outputs[i] = append(c.outputs[i], v)
+		}
 	}
 	c.Error = Error{}
 	return nil
@@ -312,14 +342,18 @@ ITER:
 				if err != nil {
 					goto ERROR
 				}
-				if c.Data[i].Outputs != nil {
+				if c.outputs[i] != nil {
 					// @todo what if no row match? This loop won't happen,
 					// and the column generator won't be called, which will
 					// make it return nil later when used as input to another
 					// query.
 					for rows.Next() {
-						if err = rows.Scan(c.Data[i].Outputs...); err != nil {
+						if err = rows.Scan(c.outputs[i]...); err != nil {
 							rows.Close()
+							var p outputPanic
+							if errors.As(err, &p) {
+								panic(p.r) // like any other panic of a data generator
+							}
 							goto ERROR
 						}
 					}
-- 
2.43.0


From fac512dabc7987b7849e2f162d5bb2c662b876e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:25 +0000
Subject: [PATCH 19/61] fix: params and human numbers are replaced whole, idle
 modifier is a duration

---
 config/config.go | 107 +++++++++++++++++++++--------------------------
 trx/trx.go       |   4 +-
 2 files changed, 50 insertions(+), 61 deletions(-)

diff --git a/config/config.go b/config/config.go
index d29dd95..dd05441 100644
--- a/config/config.go
+++ b/config/config.go
@@ -193,55 +193,45 @@ func FileExists(filePath string) bool {
 	return err == nil
 }
 
-var varRE = []*regexp.Regexp{
-	regexp.MustCompile(`\${([^}]+)}`),  // ${param.foo} for "hello${param.foo}bar"
-	regexp.MustCompile(`\$([^\s"']+)`), // $param.foo for standalone value
-}
-var reHumanNumber = regexp.MustCompile(`([\d,]*\d+(?i:[MKGBI]*))`) // 1M or 1,000,000 -> 1000000
-var reAllDigits = regexp.MustCompile(`^\d+$`)
+// varRE matches ${params.foo} for "hello${params.foo}bar", or $params.foo for
+// a standalone value.
+var varRE = regexp.MustCompile(`\$(?:{([^}]+)}|([^\s"'$]+))`)
+
+// reHumanNumber matches 1M or 1,000,000 but not in a word like "t1M" or "5ms".
+var reHumanNumber = regexp.MustCompile(`(^|[^\w.@$-])(-?)((?:\d{1,3}(?:,\d{2,3})*,\d{3}|\d+)(?:\.\d+)?(?i:[KMG]I?B?|B)?)\b`)
+var reMachineNumber = regexp.MustCompile(`^[\d.]+$`)
 
 // Vars changes $params.foo and $FOO to param values and environment variable
 // values, respectively, and human numbers to integers (1k -> 1000).
 // "${var}" is also valid but YAML requires string quotes around {}.
 func Vars(s string, params map[string]string, numbers bool) (string, error) {
-	for _, r := range varRE {
-		m := r.FindAllStringSubmatch(s, -1)
-		if len(m) == 0 {
-			continue
-		}
-		rep := make([]string, 0, len(m)*2)
-		for i := range m {
-			v := m[i]
-			//p := strings.Trim(v[1], "{}")
-			p := v[1]
-			switch {
-			case strings.HasPrefix(p, "params."):
-				k := strings.TrimPrefix(p, "params.")
-				val, ok := params[k]
-				if !ok {
-					return "", fmt.Errorf("%s not defined (is it spelled correctly?)", p)
-				}
-				rep = append(rep, v[0], val)
-				finch.Debug("param: %s -> %v (user-defined)", s, rep)
-			case strings.HasPrefix(p, "sys."):
-				k := strings.TrimPrefix(p, "sys.")
-				val, ok := finch.SystemParams[k]
-				if !ok {
-					return "", fmt.Errorf("%s not defined (is it spelled correctly?)", p)
-				}
-				rep = append(rep, v[0], val)
-				finch.Debug("param: %s -> %v (built-in)", s, rep)
-			default:
-				val, ok := os.LookupEnv(p)
-				if !ok {
-					return "", fmt.Errorf("environment variable %s not set (is it spelled correctly?)", p)
-				}
-				rep = append(rep, v[0], val)
-				finch.Debug("param: %s -> %v (env var)", s, rep)
+	var err error
+	s = varRE.ReplaceAllStringFunc(s, func(ref string) string {
+		m := varRE.FindStringSubmatch(ref)
+		p := m[1] + m[2] // only one matches
+		var val string
+		var ok bool
+		switch {
+		case strings.HasPrefix(p, "params."):
+			val, ok = params[strings.TrimPrefix(p, "params.")]
+			finch.Debug("param: %s -> %v (user-defined)", ref, val)
+		case strings.HasPrefix(p, "sys."):
+			val, ok = finch.SystemParams[strings.TrimPrefix(p, "sys.")]
+			finch.Debug("param: %s -> %v (built-in)", ref, val)
+		default:
+			val, ok = os.LookupEnv(p)
+			finch.Debug("param: %s -> %v (env var)", ref, val)
+			if !ok && err == nil {
+				err = fmt.Errorf("environment variable %s not set (is it spelled correctly?)", p)
 			}
 		}
-		r := strings.NewReplacer(rep...)
-		s = r.Replace(s)
+		if !ok && err == nil {
+			err = fmt.Errorf("%s not defined (is it spelled correctly?)", p)
+		}
+		return val
+	})
+	if err != nil {
+		return "", err
 	}
 
 	if !numbers {
@@ -249,29 +239,26 @@ func Vars(s string, params map[string]string, numbers bool) (string, error) {
 	}
 
 	// Look for human numbers like 1k and 1,000
-	m := reHumanNumber.FindAllStringSubmatch(s, -1)
-	if len(m) == 0 {
-		return s, nil // no human numbers
-	}
-	rep := []string{}
-	for i := range m {
+	s = reHumanNumber.ReplaceAllStringFunc(s, func(n string) string {
+		m := reHumanNumber.FindStringSubmatch(n)
 		// To keep the regex simple, reHumanNumber also matches ints like 1000,
 		// but don't waste time parsing something that's already machine number.
-		if reAllDigits.MatchString(m[i][0]) {
-			continue
+		if reMachineNumber.MatchString(m[3]) {
+			return n
 		}
-		d, err := human.ParseBytes(m[i][1])
-		if err != nil {
-			return "", fmt.Errorf("invalid human-readable number: %s: %s", m[i][1], err)
+		d, perr := human.ParseBytes(m[3])
+		if perr != nil {
+			if err == nil {
+				err = fmt.Errorf("invalid human-readable number: %s: %s", m[3], perr)
+			}
+			return n
 		}
-		rep = append(rep, m[i][0], strconv.FormatUint(d, 10))
-	}
-	if len(rep) == 0 { // all machine numbers (see comment above)
-		return s, nil
+		return m[1] + m[2] + strconv.FormatUint(d, 10)
+	})
+	if err != nil {
+		return "", err
 	}
-	finch.Debug("var: %s -> %v", s, rep)
-	r := strings.NewReplacer(rep...)
-	return r.Replace(s), nil
+	return s, nil
 }
 
 // setBool sets c to the value of b if c is nil (not set). Pointers are required
diff --git a/trx/trx.go b/trx/trx.go
index 8a67e6f..5409b5d 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -180,7 +180,9 @@ func (f *File) line(line string) error {
 			if line == "-- EOF" {
 				return ErrEOF
 			}
-			mod, err := config.Vars(strings.TrimSpace(strings.TrimPrefix(line, "--")), f.params, true)
+			mod := strings.TrimSpace(strings.TrimPrefix(line, "--"))
+			numbers := !strings.HasPrefix(mod, "idle") // 5m is 5 minutes, not 5 million
+			mod, err := config.Vars(mod, f.params, numbers)
 			if err != nil {
 				return fmt.Errorf("parsing modifier '%s' on line %d: %s", line, f.lb.n, err)
 			}
-- 
2.43.0


From 11794e07f493f22af13833710f30e63c8adf7a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:03 +0000
Subject: [PATCH 20/61] fix: each data key in a query is replaced by its own
 format

---
 trx/trx.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 5409b5d..67f83bc 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -432,11 +432,8 @@ func (f *File) statements() ([]*Statement, error) {
 	s.Inputs = dataKeys
 
 	s.Calls = Calls(s.Inputs)
-	query = ExplicitCallPattern.ReplaceAllStringFunc(query, func(s string) string {
-		return strings.TrimSuffix(s, EXPLICIT_CALL_SUFFIX)
-	})
 
-	dataFormats := map[string]string{} // keyed on data name
+	dataFormats := make([]string, len(s.Inputs))
 	for i, name := range s.Inputs {
 		// Remove () from @d()
 		name = strings.TrimSuffix(name, EXPLICIT_CALL_SUFFIX)
@@ -497,22 +494,19 @@ func (f *File) statements() ([]*Statement, error) {
 		}
 
 		if s.Prepare {
-			dataFormats[name] = "?"
+			dataFormats[i] = "?"
 		} else {
-			_, dataFormats[name] = g.Format()
+			_, dataFormats[i] = g.Format()
 		}
 	}
 
-	replacements := make([]string, len(dataFormats)*2) // *2 because key + value
-	i := 0
-	for k, v := range dataFormats {
-		replacements[i] = k
-		replacements[i+1] = v
-		i += 2
-	}
-	finch.Debug("replacements: %v", replacements)
-	r := strings.NewReplacer(replacements...)
-	s.Query = r.Replace(query)
+	// Replace each data key (not its name, which can be a prefix of another)
+	finch.Debug("replacements: %v", dataFormats)
+	n := 0
+	s.Query = DataKeyPattern.ReplaceAllStringFunc(query, func(string) string {
+		n++
+		return dataFormats[n-1]
+	})
 
 	// Caller debug prints full Statement
 	return []*Statement{s}, nil
-- 
2.43.0


From 2cf9140606b20be4d324b6246577018cd088a2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 21/61] fix: row scope of a csv key does not affect other keys
 that it is a prefix of

---
 trx/trx.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 67f83bc..ad6b766 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -582,22 +582,15 @@ func Calls(dataKeys []string) []byte {
 // makes @d row scoped because each row will call @d again. This is called
 // when the /*!csv N template */ is being processed (see reCSV).
 func RowScope(keys map[string]bool, csvTemplate string) string {
-	csvDataKeys := DataKeyPattern.FindAllString(csvTemplate, -1)
-KEY:
-	for dataKey := range keys { // row scoped keys
-		for _, k := range csvDataKeys { // all keys in csvTemplate
-			if !strings.HasPrefix(k, dataKey) {
-				continue // not the row scoped key we're looking for
-			}
-			// This is first occurrence of row scoped key in csvTemplate.
-			// Add () suffix if not already set.
-			if !strings.HasSuffix(k, EXPLICIT_CALL_SUFFIX) {
-				csvTemplate = strings.Replace(csvTemplate, k, k+EXPLICIT_CALL_SUFFIX, 1) // 1=only first occurrence
-			}
-			continue KEY // only check/change first occurrence, so this row scoped key is done
+	seen := map[string]bool{}
+	return DataKeyPattern.ReplaceAllStringFunc(csvTemplate, func(k string) string {
+		dataKey := strings.TrimSuffix(k, EXPLICIT_CALL_SUFFIX)
+		if !keys[dataKey] || seen[dataKey] {
+			return k // not row scoped, or not first occurrence
 		}
-	}
-	return csvTemplate
+		seen[dataKey] = true
+		return dataKey + EXPLICIT_CALL_SUFFIX
+	})
 }
 
 func cfgKey(s string) string {
-- 
2.43.0


From 0eb0c3d3f7b3f73a35182e7c47fe431647d4c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:07 +0000
Subject: [PATCH 22/61] fix: modifier without a value is an error, not a crash

---
 trx/trx.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index ad6b766..1698e1d 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -5,7 +5,6 @@ package trx
 import (
 	"bufio"
 	"fmt"
-	"log"
 	"os"
 	"regexp"
 	"strconv"
@@ -137,6 +136,9 @@ func (f *File) Load() error {
 			return err
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return fmt.Errorf("error reading %s: %s", f.cfg.File, err)
+	}
 	err = f.line("") // last line
 	if err != nil {
 		return err
@@ -157,10 +159,6 @@ func (f *File) Load() error {
 		return fmt.Errorf("saved columns not referenced: %s", strings.Join(noRefs, ", "))
 	}
 
-	if err := scanner.Err(); err != nil {
-		log.Fatal(err) // shouldn't happen
-	}
-
 	f.set.Order = append(f.set.Order, f.cfg.Name)
 	f.set.Statements[f.cfg.Name] = f.stmts
 	f.set.Meta[f.cfg.Name] = Meta{
@@ -262,6 +260,12 @@ func (f *File) statements() ([]*Statement, error) {
 		}
 		m[0] = strings.Trim(m[0], ":")
 		switch m[0] {
+		case "idle", "rows", "save-insert-id", "copies":
+			if len(m) < 2 {
+				return nil, fmt.Errorf("invalid %s modifier: no value: %s", m[0], mod)
+			}
+		}
+		switch m[0] {
 		case "prepare", "prepared":
 			s.Prepare = true
 		case "idle":
@@ -271,13 +275,13 @@ func (f *File) statements() ([]*Statement, error) {
 			}
 			s.Idle = d
 		case "rows":
-			max, err := strconv.ParseUint(m[1], 10, 64)
+			max, err := strconv.ParseUint(m[1], 10, 63)
 			if err != nil {
 				return nil, fmt.Errorf("invalid rows limit: %s: %s", m[1], err)
 			}
 			var offset uint64
 			if len(m) == 3 {
-				offset, err = strconv.ParseUint(m[2], 10, 64)
+				offset, err = strconv.ParseUint(m[2], 10, 63)
 				if err != nil {
 					return nil, fmt.Errorf("invalid rows offset: %s: %s", m[2], err)
 				}
@@ -300,7 +304,6 @@ func (f *File) statements() ([]*Statement, error) {
 			}
 			s.Limit = limit.Or(s.Limit, lm)
 		case "save-insert-id":
-			// @todo check len(m)
 			if s.ResultSet {
 				return nil, fmt.Errorf("save-insert-id not allowed on SELECT")
 			}
-- 
2.43.0


From 10db1f67e260e65ddb089ea396906f68ee20aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:33 +0000
Subject: [PATCH 23/61] fix: copy number of a single copy is 1

---
 trx/trx.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trx/trx.go b/trx/trx.go
index 1698e1d..1c4d817 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -252,6 +252,7 @@ func (f *File) statements() ([]*Statement, error) {
 	// Modifiers: --prepare, --table-size, etc.
 	// ----------------------------------------------------------------------
 
+	copyNo := f.lb.copyNo
 	for _, mod := range f.lb.mods {
 		m := strings.Fields(mod)
 		finch.Debug("mod: '%v' %#v", mod, m)
@@ -336,6 +337,7 @@ func (f *File) statements() ([]*Statement, error) {
 				return nil, nil
 			}
 			if n == 1 {
+				copyNo = 1
 				continue
 			}
 			prepareMulti := false
@@ -374,7 +376,7 @@ func (f *File) statements() ([]*Statement, error) {
 	// ----------------------------------------------------------------------
 	// Replace /*!copy-number*/
 	// ----------------------------------------------------------------------
-	query = strings.ReplaceAll(query, finch.COPY_NUMBER, fmt.Sprintf("%d", f.lb.copyNo))
+	query = strings.ReplaceAll(query, finch.COPY_NUMBER, fmt.Sprintf("%d", copyNo))
 
 	// ----------------------------------------------------------------------
 	// Expand CSV /*!csv N template*/
-- 
2.43.0


From 7c03a25da1592676bbf5f083c2920f99fda95b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:51 +0000
Subject: [PATCH 24/61] fix: rows limit of zero is no limit, not a crash

---
 limit/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/limit/data.go b/limit/data.go
index 0d7d800..9e65c38 100644
--- a/limit/data.go
+++ b/limit/data.go
@@ -73,7 +73,7 @@ type Rows struct {
 
 var _ Data = &Rows{}
 
-func NewRows(max, offset int64) *Rows {
+func NewRows(max, offset int64) Data {
 	if max == 0 {
 		return nil
 	}
-- 
2.43.0


From 3d083e2eb1455789b840b73517f49761b5ff4d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:51 +0000
Subject: [PATCH 25/61] fix: @PREV and saved columns can be used in a csv
 template

---
 trx/trx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trx/trx.go b/trx/trx.go
index 1c4d817..04d1e6d 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -396,6 +396,12 @@ func (f *File) statements() ([]*Statement, error) {
 			// Trim to look up data key in config because @ is not valid YAML.
 			// The @ will be put back later because all other code expects it.
 			name = cfgKey(name)
+			if name == "PREV" {
+				continue // not configured; value of the previous data key
+			}
+			if k, ok := f.set.Data.Keys["@"+name]; ok && k.Column >= 0 {
+				continue // saved column, doesn't have to be configured
+			}
 			dataCfg, ok := f.cfg.Data[name] // config.stage.trx[].data
 			if !ok {
 				return nil, fmt.Errorf("%s not configured: trx file uses %s but this data key is not configured in the stage file", name, name)
-- 
2.43.0


From 42a900fa5f1b509e3d64c34e7c35b3489179ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:03 +0000
Subject: [PATCH 26/61] fix: database and table size limits measure the
 configured database and table

---
 limit/data.go | 50 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/limit/data.go b/limit/data.go
index 9e65c38..0fb1df4 100644
--- a/limit/data.go
+++ b/limit/data.go
@@ -181,38 +181,27 @@ func (lm *Size) More(conn *sql.Conn) bool {
 
 	// Set queries on first call
 	if lm.query == "" {
-		lm.query = "SELECT COALESCE(data_length + index_length, 0) AS bytes FROM information_schema.TABLES WHERE "
 		if lm.db != "" {
 			log.Printf("Database size limit: %s %s (progress report every %d%%)", lm.db, lm.maxStr, lm.r)
-			lm.query += "table_schema='" + lm.db + "'"
-
-			var tbls []string
-			rows, err := conn.QueryContext(ctx, "SHOW FULL TABLES")
+			tbls, err := lm.tables(ctx, conn)
 			if err != nil {
 				log.Printf("Error running SHOW FULL TABLES: %s", err)
 				return false
 			}
-			rows.Close()
-			for rows.Next() {
-				var name, base string
-				err = rows.Scan(&name, &base)
-				if err != nil {
-					break
-				}
-				if base != "BASE TABLE" {
-					continue
-				}
-				tbls = append(tbls, name)
-			}
+			lm.query = "SELECT COALESCE(SUM(data_length + index_length), 0) AS bytes FROM information_schema.TABLES WHERE " +
+				"table_schema='" + lm.db + "'"
 			lm.analyze = "ANALYZE TABLE " + strings.Join(tbls, ", ")
 		} else {
 			log.Printf("Table size limit: %s %s (progress report every %d%%)", lm.tbl, lm.maxStr, lm.r)
-			err := conn.QueryRowContext(ctx, "SELECT DATABASE()").Scan(&lm.db)
-			if err != nil {
+			db, tbl := "", lm.tbl
+			if i := strings.Index(tbl, "."); i >= 0 { // database-qualified
+				db, tbl = tbl[:i], tbl[i+1:]
+			} else if err := conn.QueryRowContext(ctx, "SELECT DATABASE()").Scan(&db); err != nil {
 				log.Printf("Error getting current database: %s", err)
 				return false
 			}
-			lm.query += "table_schema='" + lm.db + "' AND table_name='" + lm.tbl + "'"
+			lm.query = "SELECT COALESCE(data_length + index_length, 0) AS bytes FROM information_schema.TABLES WHERE " +
+				"table_schema='" + db + "' AND table_name='" + tbl + "'"
 			lm.analyze = "ANALYZE TABLE " + lm.tbl
 		}
 		finch.Debug(lm.query)
@@ -255,3 +244,24 @@ func (lm *Size) More(conn *sql.Conn) bool {
 
 	return bytes < lm.max
 }
+
+// tables returns the name of every base table in the database.
+func (lm *Size) tables(ctx context.Context, conn *sql.Conn) ([]string, error) {
+	rows, err := conn.QueryContext(ctx, "SHOW FULL TABLES FROM `"+lm.db+"`")
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
+	var tbls []string
+	for rows.Next() {
+		var name, base string
+		if err := rows.Scan(&name, &base); err != nil {
+			return nil, err
+		}
+		if base != "BASE TABLE" {
+			continue
+		}
+		tbls = append(tbls, "`"+lm.db+"`.`"+name+"`")
+	}
+	return tbls, rows.Err()
+}
-- 
2.43.0


From 30686884e1624a0c83d9eec1344e8bebdc7e301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:42 +0000
Subject: [PATCH 27/61] fix: combining statistics ignores the min of no events
 and copies only the errors of the source

---
 stats/stats.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stats/stats.go b/stats/stats.go
index 3e8ea3f..05cea53 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -112,6 +112,9 @@ func (s *Stats) Copy(c *Stats) {
 		s.Max[i] = c.Max[i]
 		s.N[i] = c.N[i]
 	}
+	for k := range s.Errors {
+		delete(s.Errors, k)
+	}
 	for k, v := range c.Errors {
 		s.Errors[k] = v
 	}
@@ -125,7 +128,7 @@ func (s *Stats) Combine(c *Stats) {
 		for j := range s.Buckets[i] {
 			s.Buckets[i][j] += c.Buckets[i][j]
 		}
-		if c.Min[i] < s.Min[i] || s.N[i] == 0 {
+		if c.N[i] > 0 && (c.Min[i] < s.Min[i] || s.N[i] == 0) { // no min if no events
 			s.Min[i] = c.Min[i]
 		}
 		if c.Max[i] > s.Max[i] {
-- 
2.43.0


From a0c5b4ea10d5706a129978c8d5b894a83bbd66bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:31 +0000
Subject: [PATCH 28/61] fix: percentiles in the same bucket are reported
 independently

---
 stats/stats.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stats/stats.go b/stats/stats.go
index 05cea53..154e13d 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -158,7 +158,7 @@ func (s Stats) Percentiles(eventType byte, p []float64) (q []uint64) {
 		// 101  95.7         502300 (502.3 ms)
 		// 102  96.0  95.0
 		//fmt.Printf("at %d n = %d, f = %f, p = %f ap = %f\n", i, n, f, p[j], base*math.Pow(factor, float64(i)))
-		if f >= p[j] {
+		for f >= p[j] { // for, not if: several p[] can be in the same bucket
 			q[j] = uint64(base * math.Pow(factor, float64(i))) // high value
 
 			intP, _ := math.Modf(p[j])
@@ -173,7 +173,7 @@ func (s Stats) Percentiles(eventType byte, p []float64) (q []uint64) {
 				q[j] = uint64(base * math.Pow(factor, 0.0)) // first, lowest bucket
 			}
 			if j == len(q)-1 { // stop early once all p[] found
-				break
+				return q
 			}
 			j++ // find next p[]
 		}
-- 
2.43.0


From 3b92aad84d295f0f5cac1b1d30e5762c9f52172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 29/61] fix: exec group rate limits apply when any client group
 of the exec group sets them

---
 workload/workload.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/workload/workload.go b/workload/workload.go
index 2c1012f..018a7fe 100644
--- a/workload/workload.go
+++ b/workload/workload.go
@@ -136,8 +136,18 @@ func (a *Allocator) Clients(groups [][]int, withStats bool) ([][]ClientGroup, er
 
 		// Wherever you see finch.Uint, the string value (e.g. "100") has already been
 		// validated, so this func is just a shortcut to return uint rather than uint, erroor.
-		execGroupQPS := limit.And(a.StageQPS, limit.NewRate(finch.Uint(cgFirst.QPSExecGroup)))
-		execGroupTPS := limit.And(a.StageTPS, limit.NewRate(finch.Uint(cgFirst.TPSExecGroup)))
+		// Any client group can set the limits of its exec group; the first one set is used
+		var qpsExecGroup, tpsExecGroup uint
+		for _, egRefNo := range groups[egNo] {
+			if qpsExecGroup == 0 {
+				qpsExecGroup = finch.Uint(a.Workload[egRefNo].QPSExecGroup)
+			}
+			if tpsExecGroup == 0 {
+				tpsExecGroup = finch.Uint(a.Workload[egRefNo].TPSExecGroup)
+			}
+		}
+		execGroupQPS := limit.And(a.StageQPS, limit.NewRate(qpsExecGroup))
+		execGroupTPS := limit.And(a.StageTPS, limit.NewRate(tpsExecGroup))
 
 		clients[egNo] = make([]ClientGroup, len(groups[egNo]))
 
-- 
2.43.0


From d78230f34fb1ea18a212a5f4ade757aea88006fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:01 +0000
Subject: [PATCH 30/61] fix: statistics of an interval do not change when the
 next one is collected

---
 stats/collector.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/stats/collector.go b/stats/collector.go
index 53a473a..c04a32f 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -311,18 +311,18 @@ func (c *Collector) Collect() bool {
 		}
 	}
 
-	// Combine all trx stats into total stats
-	c.local.Total.Reset()
-	seen := map[string]bool{}
+	// Combine all trx stats into total stats. These are new every interval because
+	// the stats of previous intervals might still be in use: waiting for other
+	// instances (c.interval) or being sent by a reporter.
+	c.local.Total = NewStats()
+	c.local.Trx = map[string]*Stats{}
 	for i := range c.trx {
 		for j := range c.trx[i] {
 			trxName := c.trx[i][j].Name
 			s := c.stats[i][j] // *Stats: DO NOT modify; see comment ^
 
-			// Reset our local copy first time we see the trx each interval
-			if !seen[trxName] {
-				c.local.Trx[trxName].Reset()
-				seen[trxName] = true
+			if _, ok := c.local.Trx[trxName]; !ok {
+				c.local.Trx[trxName] = NewStats()
 			}
 
 			// Merge stats into our local copies
-- 
2.43.0


From 149df8e74bd61a876041af40bf37e3110c049499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:24 +0000
Subject: [PATCH 31/61] fix: an interval has one report of each instance, and
 the final interval reported by Recv ends Stop

---
 stats/collector.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/stats/collector.go b/stats/collector.go
index c04a32f..2fbad58 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -271,7 +271,8 @@ func (c *Collector) Stop(timeout time.Duration, terminated bool) bool {
 				time.Sleep(100 * time.Millisecond)
 			}
 			c.Lock()
-			reported = c.Report(false)
+			// Recv reports the final interval if remote stats are received last
+			reported = c.intervalNo > c.local.Interval || c.Report(false)
 			c.Unlock()
 		}
 	}
@@ -333,9 +334,7 @@ func (c *Collector) Collect() bool {
 
 	c.Lock()
 	defer c.Unlock()
-	c.interval[c.n] = c.local
-	c.n++
-	return c.Report(false)
+	return c.add(c.local)
 }
 
 // Recv receives stats from remote compute instances. It's called by
@@ -345,13 +344,20 @@ func (c *Collector) Recv(in Instance) {
 	c.Lock()
 	defer c.Unlock()
 
+	c.add(in)
+}
+
+// add adds stats from a local or remote instance to the current interval, and
+// reports the interval if it's complete. It returns true if it was reported.
+// The caller must lock the Collector.
+func (c *Collector) add(in Instance) bool {
 	// Is the received interval in the past? This can happen for stats from remote
 	// instances if, for example, there's a really bad network delay. Since the old
 	// interval has already been reported, and we don't buffer or report intervals
 	// out of order, we just have to drop the old/delayed interval.
 	if in.Interval < c.intervalNo {
 		log.Printf("Discarding past stats: %+v", in)
-		return
+		return false
 	}
 
 	// Reverse of above: is received interval in the future? If yes, then report
@@ -361,15 +367,21 @@ func (c *Collector) Recv(in Instance) {
 	if in.Interval > c.intervalNo {
 		log.Printf("Received next stats interval (%d) before current interval (%d) complete; reporting incomplete current interval; next stats: %+v", in.Interval, c.intervalNo, in)
 		c.Report(true) // true=force
-		c.interval[0] = in
-		c.n = 1
-		return
+		c.intervalNo = in.Interval
+	}
+
+	// Remote instances resend stats on timeout, so we might already have these
+	for i := range c.interval[0:c.n] {
+		if c.interval[i].Hostname == in.Hostname {
+			log.Printf("Discarding duplicate stats: %+v", in)
+			return false
+		}
 	}
 
 	// Stats in current interval; buffer until we've received all stats
 	c.interval[c.n] = in
 	c.n += 1
-	c.Report(false)
+	return c.Report(false)
 }
 
 // Report reports stats when then current interval is completed: when there are
@@ -385,10 +397,12 @@ func (c *Collector) Report(force bool) bool {
 	} else {
 		finch.Debug("interval %d: complete", c.intervalNo)
 	}
-	for _, r := range c.reporters {
-		r.Report(c.interval[0:c.n])
+	if c.n > 0 {
+		for _, r := range c.reporters {
+			r.Report(c.interval[0:c.n])
+		}
+		c.reported = time.Now()
 	}
-	c.reported = time.Now()
 	c.intervalNo += 1
 	c.n = 0
 	return true // interval complete and reported
-- 
2.43.0


From 8d3bf07b44ca76e05d9be73498ae586b41cff3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:57 +0000
Subject: [PATCH 32/61] fix: instance name with a percent sign does not garble
 the stats table

---
 stats/stdout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stats/stdout.go b/stats/stdout.go
index d615052..ff7593d 100644
--- a/stats/stdout.go
+++ b/stats/stdout.go
@@ -131,7 +131,7 @@ func (r *Stdout) print(in *Instance) {
 	line = strings.Replace(line, "P", intsToString(s.Percentiles(WRITE, r.p), "\t", true), 1)
 	line = strings.Replace(line, "P", intsToString(s.Percentiles(COMMIT, r.p), "\t", true), 1)
 
-	fmt.Fprintf(r.w, line)
+	fmt.Fprint(r.w, line)
 }
 
 func (r *Stdout) Stop() {}
-- 
2.43.0


From d03b0c4122a34fcacf3e50d60f30f141ff00b7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 33/61] fix: stats settings of a stage file override those of
 _all.yaml

---
 config/file.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/config/file.go b/config/file.go
index 60bd355..b2577fd 100644
--- a/config/file.go
+++ b/config/file.go
@@ -68,17 +68,22 @@ func (c *Stage) With(b Base) {
 
 	// Stats has a map, so copy in all fields manually
 	c.Stats.Disable = setBool(c.Stats.Disable, b.Stats.Disable)
-	c.Stats.Freq = b.Stats.Freq
-	if len(b.Stats.Report) > 0 {
+	if c.Stats.Freq == "" {
+		c.Stats.Freq = b.Stats.Freq
+	}
+	if len(b.Stats.Report) > 0 && c.Stats.Report == nil {
 		c.Stats.Report = map[string]map[string]string{}
-		for r := range b.Stats.Report {
+	}
+	for r := range b.Stats.Report {
+		if c.Stats.Report[r] == nil {
 			c.Stats.Report[r] = map[string]string{}
-			for k, v := range b.Stats.Report[r] {
+		}
+		for k, v := range b.Stats.Report[r] {
+			if _, ok := c.Stats.Report[r][k]; !ok {
 				c.Stats.Report[r][k] = v
 			}
 		}
 	}
-
 }
 
 func (c *Stage) CommandLine(dsn, db string) {
-- 
2.43.0


From 5ca1ce86c6f0e5cf49a2409124b1e3c2d3a7d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 34/61] fix: --param overrides the params of stage files

---
 config/config.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/config/config.go b/config/config.go
index dd05441..c2b58ae 100644
--- a/config/config.go
+++ b/config/config.go
@@ -82,16 +82,6 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 				finch.Debug("base: none in %s", dir)
 			}
 
-			// --param foo=bar on command line overrides .params in stage files
-			if len(b.Params) > 0 {
-				if b.Params == nil {
-					b.Params = map[string]string{}
-				}
-				for k, v := range params {
-					b.Params[k] = v
-				}
-			}
-
 			base[dir] = b
 		}
 
@@ -115,6 +105,14 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 		// Set stage with defaults (base)
 		f.Stage.With(b)
 
+		// --param foo=bar on command line overrides .params in base and stage files
+		if len(params) > 0 && f.Stage.Params == nil {
+			f.Stage.Params = map[string]string{}
+		}
+		for k, v := range params {
+			f.Stage.Params[k] = v
+		}
+
 		// --dsn and --database on command line override config files
 		f.Stage.CommandLine(dsn, db)
 
-- 
2.43.0


From d5a285c7bbaab863f9e53b5a5f38bc1dce67e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:55 +0000
Subject: [PATCH 35/61] fix: a param that references other params does not
 depend on map order

---
 config/config.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 config/file.go   |  7 ++-----
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/config/config.go b/config/config.go
index c2b58ae..c087eb4 100644
--- a/config/config.go
+++ b/config/config.go
@@ -259,6 +259,48 @@ func Vars(s string, params map[string]string, numbers bool) (string, error) {
 	return s, nil
 }
 
+// paramVars interpolates the params. A param can reference other params, which
+// are interpolated before it, so the result does not depend on map order.
+func paramVars(params map[string]string) error {
+	const (
+		visiting = 1
+		done     = 2
+	)
+	state := map[string]int{}
+	var resolve func(name string) error
+	resolve = func(name string) error {
+		switch state[name] {
+		case visiting:
+			return fmt.Errorf("params.%s references itself", name)
+		case done:
+			return nil
+		}
+		state[name] = visiting
+		for _, m := range varRE.FindAllStringSubmatch(params[name], -1) {
+			ref := strings.TrimPrefix(m[1]+m[2], "params.")
+			if _, ok := params[ref]; !ok || ref == m[1]+m[2] {
+				continue // not a param, or not defined, which Vars handles
+			}
+			if err := resolve(ref); err != nil {
+				return err
+			}
+		}
+		val, err := Vars(params[name], params, true)
+		if err != nil {
+			return err
+		}
+		params[name] = val
+		state[name] = done
+		return nil
+	}
+	for name := range params {
+		if err := resolve(name); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // setBool sets c to the value of b if c is nil (not set). Pointers are required
 // because var b bool is false by default whether set or not, so we can't tell if
 // it's explicitly set in config file. But var b *bool is only false if explicitly
diff --git a/config/file.go b/config/file.go
index b2577fd..da58bed 100644
--- a/config/file.go
+++ b/config/file.go
@@ -113,11 +113,8 @@ func (c *Stage) Vars() error {
 	var err error
 
 	// First interpolate the params before they're used in other config vars
-	for k, v := range c.Params {
-		c.Params[k], err = Vars(v, c.Params, true)
-		if err != nil {
-			return fmt.Errorf("in params: %s", err)
-		}
+	if err = paramVars(c.Params); err != nil {
+		return fmt.Errorf("in params: %s", err)
 	}
 
 	// Interpolate $params.var in other config vars
-- 
2.43.0


From 12b1015cb9f8dc36d2508a19ac6881bb7d083e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:55 +0000
Subject: [PATCH 36/61] fix: interpolate iter, hostname and socket settings

---
 config/file.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/config/file.go b/config/file.go
index da58bed..ebcd726 100644
--- a/config/file.go
+++ b/config/file.go
@@ -439,6 +439,18 @@ func (c *ClientGroup) Vars(params map[string]string) error {
 	if err != nil {
 		return err
 	}
+	c.Iter, err = Vars(c.Iter, params, true)
+	if err != nil {
+		return err
+	}
+	c.IterClients, err = Vars(c.IterClients, params, true)
+	if err != nil {
+		return err
+	}
+	c.IterExecGroup, err = Vars(c.IterExecGroup, params, true)
+	if err != nil {
+		return err
+	}
 	c.QPS, err = Vars(c.QPS, params, true)
 	if err != nil {
 		return err
@@ -542,6 +554,10 @@ func (c *MySQL) Vars(params map[string]string) error {
 	if err != nil {
 		return err
 	}
+	c.Hostname, err = Vars(c.Hostname, params, false)
+	if err != nil {
+		return err
+	}
 	c.MyCnf, err = Vars(c.MyCnf, params, false)
 	if err != nil {
 		return err
@@ -558,6 +574,10 @@ func (c *MySQL) Vars(params map[string]string) error {
 	if err != nil {
 		return err
 	}
+	c.Socket, err = Vars(c.Socket, params, false)
+	if err != nil {
+		return err
+	}
 	c.TimeoutConnect, err = Vars(c.TimeoutConnect, params, false)
 	if err != nil {
 		return err
-- 
2.43.0


From b654c76f0df6f8c118c77f91dc04ea3f6ab8242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:05 +0000
Subject: [PATCH 37/61] fix: validate mysql.tls settings

---
 config/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/file.go b/config/file.go
index ebcd726..5fd9bbd 100644
--- a/config/file.go
+++ b/config/file.go
@@ -589,7 +589,7 @@ func (c *MySQL) Vars(params map[string]string) error {
 }
 
 func (c *MySQL) Validate() error {
-	return nil
+	return c.TLS.Validate()
 }
 
 func (c MySQL) Redacted() string {
-- 
2.43.0


From b5cc47b6c280b123e2dde2a8d274cbf6a062e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:42 +0000
Subject: [PATCH 38/61] fix: zero compute instances are the default of one

---
 config/file.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/config/file.go b/config/file.go
index 5fd9bbd..f24df2f 100644
--- a/config/file.go
+++ b/config/file.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"path/filepath"
+	"strconv"
 
 	"github.com/square/finch"
 )
@@ -301,8 +302,8 @@ func (c *Compute) Validate() error {
 	if err := parseInt(c.Instances); err != nil {
 		return fmt.Errorf("instances: '%s' is not an integer: %s", c.Instances, err)
 	}
-	if c.Instances == "" {
-		c.Instances = "1"
+	if n, _ := strconv.ParseUint(c.Instances, 10, 32); n == 0 {
+		c.Instances = "1" // default
 	}
 	return nil
 }
-- 
2.43.0


From cd59203ef2a8d6acb11dc8db91075c88ed0399af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:42 +0000
Subject: [PATCH 39/61] fix: two trx files cannot have the same trx name

---
 config/file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/config/file.go b/config/file.go
index f24df2f..8a7f50f 100644
--- a/config/file.go
+++ b/config/file.go
@@ -172,6 +172,7 @@ func (c *Stage) Validate() error {
 
 	// Trx list: must validate before Workload because Workload reference trx by name
 	seen := map[string]string{}
+	trxFile := map[string]string{} // trx name -> file
 	for i := range c.Trx {
 		if c.Trx[i].File == "" {
 			return fmt.Errorf("no file specified for trx %d", i+1)
@@ -182,6 +183,10 @@ func (c *Stage) Validate() error {
 		if c.Trx[i].Name == "" {
 			c.Trx[i].Name = filepath.Base(c.Trx[i].File)
 		}
+		if file, ok := trxFile[c.Trx[i].Name]; ok && file != c.Trx[i].File {
+			return fmt.Errorf("duplicate trx name: '%s': %s and %s; specify a unique trx.name", c.Trx[i].Name, file, c.Trx[i].File)
+		}
+		trxFile[c.Trx[i].Name] = c.Trx[i].File
 
 		for dataKey, data := range c.Trx[i].Data {
 			if data.Generator == "" {
-- 
2.43.0


From bb461034626fd4d6d72f6cca7386022340a98c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:42 +0000
Subject: [PATCH 40/61] fix: validate mysql.timeout-connect

---
 config/file.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/config/file.go b/config/file.go
index 8a7f50f..a2f455d 100644
--- a/config/file.go
+++ b/config/file.go
@@ -9,6 +9,7 @@ import (
 	"io/ioutil"
 	"path/filepath"
 	"strconv"
+	"time"
 
 	"github.com/square/finch"
 )
@@ -595,6 +596,15 @@ func (c *MySQL) Vars(params map[string]string) error {
 }
 
 func (c *MySQL) Validate() error {
+	if c.TimeoutConnect != "" {
+		d, err := time.ParseDuration(c.TimeoutConnect)
+		if err != nil {
+			return fmt.Errorf("invalid config.mysql.timeout-connect: %s: %s", c.TimeoutConnect, err)
+		}
+		if d < 0 {
+			return fmt.Errorf("invalid config.mysql.timeout-connect: %s: value < 0", c.TimeoutConnect)
+		}
+	}
 	return c.TLS.Validate()
 }
 
-- 
2.43.0


From 673c402613c6c3bac2460325d178ae2b3da749c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:28 +0000
Subject: [PATCH 41/61] fix: redacting an invalid DSN does not crash

---
 dbconn/factory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 67591f9..acff029 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -224,8 +224,9 @@ func isSocket(file string) bool {
 
 func RedactedDSN(dsn string) string {
 	redactedPassword, err := mysql.ParseDSN(dsn)
-	if err != nil { // ok to ignore
+	if err != nil {
 		finch.Debug("mysql.ParseDSN error: %s", err)
+		return "(invalid DSN)" // cannot tell where the password is
 	}
 	redactedPassword.Passwd = "..."
 	return redactedPassword.FormatDSN()
-- 
2.43.0


From a8853c02a5f7716cb50491a2e67286e2dc70f529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:28 +0000
Subject: [PATCH 42/61] fix: use TLS settings of my.cnf

---
 dbconn/factory.go | 10 ++++++++++
 dbconn/mycnf.go   |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index acff029..124487d 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -80,6 +80,9 @@ func (f *factory) setDSN() error {
 		if err != nil {
 			return err
 		}
+		if f.cfg.TLS.Set() {
+			def.TLS.MySQLMode = "" // explicit TLS overrides ssl-mode=DISABLED
+		}
 		f.cfg.With(def)
 	}
 
@@ -114,6 +117,13 @@ func (f *factory) setDSN() error {
 		finch.Debug("auto-enabled skip-verify on socket with TLS but no hostname")
 	}
 
+	// TLS can come from my.cnf, which config does not validate
+	if f.cfg.TLS.Set() {
+		if err := f.cfg.TLS.Validate(); err != nil {
+			return err
+		}
+	}
+
 	// Load and register TLS, if any
 	tlsConfig, err := f.cfg.TLS.LoadTLS(portSuffix.ReplaceAllString(f.cfg.Hostname, ""))
 	if err != nil {
diff --git a/dbconn/mycnf.go b/dbconn/mycnf.go
index 99d56de..be5ec78 100644
--- a/dbconn/mycnf.go
+++ b/dbconn/mycnf.go
@@ -37,7 +37,7 @@ func ParseMyCnf(file string) (config.MySQL, error) {
 	//   https://dev.mysql.com/doc/refman/8.0/en/connection-options.html#option_general_ssl-mode
 	// But Go tls.Config (which is derived from config.TLS) has only two
 	// options: specify tls.Confg.ServerName _or_ .InsecureSkipVerify=true.
-	mysqlTLS(file, mycnf, &cfg)
+	cfg.TLS = mysqlTLS(file, mycnf, &cfg)
 
 	finch.Debug("mycnf %s: %s %+v", file, cfg.Redacted())
 	return cfg, nil
-- 
2.43.0


From a4eefacdabb4c7093582e527847861cb3fe597a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:28 +0000
Subject: [PATCH 43/61] fix: a configured hostname overrides the socket of
 my.cnf

---
 dbconn/factory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 124487d..67886f0 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -80,6 +80,9 @@ func (f *factory) setDSN() error {
 		if err != nil {
 			return err
 		}
+		if f.cfg.Hostname != "" {
+			def.Socket = "" // explicit hostname overrides socket
+		}
 		if f.cfg.TLS.Set() {
 			def.TLS.MySQLMode = "" // explicit TLS overrides ssl-mode=DISABLED
 		}
-- 
2.43.0


From 5db06d37421f3011a4cf2d72069f03a14c833336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:28 +0000
Subject: [PATCH 44/61] fix: the newline at the end of a password file is not
 part of the password

---
 dbconn/factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 67886f0..5da7ed6 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -154,7 +154,7 @@ func (f *factory) setDSN() error {
 		if err != nil {
 			return err
 		}
-		password = string(bytes)
+		password = strings.TrimRight(string(bytes), "\r\n") // text files end with a newline
 	}
 
 	if f.cfg.Username == "" {
-- 
2.43.0


From be1461114db97c32665e0ddc189d3afff3c1fb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:39 +0000
Subject: [PATCH 45/61] fix: no automatic TLS when TLS is disabled

---
 config/file.go    | 7 ++++++-
 dbconn/factory.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/config/file.go b/config/file.go
index a2f455d..46ad8b9 100644
--- a/config/file.go
+++ b/config/file.go
@@ -703,7 +703,12 @@ func (c *TLS) Vars(params map[string]string) error {
 // If not set, Blip ignores the TLS config. If set, Blip validates, loads, and
 // registers the TLS config.
 func (c TLS) Set() bool {
-	return !True(c.Disable) && c.MySQLMode != "DISABLED" && (c.CA != "" || c.Cert != "" || c.Key != "")
+	return !c.Disabled() && (c.CA != "" || c.Cert != "" || c.Key != "")
+}
+
+// Disabled returns true if TLS is explicitly disabled.
+func (c TLS) Disabled() bool {
+	return True(c.Disable) || c.MySQLMode == "DISABLED"
 }
 
 func (c TLS) LoadTLS(server string) (*tls.Config, error) {
diff --git a/dbconn/factory.go b/dbconn/factory.go
index 5da7ed6..3e2baab 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -139,7 +139,7 @@ func (f *factory) setDSN() error {
 	}
 
 	// Use built-in Amazon RDS CA
-	if rdsAddr.MatchString(addr) && !config.True(f.cfg.DisableAutoTLS) && tlsConfig == nil {
+	if rdsAddr.MatchString(addr) && !config.True(f.cfg.DisableAutoTLS) && !f.cfg.TLS.Disabled() && tlsConfig == nil {
 		finch.Debug("auto AWS TLS: hostname has suffix .rds.amazonaws.com")
 		aws.RegisterRDSCA() // safe to call multiple times
 		params = append(params, "tls=rds")
-- 
2.43.0


From 65361ae237b780ba0ca30112b087c05088bbc616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:39 +0000
Subject: [PATCH 46/61] fix: a port without host in my.cnf is a port of the
 default host

---
 dbconn/mycnf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dbconn/mycnf.go b/dbconn/mycnf.go
index be5ec78..ef6831c 100644
--- a/dbconn/mycnf.go
+++ b/dbconn/mycnf.go
@@ -29,6 +29,9 @@ func ParseMyCnf(file string) (config.MySQL, error) {
 
 	port := mycnf.Section("client").Key("port").String()
 	if port != "" {
+		if cfg.Hostname == "" {
+			cfg.Hostname = "127.0.0.1" // default
+		}
 		cfg.Hostname += ":" + port
 	}
 
-- 
2.43.0


From 37fd070bfe3f049276df4d329b35ce44c752be2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:07 +0000
Subject: [PATCH 47/61] fix: every try of a request sends all data

---
 proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index 45cace3..45c4850 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -69,7 +69,7 @@ func (c *Client) request(ctx context.Context, method string, endpoint string, pa
 	for r.Tries == -1 || try < r.Tries {
 		try += 1
 		ctxReq, cancelReq := context.WithTimeout(ctx, r.Timeout)
-		req, _ = http.NewRequestWithContext(ctxReq, method, url, buf)
+		req, _ = http.NewRequestWithContext(ctxReq, method, url, bytes.NewReader(buf.Bytes())) // all data on every try
 		resp, err = c.client.Do(req)
 		cancelReq()
 		if err != nil {
-- 
2.43.0


From d4eed942e225e65933e7aabf58a5483ba3215abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:07 +0000
Subject: [PATCH 48/61] fix: read the response before the context of the
 request is cancelled, and retry if that fails

---
 proto/proto.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 45c4850..aad8091 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -71,15 +71,16 @@ func (c *Client) request(ctx context.Context, method string, endpoint string, pa
 		ctxReq, cancelReq := context.WithTimeout(ctx, r.Timeout)
 		req, _ = http.NewRequestWithContext(ctxReq, method, url, bytes.NewReader(buf.Bytes())) // all data on every try
 		resp, err = c.client.Do(req)
-		cancelReq()
 		if err != nil {
+			cancelReq()
 			goto RETRY
 		}
 
 		body, err = io.ReadAll(resp.Body)
 		resp.Body.Close()
+		cancelReq() // after reading the body because it stops reading
 		if err != nil {
-			return nil, nil, err
+			goto RETRY
 		}
 
 		switch resp.StatusCode {
-- 
2.43.0


From ba2251bf5b5603340d727e9e9b8918b3b56afb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:07 +0000
Subject: [PATCH 49/61] fix: server address of a client can end with a slash

---
 compute/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compute/client.go b/compute/client.go
index d7b0542..701f0d8 100644
--- a/compute/client.go
+++ b/compute/client.go
@@ -36,10 +36,11 @@ func NewClient(name, addr string) *Client {
 	if !strings.HasPrefix(addr, "http://") {
 		addr = "http://" + addr
 	}
+	addr = strings.TrimSuffix(addr, "/")
 
 	return &Client{
 		name: name,
-		addr: strings.TrimSuffix(addr, "/"),
+		addr: addr,
 		// --
 		gds:    data.NewScope(),
 		client: proto.NewClient(name, addr),
-- 
2.43.0


From f0467ac08b65686348c48058de9e28cd9186c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:32 +0000
Subject: [PATCH 50/61] fix: a remote that gave up waiting does not get a space
 on the stage

---
 compute/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compute/api.go b/compute/api.go
index a45ea26..cf0974e 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -167,6 +167,10 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 		// Wait until there's a stage that's not done booting (needs more instances)
 		log.Printf("Remote %s ready to boot\n", rc.name)
 		for {
+			if r.Context().Err() != nil {
+				return // remote gave up waiting; it will ask again
+			}
+
 			// Has server set a stage?
 			a.Lock()
 			stage := a.stage // copy ptr
-- 
2.43.0


From 708673bcc05f29272596151789367d26ab69dd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:32 +0000
Subject: [PATCH 51/61] fix: a remote that failed to boot does not keep its
 space on the stage

---
 compute/api.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compute/api.go b/compute/api.go
index cf0974e..185578a 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -223,8 +223,12 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 		// it should call GET /boot again to reset itself and try again.
 		var clientErr error
 		if string(body) != "" {
-			// Don't advance state: client failed to boot, so it's not ready to run
+			// Don't advance state: client failed to boot, so it's not ready to run.
+			// Free its space on the stage; it gets one again on GET /boot, or another does.
 			clientErr = fmt.Errorf("%s", string(body))
+			rc.stage.Lock()
+			delete(rc.stage.clients, rc.name)
+			rc.stage.Unlock()
 		} else {
 			rc.state = runnable // advance client state (successful boot)
 		}
-- 
2.43.0


From 3c11fd882255c86969e6c1001eb4e4aa387f3446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:32 +0000
Subject: [PATCH 52/61] fix: a remote that is booting can boot again

---
 compute/api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compute/api.go b/compute/api.go
index 185578a..1aeb5ce 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -470,6 +470,12 @@ func (a *API) client(w http.ResponseWriter, r *http.Request, boot bool) (*client
 
 	// Is instance assigned to the current stage?
 	rc, ok := a.stage.clients[name]
+	if ok && get && boot && rc.state == booting {
+		// Instance did not receive the stage or restarted while booting,
+		// so let it start over
+		delete(a.stage.clients, name)
+		ok = false
+	}
 	if !ok {
 
 		// Instance not assigned to the stage, but that's ok if it's trying
-- 
2.43.0


From 0cd4defdb191073c246ec4940d54216d2c0c8fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:32 +0000
Subject: [PATCH 53/61] fix: a request received twice at once counts once

---
 compute/api.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/compute/api.go b/compute/api.go
index 1aeb5ce..0e191e7 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -217,21 +217,26 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 		r.Body.Close()
-		w.WriteHeader(http.StatusOK)
 
 		// Remote might fail to boot. If that's the case, do not advance its state;
 		// it should call GET /boot again to reset itself and try again.
+		rc.stage.Lock()
+		if rc.state != booting || rc.stage.clients[rc.name] != rc {
+			rc.stage.Unlock()
+			w.WriteHeader(http.StatusPreconditionFailed) // retried request, already ack'ed
+			return
+		}
 		var clientErr error
 		if string(body) != "" {
 			// Don't advance state: client failed to boot, so it's not ready to run.
 			// Free its space on the stage; it gets one again on GET /boot, or another does.
 			clientErr = fmt.Errorf("%s", string(body))
-			rc.stage.Lock()
 			delete(rc.stage.clients, rc.name)
-			rc.stage.Unlock()
 		} else {
 			rc.state = runnable // advance client state (successful boot)
 		}
+		rc.stage.Unlock()
+		w.WriteHeader(http.StatusOK)
 		rc.stage.bootChan <- ack{name: rc.name, err: clientErr}
 
 	}
@@ -347,11 +352,16 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 			log.Printf("Error reading error from client on POST /run, ignoring: %s", err)
 		}
 		r.Body.Close()
-		w.WriteHeader(http.StatusOK)
 
 		rc.stage.Lock()
+		if rc.stage.clients[rc.name] != rc {
+			rc.stage.Unlock()
+			w.WriteHeader(http.StatusPreconditionFailed) // retried request, already ack'ed
+			return
+		}
 		delete(rc.stage.clients, rc.name)
 		rc.stage.Unlock()
+		w.WriteHeader(http.StatusOK)
 
 		// Tell server client completed stage
 		var clientErr error
-- 
2.43.0


From c0ee6f4b20e27cfb59a7d53b2649b141b974fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:46 +0000
Subject: [PATCH 54/61] fix: trx files with the same name in different
 directories do not overwrite each other on a remote

---
 compute/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/client.go b/compute/client.go
index 701f0d8..08215d0 100644
--- a/compute/client.go
+++ b/compute/client.go
@@ -203,7 +203,7 @@ func (c *Client) getTrxFiles(ctxFinch context.Context, cfg config.Stage, tmpdir
 		}
 		finch.Debug("%+v", resp)
 
-		filename := filepath.Join(tmpdir, filepath.Base(trx[i].File))
+		filename := filepath.Join(tmpdir, fmt.Sprintf("%d-%s", i, filepath.Base(trx[i].File))) // unique per trx
 		f, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0440)
 		if err != nil {
 			return err
-- 
2.43.0


From 3e030bffea605b0e880f618126274cb5b44c7810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:09 +0000
Subject: [PATCH 55/61] fix: API.Stage never returned when a remote did not
 stop in 3 seconds

---
 compute/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compute/api.go b/compute/api.go
index 0e191e7..ff30e6e 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -121,12 +121,13 @@ func (a *API) Stage(newStage *stageMeta) error {
 	// Wait for clients to check in (GET /run), be signaled that stage.done=true,
 	// send final stats, then call POST /run to terminate
 	timeout := time.After(3 * time.Second)
+WAIT:
 	for {
 		time.Sleep(100 * time.Millisecond)
 		select {
 		case <-timeout:
 			finch.Debug("timeout waiting for clients to reset")
-			break
+			break WAIT
 		default:
 		}
 		oldStage.Lock()
-- 
2.43.0


From e00a0f1dbaa894275b51f89b0bcdeb73c82b56bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:17 +0000
Subject: [PATCH 56/61] fix: API.boot read stage.done without the stage lock

---
 compute/api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compute/api.go b/compute/api.go
index ff30e6e..6f3d802 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -175,14 +175,14 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 			// Has server set a stage?
 			a.Lock()
 			stage := a.stage // copy ptr
-			if stage == nil || stage.done {
+			if stage == nil {
 				a.Unlock()
 				goto RETRY // no stage
 			}
 
 			// Is the stage still booting (waiting for instances)?
 			stage.Lock()
-			if stage.booted || len(stage.clients) == int(stage.nRemotes) {
+			if stage.done || stage.booted || len(stage.clients) == int(stage.nRemotes) {
 				stage.Unlock()
 				a.Unlock()
 				goto RETRY // stage is full
-- 
2.43.0


From d7d0c9ab989d9f9748c10e3bea1802595cf47e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:17 +0000
Subject: [PATCH 57/61] fix: server waited forever when the answer to POST
 /boot or GET /run was lost

---
 compute/api.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/compute/api.go b/compute/api.go
index 6f3d802..4906de3 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -207,7 +207,7 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 		}
 	} else {
 		// POST /boot: client is ack'ing previous GET /boot; body is error message, if any
-		if rc.state != booting {
+		if rc.state != booting && rc.state != runnable {
 			w.WriteHeader(http.StatusPreconditionFailed)
 			return
 		}
@@ -222,9 +222,14 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 		// Remote might fail to boot. If that's the case, do not advance its state;
 		// it should call GET /boot again to reset itself and try again.
 		rc.stage.Lock()
-		if rc.state != booting || rc.stage.clients[rc.name] != rc {
+		if rc.stage.clients[rc.name] != rc {
 			rc.stage.Unlock()
-			w.WriteHeader(http.StatusPreconditionFailed) // retried request, already ack'ed
+			w.WriteHeader(http.StatusPreconditionFailed)
+			return
+		}
+		if rc.state != booting { // retried request, already ack'ed but client didn't receive response
+			rc.stage.Unlock()
+			w.WriteHeader(http.StatusOK)
 			return
 		}
 		var clientErr error
@@ -312,7 +317,8 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 
 	if get {
 		// GET /run: client is waiting for signal to run previously booted stage
-		if rc.state != runnable {
+		// (running == retried request because client didn't receive the signal)
+		if rc.state != runnable && rc.state != running {
 			w.WriteHeader(http.StatusPreconditionFailed)
 			return
 		}
-- 
2.43.0


From 8c0fe2f1e0a55768b40d14a21aa35607ec52f471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:17 +0000
Subject: [PATCH 58/61] fix: --test did not release remote instances

---
 compute/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compute/server.go b/compute/server.go
index 8a253d5..750f760 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -83,6 +83,8 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 		fmt.Printf("#\n# %s (%s)\n#\n", stageName, cfg.Id)
 	}
 
+	cfg.Test = s.test // API releases remotes when a test stage is stopped
+
 	m := &stageMeta{
 		Mutex:    &sync.Mutex{},
 		cfg:      cfg,
@@ -150,6 +152,9 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	m.Unlock()
 
 	if s.test {
+		if s.api != nil && nRemotes > 0 {
+			s.api.Stage(nil) // release remotes waiting to run
+		}
 		return nil
 	}
 
-- 
2.43.0


From 94fa952c9452534eb062a57db95f18bc9a726420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:17 +0000
Subject: [PATCH 59/61] fix: CTRL-C on the server looped and waited for remotes
 that did not stop

---
 compute/server.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/compute/server.go b/compute/server.go
index 750f760..3a0fee6 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -165,15 +165,18 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	finch.Debug("run %s", stageName)
 	close(m.runChan) // signal remotes to run
 
+	localDone := make(chan struct{})
 	if local != nil { // start local instance
 		go func() {
 			local.Run(ctxFinch)
 			m.doneChan <- ack{name: s.name}
+			close(localDone)
 		}()
 	}
 
 	// Wait for instances to finish running
 	running := booted
+	terminated := ctxFinch.Done()
 	for running > 0 {
 		select {
 		case ack := <-m.doneChan:
@@ -187,11 +190,17 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 					log.Printf("%d/%d instances running", running, nInstances)
 				}
 			}
-		case <-ctxFinch.Done():
+		case <-terminated:
+			terminated = nil // only once
 			// Signal remote instances to stop early and (maybe) send finals stats
 			if s.api != nil {
 				s.api.Stage(nil)
 			}
+			// Don't wait for remote instances that didn't stop
+			if local != nil {
+				<-localDone
+			}
+			running = uint(len(m.doneChan))
 		}
 	}
 
-- 
2.43.0


From 9b3d68c2a28560d40cc7ef69f2fd058abff8cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:42 +0000
Subject: [PATCH 60/61] fix: stage-scoped data keys of one stage leaked into
 the next

Reset kept data keys with stage scope, so the next stage ignored its own
configuration of such a key, and a saved column was a duplicate.
---
 compute/server.go | 2 +-
 data/scope.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compute/server.go b/compute/server.go
index 3a0fee6..8dd417d 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -102,7 +102,7 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 		}
 	}
 
-	s.gds.Reset() // keep data global and stage data, delete the rest
+	s.gds.Reset() // keep global data, delete the rest
 
 	// Create and boot local instance first because if this doesn't work,
 	// then remotes shouldn't work either because they all boot with the
diff --git a/data/scope.go b/data/scope.go
index 2d068f5..8997ad0 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -124,7 +124,7 @@ func (s *Scope) Copy(keyName string, rl finch.RunLevel) *ScopedGenerator {
 
 func (s *Scope) Reset() {
 	for keyName, k := range s.Keys {
-		if k.Scope == finch.SCOPE_STAGE || k.Scope == finch.SCOPE_GLOBAL {
+		if k.Scope == finch.SCOPE_GLOBAL {
 			continue
 		}
 		finch.Debug("delete %s (scope: %s)", keyName, k.Scope)
-- 
2.43.0


From 3484f9f0abfdc63fac63d340f4d6f4ae13ac3fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:42 +0000
Subject: [PATCH 61/61] fix: stats.disable was ignored on remote instances

---
 compute/client.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/compute/client.go b/compute/client.go
index 08215d0..58806f6 100644
--- a/compute/client.go
+++ b/compute/client.go
@@ -96,24 +96,27 @@ func (c *Client) run(ctxFinch context.Context) error {
 
 	// ------------------------------------------------------------------
 	// Local boot and ack
-	for k := range cfg.Stats.Report {
-		if k == "stdout" {
-			continue
+	var coll *stats.Collector
+	if !config.True(cfg.Stats.Disable) {
+		for k := range cfg.Stats.Report {
+			if k == "stdout" {
+				continue
+			}
+			delete(cfg.Stats.Report, k)
+		}
+		cfg.Stats.Report["server"] = map[string]string{
+			"server":   c.addr,
+			"client":   c.name,
+			"stage-id": c.client.StageId,
+		}
+		coll, err = stats.NewCollector(cfg.Stats, c.name, 1)
+		if err != nil {
+			return err
 		}
-		delete(cfg.Stats.Report, k)
-	}
-	cfg.Stats.Report["server"] = map[string]string{
-		"server":   c.addr,
-		"client":   c.name,
-		"stage-id": c.client.StageId,
-	}
-	stats, err := stats.NewCollector(cfg.Stats, c.name, 1)
-	if err != nil {
-		return err
 	}
 
 	log.Printf("[%s] Booting", stageName)
-	local := stage.New(cfg, c.gds, stats)
+	local := stage.New(cfg, c.gds, coll)
 	if err := local.Prepare(ctxFinch); err != nil {
 		log.Printf("[%s] Boot error, notifying server: %s", stageName, err)
 		c.client.Send(ctxFinch, "/boot", err.Error(), proto.R{500 * time.Millisecond, 100 * time.Millisecond, 3}) // don't care if this fails
-- 
2.43.0

