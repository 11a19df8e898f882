From 8f1a6bb91af2b58f000af0d7ec19dbcaed7fa927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:58 +0000
Subject: [PATCH 01/30] fix: count an empty instance domain in the toc

A registered instance domain without instances got a TOC entry written
for it that the TOC count, and so the file length and every section
offset, did not include.
---
 client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 282efe3..72b7e20 100644
--- a/client.go
+++ b/client.go
@@ -159,8 +159,13 @@ func (c *PCPClient) SetFlag(flag MMVFlag) error {
 func (c *PCPClient) tocCount() int {
 	ans := 2
 
+	// an instance domain can be empty, so these are counted separately
+	if c.r.InstanceDomainCount() > 0 {
+		ans++
+	}
+
 	if c.r.InstanceCount() > 0 {
-		ans += 2
+		ans++
 	}
 
 	if c.r.StringCount() > 0 {
-- 
2.43.0


From 4c11688bd0522d15aedea3f76c5769bee72a64ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:16 +0000
Subject: [PATCH 02/30] fix: encode the requested dimension of a composite unit

The unit constants carry dimension 1 in their dimension bits, and those
were or-ed with the requested dimension, so that a dimension of 2 was
written as 3 and -2 as -1. A second call for the same kind of unit also
or-ed both dimensions and scales together.
---
 metrics.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metrics.go b/metrics.go
index cb55701..8d06e50 100644
--- a/metrics.go
+++ b/metrics.go
@@ -169,7 +169,8 @@ func (m *metricUnit) Space(s SpaceUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(s)
+	m.repr &^= 0xF<<28 | 0xF<<16
+	m.repr |= uint32(s) & (0xF << 16)
 	m.repr |= (uint32(dimension) & 0xF) << 28
 	return m
 }
@@ -180,7 +181,8 @@ func (m *metricUnit) Time(t TimeUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(t)
+	m.repr &^= 0xF<<24 | 0xF<<12
+	m.repr |= uint32(t) & (0xF << 12)
 	m.repr |= (uint32(dimension) & 0xF) << 24
 	return m
 }
@@ -191,7 +193,8 @@ func (m *metricUnit) Count(c CountUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(c)
+	m.repr &^= 0xF<<20 | 0xF<<8
+	m.repr |= uint32(c) & (0xF << 8)
 	m.repr |= (uint32(dimension) & 0xF) << 20
 	return m
 }
@@ -238,7 +241,7 @@ func (m *metricUnit) CountScale() CountUnit {
 		panic("no count scale on unit")
 	}
 
-	return CountUnit(1<<20 | (uint32((m.repr>>8)&0xF))>>8)
+	return CountUnit(1<<20 | (uint32((m.repr>>8)&0xF))<<8)
 }
 
 func (m *metricUnit) String() string {
-- 
2.43.0


From 2e648f9aee11c8de5710e52537c2af19db604dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 03/30] fix: do not let an increment overflow a counter
 backwards

Inc on a counter or counter vector near the largest int64 wrapped around
to a negative value.
---
 metrics.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metrics.go b/metrics.go
index 8d06e50..feb7037 100644
--- a/metrics.go
+++ b/metrics.go
@@ -728,6 +728,10 @@ func (c *PCPCounter) Inc(val int64) error {
 	}
 
 	v := c.val.(int64)
+	if v > math.MaxInt64-val {
+		return errors.Errorf("cannot increment counter by %v, current value is %v and the result overflows", val, v)
+	}
+
 	v += val
 	return c.set(v)
 }
@@ -1206,6 +1210,10 @@ func (c *PCPCounterVector) Inc(inc int64, instance string) error {
 		return err
 	}
 
+	if v.(int64) > math.MaxInt64-inc {
+		return errors.Errorf("cannot increment instance %s by %v, the result overflows", instance, inc)
+	}
+
 	return c.setInstance(v.(int64)+inc, instance)
 }
 
-- 
2.43.0


From 5497a5da76b2495b39ee243bb764d33c391dd3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 04/30] fix: do not swap the bounds reported by a histogram

---
 metrics.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics.go b/metrics.go
index feb7037..f204117 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1456,10 +1456,10 @@ func NewPCPHistogram(name string, low, high int64, sigfigures int, unit MetricUn
 }
 
 // High returns the maximum recordable value.
-func (h *PCPHistogram) High() int64 { return h.h.LowestTrackableValue() }
+func (h *PCPHistogram) High() int64 { return h.h.HighestTrackableValue() }
 
 // Low returns the minimum recordable value.
-func (h *PCPHistogram) Low() int64 { return h.h.HighestTrackableValue() }
+func (h *PCPHistogram) Low() int64 { return h.h.LowestTrackableValue() }
 
 // Max returns the maximum recorded value so far.
 func (h *PCPHistogram) Max() int64 {
-- 
2.43.0


From c61f842e3dad4c24a0fb92ca9105274a9bc23bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 05/30] fix: read histogram percentiles and buckets under its
 lock

Both walked the counts while a concurrent Record could be changing them.
---
 metrics.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index f204117..81c5502 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1570,7 +1570,11 @@ func (h *PCPHistogram) Variance() float64 {
 }
 
 // Percentile returns the value at the passed percentile.
-func (h *PCPHistogram) Percentile(p float64) int64 { return h.h.ValueAtQuantile(p) }
+func (h *PCPHistogram) Percentile(p float64) int64 {
+	h.mutex.RLock()
+	defer h.mutex.RUnlock()
+	return h.h.ValueAtQuantile(p)
+}
 
 // HistogramBucket is a single histogram bucket within a fixed range.
 type HistogramBucket struct {
@@ -1579,6 +1583,9 @@ type HistogramBucket struct {
 
 // Buckets returns a list of histogram buckets.
 func (h *PCPHistogram) Buckets() []*HistogramBucket {
+	h.mutex.RLock()
+	defer h.mutex.RUnlock()
+
 	b := h.h.Distribution()
 	buckets := make([]*HistogramBucket, len(b))
 	for i := 0; i < len(b); i++ {
-- 
2.43.0


From 8f03e49892b2ca38ab81d040f686ffa5a90747f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 06/30] fix: reject a negative number of histogram recordings

RecordN with a negative count took recordings away, down to negative
totals.
---
 metrics.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metrics.go b/metrics.go
index 81c5502..a605369 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1533,6 +1533,10 @@ func (h *PCPHistogram) RecordN(val, n int64) error {
 	h.mutex.Lock()
 	defer h.mutex.Unlock()
 
+	if n < 0 {
+		return errors.New("cannot record a value a negative number of times")
+	}
+
 	err := h.h.RecordValues(val, n)
 	if err != nil {
 		return err
-- 
2.43.0


From e1251ee08acadb8bf3ba9732f1aeb8614c5ee5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 07/30] fix: read the value of a singleton metric under its
 lock in String

---
 metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index a605369..31e685c 100644
--- a/metrics.go
+++ b/metrics.go
@@ -646,7 +646,7 @@ func (m *PCPSingletonMetric) MustSet(val interface{}) {
 }
 
 func (m *PCPSingletonMetric) String() string {
-	return fmt.Sprintf("Val: %v\n%v", m.val, m.Description())
+	return fmt.Sprintf("Val: %v\n%v", m.Val(), m.Description())
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 2569de8299e339447be4a6bd236d416c12643e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:06 +0000
Subject: [PATCH 08/30] fix: reject strings that do not fit their slot in the
 file

A string value or a description longer than a string slot was written
across the following slots, or past the end of the file, which crashed
the process from one of the goroutines of Start.
---
 instance_domain.go | 6 ++++++
 metrics.go         | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/instance_domain.go b/instance_domain.go
index fe4b42d..4cf2500 100644
--- a/instance_domain.go
+++ b/instance_domain.go
@@ -42,6 +42,12 @@ func NewPCPInstanceDomain(name string, instances []string, desc ...string) (*PCP
 		return nil, errors.New("Only 2 description strings allowed to define an instance domain")
 	}
 
+	for _, d := range desc {
+		if len(d) > StringLength {
+			return nil, errors.New("instance domain description is too long")
+		}
+	}
+
 	shortDescription, longDescription := "", ""
 
 	if len(desc) > 0 {
diff --git a/metrics.go b/metrics.go
index 31e685c..9ed3c65 100644
--- a/metrics.go
+++ b/metrics.go
@@ -82,7 +82,7 @@ func (m MetricType) IsCompatible(val interface{}) bool {
 	case float64:
 		return m.isCompatibleFloat(v)
 	case string:
-		return m == StringType
+		return m == StringType && len(v) <= StringLength
 	}
 	return false
 }
@@ -492,6 +492,12 @@ func newpcpMetricDesc(n string, t MetricType, s MetricSemantics, u MetricUnit, d
 		return nil, errors.New("only 2 optional strings allowed, short and long descriptions")
 	}
 
+	for _, d := range desc {
+		if len(d) > StringLength {
+			return nil, errors.New("metric description is too long")
+		}
+	}
+
 	shortdesc, longdesc := "", ""
 
 	if len(desc) > 0 {
-- 
2.43.0


From 4064e9c17c0f67fa24249a0b2f1d8b0f8bd71d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 09/30] fix: store a value in the mapped file in one piece

Values were copied byte by byte, so that a reader of the mapping could
see a mix of the bytes of the old and of the new value.
---
 bytewriter/bytewriter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bytewriter/bytewriter.go b/bytewriter/bytewriter.go
index fc62416..e5d4522 100644
--- a/bytewriter/bytewriter.go
+++ b/bytewriter/bytewriter.go
@@ -38,9 +38,9 @@ func (w *ByteWriter) Write(data []byte, offset int) (int, error) {
 		return -1, errors.Errorf("cannot write %v bytes at offset %v", l, offset)
 	}
 
-	for i := 0; i < l; i++ {
-		w.buffer[offset+i] = data[i]
-	}
+	// the buffer can be memory that another process reads at any time, so
+	// an aligned value has to be stored whole and not byte by byte
+	copy(w.buffer[offset:], data)
 
 	return offset + l, nil
 }
-- 
2.43.0


From d6152ce0dc81f539298c5a7e6e4eb23f3da11adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:24 +0000
Subject: [PATCH 10/30] fix: return an error for a write at a negative or huge
 offset

Such an offset passed the bounds check, and the write panicked.
---
 bytewriter/bytewriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytewriter/bytewriter.go b/bytewriter/bytewriter.go
index e5d4522..a91ade4 100644
--- a/bytewriter/bytewriter.go
+++ b/bytewriter/bytewriter.go
@@ -34,7 +34,7 @@ func (w *ByteWriter) Bytes() []byte { return w.buffer }
 func (w *ByteWriter) Write(data []byte, offset int) (int, error) {
 	l := len(data)
 
-	if offset+l > w.Len() {
+	if offset < 0 || offset > w.Len()-l {
 		return -1, errors.Errorf("cannot write %v bytes at offset %v", l, offset)
 	}
 
-- 
2.43.0


From 72c82cec447d6ad6f90785d4a207b19a0ce2cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 11/30] fix: do not let a file look valid before its generation
 is written

The tag went in first, and until the first generation number followed it
both were 0, hence equal, and a reader took the empty file for a complete
one.
---
 client.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 72b7e20..b92570a 100644
--- a/client.go
+++ b/client.go
@@ -279,9 +279,6 @@ func (c *PCPClient) start() {
 }
 
 func (c *PCPClient) writeHeaderBlock(genc chan int64, g2offc chan int) {
-	// tag
-	c.writer.MustWriteString("MMV", 0)
-
 	var pos int
 
 	// version
@@ -310,6 +307,10 @@ func (c *PCPClient) writeHeaderBlock(genc chan int64, g2offc chan int) {
 	// cluster identifier
 	_ = c.writer.MustWriteUint32(c.clusterID, pos)
 
+	// tag, only now that the first generation number is there: with the tag
+	// and two generation numbers of 0, the file would look complete to a reader
+	c.writer.MustWriteString("MMV", 0)
+
 	// NOTE: the order here is important, should be same as in start()
 	// or deadlock
 	genc <- gen
-- 
2.43.0


From fd2b2e94db8d01af85a9ed988faed342db761efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:55 +0000
Subject: [PATCH 12/30] fix: reject client names that do not name a file of
 their own

An empty name, '.' and '..' resolved to a directory, which Start then
removed when it was empty.
---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index b92570a..4bb686c 100644
--- a/client.go
+++ b/client.go
@@ -72,6 +72,10 @@ func mmvFileLocation(name string) (string, error) {
 		return "", errors.New("name cannot have path separator")
 	}
 
+	if name == "" || name == "." || name == ".." {
+		return "", errors.New("name has to be a valid file name")
+	}
+
 	tdir, present := config["PCP_TMP_DIR"]
 	var loc string
 	if present {
-- 
2.43.0


From 589a8e4bc431dabc0d460c73c622e9c4c11430e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:55 +0000
Subject: [PATCH 13/30] fix: do not take a comment in pcp.conf for a setting

The pattern matched anywhere in a line, such as in '# PCP_TMP_DIR=/tmp'.
---
 config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 041b157..9848763 100644
--- a/config.go
+++ b/config.go
@@ -17,7 +17,7 @@ var confPath string
 var config map[string]string
 
 // pat stores a valid key-value pattern line
-var pat = "([A-Z0-9_]+)=(.*)"
+var pat = "\\A([A-Z0-9_]+)=(.*)"
 
 // initConfig initializes the config constants
 func initConfig() error {
-- 
2.43.0


From 14fb9b051a26c8ef41264a011846323aa63223b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 14/30] fix: make checking and changing a registry one step

Two concurrent registrations of the same name both passed the check for
it, and were both counted, counts were changed under different locks, and
a registration during Start passed the check for an active mapping and
changed the registry while it was being laid out.
---
 client.go   |  7 +++++--
 registry.go | 54 ++++++++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index 4bb686c..dc4422d 100644
--- a/client.go
+++ b/client.go
@@ -205,16 +205,19 @@ func (c *PCPClient) Start() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
+	// nothing can be registered from here on, while the file is laid out
+	was := c.r.setMapped(true)
+
 	l := c.Length()
 
 	writer, err := bytewriter.NewMemoryMappedWriter(c.loc, l)
 	if err != nil {
+		c.r.setMapped(was)
 		return errors.Wrap(err, "cannot create MemoryMappedBuffer in client")
 	}
 
 	c.writer = writer
 	c.start()
-	c.r.mapped = true
 	return nil
 }
 
@@ -644,7 +647,7 @@ func (c *PCPClient) Stop() error {
 
 	c.stop()
 
-	c.r.mapped = false
+	c.r.setMapped(false)
 
 	err := c.writer.(*bytewriter.MemoryMappedWriter).Unmap(EraseFileOnStop)
 	c.writer = nil
diff --git a/registry.go b/registry.go
index 1d66249..c765f47 100644
--- a/registry.go
+++ b/registry.go
@@ -102,12 +102,20 @@ func (r *PCPRegistry) MetricCount() int {
 }
 
 // ValuesCount returns the number of values in the registry
-func (r *PCPRegistry) ValuesCount() int { return r.valueCount }
+func (r *PCPRegistry) ValuesCount() int {
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
+	return r.valueCount
+}
 
 // StringCount returns the number of strings in the registry
 func (r *PCPRegistry) StringCount() int {
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
 	if r.version2 {
-		return r.stringcount + r.MetricCount() + r.InstanceCount()
+		return r.stringcount + len(r.metrics) + r.InstanceCount()
 	}
 
 	return r.stringcount
@@ -122,6 +130,24 @@ func (r *PCPRegistry) HasInstanceDomain(name string) bool {
 	return present
 }
 
+// instanceDomain returns the registered indom of the specified name, or nil
+func (r *PCPRegistry) instanceDomain(name string) *PCPInstanceDomain {
+	r.indomlock.RLock()
+	defer r.indomlock.RUnlock()
+
+	return r.instanceDomains[name]
+}
+
+// setMapped marks the registry as mapped or not, and returns the earlier mark
+func (r *PCPRegistry) setMapped(mapped bool) bool {
+	r.metricslock.Lock()
+	defer r.metricslock.Unlock()
+
+	was := r.mapped
+	r.mapped = mapped
+	return was
+}
+
 // HasMetric returns true if the registry already has a metric of the specified name
 func (r *PCPRegistry) HasMetric(name string) bool {
 	r.metricslock.RLock()
@@ -133,6 +159,16 @@ func (r *PCPRegistry) HasMetric(name string) bool {
 
 // AddInstanceDomain will add a new instance domain to the current registry
 func (r *PCPRegistry) AddInstanceDomain(indom InstanceDomain) error {
+	r.metricslock.Lock()
+	defer r.metricslock.Unlock()
+
+	return r.addInstanceDomain(indom)
+}
+
+// addInstanceDomain adds an instance domain, every change to the registry is
+// made with metricslock held, so that nothing can get in between a check and
+// the change that depends on it
+func (r *PCPRegistry) addInstanceDomain(indom InstanceDomain) error {
 	if r.HasInstanceDomain(indom.Name()) {
 		return errors.New("InstanceDomain is already defined for the current registry")
 	}
@@ -194,11 +230,14 @@ func (r *PCPRegistry) addMetric(m PCPMetric) {
 
 // AddMetric will add a new metric to the current registry
 func (r *PCPRegistry) AddMetric(m Metric) error {
+	r.metricslock.Lock()
+	defer r.metricslock.Unlock()
+
 	if r.mapped {
 		return errors.New("cannot add a metric when a mapping is active")
 	}
 
-	if r.HasMetric(m.Name()) {
+	if _, present := r.metrics[m.Name()]; present {
 		return errors.New("metric is already defined for the current registry")
 	}
 
@@ -206,15 +245,12 @@ func (r *PCPRegistry) AddMetric(m Metric) error {
 
 	// if it is an indom metric
 	if pcpm.Indom() != nil && !r.HasInstanceDomain(pcpm.Indom().Name()) {
-		err := r.AddInstanceDomain(pcpm.Indom())
+		err := r.addInstanceDomain(pcpm.Indom())
 		if err != nil {
 			return err
 		}
 	}
 
-	r.metricslock.Lock()
-	defer r.metricslock.Unlock()
-
 	r.addMetric(pcpm)
 	return nil
 }
@@ -299,8 +335,8 @@ func (r *PCPRegistry) addInstanceMetricByString(name string, val interface{}, in
 		if err != nil {
 			return nil, err
 		}
-	} else if r.instanceDomains[indom].MatchInstances(instances) {
-		id = r.instanceDomains[indom]
+	} else if registered := r.instanceDomain(indom); registered.MatchInstances(instances) {
+		id = registered
 	} else {
 		return nil, errors.Errorf("a different instance domain under the name %v already exists in the registry", indom)
 	}
-- 
2.43.0


From 5fadc51440e3c2e72d188b00f7bcae663a31125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:21 +0000
Subject: [PATCH 15/30] fix: leave no instance domain behind when a string
 registration fails

A metric string with an incompatible value, or with values for other
instances, registered the instance domain and then failed.
---
 registry.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/registry.go b/registry.go
index c765f47..aeec290 100644
--- a/registry.go
+++ b/registry.go
@@ -331,7 +331,8 @@ func (r *PCPRegistry) addInstanceMetricByString(name string, val interface{}, in
 	)
 
 	if !r.HasInstanceDomain(indom) {
-		id, err = r.AddInstanceDomainByName(indom, instances)
+		// registered along with the metric, so not at all if that is rejected
+		id, err = NewPCPInstanceDomain(indom, instances)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From ba29f51aa8d80f803ccb0f19d6961aedce4f264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 16/30] fix: do not publish values for instances that are not
 in the file

A metric made with its own instance domain was registered along with a
different domain of the same name, and its values referred to instances
of a domain that was never written.
---
 client.go   | 4 +++-
 registry.go | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index dc4422d..59b60e2 100644
--- a/client.go
+++ b/client.go
@@ -548,7 +548,9 @@ func (c *PCPClient) writeInstanceMetric(m *pcpInstanceMetric) {
 		wg.Done()
 	}()
 
-	for name, i := range m.indom.instances {
+	// the metric can have been made with another object for the same instance
+	// domain, but only the registered one is in the file
+	for name, i := range c.r.instanceDomains[m.indom.name].instances {
 		off := <-c.valueoffsetc
 		c.valueoffsetc <- off + ValueLength
 
diff --git a/registry.go b/registry.go
index aeec290..736e1f3 100644
--- a/registry.go
+++ b/registry.go
@@ -244,7 +244,12 @@ func (r *PCPRegistry) AddMetric(m Metric) error {
 	pcpm := m.(PCPMetric)
 
 	// if it is an indom metric
-	if pcpm.Indom() != nil && !r.HasInstanceDomain(pcpm.Indom().Name()) {
+	if pcpm.Indom() != nil && r.HasInstanceDomain(pcpm.Indom().Name()) {
+		registered := r.instanceDomain(pcpm.Indom().Name())
+		if !registered.MatchInstances(pcpm.Indom().Instances()) {
+			return errors.Errorf("a different instance domain under the name %v already exists in the registry", registered.Name())
+		}
+	} else if pcpm.Indom() != nil {
 		err := r.addInstanceDomain(pcpm.Indom())
 		if err != nil {
 			return err
-- 
2.43.0


From 3c27b4fba3aefd3ff106837e2d7e7dac524691ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 17/30] fix: match instances as sets

A list that names one instance twice matched a domain with another
instance in its place, and did not match the domain made from it.
---
 instance_domain.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/instance_domain.go b/instance_domain.go
index 4cf2500..d55424d 100644
--- a/instance_domain.go
+++ b/instance_domain.go
@@ -107,17 +107,16 @@ func (indom *PCPInstanceDomain) Instances() []string {
 // MatchInstances returns true if the passed InstanceDomain
 // has exactly the same instances as the passed array
 func (indom *PCPInstanceDomain) MatchInstances(ins []string) bool {
-	if len(ins) != len(indom.instances) {
-		return false
-	}
+	matched := make(map[string]bool)
 
 	for _, i := range ins {
 		if _, ok := indom.instances[i]; !ok {
 			return false
 		}
+		matched[i] = true
 	}
 
-	return true
+	return len(matched) == len(indom.instances)
 }
 
 // Description returns the description for PCPInstanceDomain
-- 
2.43.0


From 5118d251c9dc07a88afff85dcc49e7f0afc16cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 18/30] fix: do not lose an update that is made during Start

Start read the value of a metric, wrote it, and set the metric up to
update the file without holding the lock of the metric. A concurrent
update could change the value in between, and stay out of the file.
---
 client.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index 59b60e2..223de29 100644
--- a/client.go
+++ b/client.go
@@ -473,16 +473,22 @@ func (c *PCPClient) writeInstance(i *pcpInstance, indomoff int, off int) {
 func (c *PCPClient) writeMetrics() {
 	var wg sync.WaitGroup
 
-	launchSingletonMetric := func(metric *pcpSingletonMetric) {
+	// a metric can be in use already, a concurrent update has to either be
+	// a part of what is written here, or go to the new mapping
+	launchSingletonMetric := func(metric *pcpSingletonMetric, l sync.Locker) {
 		go func() {
+			l.Lock()
 			c.writeSingletonMetric(metric)
+			l.Unlock()
 			wg.Done()
 		}()
 	}
 
-	launchInstanceMetric := func(metric *pcpInstanceMetric) {
+	launchInstanceMetric := func(metric *pcpInstanceMetric, l sync.Locker) {
 		go func() {
+			l.Lock()
 			c.writeInstanceMetric(metric)
+			l.Unlock()
 			wg.Done()
 		}()
 	}
@@ -491,21 +497,21 @@ func (c *PCPClient) writeMetrics() {
 	for _, m := range c.r.metrics {
 		switch metric := m.(type) {
 		case *PCPSingletonMetric:
-			launchSingletonMetric(metric.pcpSingletonMetric)
+			launchSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
 		case *PCPCounter:
-			launchSingletonMetric(metric.pcpSingletonMetric)
+			launchSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
 		case *PCPGauge:
-			launchSingletonMetric(metric.pcpSingletonMetric)
+			launchSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
 		case *PCPTimer:
-			launchSingletonMetric(metric.pcpSingletonMetric)
+			launchSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
 		case *PCPInstanceMetric:
-			launchInstanceMetric(metric.pcpInstanceMetric)
+			launchInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
 		case *PCPCounterVector:
-			launchInstanceMetric(metric.pcpInstanceMetric)
+			launchInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
 		case *PCPGaugeVector:
-			launchInstanceMetric(metric.pcpInstanceMetric)
+			launchInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
 		case *PCPHistogram:
-			launchInstanceMetric(metric.pcpInstanceMetric)
+			launchInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
 		}
 	}
 
-- 
2.43.0


From 19357209f28d170cd54090722627af5165db1b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:00 +0000
Subject: [PATCH 19/30] fix: do not write to the mapping of a stopped client

Stop unmapped the file, but its metrics kept writing to where it was
mapped: any update after Stop, or at the same time, crashed the process.
---
 client.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/client.go b/client.go
index 223de29..7c164fd 100644
--- a/client.go
+++ b/client.go
@@ -654,6 +654,7 @@ func (c *PCPClient) Stop() error {
 	}
 
 	c.stop()
+	c.detachMetrics()
 
 	c.r.setMapped(false)
 
@@ -672,6 +673,45 @@ func (c *PCPClient) stop() {
 	c.stringoffsetc = nil
 }
 
+// detachMetrics makes all metrics forget the current mapping, taking their locks
+// so that no update is still writing to it when it goes away
+func (c *PCPClient) detachMetrics() {
+	detachSingletonMetric := func(metric *pcpSingletonMetric, l sync.Locker) {
+		l.Lock()
+		metric.update = nil
+		l.Unlock()
+	}
+
+	detachInstanceMetric := func(metric *pcpInstanceMetric, l sync.Locker) {
+		l.Lock()
+		for _, v := range metric.vals {
+			v.update = nil
+		}
+		l.Unlock()
+	}
+
+	for _, m := range c.r.metrics {
+		switch metric := m.(type) {
+		case *PCPSingletonMetric:
+			detachSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
+		case *PCPCounter:
+			detachSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
+		case *PCPGauge:
+			detachSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
+		case *PCPTimer:
+			detachSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
+		case *PCPInstanceMetric:
+			detachInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
+		case *PCPCounterVector:
+			detachInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
+		case *PCPGaugeVector:
+			detachInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
+		case *PCPHistogram:
+			detachInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
+		}
+	}
+}
+
 // MustStop is a stop that panics
 func (c *PCPClient) MustStop() {
 	if err := c.Stop(); err != nil {
-- 
2.43.0


From ae0334a7655d10aba6d50f22e5a424cc57a86bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:17 +0000
Subject: [PATCH 20/30] fix: lay out the files of concurrently started clients
 one at a time

All histograms share one instance domain, whose instances held the offset
in the file of whichever client wrote it last.
---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index 7c164fd..3c5c5cb 100644
--- a/client.go
+++ b/client.go
@@ -221,7 +221,14 @@ func (c *PCPClient) Start() error {
 	return nil
 }
 
+// layoutlock is held while a file is laid out. Instances carry their offset in
+// that file, and clients can share them, they do so for all histograms.
+var layoutlock sync.Mutex
+
 func (c *PCPClient) start() {
+	layoutlock.Lock()
+	defer layoutlock.Unlock()
+
 	var (
 		InstanceLength = Instance1Length
 		MetricLength   = Metric1Length
-- 
2.43.0


From f43c65a4ea0383ff96f65e5bdc954df2eccee79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 21/30] fix: release the earlier mapping when an active client
 is started

Every further Start leaked a mapping and an open file, and Stop on a client
that was not started itself, but shares a registry with one that was,
crashed.
---
 client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 3c5c5cb..dba7874 100644
--- a/client.go
+++ b/client.go
@@ -216,8 +216,15 @@ func (c *PCPClient) Start() error {
 		return errors.Wrap(err, "cannot create MemoryMappedBuffer in client")
 	}
 
+	previous := c.writer
 	c.writer = writer
 	c.start()
+
+	// the metrics write to the new mapping by now
+	if previous != nil {
+		return previous.(*bytewriter.MemoryMappedWriter).Unmap(false)
+	}
+
 	return nil
 }
 
@@ -656,7 +663,7 @@ func (c *PCPClient) Stop() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if !c.r.mapped {
+	if !c.r.mapped || c.writer == nil {
 		return errors.New("trying to stop an already stopped mapping")
 	}
 
-- 
2.43.0


From 0884fbe255bc518a82712ebe555aa8f59fd126ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 22/30] fix: return an error for a malformed file instead of
 panicking in mmvdump

Check the counts and the offsets in the TOC before they are used, and
reject a version or a TOC that cannot be read.
---
 mmvdump/mmvdump.go | 68 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 18 deletions(-)

diff --git a/mmvdump/mmvdump.go b/mmvdump/mmvdump.go
index 5b980ca..f3bc0fe 100644
--- a/mmvdump/mmvdump.go
+++ b/mmvdump/mmvdump.go
@@ -36,11 +36,26 @@ func readHeader(data []byte) (*Header, error) {
 		return nil, errors.Errorf("Mismatched version numbers, %v and %v", header.G1, header.G2)
 	}
 
+	if header.Version != 1 && header.Version != 2 {
+		return nil, errors.Errorf("Unsupported version: %v", header.Version)
+	}
+
 	return header, nil
 }
 
+// contains checks if there are length bytes at the offset, which can be anything
+func contains(data []byte, offset, length uint64) bool {
+	l := uint64(len(data))
+	return offset <= l && length <= l-offset
+}
+
+// containsItems is contains for a number of items, which can be anything too
+func containsItems(data []byte, offset uint64, count int32, length uint64) bool {
+	return count >= 0 && contains(data, offset, uint64(count)*length)
+}
+
 func readToc(data []byte, offset uint64) (*Toc, error) {
-	if uint64(len(data)) < offset+TocLength {
+	if !contains(data, offset, TocLength) {
 		return nil, errors.New("Incomplete/Partially Written TOC")
 	}
 
@@ -55,7 +70,7 @@ func readInstance(data []byte, offset uint64, version int32) (interface{}, error
 		InstanceLength = Instance2Length
 	}
 
-	if uint64(len(data)) < offset+InstanceLength {
+	if !contains(data, offset, InstanceLength) {
 		return nil, errors.New("Incomplete/Partially Written Instance")
 	}
 
@@ -67,7 +82,7 @@ func readInstance(data []byte, offset uint64, version int32) (interface{}, error
 }
 
 func readInstanceDomain(data []byte, offset uint64, version int32) (interface{}, error) {
-	if uint64(len(data)) < offset+InstanceDomainLength {
+	if !contains(data, offset, InstanceDomainLength) {
 		return nil, errors.New("Incomplete/Partially Written InstanceDomain")
 	}
 
@@ -80,7 +95,7 @@ func readMetric(data []byte, offset uint64, version int32) (interface{}, error)
 		MetricLength = Metric2Length
 	}
 
-	if uint64(len(data)) < offset+MetricLength {
+	if !contains(data, offset, MetricLength) {
 		return nil, errors.New("Incomplete/Partially Written Metric")
 	}
 
@@ -92,7 +107,7 @@ func readMetric(data []byte, offset uint64, version int32) (interface{}, error)
 }
 
 func readValue(data []byte, offset uint64, version int32) (interface{}, error) {
-	if uint64(len(data)) < offset+ValueLength {
+	if !contains(data, offset, ValueLength) {
 		return nil, errors.New("Incomplete/Partially Written Value")
 	}
 
@@ -100,7 +115,7 @@ func readValue(data []byte, offset uint64, version int32) (interface{}, error) {
 }
 
 func readString(data []byte, offset uint64, version int32) (interface{}, error) {
-	if uint64(len(data)) < offset+StringLength {
+	if !contains(data, offset, StringLength) {
 		return nil, errors.New("Incomplete/Partially Written String")
 	}
 
@@ -108,6 +123,10 @@ func readString(data []byte, offset uint64, version int32) (interface{}, error)
 }
 
 func readTocs(data []byte, count int32) ([]*Toc, error) {
+	if !containsItems(data, HeaderLength, count, TocLength) {
+		return nil, errors.New("Incomplete/Partially Written TOC")
+	}
+
 	tocs := make([]*Toc, count)
 
 	for i := int32(0); i < count; i++ {
@@ -122,6 +141,10 @@ func readTocs(data []byte, count int32) ([]*Toc, error) {
 }
 
 func readItems(data []byte, offset uint64, count int32, itemlength uint64, readItem itemReaderFunc, version int32) (map[uint64]interface{}, error) {
+	if !containsItems(data, offset, count, itemlength) {
+		return nil, errors.New("Incomplete/Partially Written Items")
+	}
+
 	var wg sync.WaitGroup
 	wg.Add(int(count))
 
@@ -134,16 +157,14 @@ func readItems(data []byte, offset uint64, count int32, itemlength uint64, readI
 
 	for i := int32(0); i < count; i, offset = i+1, offset+itemlength {
 		go func(offset uint64) {
-			if err == nil {
-				item, ierr := readItem(data, offset, version)
-				if ierr == nil {
-					m.Lock()
-					items[offset] = item
-					m.Unlock()
-				} else {
-					err = ierr
-				}
+			item, ierr := readItem(data, offset, version)
+			m.Lock()
+			if ierr == nil {
+				items[offset] = item
+			} else {
+				err = ierr
 			}
+			m.Unlock()
 			wg.Done()
 		}(offset)
 	}
@@ -243,8 +264,17 @@ func readComponents(data []byte, tocs []*Toc, version int32) (
 	instances map[uint64]Instance,
 	indoms map[uint64]*InstanceDomain,
 	strings map[uint64]*String,
-	ierr, inerr, merr, verr, serr error,
+	terr, ierr, inerr, merr, verr, serr error,
 ) {
+	seen := make(map[TocType]bool)
+	for _, toc := range tocs {
+		if toc.Type < TocIndoms || toc.Type > TocStrings || seen[toc.Type] {
+			terr = errors.Errorf("Unexpected TOC type: %v", int32(toc.Type))
+			return
+		}
+		seen[toc.Type] = true
+	}
+
 	var wg sync.WaitGroup
 	wg.Add(len(tocs))
 
@@ -304,11 +334,13 @@ func Dump(data []byte) (
 		return nil, nil, nil, nil, nil, nil, nil, err
 	}
 
-	var ierr, inerr, merr, verr, serr error
+	var terr, ierr, inerr, merr, verr, serr error
 
-	metrics, values, instances, indoms, strings, ierr, inerr, merr, verr, serr = readComponents(data, tocs, h.Version)
+	metrics, values, instances, indoms, strings, terr, ierr, inerr, merr, verr, serr = readComponents(data, tocs, h.Version)
 
 	switch {
+	case terr != nil:
+		return nil, nil, nil, nil, nil, nil, nil, terr
 	case ierr != nil:
 		return nil, nil, nil, nil, nil, nil, nil, ierr
 	case inerr != nil:
-- 
2.43.0


From b201a39a8e30b2c798cad8b54cbb12075224d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 23/30] fix: return an error for a dangling offset instead of
 panicking when writing a dump

---
 mmvdump/writer.go | 140 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 108 insertions(+), 32 deletions(-)

diff --git a/mmvdump/writer.go b/mmvdump/writer.go
index 3899532..2c82f0a 100644
--- a/mmvdump/writer.go
+++ b/mmvdump/writer.go
@@ -7,11 +7,20 @@ import (
 	"github.com/pkg/errors"
 )
 
-func instanceName(m Instance, header *Header, strings map[uint64]*String) string {
+// stringAt returns the string at an offset, which can be anything
+func stringAt(offset uint64, strings map[uint64]*String) (string, error) {
+	s, ok := strings[offset]
+	if !ok {
+		return "", errors.Errorf("invalid string address")
+	}
+	return string(s.Payload[:]), nil
+}
+
+func instanceName(m Instance, header *Header, strings map[uint64]*String) (string, error) {
 	if header.Version == 1 {
-		return string(m.(*Instance1).External[:])
+		return string(m.(*Instance1).External[:]), nil
 	}
-	return string(strings[m.(*Instance2).External].Payload[:])
+	return stringAt(m.(*Instance2).External, strings)
 }
 
 func writeInstance(
@@ -22,10 +31,22 @@ func writeInstance(
 	indoms map[uint64]*InstanceDomain,
 	strings map[uint64]*String,
 ) error {
-	i := instances[offset]
-	indom := indoms[i.Indom()]
-	Name := instanceName(i, header, strings)
-	_, err := fmt.Fprintf(w, "\t[%v/%v] instance = [%v/%v]\n", indom.Serial, offset, i.Internal(), Name)
+	i, ok := instances[offset]
+	if !ok {
+		return errors.Errorf("invalid instance address")
+	}
+
+	indom, ok := indoms[i.Indom()]
+	if !ok {
+		return errors.Errorf("invalid instance domain address")
+	}
+
+	Name, err := instanceName(i, header, strings)
+	if err != nil {
+		return err
+	}
+
+	_, err = fmt.Fprintf(w, "\t[%v/%v] instance = [%v/%v]\n", indom.Serial, offset, i.Internal(), Name)
 	return err
 }
 
@@ -35,7 +56,11 @@ func writeInstanceDomain(
 	indoms map[uint64]*InstanceDomain,
 	strings map[uint64]*String,
 ) error {
-	indom := indoms[offset]
+	indom, ok := indoms[offset]
+	if !ok {
+		return errors.Errorf("invalid instance domain address")
+	}
+
 	_, err := fmt.Fprintf(w, "\t[%v/%v] %d instances, starting at offset %d\n", indom.Serial, offset, indom.Count, indom.Offset)
 	if err != nil {
 		return err
@@ -46,7 +71,12 @@ func writeInstanceDomain(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", string(strings[indom.Shorttext].Payload[:])); err != nil {
+		text, err := stringAt(indom.Shorttext, strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -56,7 +86,12 @@ func writeInstanceDomain(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", string(strings[indom.Longtext].Payload[:])); err != nil {
+		text, err := stringAt(indom.Longtext, strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -64,11 +99,11 @@ func writeInstanceDomain(
 	return nil
 }
 
-func metricName(m Metric, header *Header, strings map[uint64]*String) string {
+func metricName(m Metric, header *Header, strings map[uint64]*String) (string, error) {
 	if header.Version == 1 {
-		return string(m.(*Metric1).Name[:])
+		return string(m.(*Metric1).Name[:]), nil
 	}
-	return string(strings[m.(*Metric2).Name].Payload[:])
+	return stringAt(m.(*Metric2).Name, strings)
 }
 
 func writeMetric(
@@ -78,14 +113,21 @@ func writeMetric(
 	metrics map[uint64]Metric,
 	strings map[uint64]*String,
 ) error {
-	m := metrics[offset]
-	Name := metricName(m, header, strings)
+	m, ok := metrics[offset]
+	if !ok {
+		return errors.Errorf("invalid metric address")
+	}
+
+	Name, err := metricName(m, header, strings)
+	if err != nil {
+		return err
+	}
 
 	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v\n", m.Item(), offset, Name); err != nil {
 		return err
 	}
 
-	_, err := fmt.Fprintf(w, "\t\ttype=%v (0x%x), sem=%v (0x%x), pad=0x%x\n", m.Typ(), int(m.Typ()), m.Sem(), int(m.Sem()), m.Padding())
+	_, err = fmt.Fprintf(w, "\t\ttype=%v (0x%x), sem=%v (0x%x), pad=0x%x\n", m.Typ(), int(m.Typ()), m.Sem(), int(m.Sem()), m.Padding())
 	if err != nil {
 		return err
 	}
@@ -109,7 +151,12 @@ func writeMetric(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", string(strings[m.ShortText()].Payload[:])); err != nil {
+		text, err := stringAt(m.ShortText(), strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -119,7 +166,12 @@ func writeMetric(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", string(strings[m.LongText()].Payload[:])); err != nil {
+		text, err := stringAt(m.LongText(), strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -136,17 +188,26 @@ func writeValue(
 	instances map[uint64]Instance,
 	strings map[uint64]*String,
 ) error {
-	v := values[offset]
-	m := metrics[v.Metric]
+	v, ok := values[offset]
+	if !ok {
+		return errors.Errorf("invalid value address")
+	}
+
+	m, ok := metrics[v.Metric]
+	if !ok {
+		return errors.Errorf("invalid metric address")
+	}
 
-	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v", m.Item(), offset, metricName(m, header, strings)); err != nil {
+	Name, err := metricName(m, header, strings)
+	if err != nil {
 		return err
 	}
 
-	var (
-		a   interface{}
-		err error
-	)
+	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v", m.Item(), offset, Name); err != nil {
+		return err
+	}
+
+	var a interface{}
 
 	if m.Typ() != StringType {
 		a, err = FixedVal(v.Val, m.Typ())
@@ -154,16 +215,24 @@ func writeValue(
 			return err
 		}
 	} else {
-		v, ok := strings[uint64(v.Extra)]
-		if !ok {
-			return errors.Errorf("invalid string address")
+		a, err = stringAt(uint64(v.Extra), strings)
+		if err != nil {
+			return err
 		}
-		a = string(v.Payload[:])
 	}
 
 	if m.Indom() != NoIndom && m.Indom() != 0 {
-		i := instances[v.Instance]
-		if _, err := fmt.Fprintf(w, "[%d or \"%s\"]", i.Internal(), instanceName(i, header, strings)); err != nil {
+		i, ok := instances[v.Instance]
+		if !ok {
+			return errors.Errorf("invalid instance address")
+		}
+
+		instance, err := instanceName(i, header, strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "[%d or \"%s\"]", i.Internal(), instance); err != nil {
 			return err
 		}
 	}
@@ -173,7 +242,12 @@ func writeValue(
 }
 
 func writeString(w io.Writer, offset uint64, strings map[uint64]*String) error {
-	_, err := fmt.Fprintf(w, "\t[%v] %v\n", offset, string(strings[offset].Payload[:]))
+	s, err := stringAt(offset, strings)
+	if err != nil {
+		return err
+	}
+
+	_, err = fmt.Fprintf(w, "\t[%v] %v\n", offset, s)
 	return err
 }
 
@@ -225,6 +299,8 @@ func writeComponents(
 			itemtype = "strings"
 			itemsize = StringLength
 			writeItem = func(off uint64) error { return writeString(w, off, strings) }
+		default:
+			return errors.Errorf("Unexpected TOC type: %v", int32(toc.Type))
 		}
 
 		if _, err := fmt.Fprintf(w, "TOC[%v], offset: %v, %v offset: %v (%v entries)\n", ti, toff, itemtype, toc.Offset, toc.Count); err != nil {
-- 
2.43.0


From 6a4fcc1a7810ee93c9097c0a5d560047be74a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 24/30] fix: give the semantics constants of mmvdump their
 values in the format

---
 mmvdump/pcp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmvdump/pcp.go b/mmvdump/pcp.go
index 2bf27a0..69840d3 100644
--- a/mmvdump/pcp.go
+++ b/mmvdump/pcp.go
@@ -372,7 +372,7 @@ type Semantics int32
 
 // Values for Semantics
 const (
-	NoSemantics Semantics = 0
+	NoSemantics Semantics = iota
 	CounterSemantics
 	_
 	InstantSemantics
-- 
2.43.0


From 2af36ccf69290264f46d6d7403334290a6ad8da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 25/30] fix: close the file when a mapping cannot be made

---
 bytewriter/memorymappedwriter.go | 3 +++
 config.go                        | 1 +
 2 files changed, 4 insertions(+)

diff --git a/bytewriter/memorymappedwriter.go b/bytewriter/memorymappedwriter.go
index 4d6821f..99a484d 100644
--- a/bytewriter/memorymappedwriter.go
+++ b/bytewriter/memorymappedwriter.go
@@ -39,14 +39,17 @@ func NewMemoryMappedWriter(loc string, size int) (*MemoryMappedWriter, error) {
 
 	l, err := f.Write(make([]byte, size))
 	if err != nil {
+		_ = f.Close()
 		return nil, err
 	}
 	if l < size {
+		_ = f.Close()
 		return nil, errors.Errorf("Could not initialize %d bytes", size)
 	}
 
 	b, err := mmap.Map(f, mmap.RDWR, 0)
 	if err != nil {
+		_ = f.Close()
 		return nil, err
 	}
 
diff --git a/config.go b/config.go
index 9848763..47ab6e4 100644
--- a/config.go
+++ b/config.go
@@ -39,6 +39,7 @@ func initConfig() error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
 	// if we reach at this point, it means we have a valid config
 	// that can be read, so we can make the map non-nil
-- 
2.43.0


From 3a952185ca6e05e8501b0573fe3fac00f48b569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 26/30] verif: a hook before each write to a buffer, with the
 build tag verif

---
 bytewriter/bytewriter.go |  1 +
 bytewriter/verif_off.go  |  6 ++++++
 bytewriter/verif_on.go   | 13 +++++++++++++
 3 files changed, 20 insertions(+)
 create mode 100644 bytewriter/verif_off.go
 create mode 100644 bytewriter/verif_on.go

diff --git a/bytewriter/bytewriter.go b/bytewriter/bytewriter.go
index a91ade4..236c837 100644
--- a/bytewriter/bytewriter.go
+++ b/bytewriter/bytewriter.go
@@ -40,6 +40,7 @@ func (w *ByteWriter) Write(data []byte, offset int) (int, error) {
 
 	// the buffer can be memory that another process reads at any time, so
 	// an aligned value has to be stored whole and not byte by byte
+	verifWrite(w.buffer, data, offset)
 	copy(w.buffer[offset:], data)
 
 	return offset + l, nil
diff --git a/bytewriter/verif_off.go b/bytewriter/verif_off.go
new file mode 100644
index 0000000..2e537c5
--- /dev/null
+++ b/bytewriter/verif_off.go
@@ -0,0 +1,6 @@
+//go:build !verif
+// +build !verif
+
+package bytewriter
+
+func verifWrite(buffer, data []byte, offset int) {}
diff --git a/bytewriter/verif_on.go b/bytewriter/verif_on.go
new file mode 100644
index 0000000..e02ccca
--- /dev/null
+++ b/bytewriter/verif_on.go
@@ -0,0 +1,13 @@
+//go:build verif
+// +build verif
+
+package bytewriter
+
+// VerifHook, if it is set, is called right before data is stored in a buffer
+var VerifHook func(buffer, data []byte, offset int)
+
+func verifWrite(buffer, data []byte, offset int) {
+	if VerifHook != nil {
+		VerifHook(buffer, data, offset)
+	}
+}
-- 
2.43.0


From e60d9f0c3767431cf33649770b32e8ecd353bb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 27/30] fix: reject an increment by 0 of an instance that a
 counter vector does not have

---
 metrics.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metrics.go b/metrics.go
index 9ed3c65..992cf2d 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1207,15 +1207,15 @@ func (c *PCPCounterVector) Inc(inc int64, instance string) error {
 		return errors.New("increment cannot be negative")
 	}
 
-	if inc == 0 {
-		return nil
-	}
-
 	v, err := c.valInstance(instance)
 	if err != nil {
 		return err
 	}
 
+	if inc == 0 {
+		return nil
+	}
+
 	if v.(int64) > math.MaxInt64-inc {
 		return errors.Errorf("cannot increment instance %s by %v, the result overflows", instance, inc)
 	}
-- 
2.43.0


From cbc3267054e1a59f2a820f052c2315d26cc20537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 28/30] fix: do not report a percentile below the smallest
 value of a histogram

---
 metrics.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index 992cf2d..a59887f 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1583,7 +1583,14 @@ func (h *PCPHistogram) Variance() float64 {
 func (h *PCPHistogram) Percentile(p float64) int64 {
 	h.mutex.RLock()
 	defer h.mutex.RUnlock()
-	return h.h.ValueAtQuantile(p)
+
+	// for a low percentile of a few values this is 0, whatever the values are
+	v := h.h.ValueAtQuantile(p)
+	if min := h.h.Min(); v < min {
+		return min
+	}
+
+	return v
 }
 
 // HistogramBucket is a single histogram bucket within a fixed range.
-- 
2.43.0


From fdf9df9ce6b5bcf8df01e3a75b040e493b4c99bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:45 +0000
Subject: [PATCH 29/30] fix: let a histogram hold its highest value

---
 metrics.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metrics.go b/metrics.go
index a59887f..f1fb79b 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1441,7 +1441,8 @@ func NewPCPHistogram(name string, low, high int64, sigfigures int, unit MetricUn
 
 	low, high, sigfigures = normalize(low, high, sigfigures)
 
-	h := histogram.New(low, high, sigfigures)
+	// the highest value itself does not fit if it is a power of 2
+	h := histogram.New(low, high+1, sigfigures)
 
 	vals := make(Instances)
 	for _, s := range histogramInstances {
@@ -1462,7 +1463,7 @@ func NewPCPHistogram(name string, low, high int64, sigfigures int, unit MetricUn
 }
 
 // High returns the maximum recordable value.
-func (h *PCPHistogram) High() int64 { return h.h.HighestTrackableValue() }
+func (h *PCPHistogram) High() int64 { return h.h.HighestTrackableValue() - 1 }
 
 // Low returns the minimum recordable value.
 func (h *PCPHistogram) Low() int64 { return h.h.LowestTrackableValue() }
-- 
2.43.0


From 1093d5b2295474ad7a9a05e9ebf956e7628436c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:13 +0000
Subject: [PATCH 30/30] fix: lines of 64 KB or more in pcp.conf hid the
 settings after them

---
 config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config.go b/config.go
index 47ab6e4..fd02e8c 100644
--- a/config.go
+++ b/config.go
@@ -2,6 +2,7 @@ package speed
 
 import (
 	"bufio"
+	"math"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -45,6 +46,8 @@ func initConfig() error {
 	// that can be read, so we can make the map non-nil
 	config = make(map[string]string)
 	scanner := bufio.NewScanner(f)
+	// a line of any length is a line, and must not end the reading
+	scanner.Buffer(nil, math.MaxInt32)
 	for scanner.Scan() {
 		t := scanner.Text()
 		if re.MatchString(t) {
-- 
2.43.0

