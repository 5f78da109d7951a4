From 23c32b6964e77bc78fe6075641e069a69c743c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 01/17] fix: hyperjson: grow the buffer for tokens larger than
 it instead of looping forever

---
 codec/hyperjson/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 9137610..7c3971e 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -425,6 +425,13 @@ func (p *Parser) bufferMore() error {
 		p.head = previousCount
 	}
 
+	// a token might be larger than the buffer, grow it if there is no space left
+	if p.head == len(p.buffer) {
+		buf := make([]byte, 2*len(p.buffer)+64)
+		copy(buf, p.buffer)
+		p.buffer = buf
+	}
+
 	// read more data into the rest
 	count, err := p.input.Read(p.buffer[p.head:])
 	if err == io.EOF {
-- 
2.43.0


From 57a0d6b9fbc9577b215fb9b1e7e0226f2831918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 02/17] fix: hyperjson: accept 'E' and '+' in the exponent of a
 number

---
 codec/hyperjson/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 7c3971e..4a50756 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -216,7 +216,7 @@ func (p *Parser) readNumber() (Token, error) {
 		for ; n < avail; n++ {
 			ch := p.buffer[p.tail+n]
 
-			if !isCharDigit(ch) && ch != '.' && ch != 'e' {
+			if !isCharDigit(ch) && ch != '.' && ch != 'e' && ch != 'E' && ch != '+' {
 				token := Token{
 					Type:  TypeNumber,
 					Value: p.buffer[p.tail : p.tail+n],
-- 
2.43.0


From a8f06f76ccce36d2bdddffe0a42ce80f374132b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 03/17] fix: hyperjson: decode \b, \f, \n, \r and \t in strings

---
 codec/hyperjson/string.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/codec/hyperjson/string.go b/codec/hyperjson/string.go
index f63bac5..138178b 100644
--- a/codec/hyperjson/string.go
+++ b/codec/hyperjson/string.go
@@ -24,7 +24,20 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		ch = input[idx]
 
 		if ch != 'u' {
-			// append escaped character as is
+			// replace the escape sequence with the character it stands for
+			switch ch {
+			case 'b':
+				ch = '\b'
+			case 'f':
+				ch = '\f'
+			case 'n':
+				ch = '\n'
+			case 'r':
+				ch = '\r'
+			case 't':
+				ch = '\t'
+			}
+
 			decoded = append(decoded, ch)
 			continue
 		}
-- 
2.43.0


From 12a57467e6069e5c6f19998b782bf22d1349999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 04/17] fix: hyperjson: combine escaped surrogate pairs into
 one character

---
 codec/hyperjson/string.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/codec/hyperjson/string.go b/codec/hyperjson/string.go
index 138178b..8958c82 100644
--- a/codec/hyperjson/string.go
+++ b/codec/hyperjson/string.go
@@ -2,6 +2,7 @@ package hyperjson
 
 import (
 	"github.com/pkg/errors"
+	"unicode/utf16"
 	"unicode/utf8"
 )
 
@@ -50,8 +51,7 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		idx++
 
 		// decode the unicode
-		var err error
-		decoded, err = decodeUnicodeChar(decoded, input[idx:])
+		r, err := decodeUnicodeChar(input[idx:])
 		if err != nil {
 			return nil, err
 		}
@@ -59,12 +59,30 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		// skip 3 of the consumed characters, the last one
 		// will be skipped by the for loop
 		idx += 3
+
+		// characters outside of the basic multilingual plane are
+		// encoded as two consecutive surrogates.
+		if utf16.IsSurrogate(r) && idx+6 < len(input) && input[idx+1] == '\\' && input[idx+2] == 'u' {
+			low, err := decodeUnicodeChar(input[idx+3:])
+			if err != nil {
+				return nil, err
+			}
+
+			if combined := utf16.DecodeRune(r, low); combined != utf8.RuneError {
+				r = combined
+				idx += 6
+			}
+		}
+
+		var encoded [utf8.UTFMax]byte
+		n := utf8.EncodeRune(encoded[:], r)
+		decoded = append(decoded, encoded[:n]...)
 	}
 
 	return decoded, nil
 }
 
-func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
+func decodeUnicodeChar(input []byte) (rune, error) {
 	var r rune
 	for _, c := range input[:4] {
 		switch {
@@ -75,13 +93,11 @@ func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
 		case 'A' <= c && c <= 'F':
 			c = c - 'A' + 10
 		default:
-			return nil, errors.Errorf("expected hexadecimal character but got '%c'", c)
+			return 0, errors.Errorf("expected hexadecimal character but got '%c'", c)
 		}
 
 		r = r*16 + rune(c)
 	}
 
-	buf := target[len(target) : len(target)+4]
-	n := utf8.EncodeRune(buf, r)
-	return target[:len(target)+n], nil
+	return r, nil
 }
-- 
2.43.0


From d40bdecc9316f589112734f54c4a4e4bdc38e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 05/17] fix: return the recent spans in the order they were
 received after the buffer wrapped

---
 buffer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buffer.go b/buffer.go
index 582e5f3..d79e4e9 100644
--- a/buffer.go
+++ b/buffer.go
@@ -34,7 +34,9 @@ func (buffer *SpansBuffer) ToSlice() []proxy.Span {
 	defer buffer.lock.Unlock()
 
 	var result []proxy.Span
-	for _, span := range buffer.spans {
+	for idx := range buffer.spans {
+		// start with the oldest span, this is the one we'll overwrite next
+		span := buffer.spans[(buffer.position+uint(idx))%uint(len(buffer.spans))]
 		if span.Id != 0 {
 			result = append(result, span)
 		}
-- 
2.43.0


From 07be4ae4d63f2187cf03c0df4d262e9549109cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 06/17] fix: count the spans of a trace without overflow

---
 correct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/correct.go b/correct.go
index b529b74..7009117 100644
--- a/correct.go
+++ b/correct.go
@@ -62,7 +62,7 @@ type tree struct {
 
 	started   time.Time
 	updated   time.Time
-	nodeCount uint16
+	nodeCount int
 }
 
 func newTree(traceId Id) *tree {
-- 
2.43.0


From 737764d3711202d28ba4608f9f91d32d977f63d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 07/17] fix: never make the fake root of a trace a child of a
 span of the same trace

---
 correct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/correct.go b/correct.go
index 7009117..776b452 100644
--- a/correct.go
+++ b/correct.go
@@ -322,6 +322,9 @@ func createFakeRoot(spans []*proxy.Span) proxy.Span {
 
 	root := proxy.NewRootSpan("fake-root", spans[0].Trace, spans[0].Parent)
 
+	// the trace might contain a span with the trace's id, do not create a loop
+	root.Parent = root.Id
+
 	root.Service = "fake-root"
 	root.Timestamp = firstTimestamp
 	root.Duration = time.Duration(lastTimestamp - firstTimestamp)
-- 
2.43.0


From 2c487431b659e148a0c9a6d15691b9dff2bf5d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 08/17] fix: reject requests with a truncated or corrupt body
 before processing their spans

---
 handlers.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/handlers.go b/handlers.go
index 733f6ea..ae5a2e5 100644
--- a/handlers.go
+++ b/handlers.go
@@ -8,6 +8,7 @@ import (
 	"github.com/pkg/errors"
 	"github.com/rcrowley/go-metrics"
 	"io"
+	"io/ioutil"
 	"math/rand"
 	"net/http"
 	"strings"
@@ -88,6 +89,12 @@ func parseSpansWithJSON(spansChannel chan<- proxy.Span, body io.Reader, parser f
 		return errors.WithMessage(err, "parsing spans from json")
 	}
 
+	// read to the end of the body, otherwise we would not notice if
+	// the request was truncated or if a compressed body is corrupt.
+	if _, err := io.Copy(ioutil.Discard, body); err != nil {
+		return errors.WithMessage(err, "reading request body")
+	}
+
 	for _, span := range parsedSpans {
 		spansChannel <- span
 	}
-- 
2.43.0


From 244b7f4491f0518f3717bbeea5f145c9f801295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 09/17] fix: check the length of an encoded string before
 allocating memory for it

---
 codec/binary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codec/binary.go b/codec/binary.go
index 0c2190e..5c055dd 100644
--- a/codec/binary.go
+++ b/codec/binary.go
@@ -142,6 +142,11 @@ func readString(r *bytes.Reader) (string, error) {
 		return "", fmt.Errorf("string length out of range: %d", len)
 	}
 
+	// do not allocate memory for data that is not there.
+	if len > int64(r.Len()) {
+		return "", io.ErrUnexpectedEOF
+	}
+
 	if len == 0 {
 		return "", nil
 	}
-- 
2.43.0


From 476b19f8901d6dad565c5b00612cdb386ba29247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 10/17] fix: decode escape sequences in the ids of jaeger spans

---
 proxy/id.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/proxy/id.go b/proxy/id.go
index 4ee4f12..66b63d9 100644
--- a/proxy/id.go
+++ b/proxy/id.go
@@ -96,7 +96,13 @@ func (id *Id) UnmarshalJSON(bytes []byte) error {
 		return errors.New("expected hex encoded string")
 	}
 
-	parsed, err := ParseId(bytes[1 : len(bytes)-1])
+	// decode the string first, it might contain escape sequences
+	var value string
+	if err := json.Unmarshal(bytes, &value); err != nil {
+		return err
+	}
+
+	parsed, err := ParseId([]byte(value))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From cb0b0b41042e363de8dd791e10b624563843d1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 11/17] fix: hyperjson: limit the nesting of skipped values

---
 codec/hyperjson/parser.go      |  3 +++
 codec/hyperjson/parser_skip.go | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 4a50756..2460106 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -28,6 +28,9 @@ type Parser struct {
 	tail   int
 	head   int
 	eof    bool
+
+	// current nesting of values that are being skipped
+	skipDepth int
 }
 
 func NewWithReader(r io.Reader, buf []byte) *Parser {
diff --git a/codec/hyperjson/parser_skip.go b/codec/hyperjson/parser_skip.go
index 3d9947a..646889b 100644
--- a/codec/hyperjson/parser_skip.go
+++ b/codec/hyperjson/parser_skip.go
@@ -2,6 +2,9 @@ package hyperjson
 
 import "github.com/pkg/errors"
 
+// maximum nesting of values that are skipped
+const maxSkipDepth = 10000
+
 func (p *Parser) Skip() error {
 	next, err := p.NextType()
 	if err != nil {
@@ -14,6 +17,14 @@ func (p *Parser) Skip() error {
 func (p *Parser) skip(next Type) error {
 	var err error
 
+	// limit the recursion, we would run out of stack otherwise
+	if p.skipDepth >= maxSkipDepth {
+		return errors.New("exceeded max depth")
+	}
+
+	p.skipDepth++
+	defer func() { p.skipDepth-- }()
+
 	switch next {
 	case TypeString:
 		_, err = p.readString()
-- 
2.43.0


From 6f5503d4157b6268d53e1b4e270d53208c60750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 12/17] fix: drain the errors of the kafka producer

The asynchronous producer delivers a message for each span that could not be
sent. Nobody received them, so after as many failed spans as fit into the error
channel the producer blocked forever for the broker's partitions and, once its
queues were full, every http request as well.
---
 balance/sender.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/balance/sender.go b/balance/sender.go
index cb0af7b..5504470 100644
--- a/balance/sender.go
+++ b/balance/sender.go
@@ -20,9 +20,18 @@ func NewSender(client sarama.Client, topic string) (*Sender, error) {
 		return nil, errors.WithMessage(err, "initialize kafka producer")
 	}
 
+	// the producer blocks once its error channel is full, so we need to drain it.
+	go logErrors(producer)
+
 	return &Sender{producer, topic}, nil
 }
 
+func logErrors(producer sarama.AsyncProducer) {
+	for err := range producer.Errors() {
+		log.Warnf("Cannot send span to kafka: %s", err)
+	}
+}
+
 func (s *Sender) Send(spans <-chan proxy.Span) {
 	for span := range spans {
 		s.sendSpan(span)
-- 
2.43.0


From 253d0f9d73c91ce19b0cf199c3618b03ff90a0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 13/17] fix: pause before retrying a failed consumer group
 session

---
 balance/receiver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/balance/receiver.go b/balance/receiver.go
index 6a66b3a..0d9388e 100644
--- a/balance/receiver.go
+++ b/balance/receiver.go
@@ -8,12 +8,16 @@ import (
 	"github.com/flachnetz/dd-zipkin-proxy/proxy"
 	"github.com/pkg/errors"
 	"github.com/sirupsen/logrus"
+	"time"
 )
 
 var log = logrus.WithField("prefix", "balance")
 
 type SpanCallback func(proxy.Span)
 
+// time to wait after a consumer group session failed.
+const consumeRetryDelay = 500 * time.Millisecond
+
 func Consume(consumerGroup sarama.ConsumerGroup, topic string, callback SpanCallback) func() {
 	handler := &consumerGroupHandler{
 		callback: callback,
@@ -33,6 +37,12 @@ func Consume(consumerGroup sarama.ConsumerGroup, topic string, callback SpanCall
 			default:
 				if err := consumerGroup.Consume(ctx, []string{topic}, handler); err != nil {
 					log.Warnf("Error during consumer group session: %s", err)
+
+					// do not retry in a busy loop while kafka is not available
+					select {
+					case <-ctx.Done():
+					case <-time.After(consumeRetryDelay):
+					}
 				}
 			}
 		}
-- 
2.43.0


From 31709380837a2dc499e6552e222fc5b46b8be75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:43 +0000
Subject: [PATCH 14/17] fix: count discarded traces, not their spans, in
 traces.discarded

---
 correct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/correct.go b/correct.go
index 776b452..a175b3c 100644
--- a/correct.go
+++ b/correct.go
@@ -430,7 +430,7 @@ func discardSuspiciousTraces(trees map[Id]*tree, maxSpans int) {
 	}
 
 	metricsSpansDiscarded.Mark(int64(discardSpanCount))
-	metricsTracesDiscarded.Mark(int64(discardSpanCount))
+	metricsTracesDiscarded.Mark(int64(discardTraceCount))
 
 	log.Warnf("Too many spans, discarded %d trace with %d spans", discardTraceCount, discardSpanCount)
 }
-- 
2.43.0


From a40ebf9f73f0a7f329e5373f5ec1507581088361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:38 +0000
Subject: [PATCH 15/17] fix: report a cache hit rate of zero without lookups,
 NaN breaks the metrics view

---
 cache/cache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index 6eb5390..f4e9b13 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -72,6 +72,12 @@ func RegisterCacheMetrics(m metrics.Registry) {
 	metrics.NewRegisteredFunctionalGaugeFloat64("binary.cache.hit.rate", m, func() float64 {
 		hitCount := atomic.SwapUint64(&metricHitCount, 0)
 		missCount := atomic.SwapUint64(&metricMissCount, 0)
+
+		// do not report NaN, it can not be encoded as json.
+		if hitCount+missCount == 0 {
+			return 0
+		}
+
 		return float64(hitCount) / float64(hitCount+missCount)
 	})
 
-- 
2.43.0


From 3bd62d0d5777b2a27c548ddfdf22368567955d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:40 +0000
Subject: [PATCH 16/17] fix: keep the boolean and numeric tags of jaeger spans

---
 codec/jaeger.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/codec/jaeger.go b/codec/jaeger.go
index 7f59331..b833620 100644
--- a/codec/jaeger.go
+++ b/codec/jaeger.go
@@ -5,6 +5,7 @@ import (
 	"github.com/flachnetz/dd-zipkin-proxy/proxy"
 	"github.com/pkg/errors"
 	"io"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -14,6 +15,20 @@ type jaegerTag struct {
 	Value interface{} `json:"value"`
 }
 
+// Tags are not only strings, but also booleans (like "error") and numbers.
+func (tag *jaegerTag) stringValue() (string, bool) {
+	switch value := tag.Value.(type) {
+	case string:
+		return value, true
+	case bool:
+		return strconv.FormatBool(value), true
+	case json.Number:
+		return value.String(), true
+	}
+
+	return "", false
+}
+
 type jaegerSpan struct {
 	TraceId Id `json:"traceID"`
 	SpanId  Id `json:"spanID"`
@@ -44,9 +59,14 @@ type jaegerProcess struct {
 }
 
 func ParseJaeger(input io.Reader) ([]proxy.Span, error) {
+	decoder := json.NewDecoder(input)
+
+	// keep the numbers of tags as they are, do not convert them to floats.
+	decoder.UseNumber()
+
 	// decode spans into the span slice.
 	var decoded jaegerObject
-	if err := json.NewDecoder(input).Decode(&decoded); err != nil {
+	if err := decoder.Decode(&decoded); err != nil {
 		return nil, errors.WithMessage(err, "parse spans for jaeger")
 	}
 
@@ -78,7 +98,7 @@ func (span *jaegerSpan) ToSpan(procs map[string]jaegerProcess) proxy.Span {
 
 	var spanKind string
 	for _, tag := range span.Tags {
-		value, ok := tag.Value.(string)
+		value, ok := tag.stringValue()
 		if !ok {
 			continue
 		}
-- 
2.43.0


From d1b92e140cb30fe13f098f4ff1114ee0137d0487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:07 +0000
Subject: [PATCH 17/17] fix: reset the re-used binary annotations of a v1 span
 before decoding

The slice of binary annotations is part of the pooled span. An element
that is decoded into again without being reset gives the span the
service or the value of an earlier document, if the field is repeated
or an earlier document ended in an error.
---
 codec/json-v1.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/codec/json-v1.go b/codec/json-v1.go
index 1d629a6..412ce6d 100644
--- a/codec/json-v1.go
+++ b/codec/json-v1.go
@@ -139,6 +139,15 @@ func fillInTimestamp(proxySpan *proxy.Span) {
 	}
 }
 
+// The slice of annotations is re-used, its elements might still hold
+// values of another span.
+func resetBinaryAnnotationV1(decoder hyperjson.ValueDecoder) hyperjson.ValueDecoder {
+	return func(target unsafe.Pointer, p *hyperjson.Parser) error {
+		*(*binaryAnnotationV1)(target) = binaryAnnotationV1{}
+		return decoder(target, p)
+	}
+}
+
 func spanV1ValueDecoder() hyperjson.ValueDecoder {
 	decoder := hyperjson.MakeStructDecoder([]hyperjson.Field{
 		{
@@ -176,7 +185,7 @@ func spanV1ValueDecoder() hyperjson.ValueDecoder {
 			Offset:   hyperjson.OffsetOf(spanV1{}, "BinaryAnnotations"),
 			Decoder: hyperjson.MakeSliceDecoder(
 				reflect2.TypeOf([]binaryAnnotationV1{}).(reflect2.SliceType),
-				hyperjson.MakeStructDecoder([]hyperjson.Field{
+				resetBinaryAnnotationV1(hyperjson.MakeStructDecoder([]hyperjson.Field{
 					{
 						JsonName: "key",
 						Offset:   hyperjson.OffsetOf(binaryAnnotationV1{}, "Key"),
@@ -192,7 +201,7 @@ func spanV1ValueDecoder() hyperjson.ValueDecoder {
 						Offset:   hyperjson.OffsetOf(binaryAnnotationV1{}, "Endpoint"),
 						Decoder:  endpointValueDecoder,
 					},
-				})),
+				}))),
 		},
 		{
 			JsonName: "annotations",
-- 
2.43.0

