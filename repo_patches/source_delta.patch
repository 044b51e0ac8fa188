From ab2e942d5fbcf7fa5893301a6805c85f38e16a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:08 +0000
Subject: [PATCH 1/7] fix: spell the most negative duration correctly

-d overflows for math.MinInt64, which was sent as --2562047:..; take the
magnitude as an unsigned number.
---
 xproto/scalar.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xproto/scalar.go b/xproto/scalar.go
index fba59b0..5728d2b 100644
--- a/xproto/scalar.go
+++ b/xproto/scalar.go
@@ -45,11 +45,12 @@ const smallsString = "00010203040506070809" +
 	"50515253545556575859"
 
 func AppendDuration(p []byte, d time.Duration) []byte {
+	u := uint64(d)
 	if d < 0 {
-		d = -d
+		u = -u // unsigned, so that the most negative duration does not overflow
 		p = append(p, '-')
 	}
-	i := 2 * (uint(d/time.Minute) % 60)
-	j := 2 * (uint(d/time.Second) % 60)
-	return append(strconv.AppendUint(p, uint64(d/time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
+	i := 2 * (u / uint64(time.Minute) % 60)
+	j := 2 * (u / uint64(time.Second) % 60)
+	return append(strconv.AppendUint(p, u/uint64(time.Hour), 10), ':', smallsString[i], smallsString[i+1], ':', smallsString[j], smallsString[j+1])
 }
-- 
2.43.0


From aab432a718a2fff26045825d58c59f1c341517c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:39 +0000
Subject: [PATCH 2/7] fix: encode expression variables with long names

The length of the expression was always written as one byte, so a name of
more than about 120 bytes produced a message the server cannot decode.
---
 xproto/expr.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/xproto/expr.go b/xproto/expr.go
index 50e8969..f843a27 100644
--- a/xproto/expr.go
+++ b/xproto/expr.go
@@ -423,13 +423,19 @@ func AppendExprPlaceholder(p []byte, tag uint8, pos uint32) ([]byte, error) {
 }
 
 func AppendExprVariable(p []byte, tag uint8, name string) ([]byte, error) {
-	x := len(name)
-	n := sizeVarint(uint(x))
-	p = append(p, tag<<3|wireBytes, 3+byte(n+x),
-		tagExprType<<3|wireVarint, byte(mysqlx_expr.Expr_VARIABLE),
-		tagExprVariable<<3|wireBytes, byte(x)|0x80, byte(x>>7)|0x80, byte(x>>14)|0x80, byte(x>>21)|0x80, byte(x>>28)|0x80,
-		byte(x>>35)|0x80, byte(x>>42)|0x80, byte(x>>49)|0x80, byte(x>>56), 1)
-	n += len(p) - binary.MaxVarintLen64
-	p[n-1] &= 0x7F
-	return append(p[:n], name...), nil
+	n := len(name)
+	n1 := 3 + sizeVarint(uint(n)) + n
+	p, b := slice.ForAppend(p, 1+sizeVarint(uint(n1))+n1)
+
+	b[0] = tag<<3 | wireBytes
+	i := 1 + putUvarint(b[1:], uint64(n1))
+	b[i] = tagExprType<<3 | wireVarint
+	i++
+	b[i] = byte(mysqlx_expr.Expr_VARIABLE)
+	i++
+	b[i] = tagExprVariable<<3 | wireBytes
+	i++
+	i += putUvarint(b[i:], uint64(n))
+	copy(b[i:], name)
+	return p, nil
 }
-- 
2.43.0


From 6dbe68906b44e6199b2acc0ab33a3b26b275bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:18 +0000
Subject: [PATCH 3/7] fix: name the REGEXP operator as the X Protocol does

"rexgexp" is not an operator the server knows.
---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 1a08f3a..9ad9225 100644
--- a/expr.go
+++ b/expr.go
@@ -276,7 +276,7 @@ func IsNot(a, b interface{}) exprFunc {
 
 func Regexp(a, b interface{}) exprFunc {
 	return func(p []byte, tag uint8) ([]byte, error) {
-		return xproto.AppendExprOperatorV(p, tag, "rexgexp", a, b)
+		return xproto.AppendExprOperatorV(p, tag, "regexp", a, b)
 	}
 }
 
-- 
2.43.0


From 7664f58c809ca3ac534a5ed8a746ce727a606aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:10 +0000
Subject: [PATCH 4/7] fix: do not send a unit of work whose callback returned
 an error

The error returned by the callback of Tx, ExpectFailOnError, InsertF and
UpdateF was dropped, and the work (with its COMMIT) sent regardless.
---
 builder.go |  5 ++++-
 crud.go    | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/builder.go b/builder.go
index e91f6e4..fa00bf5 100644
--- a/builder.go
+++ b/builder.go
@@ -36,9 +36,12 @@ func (b *Builder) call(f func(b *Builder) error) {
 		disabled: false,
 	}
 	b.disabled = true
-	f(&child)
+	err := f(&child)
 	b.buf = child.buf
 	b.err = child.err
+	if b.err == nil {
+		b.err = err
+	}
 	b.disabled = false
 }
 
diff --git a/crud.go b/crud.go
index cf730fb..050923a 100644
--- a/crud.go
+++ b/crud.go
@@ -31,8 +31,11 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	n := len(b.buf)
 	i := &Insert{buf: xproto.Insert(b.buf, name, columns)}
 	b.disabled = true
-	f(i)
+	err := f(i)
 	b.buf, b.err = i.buf, i.err
+	if b.err == nil {
+		b.err = err
+	}
 	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
 }
@@ -59,8 +62,11 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	var u Update
 	u.buf, u.err = xproto.Update(b.buf, name, criteria)
 	b.disabled = true
-	f(&u)
+	err := f(&u)
 	b.buf, b.err = u.buf, u.err
+	if b.err == nil {
+		b.err = err
+	}
 	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
 }
-- 
2.43.0


From 3659974e73cf1ecee92704b8b41aa850aea33374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:12 +0000
Subject: [PATCH 5/7] fix: do not panic when a failing encoder returns no
 buffer

Delete, InsertF and UpdateF wrote the frame length before looking at the
error, into a buffer an encoder that fails need not return.
---
 crud.go          | 10 ++++++++--
 xproto/xproto.go |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crud.go b/crud.go
index 050923a..ae20240 100644
--- a/crud.go
+++ b/crud.go
@@ -36,8 +36,11 @@ func (b *Builder) InsertF(name string, columns []string, f func(i *Insert) error
 	if b.err == nil {
 		b.err = err
 	}
-	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
+	if b.err != nil {
+		return
+	}
+	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 }
 
 type Update struct {
@@ -67,6 +70,9 @@ func (b *Builder) UpdateF(name string, criteria exprFunc, f func(u *Update) erro
 	if b.err == nil {
 		b.err = err
 	}
-	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 	b.disabled = false
+	if b.err != nil {
+		return
+	}
+	binary.LittleEndian.PutUint32(b.buf[n:], uint32(len(b.buf)-n-4))
 }
diff --git a/xproto/xproto.go b/xproto/xproto.go
index b9c182d..b04399d 100644
--- a/xproto/xproto.go
+++ b/xproto/xproto.go
@@ -70,7 +70,10 @@ func Delete(p []byte, name string, criteria AppendExprFunc) ([]byte, error) {
 	copy(b[i:], name)
 	if criteria != nil {
 		p, err = criteria(p, tagDeleteCriteria)
+		if err != nil {
+			return p, err
+		}
 	}
 	binary.LittleEndian.PutUint32(p[s:], uint32(len(p)-s-4))
-	return p, err
+	return p, nil
 }
-- 
2.43.0


From d7416d8cb3b1e19322dc49e32e65eec44de72edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:40 +0000
Subject: [PATCH 6/7] fix: close the connection when the request to switch to
 TLS fails

---
 netx/connector/connector.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/netx/connector/connector.go b/netx/connector/connector.go
index 7fdaf75..267b20b 100644
--- a/netx/connector/connector.go
+++ b/netx/connector/connector.go
@@ -67,10 +67,12 @@ func (c *Connector) New(ctx context.Context) (netx.Conn, error) {
 	if _, ok := netConn.(*net.TCPConn); ok && c.tlsConfig != nil {
 		b, err := xproto.CapabilitySet("tls", true)
 		if err != nil {
+			conn.Close()
 			return nil, err
 		}
 		// @TODO response test
 		if _, err := conn.Send(ctx, b); err != nil {
+			conn.Close()
 			return nil, err
 		}
 		tlsConn := tls.Client(netConn, c.tlsConfig)
-- 
2.43.0


From b6d730cb20ad3c73bdf29cdd24c6eda301923159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:38 +0000
Subject: [PATCH 7/7] fix: closing a pool does not panic nor leak the
 connections in use

A send under way when the pool was closed sent on a closed channel, and so
panicked, a second close closed the channel again.
---
 netx/pool/fifoch/fifoch.go | 45 +++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/netx/pool/fifoch/fifoch.go b/netx/pool/fifoch/fifoch.go
index 97dda79..9067f9f 100644
--- a/netx/pool/fifoch/fifoch.go
+++ b/netx/pool/fifoch/fifoch.go
@@ -12,6 +12,7 @@ import (
 
 type poolCh struct {
 	mu        sync.Mutex
+	closed    bool // guarded by mu, no connection is put in ch once set
 	ch        chan netx.Conn
 	connector netx.Connector
 }
@@ -26,15 +27,13 @@ func New(connector netx.Connector, size int) *poolCh {
 
 func (p *poolCh) Close(ctx context.Context) error {
 
-	ch := p.getCh()
+	p.mu.Lock()
+	p.closed = true
+	p.mu.Unlock()
 
-	defer close(ch)
 	for {
 		select {
-		case conn, ok := <-ch:
-			if !ok {
-				return nil
-			}
+		case conn := <-p.ch:
 			conn.Close()
 		case <-ctx.Done():
 			return ctx.Err()
@@ -44,25 +43,38 @@ func (p *poolCh) Close(ctx context.Context) error {
 	}
 }
 
-func (p *poolCh) getCh() chan netx.Conn {
+func (p *poolCh) isClosed() bool {
 	p.mu.Lock()
 	defer p.mu.Unlock()
-	return p.ch
+	return p.closed
+}
+
+// put makes conn available for reuse, reports false if the pool is closed or full.
+func (p *poolCh) put(conn netx.Conn) bool {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	if p.closed {
+		return false
+	}
+	select {
+	case p.ch <- conn:
+		return true
+	default:
+		return false
+	}
 }
 
 func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 
 	var (
 		conn netx.Conn
-		ok   bool
 		err  error
 	)
-	ch := p.getCh()
+	if p.isClosed() {
+		return nil, pool.ErrPoolClosed
+	}
 	select {
-	case conn, ok = <-ch:
-		if !ok {
-			return nil, pool.ErrPoolClosed
-		}
+	case conn = <-p.ch:
 
 	case <-ctx.Done():
 		return nil, ctx.Err()
@@ -79,10 +91,7 @@ func (p *poolCh) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
 		return r, err
 	}
 
-	ch = p.getCh()
-	select {
-	case ch <- conn:
-	default:
+	if !p.put(conn) {
 		conn.Close()
 	}
 	return r, nil
-- 
2.43.0

