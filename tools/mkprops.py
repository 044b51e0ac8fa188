#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept in a script so that the text is reviewable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe or [],"hook_needed":hook}})

p("C01","Scalar statement arguments reach the server with value and type intact",
 "For every value of every supported scalar Go type (bool, every signed and unsigned integer width, float32, float64, nil, and pointers to them) given as an argument to a direct or a prepared statement execution, the emitted message decodes under the X Protocol schema to exactly one argument per value, in call order, of the matching scalar type and equal to that value. nil and nil pointers are sent as NULL. A value of an unsupported type is reported as an error, never dropped or replaced.",
 ["inputs"],"all 2^8..2^64 values of each scalar type, all argument lists up to the stated length, any bytes already in the buffer",
 "The tests try the extreme and zero values of each type in isolation; the varint-size boundaries in between (2^7, 2^14, ... 2^63 and the zigzag images), multi-argument lists and pointer arguments are never exercised.",
 ["xproto/any.go","xproto/xproto.go","xproto/prepare.go","xproto/protobuf.go"],
 [("hand-written Any/Scalar varint encoders","xproto/any.go appendAny*"),("varint size approximation","xproto/protobuf.go sizeVarint*"),("argument loops","xproto/xproto.go StmtExecute, xproto/prepare.go Execute")],
 ["xproto.StmtExecute / xproto.Execute output","Builder.StmtExecute / Builder.Execute bytes handed to the Sender"])

p("C02","Scalar values in expressions reach the server with value and type intact",
 "For every value of every scalar Go type supported in expression position (bool, every signed and unsigned integer width, float32, float64, nil) used as an inserted column value, an assigned update value or an operand of a filter expression, the emitted message decodes under the X Protocol schema to one literal expression of the matching scalar type and equal to that value. A value of an unsupported type is reported as an error, never dropped or replaced.",
 ["inputs"],"all values of each scalar type, in each expression position, with any bytes already in the buffer",
 "The tests decode a few dozen constants appended to an empty buffer; insert and update tests carry 'TODO Value checks' and never look at the values.",
 ["xproto/expr.go","xproto/insert.go","xproto/update.go"],
 [("expression literal encoders","xproto/expr.go appendExpr, appendExprInt64, appendExprUint64, ..."),("column value / assignment encoders","xproto/insert.go AppendInsertRow, xproto/update.go AppendUpdateSet")],
 ["bytes handed to the Sender by Builder.Insert / Update / Delete"])

p("C03","Text and binary values of any length keep bytes, collation and content type",
 "A string or byte slice of any length and content, with any collation or any of the plain, geometry, JSON and XML content types, used as a statement argument or inside an expression, decodes to exactly the same bytes with the same collation or content type and the right scalar type (string or octets). A nil byte slice becomes NULL and an empty non-nil one stays an empty value.",
 ["inputs"],"every length (all varint size classes of the three nested length fields), every content, every collation / content type",
 "Tests use strings of at most 26 bytes and slices of 16, so no nested length ever needs a second varint byte, and no test uses a collation or content type.",
 ["xproto/any.go","xproto/expr.go","expr.go","slice/slice.go"],
 [("nested length computation","xproto/any.go AppendAnyString, AppendAnyBytes, AppendAnyBytesString; xproto/expr.go AppendExprString, AppendExprBytes, AppendExprBytesString"),("public wrappers","expr.go String, XML, XMLString, JSON, JSONString, Geometry")],
 ["bytes handed to the Sender"])

p("C04","Date-times and durations are sent as text denoting the same value",
 "A time.Time in any statement argument or expression is sent as octets spelling its wall-clock date, time of day and nanoseconds as YYYY-MM-DD HH:MM:SS.fffffffff, for every instant in years 0 to 9999. A time.Duration, negative or positive and over its entire range, is sent as octets spelling [-]H:MM:SS whose value is the duration truncated toward zero to whole seconds.",
 ["inputs"],"all representable dates and times in years 0..9999 and all 2^64 durations",
 "Tests encode the zero time, now, and -42 s/0/42 s, and check only that the result unmarshals, not the text.",
 ["xproto/any.go","xproto/expr.go","xproto/scalar.go"],
 [("time text","xproto/any.go appendAnyTime, xproto/expr.go appendExprTime"),("duration text","xproto/scalar.go AppendDuration")],
 ["bytes handed to the Sender","xproto.AppendDuration"])

p("C05","Expression trees decode to the tree that was built",
 "For every nesting of operators, function calls, column references, placeholders, variables and literals, the emitted expression decodes under the X Protocol schema to the same tree: the same names of any length, the same kind of node, and every parameter exactly once and in order, whichever field of the enclosing message it is placed in. If any parameter cannot be encoded the whole expression reports an error.",
 ["inputs","programs"],"every operator/function/column/variable name length, every placeholder position, parameter lists and nestings up to the stated depth, parameter sizes on every side of the varint size boundaries",
 "Tests look only at the outermost operator or function name of six fixed expressions; parameters and nested length fields beyond one byte are never checked.",
 ["xproto/expr.go","slice/slice.go"],
 [("operator / function header insertion in front of already written parameters","xproto/expr.go AppendExprOperator, AppendExprFunctionCall + slice.Insert"),("column, placeholder, variable","xproto/expr.go AppendExprColumn, AppendExprPlaceholder, AppendExprVariable")],
 ["xproto.AppendExpr* output; criteria / values in bytes handed to the Sender"])

p("C06","Each SQL expression helper produces the operation it is named for",
 "Every exported expression helper of the package (logical, comparison, bitwise, arithmetic, IS, REGEXP, LIKE, BETWEEN, IN, containment, overlap, date arithmetic, CONCAT, ROW_COUNT, LAST_INSERT_ID, DEFAULT) yields an expression whose operator or function name is the one the X Protocol defines for that operation, with the caller's operands as its parameters in the caller's order. Later changes to a slice passed to the IN helpers do not change the expression already built.",
 ["inputs","programs"],"every helper, every operand value, operand lists up to the stated length",
 "The root package's tests need a MySQL server and are not run; no test looks at what any helper emits.",
 ["expr.go"],
 [("helper constructors","expr.go Not..LastInsertID")],
 ["bytes handed to the Sender by Builder.Delete with the helper as criteria"])

p("C07","Statement, prepared-statement, delete and session messages carry the request",
 "Direct statements, prepare, execute and deallocate of a prepared statement, table deletes, session reset and the TLS capability request are each emitted as one message of the right type that decodes under the X Protocol schema to exactly what the caller asked: the same SQL text of any length, the same 32-bit statement id, the same table name, the same criteria (none when none was given), the same flags.",
 ["inputs"],"every SQL text and name length and content, every uint32 statement id, criteria present or absent",
 "Tests use a handful of short texts and three ids; no criteria is ever decoded for a delete.",
 ["xproto/xproto.go","xproto/prepare.go","xproto/authentication.go","builder.go"],
 [("message writers","xproto/xproto.go StmtExecute, Delete, Reset; xproto/prepare.go Prepare, Execute, Deallocate; xproto/authentication.go CapabilitySet")],
 ["xproto outputs and bytes handed to the Sender"])

p("C08","Inserts name the right table and columns and carry every row exactly",
 "An insert of any table name, any list of column names and any list of rows decodes to a table-model insert with that table, those columns in order, and exactly those rows in order, each with its values in column order, whatever the encoded size of a row. When the rows are given as a table of values, a row whose number of values differs from the number of columns is reported as an error. A single-row insert is followed by a statement storing its id in a variable no other insert of the unit of work uses, and yields an expression naming that variable.",
 ["inputs","programs"],"every name length, row encodings of every varint size class (1, 2, 3 and 4 length bytes), column/row counts up to the stated bound, all insert entry points",
 "One test inserts three tiny rows and has 'TODO Value checks'; rows whose length field needs other than one byte are never produced.",
 ["xproto/insert.go","builder.go","crud.go"],
 [("row length fix-up by shifting the row","xproto/insert.go AppendInsertRow"),("insert entry points","builder.go Insert, InsertRow; crud.go InsertF, Insert.Row, Insert.RowV")],
 ["bytes handed to the Sender"])

p("C09","Updates change exactly the requested columns of the requested rows",
 "An update of any table with any optional criteria and any set of assignments decodes to a table-model update with that table, that criteria (none when none was given) and exactly one SET operation per assignment naming that column with that value, whichever of the update entry points is used.",
 ["inputs","programs"],"every table/column name length, every value, criteria present or absent, assignment counts up to the stated bound, every map iteration order",
 "The test counts operations only ('TODO Value checks'); column names, values and criteria are never decoded.",
 ["xproto/update.go","builder.go","crud.go"],
 [("assignment header insertion","xproto/update.go AppendUpdateSet + slice.Insert"),("update entry points","builder.go Update; crud.go UpdateF, Update.Set")],
 ["bytes handed to the Sender"])

p("C10","A unit of work is a gapless sequence of exactly framed messages",
 "After any sequence of builder calls the bytes sent are a concatenation of complete frames (4-byte little-endian length of type byte plus payload), one per requested message and in call order, with no gap, overlap or trailing bytes. Appending a message never changes a byte that was already there, and the result does not depend on the capacity of the buffer or on what its unused part contained.",
 ["inputs","histories","configurations"],"any prior buffer content and length, any spare capacity and garbage in it, any next operation",
 "Every encoder test starts from a nil buffer, so in-place growth, shifting and stale bytes never occur; framing of insert and update is explicitly skipped.",
 ["builder.go","crud.go","xproto/xproto.go","xproto/prepare.go","xproto/expect.go","xproto/insert.go","xproto/update.go","slice/slice.go"],
 [("length back-patching","builder.go Insert/Update/InsertRow, crud.go InsertF/UpdateF, xproto PutUint32 calls"),("in-place growth","slice.ForAppend, slice.Insert, append")],
 ["bytes handed to the Sender"])

p("C11","A unit of work that failed to build is never transmitted",
 "If any call made while building a unit of work fails (an unsupported value at any depth, a row of the wrong width in a table of rows, an unsupported isolation level, a failing caller-supplied encoder, or an error returned by a caller's callback), then sending it returns an error and transmits nothing, no matter what is called before or after, and building does not panic. Only an explicit reset clears the failure, and a unit of work with no failure is transmitted.",
 ["histories","inputs","fault_sequences"],"every kind of failure at every position and nesting level of a unit of work, followed by any further calls",
 "No test that runs touches the builder.",
 ["builder.go","crud.go","xproto/any.go","xproto/expr.go","xproto/xproto.go"],
 [("sticky error","builder.go Builder.err checks, call"),("send guard","builder.go send"),("callback error propagation","builder.go call; crud.go InsertF, UpdateF")],
 ["what the Sender receives; the error returned by XPipe.Send"])

p("C12","Transactions and expectation blocks bracket exactly their contents",
 "Whatever a callback adds, an expectation block is emitted as one open message (with the requested context and the no-error condition enabled), then the callback's messages, then one close; a transaction is emitted as the isolation-level statement for the requested level (none for the default; consistent snapshot folded into the start), then the start statement, then the callback's messages, then COMMIT. Blocks nest correctly and unsupported isolation levels are rejected with an error.",
 ["inputs","programs"],"every isolation level value and open context, every callback content and nesting up to the stated depth",
 "No test that runs touches the builder.",
 ["builder.go","xproto/expect.go"],
 [("bracketing","builder.go ExpectFailOnError, Tx, call"),("open/close messages","xproto/expect.go ExpectOpen, ExpectClose, OpenConditionExpect*")],
 ["bytes handed to the Sender"])

p("C13","An outer builder cannot be used while its callback is running",
 "While a callback of a transaction, expectation block, row-wise insert or column-wise update runs, every operation on the enclosing builder panics instead of interleaving messages, and the message under construction is not corrupted by the attempt. Once the callback has returned the enclosing builder works again and the child's messages are all present.",
 ["histories","programs"],"every builder operation attempted inside every kind of callback, with any surrounding history",
 "No test that runs touches the builder.",
 ["builder.go","crud.go"],
 [("disabled flag","builder.go Builder.disabled, call; crud.go InsertF, UpdateF")],
 ["panics observed by the caller; bytes handed to the Sender"])

p("C14","Responses pair one-to-one and in order with the messages sent",
 "For every server byte stream made of well-formed messages, delivered in any segmentation and with messages smaller or larger than the read buffer, sending a unit of work of n messages reads exactly the n replies, skipping notices, metadata and row data, and returns n responses in message order; replies that follow belong to the next send on that connection. Later sends do not alter responses already returned. If the stream ends early an error is returned.",
 ["inputs","histories","fault_sequences"],"every sequence of server message types and payload sizes up to the stated count, every segmentation, end of stream at any byte, several sends on one connection",
 "There are no tests of the network layer at all.",
 ["netx/connection/connection.go"],
 [("reply loop","netx/connection/connection.go Read, ReadResponsesToSlice"),("buffered peek / discard","netx/connection/connection.go Read")],
 ["responses and error returned by Send; bytes consumed from the net.Conn"])

p("C15","Server errors surface exactly, and fatal or session errors abort",
 "An error message from the server is returned to the caller with the same severity, code, SQL state and text. A non-fatal error for an ordinary message is that message's response and later responses are still read; a fatal error, or any error in reply to authentication or session reset, is returned as the error of the call; nothing but an error message is ever reported as a server error.",
 ["inputs","fault_sequences"],"every severity, code, state and text, at every position of a unit of work and for every client message type",
 "There are no tests of the network layer at all.",
 ["netx/connection/connection.go","netx/connection/errors.go"],
 [("error translation","netx/connection/connection.go Read ERROR case"),("fatality","netx/connection/errors.go IsFatal")],
 ["responses and error returned by Send / Authenticate"])

p("C16","No server input can crash or wedge a connection",
 "For every byte sequence a server may send, of any length and delivered in any segmentation and ended by any read error, sending and authenticating return after consuming a bounded part of it: no panic, no endless loop without consuming input, and a zero-length frame, an undecodable payload or an early end of stream is reported as an error.",
 ["inputs","fault_sequences"],"all byte streams up to the stated length, all segmentations, any read error at any point",
 "There are no tests of the network layer at all.",
 ["netx/connection/connection.go"],
 [("header validation and reads","netx/connection/connection.go Read")],
 ["panics / errors observed by the caller of Send and Authenticate"])

p("C17","One write per unit of work, under the caller's deadline",
 "Sending a unit of work writes precisely its bytes with a single write, after setting the connection's deadline to the context's deadline (or clearing it when the context has none), before any reply is read. If setting the deadline or writing fails, an error is returned and no reply is awaited.",
 ["inputs","fault_sequences"],"every message content, every deadline, failure of either call",
 "There are no tests of the network layer at all.",
 ["netx/connection/connection.go","xpipe.go","builder.go"],
 [("single write","netx/connection/connection.go Send, WriteOne")],
 ["calls seen by the net.Conn"])

p("C18","Authentication proofs match the mechanism for every credential",
 "For every schema, user name, password and server challenge, the continuation sent for the native mechanism is schema NUL user NUL followed, only if the password is non-empty, by '*' and the hex of SHA1(pw) xor SHA1(challenge + SHA1(SHA1(pw))); for the SHA-256 mechanism it is schema NUL user NUL and the hex of SHA256(pw) xor SHA256(SHA256(SHA256(pw)) + challenge); the plain mechanism sends schema NUL user NUL password. Each is framed as one message of the right type and mechanism name, whatever scratch buffer is supplied.",
 ["inputs"],"all credential lengths and contents, all challenges, all scratch buffer sizes (hash functions taken as uninterpreted)",
 "Only a live server would tell; the tests that would talk to one are not run.",
 ["netx/connector/authentication/mysql41/mysql41.go","netx/connector/authentication/sha256/sha256.go","netx/connector/authentication/plain/plain.go","xproto/authentication.go","slice/slice.go"],
 [("proof computation in place","mysql41.go Continue, sha256.go Continue"),("plain","plain.go Start"),("message framing","xproto/authentication.go AuthenticateStart, AuthenticateContinue")],
 ["Start / Continue output"])

p("C19","Passwords never cross an unprotected connection in clear",
 "When a TLS configuration is given for a TCP connection, nothing but the request to switch to TLS is written before the TLS handshake has succeeded, and authentication happens on the TLS connection. The plain mechanism is tried as a fallback only after the server denied access to the configured mechanism and only on a TLS or Unix-socket connection; on any other connection the password is never sent in clear (unless the plain mechanism was itself the one configured).",
 ["configurations","fault_sequences","inputs"],"every transport, TLS setting, credential and sequence of server answers up to the stated length",
 "There are no tests of connecting at all.",
 ["netx/connector/connector.go","netx/connection/connection.go"],
 [("TLS upgrade and fallback","netx/connector/connector.go Connector.New"),("transport classification","netx/connection/connection.go IsSecure")],
 ["bytes written to the dialed connection and to the TLS connection"])

p("C20","Connecting yields an accepted session or an error and a closed socket",
 "Opening a connection returns a usable connection only if the server accepted an authentication attempt; in every other case (dial, TLS request, handshake, or authentication failure) it returns a non-nil error, and any network connection that had been opened has been closed. The error reported for a rejected login is the server's.",
 ["fault_sequences","configurations"],"every failure point and server answer sequence up to the stated length, every transport and TLS setting",
 "There are no tests of connecting at all.",
 ["netx/connector/connector.go","netx/connection/connection.go"],
 [("connect sequence","netx/connector/connector.go Connector.New"),("authentication exchange","netx/connection/connection.go Authenticate, WriteOne")],
 ["result of Connector.New; Close calls on the dialed connection"])

p("C21","A pooled connection serves one sender at a time and failed ones are dropped",
 "Under every interleaving of concurrent sends, no connection carries two sends at once, a connection whose send failed is closed and never used again, a healthy connection is either kept idle for reuse or closed (never lost), at most the configured number is idle, and every caller gets the responses of its own unit of work. An idle connection is reused before a new one is opened, the one idle longest first.",
 ["schedules","fault_sequences"],"all interleavings of the stated number of concurrent sends, with any of them failing to dial or to send",
 "There are no tests of the pool at all.",
 ["netx/pool/fifoch/fifoch.go"],
 [("channel of idle connections","netx/pool/fifoch/fifoch.go Send")],
 ["calls on connector and connections; results of Send"],hook=None)

p("C22","Closing a pool is safe at any time and leaves no connection open",
 "Under every interleaving of closing a pool (once or more) with concurrent sends, nothing panics or deadlocks; after a completed close, new sends fail with the pool-closed error without opening a connection, and once all calls have returned every connection the pool ever opened has been closed.",
 ["schedules","fault_sequences"],"all interleavings of the stated number of concurrent sends and closes",
 "There are no tests of the pool at all.",
 ["netx/pool/fifoch/fifoch.go","netx/pool/pool.go"],
 [("close / drain","netx/pool/fifoch/fifoch.go Close, Send")],
 ["panics; results of Send and Close; Close calls on connections"])

p("C23","Decimal values decode to the number the server sent",
 "For every packed decimal with at most 65 digits whose scale does not exceed its number of digits, the string form is the digits with the decimal point at the scale and a leading minus exactly for a negative sign code, and the decomposed form has the same sign, the same coefficient (big endian, without superfluous leading zeros) and the negated scale as exponent.",
 ["inputs"],"every digit string, scale and sign nibble up to the stated number of digits",
 "There are no tests of the decimal type at all.",
 ["types/decimal.go"],
 [("BCD walk","types/decimal.go Decimal.String, Decimal.Decompose"),("256-bit accumulation","types/decimal.go Uint256.MulAdd, AppendBytes")],
 ["Decimal.String, Decimal.Decompose, Uint256.MulAdd"])

p("C24","Buffer growth primitives preserve content for every length and capacity",
 "For every buffer content, length and capacity: extending a buffer by n bytes returns the old content followed by n writable bytes and a view of precisely those bytes; opening a gap of n bytes at a position keeps everything before the gap and moves everything after it up by n unchanged; allocating n bytes returns n bytes that do not disturb the old content.",
 ["inputs","configurations"],"all lengths, capacities, positions and contents",
 "There are no tests of this package; the encoder tests only ever start from empty buffers.",
 ["slice/slice.go"],
 [("ForAppend, Insert, Allocate","slice/slice.go")],
 ["returned slices and the bytes of the original"])

p("C25","A reset builder behaves like a new one",
 "After a unit of work has been built (successfully or not, sent or not) and reset, building and sending any other unit of work transmits exactly the bytes a fresh builder would transmit; sending the same unit of work twice without reset transmits the same bytes twice.",
 ["histories","inputs"],"any earlier unit of work content and outcome, any later one",
 "No test that runs touches the builder; benchmarks reuse it without looking at the bytes.",
 ["xpipe.go","builder.go"],
 [("reset","builder.go reset; xpipe.go Reset")],
 ["bytes handed to the Sender"])

p("C26","Collation identifiers and names agree with the server's numbering",
 "Every named collation constant has the numeric id MySQL uses for the collation of that name and prints that name; an id that is not a known collation prints as its number; only id 63 is binary.",
 ["inputs"],"all 2^64 collation ids",
 "There are no tests of this package.",
 ["collation/collation.go"],
 [("name table and constants","collation/collation.go")],
 ["Collation.String, Collation.IsBinary"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
