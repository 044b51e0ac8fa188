package h

import (
	"math"

	"github.com/renthraysk/xtorm"

	"verif/harness/v"
)

// insertVia makes an insert through one of the entry points.
func insertVia(how int, x *xtorm.XPipe, table string, cols []string, rows [][]interface{}) {
	switch how {
	case 0:
		x.Insert(table, cols, rows)
	case 1:
		x.InsertF(table, cols, func(i *xtorm.Insert) error {
			for _, r := range rows {
				i.Row(r)
			}
			return nil
		})
	case 2:
		x.InsertF(table, cols, func(i *xtorm.Insert) error {
			for _, r := range rows {
				i.RowV(r...)
			}
			return nil
		})
	case 3:
		x.InsertRow(table, cols, rows[0])
	}
}

// insertSent is the insert message of a unit of work made by insertVia.
func insertSent(how int, x *xtorm.XPipe) []byte {
	b := sent(x)
	if how < 3 {
		return one(b, cInsert)
	}
	f, rest := decFrame(b)
	v.Assert(f.typ == cInsert, "message type")
	one(rest, cStmtExecute)
	return f.payload
}

// C08_Names: any table name and column names.
func C08_Names() {
	table := v.String("table", v.Bound("name", 1<<16, anyLen))
	n := v.Choose("columns", v.Bound("columns", 3, 4))
	var cols []string
	var row []interface{}
	for i := 0; i < n; i++ {
		cols = append(cols, v.String("column"+names[i], v.Bound("column", 300, anyLen)))
		row = append(row, i == 1)
	}
	x := pipe()
	how := v.Choose("how", 4)
	insertVia(how, x, table, cols, [][]interface{}{row})
	s := decInsert(insertSent(how, x))
	v.EqString(string(s.table), table, "table")
	v.Assert(len(s.cols) == n, "number of columns")
	for i := range cols {
		v.EqString(string(s.cols[i]), cols[i], "column")
	}
	v.Assert(len(s.rows) == 1 && len(s.rows[0]) == n, "one row")
	for i := range cols {
		isBool(lit(s.rows[0][i], "value"), i == 1, "value")
	}
}

// rawInsert decodes an insert whose values are not looked into.
func rawInsert(b []byte) (rows [][][]byte) {
	r := &rd{b: b}
	for r.more() {
		num, wire := r.tag()
		if num == 2 {
			isWire(wire, 0)
			r.varint()
			continue
		}
		isWire(wire, 2)
		f := r.bytes()
		if num != 4 {
			continue
		}
		q := &rd{b: f}
		var row [][]byte
		for q.more() {
			num, wire := q.tag()
			v.Assert(num == 1 && wire == 2, "a value of the row")
			row = append(row, q.bytes())
		}
		rows = append(rows, row)
	}
	return rows
}

// C08_Row: a row of values encoded as any bytes of any length.
func C08_Row() {
	n := v.Choose("values", v.Bound("values", 3, 4))
	var bs [][]byte
	var row []interface{}
	var cols []string
	for i := 0; i < n; i++ {
		b := v.Bytes("value"+names[i], v.Bound("value", 1<<28, anyLen))
		bs = append(bs, b)
		row = append(row, raw(b))
		cols = append(cols, names[i])
	}
	x := pipe()
	how := v.Choose("how", 4)
	insertVia(how, x, "t", cols, [][]interface{}{row})
	rows := rawInsert(insertSent(how, x))
	v.Assert(len(rows) == 1, "one row")
	v.Assert(len(rows[0]) == n, "number of values")
	for i, b := range bs {
		v.EqBytes(rows[0][i], b, "value")
	}
}

// C08_Rows: several rows, of values of any length.
func C08_Rows() { manyRows(v.Bound("rows", 3, 4), v.Bound("value", 1<<15, 1<<22)) }

// C08_Many: more rows, of values of small length.
func C08_Many() { manyRows(v.Bound("rows", 6, 8), v.Bound("value", 60, 60)) }

func manyRows(rmax, max int) {
	n := v.Choose("rows", rmax)
	var bs [][]byte
	var fs []float64
	var rows [][]interface{}
	for i := 0; i < n; i++ {
		b := v.Bytes("value"+names[i], max)
		f := math.Float64frombits(v.F64bits("float" + names[i]))
		bs = append(bs, b)
		fs = append(fs, f)
		rows = append(rows, []interface{}{f, b})
	}
	x := pipe()
	how := v.Choose("how", 3)
	insertVia(how, x, "t", []string{"c", "d"}, rows)
	s := decInsert(insertSent(how, x))
	v.EqString(string(s.table), "t", "table")
	v.Assert(len(s.cols) == 2, "two columns")
	v.Assert(len(s.rows) == n, "number of rows")
	for i, b := range bs {
		v.Assert(len(s.rows[i]) == 2, "number of values")
		isDouble(lit(s.rows[i][0], "value"), fs[i], "value")
		isOctets(lit(s.rows[i][1], "value"), string(b), 0, "value")
	}
}

// C08_Width: rows given as a table must be as wide as the column list.
func C08_Width() {
	n := v.Choose("columns", 4)
	m := v.Choose("rows", v.Bound("rows", 4, 4))
	var cols []string
	for i := 0; i < n; i++ {
		cols = append(cols, names[i])
	}
	var rows [][]interface{}
	good := true
	for i := 0; i < m; i++ {
		k := v.Choose("width"+names[i], 4)
		good = good && k == n
		var row []interface{}
		for j := 0; j < k; j++ {
			row = append(row, j == 1)
		}
		rows = append(rows, row)
	}
	x := xtorm.New(64)
	x.Insert("t", cols, rows)
	if !good {
		refused(x, "row of the wrong width")
		return
	}
	s := decInsert(one(sent(x), cInsert))
	v.Assert(len(s.cols) == n, "number of columns")
	v.Assert(len(s.rows) == m, "number of rows")
	for _, r := range s.rows {
		v.Assert(len(r) == n, "number of values")
	}
}

// C08_ID: the expression InsertRow returns stands for the id of that insert.
func C08_ID() {
	x := pipe()
	x.StmtExecute(v.String("before", 300))
	id := x.InsertRow("t", []string{"c"}, []interface{}{v.String("row", 1<<17)})
	x.InsertRow("t", []string{"c"}, []interface{}{1})
	x.Delete("u", id)
	fs := decFrames(sent(x))
	v.Assert(len(fs) == 6, "six messages")
	v.Assert(fs[1].typ == cInsert && fs[3].typ == cInsert, "inserts")
	v.Assert(fs[2].typ == cStmtExecute && fs[4].typ == cStmtExecute, "id statements")
	a, b := decStmtExecute(fs[2].payload), decStmtExecute(fs[4].payload)
	v.Assert(len(a.args) == 0 && len(b.args) == 0, "no arguments")
	e := decDelete(fs[5].payload).criteria
	v.Assert(e != nil && e.typ == eVariable, "variable")
	name := string(e.name)
	v.EqString(string(a.sql), "SET "+name+" = LAST_INSERT_ID()", "id is stored in the variable")
	v.Assert(string(b.sql) != string(a.sql), "each insert has a variable of its own")
}
