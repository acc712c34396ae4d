package checks

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/glebarez/sqlite"
	"gorm.io/gorm"
	"gorm.io/gorm/clause"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/schema"

	"verif/mc/ref"
	"verif/mc/run"
)

// style is how a dialect writes names and placeholders.
type style struct {
	name        string
	open, close string
	hole        func(n int) string
}

var styles = []style{
	{"private", "⟦", "⟧", func(n int) string { return fmt.Sprintf("⟪%d⟫", n) }},
	{"dollar", `"`, `"`, func(n int) string { return fmt.Sprintf("$%d", n) }},
	{"tick", "`", "`", func(int) string { return "?" }},
	{"bracket", "[", "]", func(n int) string { return fmt.Sprintf("@p%d", n) }},
}

// styled is SQLite spoken in another style.
type styled struct {
	*sqlite.Dialector
	st style
}

func (d *styled) Name() string { return "styled" }

func (d *styled) QuoteTo(w clause.Writer, s string) {
	for i, p := range strings.Split(s, ".") {
		if i > 0 {
			w.WriteByte('.')
		}
		w.WriteString(d.st.open + strings.ReplaceAll(p, d.st.close, d.st.close+d.st.close) + d.st.close)
	}
}

func (d *styled) BindVarTo(w clause.Writer, stmt *gorm.Statement, v any) {
	w.WriteString(d.st.hole(len(stmt.Vars)))
}

// speaker translates the style to SQLite's and notes what does not belong to it.
type speaker struct {
	*sql.DB
	st    style
	known map[string]bool // names that may be quoted
	wrong error
	// what was translated last, and how much
	text   string
	tokens int
}

var plainWords = words("SELECT FROM WHERE AND OR NOT IN BETWEEN LIKE IS NULL TRUE FALSE AS LEFT INNER JOIN ON ORDER BY LIMIT DATE COUNT UPDATE SET DELETE DISTINCT ISNULL NOTNULL EXISTS CASE WHEN THEN ELSE END OUTER ESCAPE CAST COALESCE GROUP ASC DESC HAVING OFFSET ALL UNKNOWN")

func (p *speaker) translate(q string) string {
	var out strings.Builder
	bad := func(f string, a ...any) string {
		if p.wrong == nil {
			p.wrong = fmt.Errorf(f+" in %s", append(a, q)...)
		}
		return q
	}
	n, hole := 0, 0
	for i := 0; i < len(q); {
		switch rest := q[i:]; {
		case strings.HasPrefix(rest, p.st.open):
			i += len(p.st.open)
			var name strings.Builder
			for {
				if i >= len(q) {
					return bad("name without end")
				}
				if strings.HasPrefix(q[i:], p.st.close+p.st.close) {
					name.WriteString(p.st.close)
					i += 2 * len(p.st.close)
				} else if strings.HasPrefix(q[i:], p.st.close) {
					i += len(p.st.close)
					break
				} else {
					name.WriteByte(q[i])
					i++
				}
			}
			if !p.known[name.String()] {
				return bad("name %q, which is not of the model,", name.String())
			}
			out.WriteString(`"` + strings.ReplaceAll(name.String(), `"`, `""`) + `"`)
		case strings.HasPrefix(rest, p.st.hole(hole+1)) && (len(rest) == len(p.st.hole(hole+1)) || rest[len(p.st.hole(hole+1))] < '0' || rest[len(p.st.hole(hole+1))] > '9'):
			hole++
			i += len(p.st.hole(hole))
			out.WriteString("?" + strconv.Itoa(hole))
		case rest[0] >= 'a' && rest[0] <= 'z' || rest[0] >= 'A' && rest[0] <= 'Z':
			j := i
			for j < len(q) && (q[j] == '_' || q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' || q[j] >= '0' && q[j] <= '9') {
				j++
			}
			if !plainWords[strings.ToUpper(q[i:j])] {
				return bad("word %q outside a quoted name", q[i:j])
			}
			out.WriteString(q[i:j])
			i = j
		case strings.ContainsRune(" (),.=<>!*\n\t", rune(rest[0])):
			out.WriteByte(rest[0])
			i++
		default:
			return bad("%q outside a quoted name", rest[:1])
		}
		n++
	}
	p.tokens += n
	p.text = out.String()
	return p.text
}

// GetDBConn is for gorm's prepared statements.
func (p *speaker) GetDBConn() (*sql.DB, error) { return p.DB, nil }

func (p *speaker) QueryRowContext(c context.Context, q string, a ...any) *sql.Row {
	if q == "select sqlite_version()" {
		return p.DB.QueryRowContext(c, q, a...)
	}
	return p.DB.QueryRowContext(c, p.translate(q), a...)
}
func (p *speaker) QueryContext(c context.Context, q string, a ...any) (*sql.Rows, error) {
	return p.DB.QueryContext(c, p.translate(q), a...)
}
func (p *speaker) ExecContext(c context.Context, q string, a ...any) (sql.Result, error) {
	return p.DB.ExecContext(c, p.translate(q), a...)
}
func (p *speaker) PrepareContext(c context.Context, q string) (*sql.Stmt, error) {
	return p.DB.PrepareContext(c, p.translate(q))
}

// Odd has columns whose names need care.
type Odd struct {
	ID  int64  `gorm:"primaryKey;column:id"`
	C1  *int64 `gorm:"column:order"`
	C2  *int64 `gorm:"column:group"`
	C3  *int64 `gorm:"column:select"`
	C4  *int64 `gorm:"column:first name"`
	C5  *int64 `gorm:"column:a-b"`
	C6  *int64 `gorm:"column:CamelCase"`
	C7  *int64 `gorm:"column:ünï"`
	C8  *int64 `gorm:"column:1st"`
	C9  *int64 `gorm:"column:what?"`
	C10 *int64 `gorm:"column:at@x"`
	C11 *int64 `gorm:"column:per%cent"`
	C12 *int64 `gorm:"column:quo'te"`
	C13 *int64 `gorm:"column:$1"`
	C14 *int64 `gorm:"column:?"`
	C15 *int64 `gorm:"column:/*x"`
	C16 *int64 `gorm:"column:or"`
	C17 *int64 `gorm:"column:a and b"`
	C18 *int64 `gorm:"column:(p)"`
	C19 *int64 `gorm:"column:,"`
	C20 *int64 `gorm:"column:null"`
	C21 *int64 `gorm:"column:dou\"ble"`
	C22 *int64 `gorm:"column:br]ack"`
	C23 *int64 `gorm:"column:-- "`
	C24 *int64 `gorm:"column:@p1"`
	C25 *int64 `gorm:"column:@"`
	C26 *int64 `gorm:"column:id2"`
	C27 *int64 `gorm:"column:Peer"`
}

var oddCols = []string{"", "order", "group", "select", "first name", "a-b", "CamelCase", "ünï", "1st", "what?", "at@x", "per%cent", "quo'te", "$1", "?", "/*x", "or", "a and b", "(p)", ",", "null", `dou"ble`, "br]ack", "-- ", "@p1", "@", "id2", "Peer"}

// The models differ in the name of the table and of the relation.
type (
	OddPlain struct {
		Odd    `gorm:"embedded"`
		PeerID *int64    `gorm:"column:peer id"`
		Peer   *OddOrder `gorm:"foreignKey:PeerID"`
	}
	OddOrder struct {
		Odd    `gorm:"embedded"`
		MateID *int64    `gorm:"column:peer id"`
		Group  *OddSpace `gorm:"foreignKey:MateID"`
	}
	OddSpace struct {
		Odd    `gorm:"embedded"`
		BossID *int64     `gorm:"column:peer id"`
		Select *OddSchema `gorm:"foreignKey:BossID"`
	}
	OddSchema struct {
		Odd   `gorm:"embedded"`
		KidID *int64    `gorm:"column:peer id"`
		Or    *OddPlain `gorm:"foreignKey:KidID"`
	}
)

func (OddOrder) TableName() string  { return "order" }
func (OddSpace) TableName() string  { return "my table?" }
func (OddSchema) TableName() string { return "main.odd_s" }

var oddModels = []struct {
	name  string
	model any
	table string
	rel   string
	key   string
}{
	{"plain", &OddPlain{}, "odd_plains", "Peer", "PeerID"},
	{"order", &OddOrder{}, "order", "Group", "MateID"},
	{"space", &OddSpace{}, "my table?", "Select", "BossID"},
	{"schema", &OddSchema{}, "odd_s", "Or", "KidID"},
}

// Spelled gets its names from the naming strategy.
type Spelled struct {
	ID        int64
	FirstName *int64
	URLPath   *int64
	PeerID    *int64
	Peer      *Spelled
	X2Y       *int64
}

type shout struct{ schema.NamingStrategy }

func (shout) TableName(s string) string     { return "T " + strings.ToUpper(s) }
func (shout) ColumnName(_, c string) string { return strings.ToUpper(c) + " COL" }

var namings = []struct {
	name  string
	strat schema.Namer
	table string
	cols  [5]string // id FirstName URLPath PeerID X2Y
}{
	{"default", schema.NamingStrategy{}, "spelleds", [5]string{"id", "first_name", "url_path", "peer_id", "x2_y"}},
	{"singular", schema.NamingStrategy{SingularTable: true}, "spelled", [5]string{"id", "first_name", "url_path", "peer_id", "x2_y"}},
	{"asis", schema.NamingStrategy{NoLowerCase: true}, "Spelleds", [5]string{"ID", "FirstName", "URLPath", "PeerID", "X2Y"}},
	{"prefix", schema.NamingStrategy{TablePrefix: "p-"}, "p-spelleds", [5]string{"id", "first_name", "url_path", "peer_id", "x2_y"}},
	{"replaced", schema.NamingStrategy{NameReplacer: strings.NewReplacer("Name", "Nom")}, "spelleds", [5]string{"id", "first_nom", "url_path", "peer_id", "x2_y"}},
	{"own", shout{}, "T SPELLED", [5]string{"ID COL", "FIRSTNAME COL", "URLPATH COL", "PEERID COL", "X2Y COL"}},
}

type oddDB struct {
	sp   *speaker
	g    *gorm.DB
	envs map[string][]ref.Env // by model
}

var oddConfigs = []string{"plain", "prepared", "fields", "both"}

func q2(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

// getOdd makes the tables for a style, a configuration and a naming.
func getOdd(w *run.W, st style, config, naming string) *oddDB {
	key := "odd " + st.name + " " + config + " " + naming
	if f, ok := w.Local[key]; ok {
		return f.(*oddDB)
	}
	f := &oddDB{envs: map[string][]ref.Env{}}
	must := func(err error) {
		if err != nil {
			panic(fmt.Sprintf("fixture odd: %v", err))
		}
	}
	d, err := openMemory()
	must(err)
	known := map[string]bool{"main": true}
	cfg := &gorm.Config{Logger: logger.Discard, PrepareStmt: config == "prepared" || config == "both", QueryFields: config == "fields" || config == "both", SkipDefaultTransaction: true, AllowGlobalUpdate: true}
	val := func(i, j int) any {
		// Row i of column j: 1 in its own row, 0 elsewhere, NULL in the last.
		switch {
		case i == len(oddCols)+1:
			return nil
		case i == j:
			return int64(1)
		case i == j+1:
			return int64(2)
		}
		return int64(0)
	}
	if naming == "" {
		for _, m := range oddModels {
			known[m.table], known[m.rel] = true, true
			known["peer id"], known["id"] = true, true
			decl := []string{"id integer primary key"}
			for _, c := range oddCols[1:] {
				known[c] = true
				for _, r := range oddModels {
					known[r.rel+"__"+c], known[r.rel+"__id"], known[r.rel+"__peer id"] = true, true, true
				}
				decl = append(decl, q2(c)+" integer")
			}
			decl = append(decl, `"peer id" integer`)
			_, err = d.Exec("create table " + q2(m.table) + " (" + strings.Join(decl, ",") + ")")
			must(err)
			last := len(oddCols) + 1
			for i := 1; i <= last; i++ {
				args := []any{int64(i)}
				for j := 1; j < len(oddCols); j++ {
					args = append(args, val(i, j))
				}
				// The related row is another one, so that a column of the wrong side shows.
				var peer any
				if i%4 != 3 {
					peer = int64(i*5%last + 1)
				}
				args = append(args, peer)
				_, err = d.Exec("insert into "+q2(m.table)+" values ("+strings.TrimSuffix(strings.Repeat("?,", len(args)), ",")+")", args...)
				must(err)
				env := ref.MapEnv{"id": toV(int64(i), 'i'), m.key: toV(peer, 'i'), m.rel + ".id": toV(peer, 'i')}
				for j := 1; j < len(oddCols); j++ {
					n := fmt.Sprintf("C%d", j)
					env[n] = toV(val(i, j), 'i')
					env[m.rel+"."+n] = ref.V{K: 'n', Aff: 'i'}
					if peer != nil {
						env[m.rel+"."+n] = toV(val(int(peer.(int64)), j), 'i')
					}
					if name(oddCols[j]) {
						env[oddCols[j]], env[m.rel+"."+oddCols[j]] = env[n], env[m.rel+"."+n]
					}
				}
				f.envs[m.name] = append(f.envs[m.name], env)
			}
		}
	} else {
		for _, n := range namings {
			if n.name != naming {
				continue
			}
			cfg.NamingStrategy = n.strat
			known[n.table], known["Peer"] = true, true
			decl := []string{q2(n.cols[0]) + " integer primary key"}
			for _, c := range n.cols {
				known[c], known["Peer__"+c] = true, true
				if len(decl) > 0 && c != n.cols[0] {
					decl = append(decl, q2(c)+" integer")
				}
			}
			_, err = d.Exec("create table " + q2(n.table) + " (" + strings.Join(decl, ",") + ")")
			must(err)
			var vals [][]any
			for _, a := range []any{nil, int64(0), int64(1)} {
				for _, b := range []any{nil, int64(1)} {
					for _, x := range []any{int64(1), int64(2)} {
						for _, p := range []any{nil, int64(2), int64(9)} {
							vals = append(vals, []any{int64(len(vals) + 1), a, b, p, x})
						}
					}
				}
			}
			fields := []string{"ID", "FirstName", "URLPath", "PeerID", "X2Y"}
			for _, v := range vals {
				_, err = d.Exec("insert into "+q2(n.table)+" values (?,?,?,?,?)", v...)
				must(err)
				env := ref.MapEnv{}
				for k, fn := range fields {
					x, y := toV(v[k], 'i'), ref.V{K: 'n', Aff: 'i'}
					if p, ok := v[3].(int64); ok {
						y = toV(vals[p-1][k], 'i')
					}
					for _, nm := range []string{fn, strings.ToLower(fn), n.cols[k]} {
						if name(nm) {
							env[nm], env["Peer."+nm] = x, y
						}
					}
				}
				f.envs[naming] = append(f.envs[naming], env)
			}
		}
	}
	f.sp = &speaker{DB: d, st: st, known: known}
	cfg.ConnPool = f.sp
	f.g, err = gorm.Open(&styled{&sqlite.Dialector{Conn: f.sp}, st}, cfg)
	must(err)
	w.Local[key] = f
	return f
}

// name tells whether a query can name the column as it is.
func name(s string) bool {
	for i, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && (c >= '0' && c <= '9' || c == '_')) {
			return false
		}
	}
	r := ref.Parse(s + "=1")
	return r.Tree != nil && r.Tree.T == ref.Cmp && r.Tree.L.T == ref.Ident && r.Tree.L.S == s
}

var oddOne = []string{"%s=1", "%s<>1", "%s is null", "not %s=1", "%s in (1,2)", "%s not in (0,2)", "%s between 1 and 2", "%s like '1'", "%s is not null", "1=%s", "%s=null", "%s > 0", "%s = '1'", "%s is true"}
var oddTwo = []string{"%s=1 or %s=1", "%s=0 and not %s=1", "%s=%s", "not (%s=1 or %s is null)", "%s in (1,2) and %s between 0 and 2", "%s=1 or %s like '%%2'"}

// A case is style \x1e config \x1e model \x1e op \x1e query.
func init() {
	register(&run.Check{ID: "C27", Case: c27Case, Assumptions: []string{
		"the dialects are styles of quoting and of placeholders put in front of SQLite",
		"a name with a point is a qualified name to gorm and is left out",
	}, Explore: func(x *run.X) {
		type task struct{ st, cfg, model string }
		var tasks []task
		for _, st := range styles {
			for _, cfg := range oddConfigs {
				for _, m := range oddModels {
					tasks = append(tasks, task{st.name, cfg, m.name})
				}
			}
		}
		cols := func(m string) []string {
			out := []string{"id"}
			rel, key := "", ""
			for _, o := range oddModels {
				if o.name == m {
					rel, key = o.rel, o.key
				}
			}
			for j := 1; j < len(oddCols); j++ {
				out = append(out, fmt.Sprintf("C%d", j), fmt.Sprintf("%s.C%d", rel, j))
			}
			for _, c := range oddCols[1:] {
				if name(c) && c != rel {
					out = append(out, c, rel+"."+c)
				}
			}
			return append(out, key, rel+".id")
		}
		x.Each("one column", func(y func(string) bool) {
			for _, t := range tasks {
				for _, c := range cols(t.model) {
					for _, f := range oddOne {
						for _, op := range []string{"pluck", "find", "count"} {
							if !y(strings.Join([]string{t.st, t.cfg, t.model, op, fmt.Sprintf(f, c)}, "\x1e")) {
								return
							}
						}
					}
				}
			}
		})
		x.Each("two columns", func(y func(string) bool) {
			for _, t := range tasks {
				if !x.Thorough && (t.cfg != "plain" || t.st == "tick") {
					continue
				}
				cs := cols(t.model)
				for i, c := range cs {
					for j, d := range cs {
						if !x.Thorough && (i+j)%4 != 0 && i != j && i+1 != j {
							continue
						}
						for _, f := range oddTwo {
							if !y(strings.Join([]string{t.st, t.cfg, t.model, "pluck", fmt.Sprintf(f, c, d)}, "\x1e")) {
								return
							}
						}
					}
				}
			}
		})
		x.Each("naming", func(y func(string) bool) {
			for _, n := range namings {
				names := map[string]bool{}
				for k, fn := range []string{"ID", "FirstName", "URLPath", "PeerID", "X2Y"} {
					for _, nm := range []string{fn, strings.ToLower(fn), n.cols[k]} {
						if name(nm) {
							names[nm], names["Peer."+nm] = true, true
						}
					}
				}
				var list []string
				for nm := range names {
					list = append(list, nm)
				}
				sort.Strings(list)
				for _, st := range styles {
					for _, cfg := range oddConfigs[:x.Bound(2, len(oddConfigs))] {
						for _, c := range list {
							for _, f := range oddOne {
								for _, op := range []string{"pluck", "find", "count", "update", "delete"} {
									if !y(strings.Join([]string{st.name, cfg, "naming " + n.name, op, fmt.Sprintf(f, c)}, "\x1e")) {
										return
									}
								}
							}
							for _, d := range list {
								for _, f := range oddTwo {
									if !y(strings.Join([]string{st.name, cfg, "naming " + n.name, "pluck", fmt.Sprintf(f, c, d)}, "\x1e")) {
										return
									}
								}
							}
						}
					}
				}
			}
		})
	}})
}

func c27Case(w *run.W, c string) error {
	p := strings.SplitN(c, "\x1e", 5)
	var st style
	for _, s := range styles {
		if s.name == p[0] {
			st = s
		}
	}
	var f *oddDB
	var model any
	table, idcol, envs := "", "id", []ref.Env(nil)
	if n, ok := strings.CutPrefix(p[2], "naming "); ok {
		f = getOdd(w, st, p[1], n)
		model = &Spelled{}
		envs = f.envs[n]
		for _, x := range namings {
			if x.name == n {
				table, idcol = x.table, x.cols[0]
			}
		}
	} else {
		f = getOdd(w, st, p[1], "")
		for _, m := range oddModels {
			if m.name == p[2] {
				model, table = m.model, m.table
				if m.name == "schema" {
					table = "main.odd_s"
				}
			}
		}
		envs = f.envs[p[2]]
	}
	f.sp.wrong, f.sp.tokens = nil, 0
	defer func() {
		w.Distinct(p[0] + p[1] + f.sp.text)
		w.Trans(f.sp.tokens)
	}()
	r := ref.Parse(p[4])
	if r.Tree == nil {
		return fmt.Errorf("reference rejects %q", p[4])
	}
	t, ok := ref.Rows(r.Tree, envs)
	if !ok {
		return errors.New("reference cannot evaluate")
	}
	var want []int64
	for i, v := range t {
		if v == 1 {
			want = append(want, int64(i+1))
		}
	}
	id := clause.Column{Table: clause.CurrentTable, Name: idcol}
	var got []int64
	tx := f.g.Model(model).Scopes(apply(p[4]))
	var err error
	switch p[3] {
	case "pluck":
		// The order makes gorm resolve the name of the table.
		err = tx.Order(clause.OrderByColumn{Column: id}).Pluck(idcol2(f.g, table, idcol), &got).Error
	case "find":
		var ms []map[string]any
		err = tx.Find(&ms).Error
		for _, m := range ms {
			got = append(got, m[idcol].(int64))
		}
	case "count":
		var n int64
		err = tx.Count(&n).Error
		if err == nil && f.sp.wrong == nil && n != int64(len(want)) {
			return fmt.Errorf("counts %d rows, should be %d", n, len(want))
		}
		got = want
	case "update", "delete":
		var sqlText string
		d := f.g.Session(&gorm.Session{DryRun: true}).Model(model).Scopes(apply(p[4]))
		if p[3] == "update" {
			d = d.Update("FirstName", 5)
		} else {
			d = d.Delete(model)
		}
		err = d.Error
		sqlText = f.sp.translate(d.Statement.SQL.String())
		if err == nil && f.sp.wrong == nil && !strings.Contains(p[4], "Peer.") {
			// The condition selects the same rows when it is put into a select.
			_, cond, _ := strings.Cut(sqlText, " WHERE ")
			args := make([]any, len(d.Statement.Vars))
			copy(args, d.Statement.Vars)
			got, err = ids(f.sp.DB, "select "+q2(idcol)+" from "+q2(table)+" where ("+cond+") and ?"+strconv.Itoa(len(args)+1)+" = 1", append(args, 1)...)
		} else {
			got = want
		}
	}
	if f.sp.wrong != nil {
		return f.sp.wrong
	}
	if err != nil {
		return fmt.Errorf("error %v", err)
	}
	sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
	if !sameIDs(got, want) {
		return fmt.Errorf("selects rows %v, should be %v", got, want)
	}
	return nil
}

func idcol2(g *gorm.DB, table, col string) string {
	var sb strings.Builder
	g.Dialector.(*styled).QuoteTo(&sb, table+"."+col)
	return sb.String()
}
