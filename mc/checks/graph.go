package checks

import (
	"database/sql"
	"fmt"
	"strings"

	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/schema/field"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

// edgeKind describes an edge of the graph; the reference model uses only the links.
type edgeKind struct {
	from, name, to string
	rel            sqlgraph.Rel
	inverse        bool
	table          string
	cols           []string
	link           string // column or join table whose links the edge follows
	back           bool   // follows them backwards
}

var edgeKinds = []edgeKind{
	{"user", "pets", "pet", sqlgraph.O2M, false, "pets", []string{"owner_id"}, "pet.owner", true},
	{"pet", "owner", "user", sqlgraph.M2O, true, "pets", []string{"owner_id"}, "pet.owner", false},
	{"user", "children", "user", sqlgraph.O2M, false, "users", []string{"parent_id"}, "user.parent", true},
	{"user", "parent", "user", sqlgraph.M2O, true, "users", []string{"parent_id"}, "user.parent", false},
	{"group", "users", "user", sqlgraph.M2M, false, "group_users", []string{"group_id", "user_id"}, "group_users", false},
	{"user", "groups", "group", sqlgraph.M2M, true, "group_users", []string{"group_id", "user_id"}, "group_users", true},
	{"user", "following", "user", sqlgraph.M2M, false, "user_following", []string{"user_id", "friend_id"}, "user_following", false},
	{"user", "followers", "user", sqlgraph.M2M, true, "user_following", []string{"user_id", "friend_id"}, "user_following", true},
	{"user", "card", "card", sqlgraph.O2O, false, "cards", []string{"user_id"}, "card.owner", true},
	{"card", "owner", "user", sqlgraph.O2O, true, "cards", []string{"user_id"}, "card.owner", false},
	{"user", "next", "user", sqlgraph.O2O, false, "users", []string{"prev_id"}, "user.prev", true},
	{"user", "prev", "user", sqlgraph.O2O, true, "users", []string{"prev_id"}, "user.prev", false},
}

// edgeAliases lead to the same nodes by other names.
var edgeAliases = aliases()

func aliases() (out []edgeKind) {
	for i, n := range append([]string{"myPets", "MyPets", "my_pets", "Pets", "PETS", "pets2", "pets_", "p"}, gen.Vocabulary...) {
		if edgeOf("user", n) == nil {
			e := edgeKinds[[]int{0, 2, 3, 5, 6, 8}[i%6]]
			e.name = n
			out = append(out, e)
		}
	}
	return
}

var nodeTables = map[string]string{"user": "users", "pet": "pets", "group": "groups", "card": "cards"}

// columns of the identifier, not all called id
var idColumns = map[string]string{"user": "id", "pet": "id", "group": "gid", "card": "num"}

func edgeOf(node, name string) *edgeKind {
	for i := range edgeKinds {
		if e := &edgeKinds[i]; e.from == node && e.name == name {
			return e
		}
	}
	return nil
}

func edgeNamed(node, name string) *edgeKind {
	if e := edgeOf(node, name); e != nil {
		return e
	}
	for i := range edgeAliases {
		if e := &edgeAliases[i]; e.from == node && e.name == name {
			return e
		}
	}
	return nil
}

func edgesOf(node string) (out []*edgeKind) {
	for i := range edgeKinds {
		if edgeKinds[i].from == node {
			out = append(out, &edgeKinds[i])
		}
	}
	return
}

// newSchema is the schema as ent describes it.
func newSchema(more ...edgeKind) *sqlgraph.Schema { return newSchemaAt("", more...) }

// schemaOf tells where a table is; far has the tables in the other schema.
func schemaOf(far, table string) string {
	for _, t := range strings.Split(far, ",") {
		if t == table {
			return "far"
		}
	}
	return ""
}

func newSchemaAt(far string, more ...edgeKind) *sqlgraph.Schema {
	g := &sqlgraph.Schema{}
	for _, t := range []string{"user", "pet", "group", "card"} {
		fields := map[string]*sqlgraph.FieldSpec{"a": {Type: field.TypeInt, Column: "a"}, "name": {Type: field.TypeString, Column: "name"}}
		g.Nodes = append(g.Nodes, &sqlgraph.Node{Type: t, Fields: fields, NodeSpec: sqlgraph.NodeSpec{Table: nodeTables[t], Schema: schemaOf(far, nodeTables[t]), Columns: []string{idColumns[t], "a", "name"}, ID: &sqlgraph.FieldSpec{Type: field.TypeInt, Column: idColumns[t]}}})
	}
	for _, e := range append(append([]edgeKind{}, edgeKinds...), more...) {
		g.MustAddE(e.name, &sqlgraph.EdgeSpec{Rel: e.rel, Inverse: e.inverse, Table: e.table, Schema: schemaOf(far, e.table), Columns: e.cols}, e.from, e.to)
	}
	return g
}

func schemaNode(g *sqlgraph.Schema, t string) *sqlgraph.Node {
	for _, n := range g.Nodes {
		if n.Type == t {
			return n
		}
	}
	return nil
}

type gRow struct{ a, name any }

// world holds many small graphs side by side; what an edge leads to stays inside each.
type world struct {
	rows  map[string][]gRow            // id is index+1
	links map[string]map[int64][]int64 // forward
	backs map[string]map[int64][]int64 // backward
	sql   *sql.DB
	graph *sqlgraph.Schema
}

func (g *world) node(t string, a, name any) int64 {
	g.rows[t] = append(g.rows[t], gRow{a, name})
	return int64(len(g.rows[t]))
}

func (g *world) link(l string, from, to int64) {
	if g.links[l] == nil {
		g.links[l], g.backs[l] = map[int64][]int64{}, map[int64][]int64{}
	}
	g.links[l][from] = append(g.links[l][from], to)
	g.backs[l][to] = append(g.backs[l][to], from)
}

func (g *world) neighbours(e *edgeKind, id int64) []int64 {
	if e.back {
		return g.backs[e.link][id]
	}
	return g.links[e.link][id]
}

func buildWorld() *world {
	g := &world{rows: map[string][]gRow{}, links: map[string]map[int64][]int64{}, backs: map[string]map[int64][]int64{}}
	names := func(a any) any {
		if a == int64(1) {
			return "x"
		}
		if a == nil {
			return "y"
		}
		return nil
	}
	user := func(a any) int64 { return g.node("user", a, names(a)) }
	// pets: owned or not, all values
	for _, ua := range ints3 {
		for v := 0; v < 36; v++ {
			u := user(ua)
			for k, w := 0, v; k < 2; k, w = k+1, w/6 {
				p := g.node("pet", ints3[w%3], names(ints3[(w+k)%3]))
				if w%6 >= 3 {
					g.link("pet.owner", p, u)
				}
			}
		}
	}
	// parents: every parent function on three users, including cycles and self
	// the same shapes for the one-to-one pointer where at most one points at each
	for _, l := range []string{"user.parent", "user.prev"} {
		for v := 0; v < 64; v++ {
			to := []int{v % 4, v / 4 % 4, v / 16}
			if l == "user.prev" && (to[0] > 0 && (to[0] == to[1] || to[0] == to[2]) || to[1] > 0 && to[1] == to[2]) {
				continue
			}
			for m := 0; m < 4; m++ {
				us := []int64{user(ints3[m%3]), user(ints3[(m/2+1)%3]), user(ints3[(m+2)%3])}
				for i, t := range to {
					if t > 0 {
						g.link(l, us[i], us[t-1])
					}
				}
			}
		}
	}
	// groups: every membership of two users in two groups
	for v := 0; v < 16; v++ {
		for _, a := range ints3 {
			for _, b := range ints3 {
				us := []int64{user(b), user(a)}
				gs := []int64{g.node("group", a, names(b)), g.node("group", b, names(a))}
				for bit := 0; bit < 4; bit++ {
					if v>>bit&1 == 1 {
						g.link("group_users", gs[bit/2], us[bit%2])
					}
				}
			}
		}
	}
	// following: every relation on two users, and a third that follows all or none
	for v := 0; v < 16; v++ {
		for m := 0; m < 3; m++ {
			for third := 0; third < 3; third++ {
				us := []int64{user(ints3[m]), user(ints3[(m+1)%3]), user(ints3[(m+third)%3])}
				for bit := 0; bit < 4; bit++ {
					if v>>bit&1 == 1 {
						g.link("user_following", us[bit/2], us[bit%2])
					}
				}
				if third > 0 {
					g.link("user_following", us[2], us[third-1])
				}
			}
		}
	}
	// cards
	for _, ua := range ints3 {
		for c := 0; c < 4; c++ {
			u := user(ua)
			if c > 0 {
				g.link("card.owner", g.node("card", ints3[c-1], names(ints3[c%3])), u)
			}
		}
		g.node("card", ua, "x")
	}
	// everything mixed: two users, pets, a group, a card, parent, following
	for v := 0; v < 512; v++ {
		bit := func(i int) bool { return v>>i&1 == 1 }
		val := func(b bool) any {
			if b {
				return int64(1)
			}
			return int64(0)
		}
		us := []int64{user(val(bit(0))), user(val(!bit(0)))}
		p := g.node("pet", val(bit(1)), names(val(bit(2))))
		if bit(2) {
			g.link("pet.owner", p, us[0])
		} else {
			g.link("pet.owner", p, us[1])
		}
		gr := g.node("group", val(bit(3)), "x")
		if bit(4) {
			g.link("group_users", gr, us[0])
		}
		if bit(5) {
			g.link("group_users", gr, us[1])
		}
		if bit(6) {
			g.link("user.parent", us[0], us[1])
		}
		if bit(7) {
			g.link("user_following", us[0], us[1])
			g.link("user.prev", us[1], us[0])
		}
		if bit(8) {
			g.link("card.owner", g.node("card", val(bit(1)), "x"), us[0])
		}
	}
	return g
}

func getWorld(w *run.W) *world { return getWorldAt(w, "") }

// getWorldAt has some tables in another schema, where the others are empty.
func getWorldAt(w *run.W, far string) *world {
	if g, ok := w.Local["world"+far]; ok {
		return g.(*world)
	}
	g := buildWorld()
	var err error
	if g.sql, err = openMemory(); err != nil {
		panic(err)
	}
	must := func(q string, a ...any) {
		if _, err := g.sql.Exec(q, a...); err != nil {
			panic(fmt.Sprintf("%s: %v", q, err))
		}
	}
	if far != "" {
		must("attach ':memory:' as far")
	}
	must("begin")
	at := func(table string) string {
		if schemaOf(far, table) != "" {
			return `far."` + table + `"`
		}
		return `main."` + table + `"`
	}
	for table, cols := range map[string]string{
		"users":          "id integer primary key, a integer, name text, parent_id integer, prev_id integer",
		"pets":           "id integer primary key, a integer, name text, owner_id integer",
		"groups":         "gid integer primary key, a integer, name text",
		"cards":          "num integer primary key, a integer, name text, user_id integer",
		"group_users":    "group_id integer not null, user_id integer not null",
		"user_following": "user_id integer not null, friend_id integer not null",
	} {
		must(`create table main."` + table + `" (` + cols + ")")
		if far != "" {
			must(`create table far."` + table + `" (` + cols + ")")
		}
	}
	one := func(l string, id int64) any {
		if to := g.links[l][id]; len(to) > 0 {
			return to[0]
		}
		return nil
	}
	for i, r := range g.rows["user"] {
		id := int64(i + 1)
		must("insert into "+at("users")+" values (?,?,?,?,?)", id, r.a, r.name, one("user.parent", id), one("user.prev", id))
	}
	for i, r := range g.rows["pet"] {
		must("insert into "+at("pets")+" values (?,?,?,?)", i+1, r.a, r.name, one("pet.owner", int64(i+1)))
	}
	for i, r := range g.rows["group"] {
		must("insert into "+at("groups")+" values (?,?,?)", i+1, r.a, r.name)
	}
	for i, r := range g.rows["card"] {
		must("insert into "+at("cards")+" values (?,?,?,?)", i+1, r.a, r.name, one("card.owner", int64(i+1)))
	}
	for _, l := range []string{"group_users", "user_following"} {
		for from, tos := range g.links[l] {
			for _, to := range tos {
				must("insert into "+at(l)+" values (?,?)", from, to)
			}
		}
	}
	for _, ix := range []string{"users(parent_id)", "users(prev_id)", "pets(owner_id)", "cards(user_id)", "group_users(group_id)", "group_users(user_id)", "user_following(user_id)", "user_following(friend_id)"} {
		table, _, _ := strings.Cut(ix, "(")
		schema, _, _ := strings.Cut(at(table), ".")
		must("create index " + schema + "." + strings.NewReplacer("(", "_", ")", "").Replace("i_"+ix) + " on " + ix)
	}
	must("commit")
	g.graph = newSchemaAt(far, edgeAliases...)
	w.Local["world"+far] = g
	return g
}

// truths evaluates a condition for all rows of a node type.
func (g *world) truths(t string, n *ref.N) []int8 {
	memo := map[*ref.N][]int8{}
	out := make([]int8, len(g.rows[t]))
	for i := range out {
		out[i] = ref.Truth(n, gEnv{g, t, int64(i + 1), memo})
	}
	return out
}

type gEnv struct {
	g    *world
	t    string
	id   int64
	memo map[*ref.N][]int8
}

func (e gEnv) Col(name string) (ref.V, bool) {
	r := e.g.rows[e.t][e.id-1]
	switch name {
	case idColumns[e.t]:
		return ref.V{K: 'i', I: e.id, Aff: 'i'}, true
	case "a":
		return toV(r.a, 'i'), true
	case "name":
		return toV(r.name, 's'), true
	}
	return ref.V{}, false
}

func (e gEnv) Call(n *ref.N) (ref.V, bool) {
	if n.S != "has_edge" || len(n.Kids) < 1 || len(n.Kids) > 2 || n.Kids[0].T != ref.Ident {
		return ref.V{}, false
	}
	k := edgeNamed(e.t, n.Kids[0].S)
	if k == nil {
		return ref.V{}, false
	}
	var sub []int8
	if len(n.Kids) == 2 {
		var ok bool
		if sub, ok = e.memo[n]; !ok {
			sub = e.g.truths(k.to, n.Kids[1])
			e.memo[n] = sub
		}
	}
	for _, id := range e.g.neighbours(k, e.id) {
		if sub == nil || sub[id-1] == 1 {
			return ref.IntV(1), true
		}
	}
	return ref.IntV(0), true
}

// expect gives the ids of the nodes for which the condition is true.
func (g *world) expect(t string, n *ref.N) []int64 {
	var out []int64
	for i, v := range g.truths(t, n) {
		if v == 1 {
			out = append(out, int64(i+1))
		}
	}
	return out
}
