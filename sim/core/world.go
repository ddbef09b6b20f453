// Package core is the simulated world: tables, model, simulated database server,
// clients, oracles and plan generators.
package core

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/ref"
	"verifsim/simrt"
)

// Col describes a column.
type Col struct {
	Name string
	Go   string // Go field name
	T    byte   // i(nt) s(tring) b(ool) t(ime) k(ey) d(eleted_at)
	Null bool
	SQL  string
}

func (c Col) Aff() ref.Aff {
	if c.T == 's' {
		return ref.AffText
	}
	return ref.AffNum
}

// Rel describes a relation of a model.
type Rel struct {
	Name   string // Go field name
	Table  string
	FK     string // column holding the key
	Many   bool
	HasOne bool // the key is in the related table
}

// Table describes a table, the gorm model and the ent node over it.
type Table struct {
	Name  string
	Cols  []Col
	Rels  []Rel
	Edges []Edge
	// NonCols are Go fields that are not columns.
	NonCols []string
	idx     map[string]int
}

// Edge is an edge of the ent graph.
type Edge struct {
	Name string
	To   string
	Kind string // O2O O2OI M2O O2M M2M
	FK   string // column in the table (M2O, O2O inverse) or in To (O2M, O2O)
	Join string // join table (M2M)
	A, B string
}

func (t *Table) Idx(col string) int {
	if i, ok := t.idx[col]; ok {
		return i
	}
	return -1
}

func (t *Table) Rel(name string) *Rel {
	for i := range t.Rels {
		if t.Rels[i].Name == name {
			return &t.Rels[i]
		}
	}
	return nil
}

func (t *Table) Edge(name string) *Edge {
	for i := range t.Edges {
		if t.Edges[i].Name == name {
			return &t.Edges[i]
		}
	}
	return nil
}

// Resolve maps a filter name to a column by the rule: column name, then Go name,
// then Go name ignoring case.
func (t *Table) Resolve(name string) int {
	if i := t.Idx(name); i >= 0 {
		return i
	}
	for _, n := range t.NonCols {
		if n == name {
			return -1
		}
	}
	for i, c := range t.Cols {
		if c.Go == name {
			return i
		}
	}
	for _, n := range t.NonCols {
		if strings.EqualFold(n, name) {
			return -1
		}
	}
	for i, c := range t.Cols {
		if strings.EqualFold(c.Go, name) {
			return i
		}
	}
	return -1
}

// Tables of the world.
var Tables = map[string]*Table{}
var tableOrder []string

func addTable(t *Table) {
	t.idx = map[string]int{}
	for i, c := range t.Cols {
		t.idx[c.Name] = i
	}
	Tables[t.Name] = t
	tableOrder = append(tableOrder, t.Name)
}

// twins is a second model on a table that has one already: the same struct name,
// the same Go names, but some of them belong to other columns and relations.
func twins() {
	a := Tables["accounts"]
	t := &Table{Name: a.Name, idx: a.idx, Cols: append([]Col(nil), a.Cols...), NonCols: []string{"Profile", "Company", "Manager", "Badge", "Secret"}}
	for _, p := range [][2]string{{"name", "nick"}, {"age", "hits"}} {
		i, j := a.Idx(p[0]), a.Idx(p[1])
		t.Cols[i].Go, t.Cols[j].Go = a.Cols[j].Go, a.Cols[i].Go
	}
	t.Rels = []Rel{
		{Name: "Profile", Table: "companies", FK: "company_id"},
		{Name: "Company", Table: "profiles", FK: "profile_id"},
		{Name: "Manager", Table: "accounts", FK: "manager_id"},
		{Name: "Badge", Table: "badges", FK: "account_id", HasOne: true},
	}
	Tables["twins"] = t
}

func init() {
	addTable(&Table{Name: "accounts",
		Cols: []Col{
			{"id", "ID", 'k', false, "integer primary key"},
			{"tenant_id", "TenantID", 'i', false, "integer"},
			{"name", "Name", 's', false, "text"},
			{"full_name", "FullName", 's', true, "text"},
			{"age", "Age", 'i', false, "integer"},
			{"score", "Score", 'i', true, "integer"},
			{"active", "Active", 'b', false, "numeric"},
			{"nick", "Alias", 's', false, "text"},
			{"created_at", "CreatedAt", 't', false, "datetime"},
			{"hits", "Hits", 'i', false, "integer"},
			{"profile_id", "ProfileID", 'i', true, "integer"},
			{"company_id", "CompanyID", 'i', true, "integer"},
			{"manager_id", "ManagerID", 'i', true, "integer"},
			{"deleted_at", "DeletedAt", 'd', true, "datetime"},
		},
		Rels: []Rel{
			{Name: "Profile", Table: "profiles", FK: "profile_id"},
			{Name: "Company", Table: "companies", FK: "company_id"},
			{Name: "Manager", Table: "accounts", FK: "manager_id"},
			{Name: "Badge", Table: "badges", FK: "account_id", HasOne: true},
			{Name: "Devices", Table: "devices", FK: "account_id", Many: true},
			{Name: "Groups", Table: "groups", Many: true},
		},
		Edges: []Edge{
			{Name: "profile", To: "profiles", Kind: "M2O", FK: "profile_id"},
			{Name: "company", To: "companies", Kind: "M2O", FK: "company_id"},
			{Name: "manager", To: "accounts", Kind: "M2O", FK: "manager_id"},
			{Name: "reports", To: "accounts", Kind: "O2M", FK: "manager_id"},
			{Name: "badge", To: "badges", Kind: "O2O", FK: "account_id"},
			{Name: "devices", To: "devices", Kind: "O2M", FK: "account_id"},
			{Name: "groups", To: "groups", Kind: "M2M", Join: "account_groups", A: "account_id", B: "group_id"},
		},
		NonCols: []string{"Profile", "Company", "Manager", "Badge", "Devices", "Groups", "Secret"},
	})
	addTable(&Table{Name: "profiles",
		Cols: []Col{
			{"id", "ID", 'k', false, "integer primary key"},
			{"age", "Age", 'i', false, "integer"},
			{"bio", "Bio", 's', true, "text"},
			{"rank", "Level", 'i', true, "integer"},
			{"verified", "Verified", 'b', false, "numeric"},
			{"born_at", "BornAt", 't', false, "datetime"},
			{"addr_city", "City", 's', false, "text"},
			{"notes", "Notes", 's', true, "text"},
			{"false_alarms", "FalseAlarms", 'i', false, "integer"},
		},
	})
	addTable(&Table{Name: "companies",
		Cols: []Col{
			{"cid", "ID", 'k', false, "integer primary key"},
			{"title", "Title", 's', false, "text"},
			{"grade", "Grade", 'i', true, "integer"},
			{"open", "Open", 'b', false, "numeric"},
		},
		Edges: []Edge{
			{Name: "staff", To: "accounts", Kind: "O2M", FK: "company_id"},
		},
	})
	addTable(&Table{Name: "badges",
		Cols: []Col{
			{"id", "ID", 'k', false, "integer primary key"},
			{"account_id", "AccountID", 'i', false, "integer"},
			{"color", "Color", 's', false, "text"},
			{"shine", "Shine", 'i', true, "integer"},
			{"md5sum", "Md5sum", 's', false, "text"},
		},
		Edges: []Edge{
			{Name: "account", To: "accounts", Kind: "O2OI", FK: "account_id"},
		},
	})
	addTable(&Table{Name: "devices",
		Cols: []Col{
			{"id", "ID", 'k', false, "integer primary key"},
			{"device_name", "Name", 's', false, "text"},
			// the names of these two cross: column label belongs to field Code
			{"label", "Code", 's', false, "text"},
			{"code", "Label", 'i', false, "integer"},
			{"age", "Age", 'i', true, "integer"},
			{"hits", "Hits", 'i', false, "integer"},
			{"tenant_id", "TenantID", 'i', false, "integer"},
			{"account_id", "AccountID", 'i', true, "integer"},
		},
		Rels: []Rel{
			{Name: "Account", Table: "accounts", FK: "account_id"},
		},
		Edges: []Edge{
			{Name: "account", To: "accounts", Kind: "M2O", FK: "account_id"},
		},
		NonCols: []string{"Account"},
	})
	addTable(&Table{Name: "groups",
		Cols: []Col{
			{"id", "ID", 'k', false, "integer primary key"},
			{"label", "Label", 's', false, "text"},
			{"size", "Size", 'i', true, "integer"},
			{"null_count", "NullCount", 'i', true, "integer"},
			{"true_name", "TrueName", 's', false, "text"},
			{"origin", "Origin", 's', false, "text"},
		},
		Edges: []Edge{
			{Name: "accounts", To: "accounts", Kind: "M2M", Join: "account_groups", A: "group_id", B: "account_id"},
		},
	})
	addTable(&Table{Name: "account_groups",
		Cols: []Col{
			{"id", "ID", 'k', false, "integer primary key"},
			{"account_id", "AccountID", 'i', false, "integer"},
			{"group_id", "GroupID", 'i', false, "integer"},
			{"size", "Size", 'i', true, "integer"},
		},
	})
	twins()
}

// Row is one row, values in column order; Row[0] is the key.
type Row []ref.Val

// State is the content of all tables, rows sorted by key.
type State map[string][]Row

func (s State) Clone() State {
	c := State{}
	for k, v := range s {
		rows := make([]Row, len(v))
		for i, r := range v {
			rows[i] = append(Row(nil), r...)
		}
		c[k] = rows
	}
	return c
}

// Find returns the row with the key.
func (s State) Find(table string, key ref.Val) Row {
	if key.K != ref.VInt {
		return nil
	}
	rows := s[table]
	i := sort.Search(len(rows), func(i int) bool { return rows[i][0].I >= key.I })
	if i < len(rows) && rows[i][0].I == key.I {
		return rows[i]
	}
	return nil
}

func (r Row) String() string {
	var b strings.Builder
	for i, v := range r {
		if i > 0 {
			b.WriteByte('|')
		}
		b.WriteString(v.String())
	}
	return b.String()
}

var (
	sampleText = []string{"ann", "bob", "Ann", "x_y", "50%", "o'neil", `say "hi"`, `back\slash`, "", "100", "a?b", "@name", "über", "日本", "null", "a;b--c", "true", "a b", "a  b", " ann", "ANN", "ann ", "bob\t", "ann\n", "A  B", "a\tb"}
	sampleTime = []string{"2024-01-01 00:00:00", "2024-01-02 12:30:00", "2024-02-29 23:59:59", "2023-12-31 08:00:00"}
)

// NewState makes a seeded database content.
func NewState(seed uint64, size int) State {
	r := simrt.NewRand(seed)
	s := State{}
	n := map[string]int{
		"accounts": 3 + r.Intn(size), "profiles": 2 + r.Intn(4), "companies": 2 + r.Intn(3),
		"devices": 2 + r.Intn(size), "groups": 2 + r.Intn(3),
	}
	big, odd := 20, 0
	if r.P(1, 4) {
		big = 3
	}
	if r.P(1, 4) {
		odd = 3
	}
	for _, tn := range tableOrder {
		t := Tables[tn]
		cnt := n[tn]
		switch tn {
		case "badges":
			cnt = 0
			for a := 1; a <= n["accounts"]; a++ {
				if r.P(1, 2) {
					cnt++
					s[tn] = append(s[tn], Row{ref.Int(int64(cnt)), ref.Int(int64(a)), ref.Text(sampleText[r.Intn(4)]), maybeNull(r, ref.Int(int64(r.Intn(5)))), ref.Text(sampleText[r.Intn(4)])})
				}
			}
			continue
		case "account_groups":
			cnt = 0
			for a := 1; a <= n["accounts"]; a++ {
				for g := 1; g <= n["groups"]; g++ {
					if r.P(1, 3) {
						cnt++
						s[tn] = append(s[tn], Row{ref.Int(int64(cnt)), ref.Int(int64(a)), ref.Int(int64(g)), maybeNull(r, ref.Int(int64(r.Intn(5))))})
					}
				}
			}
			continue
		}
		for i := 1; i <= cnt; i++ {
			row := Row{ref.Int(int64(i))}
			for _, c := range t.Cols[1:] {
				var v ref.Val
				switch {
				case c.Name == "tenant_id":
					v = ref.Int(int64(1 + r.Intn(2)))
				case c.Name == "hits":
					v = ref.Int(int64(r.Intn(3)))
				case c.Name == "deleted_at":
					if r.P(1, 5) {
						v = ref.Text(sampleTime[r.Intn(len(sampleTime))])
					}
				case c.Name == "profile_id":
					v = fk(r, n["profiles"])
				case c.Name == "company_id":
					v = fk(r, n["companies"])
				case c.Name == "manager_id" || c.Name == "account_id":
					v = fk(r, n["accounts"])
				case c.T == 's':
					v = ref.Text(sampleText[r.Intn(len(sampleText))])
					if r.P(1, 2) {
						v = ref.Text(sampleText[r.Intn(4)])
					}
					if odd > 0 && r.P(1, odd) {
						if x := weirdText[r.Intn(len(weirdText))]; !strings.Contains(x, "\x00") {
							v = ref.Text(x)
						}
					}
					if r.P(1, 40) {
						v = ref.Text(longText(r.Intn(3)))
					}
				case c.T == 'i':
					v = ref.Int(int64(r.Intn(6)))
					if r.P(1, big) {
						v = ref.Int([]int64{1 << 31, 1 << 53, 1<<63 - 1, -1, -5, 1<<31 - 1, 10, 128, 255, 256, 1 << 16, 1 << 32, 1<<53 + 1, 0, 1 << 53, 1<<53 + 1, 1 << 53, 1<<53 + 1}[r.Intn(18)])
					}
				case c.T == 'b':
					v = ref.Int(int64(r.Intn(2)))
				case c.T == 't':
					v = ref.Text(sampleTime[r.Intn(len(sampleTime))])
				}
				if c.Null && c.T != 'd' && r.P(1, 4) {
					v = ref.Null
				}
				row = append(row, v)
			}
			s[tn] = append(s[tn], row)
		}
	}
	return s
}

func maybeNull(r *simrt.Rand, v ref.Val) ref.Val {
	if r.P(1, 4) {
		return ref.Null
	}
	return v
}

func fk(r *simrt.Rand, n int) ref.Val {
	if r.P(1, 4) {
		return ref.Null
	}
	return ref.Int(int64(1 + r.Intn(n)))
}

// CreateSQL returns the DDL and data of a state.
func CreateSQL(schema string) []string {
	var l []string
	for _, tn := range tableOrder {
		var c []string
		for _, x := range Tables[tn].Cols {
			c = append(c, "`"+x.Name+"` "+x.SQL)
		}
		l = append(l, fmt.Sprintf("CREATE TABLE %s`%s` (%s)", schema, tn, strings.Join(c, ", ")))
	}
	return l
}

// InsertSQL returns one multi-row insert per table.
func (s State) InsertSQL(schema string) []string {
	var l []string
	for _, tn := range tableOrder {
		if len(s[tn]) == 0 {
			continue
		}
		var b strings.Builder
		fmt.Fprintf(&b, "INSERT INTO %s`%s` VALUES ", schema, tn)
		for i, row := range s[tn] {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteByte('(')
			for j, v := range row {
				if j > 0 {
					b.WriteByte(',')
				}
				switch v.K {
				case ref.VText:
					b.WriteString("'" + strings.ReplaceAll(v.S, "'", "''") + "'")
				default:
					b.WriteString(v.String())
				}
			}
			b.WriteByte(')')
		}
		l = append(l, b.String())
	}
	return l
}
