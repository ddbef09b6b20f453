package core

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/wenerme/go-miniquery/gormq"
	"gorm.io/gorm"
	"gorm.io/gorm/clause"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/schema"

	"verifsim/ref"
	"verifsim/simrt"
)

// OpenDialector makes the gorm dialector over the simulated database.
var OpenDialector func(pool gorm.ConnPool, pg bool) gorm.Dialector

type Account struct {
	ID        int64
	TenantID  int64
	Name      string
	FullName  *string
	Age       int64
	Score     *int64
	Active    bool
	Alias     string `gorm:"column:nick"`
	CreatedAt time.Time
	Hits      int64
	ProfileID *int64
	Profile   *Profile
	CompanyID *int64
	Company   *Company
	ManagerID *int64
	Manager   *Account
	Badge     *Badge   `gorm:"foreignKey:AccountID"`
	Devices   []Device `gorm:"foreignKey:AccountID"`
	Groups    []Group  `gorm:"many2many:account_groups"`
	Secret    string   `gorm:"-"`
	DeletedAt gorm.DeletedAt
}

type Address struct {
	City string
}

type Profile struct {
	ID       int64
	Age      int64
	Bio      *string
	Level    *int64 `gorm:"column:rank"`
	Verified bool
	BornAt   time.Time
	Address  `gorm:"embedded;embeddedPrefix:addr_"`

	Notes       *string
	FalseAlarms int64
}

type Company struct {
	ID    int64 `gorm:"column:cid;primaryKey"`
	Title string
	Grade *int64
	Open  bool
}

type Badge struct {
	ID        int64
	AccountID int64
	Color     string
	Shine     *int64
	Md5sum    string
}

type Device struct {
	ID        int64
	Name      string `gorm:"column:device_name"`
	Code      string `gorm:"column:label"`
	Label     int64  `gorm:"column:code"`
	Age       *int64
	Hits      int64
	TenantID  int64
	AccountID *int64
	Account   *Account
}

type Group struct {
	ID    int64
	Label string
	Size  *int64

	NullCount *int64
	TrueName  string
	Origin    string
}

type outerAccount = Account

// newTwin makes the other model of the accounts table.
func newTwin() any {
	type Account struct {
		ID        int64
		TenantID  int64
		Name      string `gorm:"column:nick"`
		FullName  *string
		Age       int64 `gorm:"column:hits"`
		Score     *int64
		Active    bool
		Alias     string `gorm:"column:name"`
		CreatedAt time.Time
		Hits      int64 `gorm:"column:age"`
		ProfileID *int64
		Company   *Profile `gorm:"foreignKey:ProfileID"`
		CompanyID *int64
		Profile   *Company `gorm:"foreignKey:CompanyID"`
		ManagerID *int64
		Manager   *outerAccount
		Badge     *Badge `gorm:"foreignKey:AccountID"`
		Secret    string `gorm:"-"`
		DeletedAt gorm.DeletedAt
	}
	return &Account{}
}

// table is the name of the table of the operation's model.
func (op *Op) table() string { return Tables[op.Model].Name }

// sql gives SQL text of the caller the quotes of the dialect.
func (w *World) sql(s string) string {
	if w.plan.Cfg.PG {
		return strings.ReplaceAll(s, "`", `"`)
	}
	return s
}

// frozen is the clock of gorm: it only shows up in soft deletes.
var frozen = time.Date(2024, 6, 1, 0, 0, 0, 0, time.UTC)

type gormWorld struct {
	root     *gorm.DB
	handles  map[string]*gorm.DB
	shape    map[string]string
	shared   []func(*gorm.DB) *gorm.DB
	useCount map[string]int
	schemas  map[string]*schema.Schema // those that operations have used
}

// quiet is a logger that can be told from the others.
type quiet struct{ logger.Interface }

func (w *World) openGorm() error {
	c := w.plan.Cfg
	root, err := gorm.Open(OpenDialector(w.db, c.PG), &gorm.Config{
		Logger:                 &quiet{logger.Discard},
		NowFunc:                func() time.Time { return frozen },
		PrepareStmt:            c.PrepareStmt,
		SkipDefaultTransaction: c.SkipTx,
		QueryFields:            c.QueryFields,
	})
	if err != nil {
		return err
	}
	g := &gormWorld{root: root, handles: map[string]*gorm.DB{}, shape: map[string]string{}, useCount: map[string]int{}, schemas: map[string]*schema.Schema{}}
	w.g = g
	g.handles[""] = root
	g.handles["sess"] = root.Session(&gorm.Session{})
	g.handles["model"] = root.Model(&Account{}).Session(&gorm.Session{})
	g.handles["where"] = root.Model(&Account{}).Where(w.sql("`accounts`.`tenant_id` = ?"), 1).Session(&gorm.Session{})
	g.handles["dry"] = root.Session(&gorm.Session{DryRun: true})
	for k, h := range g.handles {
		g.shape[k] = handleShape(h)
	}
	for _, u := range w.plan.Shared {
		g.shared = append(g.shared, makeScope(u, w.lend))
	}
	return nil
}

// handleShape describes what a handle carries.
func handleShape(h *gorm.DB) string {
	s := h.Statement
	var cl []string
	for k, c := range s.Clauses {
		n := 0
		if wh, ok := c.Expression.(interface{ MergeClause() }); ok {
			_ = wh
		}
		cl = append(cl, fmt.Sprintf("%s:%v:%d", k, c.Expression, n))
	}
	sort.Strings(cl)
	return fmt.Sprintf("err=%v clauses=%v joins=%d sel=%v omit=%v table=%q schema=%v unscoped=%v vars=%d sql=%q",
		h.Error, cl, len(s.Joins), s.Selects, s.Omits, s.Table, false, s.Unscoped, len(s.Vars), s.SQL.String())
}

// checkHandles looks for residue on the shared handles.
func (w *World) checkHandles() {
	if w.g == nil {
		return
	}
	for _, k := range []string{"", "sess", "model", "where", "dry"} {
		h := w.g.handles[k]
		if h.Error != nil {
			w.violate(nil, "handle-error", []string{"C06", "C12"}, "shared handle %q is left with error %v", k, h.Error)
		} else if s := handleShape(h); s != w.g.shape[k] {
			w.violate(nil, "handle-residue", []string{"C06", "C12"}, "shared handle %q changed from %s to %s", k, w.g.shape[k], s)
		}
	}
}

// loan is a list handed to the code under test, and what it held then. More of
// the caller's data follows it in the same array.
type loan struct{ arr, want []string }

func copyList(l []string) []string { return append([]string(nil), l...) }

func (w *World) lend(l []string) []string {
	if l == nil {
		return nil
	}
	arr := append(copyList(l), "id > 0", "id < 0")
	w.loans = append(w.loans, loan{arr, copyList(arr)})
	return arr[:len(l)]
}

// checkLoans looks for lists of callers that were changed.
func (w *World) checkLoans() {
	for _, l := range w.loans {
		if !slices.Equal(l.arr, l.want) {
			w.violate(nil, "list-changed", []string{"C05", "C06"}, "the list %q of a caller was changed to %q", l.want, l.arr)
		}
	}
}

// checkLocks looks for locks of gorm's shared schemas that were never released:
// gorm waits for them when it parses further models.
func (w *World) checkLocks(o *OpRun) {
	if w.g == nil {
		return
	}
	for _, t := range append([]string{"twins"}, tableOrder...) {
		s := w.g.schemas[t]
		if s == nil {
			continue
		}
		mu := &s.Relationships.Mux
		if mu.TryLock() {
			mu.Unlock()
			continue
		}
		w.violate(o, "lock-left", []string{"C05", "C06", "C10"}, "a lock of the shared schema of %q was left held", t)
		// let the run come to its end
		for !mu.TryLock() {
			if mu.TryRLock() {
				mu.RUnlock()
				mu.RUnlock()
			} else {
				mu.Unlock()
			}
		}
		mu.Unlock()
	}
}

func makeScope(u Use, lend func([]string) []string) func(*gorm.DB) *gorm.DB {
	switch u.Via {
	case "list":
		q := gormq.MiniQuery{Query: lend(u.Texts)}
		return q.Scope
	default:
		t := ""
		if len(u.Texts) > 0 {
			t = u.Texts[0]
		}
		return gormq.ApplyMiniQuery(t)
	}
}

func newModel(table string) any {
	switch table {
	case "accounts":
		return &Account{}
	case "twins":
		return newTwin()
	case "devices":
		return &Device{}
	case "profiles":
		return &Profile{}
	case "companies":
		return &Company{}
	case "groups":
		return &Group{}
	case "badges":
		return &Badge{}
	}
	panic(harnessPanic("no model for " + table))
}

func newSlice(table string) any {
	t := reflect.TypeOf(newModel(table)).Elem()
	return reflect.New(reflect.SliceOf(t)).Interface()
}

// rowOf turns a model struct into a row.
func rowOf(t *Table, v reflect.Value) Row {
	row := make(Row, len(t.Cols))
	for i, c := range t.Cols {
		row[i] = fieldVal(v.FieldByName(c.Go).Interface())
	}
	return row
}

func fieldVal(x any) ref.Val {
	switch f := x.(type) {
	case int64:
		return ref.Int(f)
	case *int64:
		if f != nil {
			return ref.Int(*f)
		}
		return ref.Null
	case string:
		return ref.Text(f)
	case *string:
		if f != nil {
			return ref.Text(*f)
		}
		return ref.Null
	case bool:
		return ref.Bool(f)
	case time.Time:
		return ref.Text(f.UTC().Format(timeFormat))
	case gorm.DeletedAt:
		if f.Valid {
			return ref.Text(f.Time.UTC().Format(timeFormat))
		}
		return ref.Null
	}
	panic(harnessPanic(fmt.Sprintf("field type %T", x)))
}

func rowsOf(t *Table, slice any) []Row {
	v := reflect.ValueOf(slice).Elem()
	var out []Row
	for i := 0; i < v.Len(); i++ {
		out = append(out, rowOf(t, v.Index(i)))
	}
	return out
}

var errPre = errors.New("sim: earlier error of the session")
var errEnd = errors.New("sim: client gives up its transaction")

// chain builds the statement of the operation.
func (w *World) chain(o *OpRun, env any) *gorm.DB {
	op := o.Op
	g := w.g
	db := g.handles[op.Handle]
	if db == nil {
		panic(harnessPanic("handle " + op.Handle))
	}
	if tx, ok := env.(*gorm.DB); ok && tx != nil {
		db = tx
		if op.Handle == "dry" {
			db = tx.Session(&gorm.Session{DryRun: true})
		}
	}
	if o.ctx != nil && o.parent == nil {
		db = db.WithContext(o.ctx)
	}
	if op.Ended {
		// nothing is executed, so it may be a context that others can wait for
		var ctx context.Context
		ctx, o.end = context.WithCancel(context.Background())
		db = db.WithContext(ctx)
	}
	if op.NoModel != "" {
		db = w.noModel(o, db)
	}
	db = w.sessionOptions(db, op)
	t := o.tableName()
	direct := o.parent == nil && !op.PreErr && len(op.Sess) == 0 && t == op.table() && (len(op.Joins) == 0 || op.JoinLate) && (op.Handle == "model" || op.Handle == "where") && len(op.Conds) == 0 && len(op.Uses) > 0 && (op.Uses[0].Via == "wire" || op.Uses[0].Now) && op.Uses[0].Shared == 0
	if !direct {
		if op.NoModel == "" {
			db = db.Model(op.keyed())
		}
		if t != op.table() {
			db = db.Table(op.table() + " AS " + t)
		}
		if op.PreErr {
			_ = db.AddError(errPre)
		}
	}
	for _, c := range op.Conds {
		if c.Pos == 0 {
			db = w.cond(db, t, c)
		}
	}
	if !op.JoinLate {
		db = w.callerJoins(db, op, t)
	}
	var fork *gorm.DB
	for i, u := range op.Uses {
		if op.Fork != "" && i > 0 && i == len(op.Uses)-1 {
			db = db.Session(&gorm.Session{})
			fork = db
		}
		db = w.attach(db, op.Model, t, u)
	}
	if fork != nil {
		// another query is built from the same handle, but not executed
		_ = gormq.WireMiniQuery(fork, op.Fork)
	}
	if op.JoinLate {
		db = w.callerJoins(db, op, t)
	}
	for _, c := range op.Conds {
		if c.Pos == 1 {
			db = w.cond(db, t, c)
		}
	}
	if op.Unscoped {
		db = db.Unscoped()
	}
	if op.Order != "" {
		db = db.Order(w.sql("`" + t + "`.`id` " + op.Order))
		if op.sess("orders") {
			db = db.Order(w.sql("`" + t + "`.`tenant_id`")).Order(clause.OrderByColumn{Column: clause.Column{Table: t, Name: "hits"}, Desc: true})
		}
	}
	if op.Limit > 0 {
		db = db.Limit(op.Limit)
	}
	if op.Offset > 0 {
		db = db.Offset(op.Offset)
	}
	if len(op.Select) > 0 {
		sel := op.Select
		if len(o.V.Joins) > 0 || len(op.Joins) > 0 {
			sel = nil
			for _, s := range op.Select {
				sel = append(sel, w.sql("`"+t+"`.`"+s+"`"))
			}
		}
		db = db.Select(sel)
	}
	if op.Distinct {
		db = db.Distinct()
	}
	return db
}

// noModel names the table without a usable model.
func (w *World) noModel(o *OpRun, db *gorm.DB) *gorm.DB {
	if db.Statement.Model != nil || db.Statement.Schema != nil {
		db = w.g.handles["sess"]
		if o.ctx != nil {
			db = db.WithContext(o.ctx)
		}
	}
	db = db.Table(o.Op.table())
	if o.Op.NoModel == "bad" {
		db = db.Model(&[]int{})
	}
	return db
}

const aliasName = "acc"

// tableName is the name the operation's table has in its statement.
func (o *OpRun) tableName() string {
	if o.Op.Alias && !o.isWrite() && !(o.Op.Handle == "where" && o.parent == nil) {
		return aliasName
	}
	return o.Op.table()
}

// callerJoins adds the joins of the caller.
func (w *World) callerJoins(db *gorm.DB, op *Op, t string) *gorm.DB {
	for _, j := range op.Joins {
		inner := strings.HasPrefix(j, "inner:")
		switch {
		case inner:
			db = db.InnerJoins(strings.TrimPrefix(j, "inner:"))
		case j == "raw" && op.table() == "accounts":
			db = db.Joins(w.sql("LEFT JOIN `companies` ON `companies`.`cid` = `" + t + "`.`company_id`"))
		case j == "raw":
			db = db.Joins(w.sql("LEFT JOIN `accounts` ON `accounts`.`id` = `" + t + "`.`account_id`"))
		default:
			db = db.Joins(j)
		}
	}
	return db
}

// attach adds one use of filter texts to a query of the model, whose table has
// the name t in the statement.
func (w *World) attach(db *gorm.DB, model, t string, u Use) *gorm.DB {
	key := Tables[model].Cols[0].Name
	id := w.sql("`" + t + "`.`" + key + "`")
	fresh := func() *gorm.DB { return w.g.handles["sess"].Model(newModel(model)) }
	if u.Shared > 0 {
		return db.Scopes(func(db *gorm.DB) *gorm.DB { return w.keepSession(db, w.g.shared[u.Shared-1]) })
	}
	switch u.Via {
	case "wire":
		for _, x := range u.Texts {
			db = w.keepSession(db, func(db *gorm.DB) *gorm.DB { return gormq.WireMiniQuery(db, x) })
		}
	case "group":
		for _, x := range u.Texts {
			db = db.Where(gormq.WireMiniQuery(fresh(), x))
		}
	case "gscope":
		for _, x := range u.Texts {
			db = db.Where(fresh().Scopes(gormq.ApplyMiniQuery(x)))
		}
	case "orgroup":
		for _, x := range u.Texts {
			db = db.Where(w.g.handles["sess"].Where(id+" = ?", 1).Or(gormq.WireMiniQuery(fresh(), x)))
		}
	case "andgroup":
		for _, x := range u.Texts {
			db = db.Where(gormq.WireMiniQuery(fresh().Where(id+" >= ?", 1), x))
		}
	case "not":
		for _, x := range u.Texts {
			db = db.Not(gormq.WireMiniQuery(fresh(), x))
		}
	case "sub":
		for _, x := range u.Texts {
			db = db.Where(id+" IN (?)", fresh().Unscoped().Scopes(gormq.ApplyMiniQuery(x)).Select(key))
		}
	default:
		f := makeScope(u, w.lend)
		if u.Now {
			return w.keepSession(db, f)
		}
		db = db.Scopes(func(db *gorm.DB) *gorm.DB { return w.keepSession(db, f) })
	}
	return db
}

func (w *World) cond(db *gorm.DB, t string, c Cond) *gorm.DB {
	q := func(col string) string { return w.sql("`" + t + "`.`" + col + "`") }
	switch c.K {
	case "tenant":
		return db.Where(q("tenant_id")+" = ?", c.N)
	case "map":
		return db.Where(map[string]any{"tenant_id": c.N})
	case "struct":
		if t != "devices" {
			return db.Where(&Account{TenantID: c.N})
		}
		return db.Where(&Device{TenantID: c.N})
	case "age_or":
		return db.Where(q("age")+" > ? OR "+q("id")+" < ?", c.N, c.N+2)
	case "group":
		fresh := w.g.handles["sess"]
		return db.Where(fresh.Where(q("id")+" = ?", c.N).Or(q("hits")+" <= ?", c.N))
	case "not":
		return db.Not(q("id")+" = ?", c.N)
	case "key":
		return db
	}
	panic(harnessPanic("cond " + c.K))
}

func (c Cond) match(t *Table, row Row) bool {
	get := func(n string) ref.Val { return row[t.Idx(n)] }
	switch c.K {
	case "tenant", "map", "struct":
		return get("tenant_id").I == c.N
	case "age_or":
		a := get("age")
		return a.K == ref.VInt && a.I > c.N || row[0].I < c.N+2
	case "group":
		return row[0].I == c.N || get("hits").I <= c.N
	case "not":
		return row[0].I != c.N
	case "key":
		return row[0].I == c.N
	}
	return false
}

// keyed returns a model value that carries the key given as a condition.
func (op *Op) keyed() any {
	m := newModel(op.Model)
	for _, c := range op.Conds {
		if c.K == "key" {
			reflect.ValueOf(m).Elem().FieldByName("ID").SetInt(c.N)
		}
	}
	return m
}

// matching returns the rows of the model that the operation must touch.
func (w *World) matching(o *OpRun, filter bool) ([]Row, error) {
	t := Tables[o.Op.Model]
	del := t.Idx("deleted_at")
	var out []Row
	for _, row := range w.srv.state[t.Name] {
		if del >= 0 && !o.Op.Unscoped && row[del].K != ref.VNull {
			continue
		}
		ok := true
		for _, c := range o.Op.Conds {
			ok = ok && c.match(t, row)
		}
		if o.Op.Handle == "where" && o.parent == nil && row[t.Idx("tenant_id")].I != 1 {
			ok = false
		}
		for _, j := range o.Op.Joins {
			if n, inner := strings.CutPrefix(j, "inner:"); inner && relRow(w.srv.state, t, row, t.Rel(n), o.Op.Unscoped) == nil {
				ok = false
			}
		}
		if ok && filter {
			env := gormEnv(w.srv.state, t, row, o.Op.Unscoped)
			for _, e := range o.V.Conds {
				m, err := env.True(e)
				if err != nil {
					return nil, err
				}
				if !m {
					ok = false
					break
				}
			}
		}
		if ok {
			out = append(out, row)
		}
	}
	return out, nil
}

func cloneRows(l []Row) []Row {
	out := make([]Row, len(l))
	for i, r := range l {
		out[i] = append(Row(nil), r...)
	}
	return out
}

// expectRead evaluates the reference on the state the statement is about to see.
func (w *World) expectRead(o *OpRun) {
	switch o.Op.Kind {
	case "entsql", "entql", "entqllist":
		w.expectEnt(o)
		return
	case "preload", "assoc", "assoccount":
		w.expectRel(o)
		return
	}
	if o.V.Unsure || o.V.Reject {
		o.snaps = append(o.snaps, snap{txt: "unsure"})
		return
	}
	rows, err := w.readRows(o, true)
	if err != nil {
		o.V.Unsure, o.V.MayFail = true, true
		o.snaps = append(o.snaps, snap{txt: "unsure"})
		return
	}
	o.snaps = append(o.snaps, snap{rows: rows})
}

// readRows returns the rows a read of the operation's model must return now.
func (w *World) readRows(o *OpRun, filter bool) ([]Row, error) {
	rows, err := w.matching(o, filter)
	if err != nil {
		return nil, err
	}
	rows = cloneRows(rows)
	if o.Op.Order == "desc" || o.Op.Kind == "last" {
		for i, j := 0, len(rows)-1; i < j; i, j = i+1, j-1 {
			rows[i], rows[j] = rows[j], rows[i]
		}
	}
	if o.Op.Kind == "batches" {
		var l []Row
		for _, r := range rows {
			if r[0].I > o.n {
				l = append(l, r)
			}
		}
		if len(l) > 2 {
			l = l[:2]
		}
		rows = l
	}
	if o.Op.Offset > 0 {
		rows = rows[min(o.Op.Offset, len(rows)):]
	}
	if o.Op.Limit > 0 && len(rows) > o.Op.Limit {
		rows = rows[:o.Op.Limit]
	}
	return rows, nil
}

// expectWrite computes the content of the table after the write.
func (w *World) expectWrite(o *OpRun) (rows []Row, changed int, ok bool) {
	if o.V.Unsure || o.V.Reject || o.Op.Kind != "update" && o.Op.Kind != "delete" {
		return nil, 0, false
	}
	m, err := w.matching(o, true)
	if err != nil {
		o.V.Unsure, o.V.MayFail = true, true
		return nil, 0, false
	}
	hit := map[int64]bool{}
	for _, r := range m {
		hit[r[0].I] = true
	}
	t := Tables[o.Op.Model]
	o.touched = nil
	for _, r := range w.srv.state[t.Name] {
		if !hit[r[0].I] {
			rows = append(rows, r)
			continue
		}
		changed++
		c := append(Row(nil), r...)
		if o.Op.Kind == "update" {
			c[t.Idx("hits")].I++
			if o.Op.Set > 0 {
				c[t.Idx("age")] = ref.Int(o.Op.Set)
			}
			rows = append(rows, c)
		} else if d := t.Idx("deleted_at"); d >= 0 && !o.Op.Unscoped {
			c[d] = ref.Text(frozen.Format(timeFormat))
			rows = append(rows, c)
		}
		o.touched = append(o.touched, c)
	}
	if changed > 0 && changed < len(w.srv.state[t.Name]) {
		w.non(o)
	}
	return rows, changed, true
}

// gormOp runs an operation through gorm and checks it.
func (w *World) gormOp(o *OpRun, env any) {
	op := o.Op
	if op.Kind == "txn" {
		w.txnOp(o, env)
		return
	}
	t := Tables[op.Model]
	if op.Rel != "" {
		o.V = GormVerdict(Tables[t.Rel(op.Rel).Table], op.Uses, w.plan.Shared)
	} else {
		o.V = GormVerdict(t, op.Uses, w.plan.Shared)
	}
	if (op.Kind == "update" || op.Kind == "delete") && len(o.V.Joins) > 0 {
		o.V.MayFail = true
	}
	if op.NoModel != "" && !o.V.Reject {
		// without a model no field is a known column
		for _, e := range o.V.Conds {
			o.V.Reject = o.V.Reject || e.Has(func(x *ref.E) bool { return x.K == ref.KIdent || x.K == ref.KRef })
		}
		o.V.MayFail, o.V.Unsure = true, true
		o.V.Why = "there is no model"
	}
	for _, j := range op.Joins {
		// of two joins of one relation gorm keeps the first
		if n, ok := strings.CutPrefix(j, "inner:"); ok && op.JoinLate && o.V.Joins[n] {
			o.V.Unsure = true
		}
	}
	if o.isWrite() && len(o.V.Conds) == 0 && len(op.Conds) == 0 && op.Handle != "where" {
		// gorm refuses to write without any condition
		o.V.MayFail = true
		if !op.sess("global") && !o.V.Reject && !o.V.Unsure {
			o.bare = true
			for _, u := range op.Uses {
				if u.Shared > 0 {
					u = w.plan.Shared[u.Shared-1]
				}
				switch u.Via {
				case "apply", "list", "wire", "":
				default:
					o.bare = false
				}
			}
		}
	}
	for _, u := range op.Uses {
		k := fmt.Sprintf("s%d", u.Shared)
		if u.Shared > 0 {
			w.g.useCount[k]++
			o.useNo = max(o.useNo, w.g.useCount[k])
		}
	}
	if op.Handle != "" || o.parent != nil {
		w.g.useCount["h"+op.Handle]++
		o.useNo = max(o.useNo, w.g.useCount["h"+op.Handle])
	}
	if op.PreCancel && o.ctx != nil {
		o.ctx.cancelled = true
	}
	if op.Rel != "" {
		w.relOp(o, env)
		return
	}
	db := w.chain(o, env)
	var res *gorm.DB
	switch op.Kind {
	case "find":
		dest := newSlice(op.Model)
		res = db.Find(dest)
		o.rows = rowsOf(t, dest)
	case "first", "last", "take":
		dest := op.keyed()
		switch op.Kind {
		case "first":
			res = db.First(dest)
		case "last":
			res = db.Last(dest)
		default:
			res = db.Take(dest)
		}
		if res.Error == nil && op.Handle != "dry" {
			o.rows = []Row{rowOf(t, reflect.ValueOf(dest).Elem())}
		}
	case "count":
		res = db.Count(&o.n)
	case "pluck":
		var ids []int64
		res = db.Pluck(w.sql("`"+o.tableName()+"`.`id`"), &ids)
		for _, id := range ids {
			o.rows = append(o.rows, Row{ref.Int(id)})
		}
	case "maps":
		var l []map[string]any
		res = db.Find(&l)
		for _, m := range l {
			id, _ := m["id"].(int64)
			o.rows = append(o.rows, Row{ref.Int(id)})
		}
	case "scan":
		var l []struct{ ID, Hits int64 }
		res = db.Scan(&l)
		for _, m := range l {
			o.rows = append(o.rows, Row{ref.Int(m.ID)})
		}
	case "groupby":
		var l []struct{ TenantID, Hits int64 }
		res = db.Select(w.sql("`"+o.tableName()+"`.`tenant_id`, COUNT(*) AS `hits`")).Group(w.sql("`"+o.tableName()+"`.`tenant_id`")).Having("COUNT(*) > ?", 0).Scan(&l)
		for _, m := range l {
			o.rows = append(o.rows, Row{ref.Int(m.TenantID), ref.Int(m.Hits)})
		}
	case "firstinit":
		dest := newModel(op.Model)
		res = db.FirstOrInit(dest)
		if res.Error == nil && op.Handle != "dry" && res.RowsAffected > 0 {
			o.rows = []Row{rowOf(t, reflect.ValueOf(dest).Elem())}
		}
	case "rows":
		rows, err := db.Rows()
		if err != nil {
			o.Err = err
			break
		}
		for rows != nil && rows.Next() {
			dest := newModel(op.Model)
			if err := w.g.root.ScanRows(rows, dest); err != nil {
				o.Err = err
				break
			}
			o.rows = append(o.rows, rowOf(t, reflect.ValueOf(dest).Elem()))
		}
		if rows != nil {
			if err := rows.Err(); err != nil {
				o.Err = err
			}
			_ = rows.Close()
		}
	case "batches":
		dest := newSlice(op.Model)
		res = db.FindInBatches(dest, 2, func(tx *gorm.DB, batch int) error {
			l := rowsOf(t, dest)
			if i := len(o.snaps) - 1; i >= 0 && o.snaps[i].txt == "" {
				w.compareRows(o, l, o.snaps[i].rows, true)
			}
			if len(l) > 0 {
				o.n = l[len(l)-1][0].I
			}
			o.rows = append(o.rows, l...)
			return nil
		})
	case "update":
		m := map[string]any{"hits": gorm.Expr(w.sql("`hits` + ?"), 1)}
		if op.Set > 0 {
			m["age"] = op.Set
		}
		switch op.How {
		case "columns":
			res = db.UpdateColumns(m)
		case "select":
			res = db.Select("hits", "age").Updates(m)
		case "column", "quiet":
			// the last of the assignments alone when there are two
			if op.Set > 0 {
				panic(harnessPanic("two columns"))
			}
			if op.How == "column" {
				res = db.Update("hits", m["hits"])
			} else {
				res = db.UpdateColumn("hits", m["hits"])
			}
		case "returning":
			dest := newSlice(op.Model)
			res = db.Model(dest).Clauses(clause.Returning{}).Updates(m)
			o.rows = rowsOf(t, dest)
		default:
			res = db.Updates(m)
		}
	case "delete":
		switch op.How {
		case "returning":
			dest := newSlice(op.Model)
			res = db.Clauses(clause.Returning{}).Delete(dest)
			o.rows = rowsOf(t, dest)
		case "slice":
			res = db.Delete(newSlice(op.Model))
		default:
			res = db.Delete(op.keyed())
		}
	case "create", "save", "firstcreate":
		// these run with refused filters only: nothing may be written
		if !o.V.Reject {
			return
		}
		dest := newModel(op.Model)
		switch op.Kind {
		case "create":
			res = db.Create(dest)
		case "save":
			res = db.Save(dest)
		default:
			res = db.FirstOrCreate(dest)
		}
	}
	if res != nil {
		if s := res.Statement.Schema; s != nil {
			w.g.schemas[op.Model] = s
		}
		if simrt.Held() > 0 {
			w.checkLocks(o)
		}
		o.Err = res.Error
		o.affected = res.RowsAffected
		if o.bare {
			w.non(o)
			w.probe("bare_write")
			if o.Err == nil {
				w.violate(o, "bare-write", []string{"C03", "C12"}, "filter %q on %s: there is no condition, gorm refuses to write all rows, but this was accepted", o.texts(), o.desc())
			}
		}
		if op.Handle == "dry" && o.Err == nil && res.Statement.SQL.Len() == 0 && op.Kind != "count" && op.Kind != "batches" {
			w.violate(o, "dryrun", []string{"C12"}, "dry run produced no statement")
		}
		if op.Handle == "dry" && o.Err == nil && op.Kind != "count" && op.Kind != "batches" {
			w.checkDrySQL(o, res)
		}
	}
	w.judge(o)
}

func (o *OpRun) isWrite() bool { return o.Op.Kind == "update" || o.Op.Kind == "delete" }

// judge decides the outcome of a gorm operation.
func (w *World) judge(o *OpRun) {
	op := o.Op
	own := "C02"
	if o.isWrite() {
		own = "C03"
	}
	if op.PreErr {
		w.non(o)
		if o.Err == nil || !strings.Contains(o.Err.Error(), errPre.Error()) {
			w.violate(o, "pre-error", []string{"C12"}, "the session's earlier error was lost: %v", o.Err)
		}
		return
	}
	if o.V.Reject && !(op.Rel != "" && (op.PreCancel || o.excused && o.Err != nil || !o.relDue())) {
		w.non(o)
		w.probe("refused")
		if o.Err == nil {
			props := []string{"C01"}
			if o.V.ListReject {
				props = append(props, "C07")
			}
			if len(w.plan.Clients) > 1 {
				props = append(props, "C05")
			}
			w.violate(o, "refused-no-error", props, "filter %q must be refused (%s) but the operation reported success", o.texts(), o.V.Why)
		} else if errors.Is(o.Err, gorm.ErrRecordNotFound) {
			w.violate(o, "refused-no-error", []string{"C01"}, "filter %q must be refused (%s) but the operation reported only %v", o.texts(), o.V.Why, o.Err)
		}
		if o.Committed > 0 || o.Execs > 0 {
			w.violate(o, "refused-executed", []string{"C01"}, "refused filter %q changed data", o.texts())
		}
		return
	}
	if op.Handle == "dry" {
		w.non(o)
		if o.Err != nil && !o.V.MayFail && !o.excused && !errors.Is(o.Err, gorm.ErrDryRunModeUnsupported) {
			w.violate(o, "refused-valid", []string{"C02", "C12"}, "filter %q on %s: dry run fails: %v", o.texts(), o.desc(), o.Err)
		}
		return
	}
	if op.PreCancel {
		w.non(o)
		if o.Err == nil || o.executed > 0 {
			w.violate(o, "cancelled", []string{"C12"}, "context cancelled beforehand, yet executed=%d err=%v", o.executed, o.Err)
		}
		return
	}
	if errors.Is(o.Err, gorm.ErrRecordNotFound) {
		if op.Kind != "first" && op.Kind != "last" && op.Kind != "take" {
			w.violate(o, "unexplained-error", w.rowProps(o, own), "unexpected %v", o.Err)
			return
		}
		o.Err = nil
	}
	if o.Err != nil {
		if !o.excused && !o.V.MayFail {
			w.violate(o, "refused-valid", w.rowProps(o, own), "filter %q on %s: fails without a fault: %v", o.texts(), o.desc(), o.Err)
		}
		if o.isWrite() {
			w.non(o)
			if o.Committed > 0 && !o.ambig {
				w.violate(o, "error-but-applied", []string{"C03"}, "the write reported %v but took effect", o.Err)
			}
			if o.parent != nil {
				o.parent.aborted = true
			}
		}
		return
	}
	// success
	if o.isWrite() {
		if o.executed == 0 {
			w.violate(o, "not-executed", []string{"C03", "C12"}, "the write reported success but no statement was executed")
			return
		}
		if op.How == "returning" && !o.loose && !o.V.Unsure {
			w.compareRows(o, o.rows, o.touched, false)
		}
		if o.parent == nil && o.Committed != 1 {
			w.violate(o, "success-not-applied", []string{"C03"}, "the write reported success but was committed %d times", o.Committed)
		}
		if o.parent != nil && o.Execs != 1 && !(o.parent.txConn != nil && (o.parent.txConn.dead || !o.parent.txConn.inTx)) {
			w.violate(o, "success-not-applied", []string{"C03", "C12"}, "the write reported success but %d executions are pending in its transaction", o.Execs)
		}
		return
	}
	if op.Rel != "" {
		w.judgeRel(o)
		return
	}
	if len(o.snaps) == 0 {
		w.violate(o, "not-executed", w.rowProps(o, own), "the read reported success but no statement was executed")
		return
	}
	s := o.snaps[len(o.snaps)-1]
	if s.txt != "" || op.Kind == "batches" {
		return
	}
	total := len(w.srv.state[op.table()])
	if len(s.rows) > 0 && len(s.rows) < total {
		w.non(o)
	}
	switch op.Kind {
	case "count":
		if o.n != int64(len(s.rows)) {
			w.violate(o, "read-rows", w.rowProps(o, own), "filter %q on %s: count %d, expected %d", o.texts(), o.desc(), o.n, len(s.rows))
		}
	case "first", "last", "firstinit":
		want := s.rows
		if len(want) > 1 {
			want = want[:1]
		}
		w.compareRows(o, o.rows, want, true)
	case "take":
		if len(o.rows) == 0 && len(s.rows) == 0 {
			return
		}
		if len(o.rows) == 1 {
			for _, r := range s.rows {
				if r.String() == o.rows[0].String() {
					return
				}
			}
		}
		w.violate(o, "read-rows", w.rowProps(o, own), "filter %q on %s: take returned %v, candidates %v", o.texts(), o.desc(), o.rows, s.rows)
	case "groupby":
		n := map[int64]int64{}
		i := Tables[op.Model].Idx("tenant_id")
		for _, r := range s.rows {
			n[r[i].I]++
		}
		var want []Row
		for k, c := range n {
			want = append(want, Row{ref.Int(k), ref.Int(c)})
		}
		w.compareRows(o, o.rows, want, false)
	case "pluck", "maps", "scan":
		var want []Row
		for _, r := range s.rows {
			want = append(want, Row{r[0]})
		}
		w.compareRows(o, o.rows, want, op.Order != "")
	default:
		w.compareRows(o, o.rows, s.rows, op.Order != "")
	}
}

// compareRows compares returned with expected rows.
func (w *World) compareRows(o *OpRun, got, want []Row, ordered bool) {
	t := Tables[o.Op.Model]
	keep := func(r Row) string {
		if len(o.Op.Select) == 0 || len(r) != len(t.Cols) {
			return r.String()
		}
		c := make(Row, len(r))
		for i := range r {
			for _, s := range o.Op.Select {
				if t.Cols[i].Name == s {
					c[i] = r[i]
				}
			}
		}
		return c.String()
	}
	var a, b []string
	for _, r := range got {
		if len(o.Op.Select) > 0 && len(r) == len(t.Cols) {
			// columns that were not selected must come back empty
			for i, c := range t.Cols {
				sel := false
				for _, s := range o.Op.Select {
					sel = sel || s == c.Name
				}
				if !sel && c.Null && r[i].K != ref.VNull {
					w.violate(o, "select", []string{"C12"}, "column %s was not selected but came back as %v", c.Name, r[i])
					return
				}
			}
		}
		a = append(a, keep(r))
	}
	for _, r := range want {
		b = append(b, keep(r))
	}
	if !ordered {
		sort.Strings(a)
		sort.Strings(b)
	}
	if strings.Join(a, "\n") == strings.Join(b, "\n") {
		return
	}
	w.violate(o, "read-rows", w.rowProps(o, "C02"), "filter %q on %s: got %d rows %s, expected %d rows %s", o.texts(), o.desc(), len(got), ids(got), len(want), ids(want))
}

func ids(l []Row) string {
	var s []string
	for _, r := range l {
		if len(r) > 0 {
			s = append(s, r[0].String())
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}

// txnOp runs a transaction with sub-operations.
func (w *World) txnOp(o *OpRun, env any) {
	op := o.Op
	db := w.g.handles[op.Handle]
	if tx, ok := env.(*gorm.DB); ok && tx != nil {
		db = tx
		o.txConn, o.txID = o.parent.txConn, o.parent.txID
	} else if o.ctx != nil {
		db = db.WithContext(o.ctx)
	}
	var subs []*OpRun
	body := func(tx *gorm.DB) error {
		for i := range op.Sub {
			r := w.runOp(o.Client, fmt.Sprintf("%s.%d", o.Path, i), &op.Sub[i], o, tx)
			subs = append(subs, r)
			if w.herr != "" {
				return errEnd
			}
			if r.Err != nil && !errors.Is(r.Err, gorm.ErrRecordNotFound) {
				lost := o.txConn == nil || o.txConn.dead || !o.txConn.inTx
				if !op.Ignore || lost || r.excused {
					return r.Err
				}
			}
		}
		switch op.End {
		case "rollback", "error":
			return errEnd
		case "panic":
			panic(errTxPanic)
		}
		return nil
	}
	if op.Manual && env == nil {
		tx := db.Begin()
		if tx.Error != nil {
			o.Err = tx.Error
		} else if err := body(tx); err != nil {
			tx.Rollback()
			o.Err = err
		} else {
			o.Err = tx.Commit().Error
		}
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if r == errTxPanic {
						o.Err = errEnd
						return
					}
					panic(r)
				}
			}()
			o.Err = db.Transaction(body)
		}()
	}
	w.non(o)
	var committed, writes int
	for _, s := range subs {
		if s.isWrite() {
			if s.Execs > 0 || s.Committed > 0 {
				writes++
			}
			committed += s.Committed
		}
	}
	for _, s := range subs {
		o.explained = o.explained || s.V.Reject || s.V.MayFail || s.Op.PreErr || s.Op.PreCancel || s.explained
	}
	if o.parent != nil {
		if o.Err != nil {
			o.parent.excused = o.parent.excused || o.excused
		}
		return
	}
	switch {
	case o.Err == nil:
		if o.excused && !o.ambig {
			w.probe("tx_survived_fault")
		}
		if committed != writes {
			w.violate(o, "tx-partial", []string{"C03", "C12"}, "the transaction reported success, %d of %d writes were committed", committed, writes)
		}
	default:
		if errors.Is(o.Err, errEnd) {
			w.probe("tx_rolled_back")
		} else if !o.excused {
			ok := false
			for _, s := range subs {
				ok = ok || s.V.Reject || s.V.MayFail || s.excused || s.Op.PreErr || s.Op.PreCancel || s.explained
			}
			if !ok {
				w.violate(o, "unexplained-error", []string{"C12"}, "transaction fails without a fault: %v", o.Err)
			}
		}
		if committed > 0 && !o.ambig {
			w.violate(o, "tx-partial", []string{"C03", "C12"}, "the transaction reported %v but %d of its writes were committed", o.Err, committed)
		}
	}
}

var _ = context.Background
