//go:build !race

package main

import (
	"database/sql/driver"
	"strconv"
	"strings"

	gosqlite "github.com/glebarez/go-sqlite"
	"github.com/glebarez/sqlite"
	"gorm.io/gorm"
	"gorm.io/gorm/clause"

	"verifsim/core"
)

// The race-detecting build runs without a database.
func init() {
	core.OpenReal = func() (driver.Conn, error) { return (&gosqlite.Driver{}).Open(":memory:") }
	core.OpenDialector = func(pool gorm.ConnPool, pg bool) gorm.Dialector {
		if pg {
			return pgDialector{sqlite.Dialector{Conn: pool}}
		}
		return sqlite.Dialector{Conn: pool}
	}
}

// pgDialector quotes names and numbers parameters like Postgres.
type pgDialector struct{ sqlite.Dialector }

func (pgDialector) Name() string { return "postgres" }

func (pgDialector) BindVarTo(w clause.Writer, stmt *gorm.Statement, v any) {
	_, _ = w.WriteString("$" + strconv.Itoa(len(stmt.Vars)))
}

func (d pgDialector) QuoteTo(w clause.Writer, s string) {
	var b strings.Builder
	d.Dialector.QuoteTo(&b, strings.ReplaceAll(s, `"`, "`"))
	_, _ = w.WriteString(strings.ReplaceAll(b.String(), "`", `"`))
}
