// Package sqlref computes the content of exported databases.
package sqlref

import (
	"database/sql"
	"fmt"
	"sort"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

// Config are the settings of the export.
type Config struct {
	Batch, Vars int
	Sep         string
	Tables      bool
}

func (c Config) String() string {
	return fmt.Sprintf("batch=%d vars=%d sep=%q fieldtables=%v", c.Batch, c.Vars, c.Sep, c.Tables)
}

// DB is the content of a database: table -> sorted rows, each "column=value" in column order.
type DB map[string][]string

// Cell is one cell of a row.
func Cell(column string, v any) string {
	if v == nil {
		return column + "=NULL;"
	}
	switch v := v.(type) {
	case []byte:
		return fmt.Sprintf("%s=%q;", column, string(v))
	case string:
		return fmt.Sprintf("%s=%q;", column, v)
	}
	return fmt.Sprintf("%s=%T %v;", column, v, v)
}

// Expect computes the content of the database; widest is the widest row to be inserted.
func Expect(pb *pathbuilder.Pathbuilder, data map[string][]wisski.Entity, cfg Config) (out DB, widest int) {
	out = DB{}
	var bundle func(b *pathbuilder.Bundle, top bool)
	bundle = func(b *pathbuilder.Bundle, top bool) {
		out["bundle__"+b.MachineName()] = []string{}
		if cfg.Tables {
			for _, f := range b.ChildFields {
				out["field__"+b.MachineName()+"__"+f.MachineName()] = []string{}
			}
		}
		for _, c := range b.ChildBundles {
			bundle(c, false)
		}
	}
	var entity func(b *pathbuilder.Bundle, parent string, top bool, e wisski.Entity)
	entity = func(b *pathbuilder.Bundle, parent string, top bool, e wisski.Entity) {
		row := Cell("uri", string(e.URI))
		w := 1
		if !top {
			row += Cell("parent", parent)
			w++
		}
		for _, f := range b.ChildFields {
			vs := e.Fields[f.MachineName()]
			if cfg.Tables {
				t := "field__" + b.MachineName() + "__" + f.MachineName()
				for _, v := range vs {
					out[t] = append(out[t], Cell("uri", string(e.URI))+Cell("value", string(v.Value))+Cell("lang", string(v.Language)))
					if widest < 3 {
						widest = 3
					}
				}
				continue
			}
			w++
			if len(vs) == 0 {
				row += Cell("field__"+f.MachineName(), nil)
				continue
			}
			var ss []string
			for _, v := range vs {
				ss = append(ss, string(v.Value))
			}
			row += Cell("field__"+f.MachineName(), strings.Join(ss, cfg.Sep))
		}
		out["bundle__"+b.MachineName()] = append(out["bundle__"+b.MachineName()], row)
		if w > widest {
			widest = w
		}
		for _, c := range b.ChildBundles {
			for _, ce := range e.Children[c.MachineName()] {
				entity(c, string(e.URI), false, ce)
			}
		}
	}
	for _, b := range pb.Bundles() {
		bundle(b, true)
		for _, e := range data[b.MachineName()] {
			entity(b, "", true, e)
		}
	}
	for _, rows := range out {
		sort.Strings(rows)
	}
	return
}

// Content reads the given tables.
func Content(conn *sql.DB, want DB) (DB, error) {
	out := DB{}
	for t := range want {
		rows, err := conn.Query(`SELECT * FROM "` + t + `"`)
		if err != nil {
			return nil, fmt.Errorf("table %s: %w", t, err)
		}
		cols, _ := rows.Columns()
		out[t] = []string{}
		for rows.Next() {
			vals, ptrs := make([]any, len(cols)), make([]any, len(cols))
			for i := range vals {
				ptrs[i] = &vals[i]
			}
			if err := rows.Scan(ptrs...); err != nil {
				rows.Close()
				return nil, err
			}
			m := map[string]any{}
			for i, c := range cols {
				m[c] = vals[i]
			}
			row := ""
			// the address, the parent and the value come first, the fields in the order of the pathbuilder
			row += Cell("uri", m["uri"])
			for _, c := range cols {
				if c != "uri" {
					row += Cell(c, m[c])
				}
			}
			out[t] = append(out[t], row)
		}
		if err := rows.Err(); err != nil {
			return nil, err
		}
		rows.Close()
		sort.Strings(out[t])
	}
	return out, nil
}

// Same compares.
func Same(got, want DB) error {
	for t, w := range want {
		if strings.Join(got[t], "\n") != strings.Join(w, "\n") {
			return fmt.Errorf("table %s holds\n%s\nexpected\n%s", t, strings.Join(got[t], "\n"), strings.Join(w, "\n"))
		}
	}
	return nil
}
