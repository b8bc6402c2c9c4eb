package schema

import (
	"context"
	"errors"

	"github.com/effective-security/xdb/schema"
)

// zzProv is a schema provider that answers as the harness says.
type zzProv struct {
	tables, views    schema.Tables
	keys             schema.ForeignKeys
	fail             string
	calls            []string
	schemas, names   []string
	vschemas, vnames []string
	deps             bool
	name             string // postgres if empty
}

var errZZ = errors.New("cannot list")

func (p *zzProv) Name() string {
	if p.name != "" {
		return p.name
	}
	return "postgres"
}
func (p *zzProv) called(what string) error {
	p.calls = append(p.calls, what)
	if p.fail == what {
		return errZZ
	}
	return nil
}
func (p *zzProv) ListTables(_ context.Context, s, t []string, deps bool) (schema.Tables, error) {
	p.schemas, p.names, p.deps = s, t, deps
	if err := p.called("tables"); err != nil {
		return nil, err
	}
	return p.tables, nil
}
func (p *zzProv) ListViews(_ context.Context, s, t []string) (schema.Tables, error) {
	p.vschemas, p.vnames = s, t
	if err := p.called("views"); err != nil {
		return nil, err
	}
	return p.views, nil
}
func (p *zzProv) ListForeignKeys(_ context.Context, s, t []string) (schema.ForeignKeys, error) {
	p.schemas, p.names = s, t
	if err := p.called("keys"); err != nil {
		return nil, err
	}
	return p.keys, nil
}

func zzSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
