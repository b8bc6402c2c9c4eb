// Package tablewriter is a model of github.com/olekukonko/tablewriter for checking pkg/print: it keeps header and
// rows of every rendered table, and writes them one row a line with the cells separated by bars.
package tablewriter

import (
	"fmt"
	"io"
)

// Table is one table; only what is rendered is in Rendered.
type Table struct {
	W      io.Writer
	Head   []string
	Rows   [][]string
	Foot   []string
	Capped string
}

// Config and Option are accepted and ignored: they change the looks only.
type (
	Config struct{}
	Option func(*Table)
)

// Rendered lists the rendered tables in order.
var Rendered []*Table

func NewTable(w io.Writer, opts ...Option) *Table { return (&Table{W: w}).Options(opts...) }
func NewWriter(w io.Writer) *Table                { return &Table{W: w} }

// WithHeader and WithFooter set header and footer.
func WithHeader(h []string) Option { return func(t *Table) { t.Header(h) } }
func WithFooter(f []string) Option { return func(t *Table) { t.Footer(f) } }

// Options applies the options.
func (t *Table) Options(opts ...Option) *Table {
	for _, o := range opts {
		o(t)
	}
	return t
}

func cells(list []any) []string {
	if len(list) == 1 {
		switch l := list[0].(type) {
		case []string:
			return append([]string(nil), l...)
		case []any:
			return cells(l)
		}
	}
	var res []string
	for _, e := range list {
		if s, ok := e.(string); ok {
			res = append(res, s)
		} else {
			res = append(res, fmt.Sprint(e))
		}
	}
	return res
}

func (t *Table) Header(list ...any) { t.Head = cells(list) }
func (t *Table) Footer(list ...any) { t.Foot = cells(list) }

func (t *Table) Append(list ...any) error {
	t.Rows = append(t.Rows, cells(list))
	return nil
}

func (t *Table) Bulk(rows any) error {
	switch l := rows.(type) {
	case [][]string:
		for _, r := range l {
			_ = t.Append(r)
		}
	case [][]any:
		for _, r := range l {
			_ = t.Append(r)
		}
	case []any:
		for _, r := range l {
			_ = t.Append(r)
		}
	default:
		panic("zztable: Bulk")
	}
	return nil
}

func (t *Table) Reset() { t.Head, t.Rows, t.Foot = nil, nil, nil }

func (t *Table) line(l []string) error {
	s := "|"
	for _, c := range l {
		s += c + "|"
	}
	_, err := io.WriteString(t.W, s+"\n")
	return err
}

func (t *Table) Render() error {
	c := *t
	c.Rows = append([][]string(nil), t.Rows...)
	Rendered = append(Rendered, &c)
	if err := t.line(t.Head); err != nil {
		return err
	}
	for _, r := range t.Rows {
		if err := t.line(r); err != nil {
			return err
		}
	}
	if t.Foot != nil {
		return t.line(t.Foot)
	}
	return nil
}

func (t *Table) Close() error { return nil }
