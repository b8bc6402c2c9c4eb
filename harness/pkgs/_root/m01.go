package xdb

import (
	"errors"

	"github.com/effective-security/xdb/internal/zzdrv"
	file "github.com/effective-security/xdb/internal/zzmigfile"
	"github.com/effective-security/xdb/internal/zzsym"
	"github.com/golang-migrate/migrate/v4/database"
)

// A provider opened with a migration configuration applies it to its database, or is not opened.
func ZZM01_Provider() {
	file.Reset()
	file.Versions = []uint{1, 2, 3}
	d := &zzdrv.DB{}
	pg, ms := &zzdrv.Driver{DB: d}, &zzdrv.Driver{DB: d}
	zzdrv.Register("postgres", pg)
	zzdrv.Register("sqlserver", ms)
	src, want := "postgres://h?sslmode=disable", "postgres"
	if zzsym.Bool("ms") {
		src, want = "sqlserver://sa:p@h", "sqlserver"
	}
	file.V = database.NilVersion
	var cfg *MigrationConfig
	none := true
	fv, mv := zzsym.IntRange("force", 0, 3), zzsym.IntRange("migrate", 0, 4)
	switch zzsym.Choose("config", 4) {
	case 0:
	case 1:
		cfg = &MigrationConfig{ForceVersion: fv, MigrateVersion: mv}
	case 2:
		cfg = &MigrationConfig{Source: "/nonexistent/x", ForceVersion: fv, MigrateVersion: mv}
	default:
		cfg = &MigrationConfig{Source: ".", ForceVersion: fv, MigrateVersion: mv}
		none = false
		if zzsym.Bool("fault") {
			file.FailAt = zzsym.IntRange("at", 1, 20)
			file.Err = errors.New("boom")
		}
	}
	p, err := NewProvider(src, "", &zzIDGen{n: 40}, cfg)
	ok := !file.Fired && (none || mv <= 3)
	if cfg != nil && cfg.Source == "/nonexistent/x" {
		ok = false
	}
	target := 3
	if mv > 0 {
		target = mv
	}
	if !none && file.OnlyUnlock(fv > 0, target) {
		ok = err == nil
	}
	zzsym.Assert((err == nil) == ok, "outcome of opening with migration")
	if none {
		zzsym.Assert(file.Kind == "" && file.Sets == 0 && len(file.Runs) == 0, "the database is touched without a usable migration configuration")
	}
	if err != nil {
		zzsym.Assert(p == nil, "a provider is returned with the error")
		zzsym.Assert(d.OpenConns == 0, "a connection stays open after a failed migration")
		zzsym.Reached("failed")
		return
	}
	if !none {
		zzsym.Assert(file.V == target && !file.Dirty, "the requested version is not reached")
		zzsym.Assert(file.Kind == want && file.DB != nil, "database used")
		zzsym.Assert(DB(file.DB) == p.DB(), "the migrated database is not the provider's")
	}
	zzsym.Assert(p.Close() == nil, "Close")
	zzsym.Assert(d.OpenConns == 0, "a connection stays open after Close")
	zzsym.Reached("opened")
}
