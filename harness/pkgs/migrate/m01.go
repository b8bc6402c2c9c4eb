package migrate

import (
	"database/sql"
	"errors"
	"strconv"

	file "github.com/effective-security/xdb/internal/zzmigfile"
	"github.com/effective-security/xdb/internal/zzsym"
	"github.com/golang-migrate/migrate/v4/database"
)

func zzHas(v int) bool {
	for _, x := range file.Versions {
		if int(x) == v {
			return true
		}
	}
	return false
}

func zzErrors() error {
	return []error{
		errors.New("boom"),
		errors.New("no change in line 1"),
		errors.New(`pq: column "no change" does not exist`),
	}[zzsym.Choose("error", 3)]
}

// zzCase runs one migration on the model and checks it against the specification; failAt is the operation that fails.
func zzCase(fault bool) {
	file.Reset()
	file.Versions = [][]uint{{1, 2, 3}, {2, 4}, {1}}[zzsym.Choose("folder", 3)]
	provider := []string{"postgres", "pgsql", "sqlserver"}[zzsym.Choose("provider", 3)]
	file.V = zzsym.IntRange("recorded", 0, 4)
	if file.V == 0 {
		file.V = database.NilVersion
	}
	file.Dirty = zzsym.Bool("dirty")
	zzsym.Assume(!(file.V == database.NilVersion && file.Dirty))
	fv := zzsym.IntRange("force", -1, 4)
	mv := zzsym.IntRange("migrate", -1, 5)
	if fault {
		file.FailAt = zzsym.IntRange("at", 1, 30)
		file.Err = zzErrors()
	}
	zzRun(provider, fv, mv)
}

func zzRun(provider string, fv, mv int) {
	db := &sql.DB{}
	start, dirty := file.V, file.Dirty

	err := Migrate(provider, "name", ".", fv, mv, db)

	want := "postgres"
	if provider == "sqlserver" {
		want = "sqlserver"
	}
	// the specification
	cur := start
	if fv > 0 {
		cur, dirty = fv, false
	}
	ok := !dirty
	target := int(file.Versions[len(file.Versions)-1])
	if mv > 0 {
		target = mv
		ok = ok && zzHas(mv)
	}
	if cur != database.NilVersion {
		ok = ok && zzHas(cur)
	}
	var runs []string
	if cur < target {
		for _, v := range file.Versions {
			if int(v) > cur && int(v) <= target {
				runs = append(runs, "up"+strconv.Itoa(int(v)))
			}
		}
	} else {
		for i := len(file.Versions) - 1; i >= 0; i-- {
			if v := int(file.Versions[i]); v > target && v <= cur {
				runs = append(runs, "down"+strconv.Itoa(v))
			}
		}
	}
	if file.FailAt == 0 {
		zzsym.Trace("ops", len(file.Ops))
	}
	if file.Fired {
		if !(ok && cur == target && file.OnlyUnlock(fv > 0, target)) {
			zzsym.Assert(err != nil, "a failing step is not reported")
		}
		zzsym.Assert(!ok || len(file.Runs) <= len(runs), "migrations run after a failing step")
		for i, r := range file.Runs {
			zzsym.Assert(ok && r == runs[i], "other migrations run before a failing step")
		}
		zzsym.Reached("failed step")
		return
	}
	if !ok {
		zzsym.Assert(err != nil, "an impossible migration is reported as success")
		zzsym.Assert(len(file.Runs) == 0, "an impossible migration runs migrations")
		zzsym.Assert(file.V == cur && file.Dirty == dirty, "an impossible migration changes the recorded version")
		zzsym.Reached("impossible")
		return
	}
	zzsym.Assert(err == nil, "a possible migration fails")
	zzsym.Assert(file.V == target && !file.Dirty, "the requested version is not reached")
	zzsym.Assert(len(file.Runs) == len(runs), "number of migrations run")
	for i, r := range runs {
		zzsym.Assert(file.Runs[i] == r, "migrations run")
	}
	zzsym.Assert(file.Kind == want && file.DB == db, "database used")
	zzsym.Assert(file.URL == "file://.", "folder used")
	zzsym.Assert(!file.Locked, "the database stays locked")
	zzsym.Reached("migrated")
}

// Every configuration and recorded state, without failing steps.
func ZZM01_Versions() { zzCase(false) }

// Every configuration and recorded state with one failing step.
func ZZM01_Faults() { zzCase(true) }

// 25 migrations, with small or with timestamp-like versions: recorded, forced and requested versions among the first, the last, one in the middle and an unknown
// one; without failing steps or with any one.
func ZZM01_Many() {
	file.Reset()
	base := []uint{0, 20240131235900, 1<<32 - 10}[zzsym.Choose("numbers", 3)]
	file.Versions = nil
	for i := uint(1); i <= 25; i++ {
		file.Versions = append(file.Versions, base+i*i)
	}
	pick := func(l string, none int) int {
		if k := zzsym.Choose(l, 5); k > 0 {
			return int(base) + []int{1, 144, 625, 150}[k-1]
		}
		return none
	}
	file.V = pick("recorded", database.NilVersion)
	file.Dirty = zzsym.Bool("dirty")
	zzsym.Assume(!(file.V == database.NilVersion && file.Dirty))
	fv, mv := pick("force", 0), pick("migrate", 0)
	if zzsym.Choose("fault", 2) == 1 {
		file.FailAt = []int{3, 5, 20, 40, 41, 60}[zzsym.Choose("at", 6)]
		file.Err = errors.New("boom")
	}
	zzRun([]string{"postgres", "sqlserver"}[zzsym.Choose("provider", 2)], fv, mv)
}

// What is refused, or nothing to do, touches nothing.
func ZZM01_Refused() {
	file.Reset()
	file.Versions = []uint{1, 2}
	fv := int(zzsym.I32("force"))
	mv := int(zzsym.I32("migrate"))
	db := &sql.DB{}
	n := zzsym.Choose("length", 4)
	if zzsym.Bool("long") {
		n = 8 + zzsym.Choose("length", 2)
	}
	name := zzsym.Str("provider", n)
	switch zzsym.Choose("case", 3) {
	case 0:
		zzsym.Assert(Migrate(name, "name", "", fv, mv, db) == nil, "without a folder")
	case 1:
		zzsym.Assert(Migrate(name, "name", "/nonexistent/folder", fv, mv, db) != nil, "a missing folder is accepted")
	default:
		zzsym.Assume(zzsym.And(name != "postgres", zzsym.And(name != "pgsql", name != "sqlserver")))
		zzsym.Assert(Migrate(name, "name", ".", fv, mv, db) != nil, "an unsupported database is accepted")
	}
	zzsym.Assert(file.Kind == "" && file.Sets == 0 && len(file.Runs) == 0, "the database is touched")
	zzsym.Reached("end")
}
