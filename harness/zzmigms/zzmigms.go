// Package sqlserver stands for golang-migrate's sqlserver driver.
package sqlserver

import (
	"context"
	"database/sql"

	file "github.com/effective-security/xdb/internal/zzmigfile"
	"github.com/golang-migrate/migrate/v4/database"
	"github.com/golang-migrate/migrate/v4/database/sqlserver"
)

type Config = sqlserver.Config

func WithInstance(db *sql.DB, config *Config) (database.Driver, error) {
	return file.Open("sqlserver", db)
}

func WithConnection(ctx context.Context, conn *sql.Conn, config *Config) (database.Driver, error) {
	return file.Open("sqlserver", nil)
}
