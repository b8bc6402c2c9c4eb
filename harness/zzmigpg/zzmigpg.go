// Package postgres stands for golang-migrate's postgres driver.
package postgres

import (
	"context"
	"database/sql"

	file "github.com/effective-security/xdb/internal/zzmigfile"
	"github.com/golang-migrate/migrate/v4/database"
	"github.com/golang-migrate/migrate/v4/database/postgres"
)

type Config = postgres.Config

func WithInstance(db *sql.DB, config *Config) (database.Driver, error) {
	return file.Open("postgres", db)
}

func WithConnection(ctx context.Context, conn *sql.Conn, config *Config) (database.Driver, error) {
	return file.Open("postgres", nil)
}
