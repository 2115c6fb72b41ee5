// Package pir is a stand-in for checklist/pir (not installable offline).
package pir

import (
	"math/rand"
	"time"
)

// PirType names the scheme.
type PirType string

// RandSource is the client's randomness.
func RandSource() *rand.Rand { return rand.New(rand.NewSource(time.Now().UnixNano())) }

// Row is a database row.
type Row []byte
