// Package simioutil stands in for the file functions of package io/ioutil.
package simioutil

import (
	"io/fs"

	"verif.local/simkit/simos"
)

// ReadFile reads a file.
func ReadFile(name string) ([]byte, error) { return simos.ReadFile(name) }

// WriteFile writes a file.
func WriteFile(name string, b []byte, perm fs.FileMode) error { return simos.WriteFile(name, b, perm) }

// TempFile creates a temporary file.
func TempFile(dir, pattern string) (*simos.File, error) { return simos.CreateTemp(dir, pattern) }

// TempDir creates a temporary directory.
func TempDir(dir, pattern string) (string, error) { return simos.MkdirTemp(dir, pattern) }

// ReadDir lists a directory.
func ReadDir(name string) ([]fs.FileInfo, error) {
	l, err := simos.ReadDir(name)
	var out []fs.FileInfo
	for _, e := range l {
		if i, err := e.Info(); err == nil {
			out = append(out, i)
		}
	}
	return out, err
}
