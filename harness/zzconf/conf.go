// Package configloader is a model of github.com/effective-security/x/configloader for checking the generator: the
// files are the harness's.
package configloader

import (
	"errors"

	"gopkg.in/yaml.v3"
)

// Files has the files' texts (YAML) by name.
var Files = map[string]string{}

// Unmarshal decodes the file into v.
func Unmarshal(file string, v any) error {
	s, ok := Files[file]
	if !ok {
		return errors.New("no such file: " + file)
	}
	return yaml.Unmarshal([]byte(s), v)
}
