//go:build !no_license

//sym:into ripsrc/verifsym/vlic

// Package vlic stands for the detector of licenses.
package vlic

import (
	"gopkg.in/src-d/go-license-detector.v2/licensedb"
	"gopkg.in/src-d/go-license-detector.v2/licensedb/filer"
)

// Result of the next detection; nil is no license.
var Result map[string]float32

// Asked is the name and content last given.
var Asked string
var Content []byte
var Asks int

// Detect replaces the detector.
//
//sym:subst[license] gopkg.in/src-d/go-license-detector.v2/licensedb.Detect
func Detect(fs filer.Filer) (map[string]float32, error) {
	Asks++
	files, err := fs.ReadDir("")
	if err != nil {
		return nil, err
	}
	for _, f := range files {
		Asked = f.Name
		Content, err = fs.ReadFile(f.Name)
		if err != nil {
			return nil, err
		}
	}
	if Result == nil {
		return nil, licensedb.ErrNoLicenseFound
	}
	return Result, nil
}
