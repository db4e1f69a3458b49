//sym:into ripsrc/verifsym

package verifsym

// Log is a logger that says nothing.
type Log struct{}

func (Log) Info(msg string, args ...interface{})  {}
func (Log) Debug(msg string, args ...interface{}) {}
func (Log) Warn(msg string, args ...interface{})  {}
func (Log) Error(msg string, args ...interface{}) {}
