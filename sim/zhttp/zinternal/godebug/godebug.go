//go:build go1.21

// Package godebug stands for internal/godebug: no setting is set.
package godebug

type Setting struct{ name string }

func New(name string) *Setting          { return &Setting{name} }
func (s *Setting) Name() string         { return s.name }
func (s *Setting) Value() string        { return "" }
func (s *Setting) String() string       { return s.name + "=" }
func (s *Setting) Undocumented() bool   { return false }
func (s *Setting) IncNonDefault()       {}
