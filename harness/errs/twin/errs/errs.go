// Package errs has a type named like one of another package of the same name.
package errs

type Same struct{ V int }

func (e *Same) Error() string { return "same" }
