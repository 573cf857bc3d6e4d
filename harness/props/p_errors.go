package props

import (
	"errors"
	"strconv"

	sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"
	"verif/harness/sym"
)

// contains tells whether s has t in it.
func contains(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return true
		}
	}
	return false
}

var sentinels = []error{
	sqlerrors.ErrNotImplemented, sqlerrors.ErrNotSupported, sqlerrors.ErrNotExist, sqlerrors.ErrExist,
	sqlerrors.ErrNotEqual, sqlerrors.ErrInvalid, sqlerrors.ErrNotFound, sqlerrors.ErrNoRows,
}

// every error made for a name is of its kind and of no other, and has the name
func E31_Kinds() {
	x := sym.Str("x", 0, 3, "text")
	var err, want error
	what := ""
	switch sym.Choose("k", 15) {
	case 0:
		err, want, what = sqlerrors.NewErrNotImplemented(x), sqlerrors.ErrNotImplemented, ""
	case 1:
		err, want, what = sqlerrors.NewErrNotExist(x), sqlerrors.ErrNotExist, ""
	case 2:
		err, want, what = sqlerrors.NewErrExist(x), sqlerrors.ErrExist, ""
	case 3:
		err, want, what = sqlerrors.NewErrNotSupported(x), sqlerrors.ErrNotSupported, ""
	case 4:
		err, want, what = sqlerrors.NewErrDatabaseNotExist(x), sqlerrors.ErrNotExist, "database"
	case 5:
		err, want, what = sqlerrors.NewErrTableNotExist(x), sqlerrors.ErrNotExist, "table"
	case 6:
		err, want, what = sqlerrors.NewErrDatabaseExist(x), sqlerrors.ErrExist, "database"
	case 7:
		err, want, what = sqlerrors.NewErrTableExist(x), sqlerrors.ErrExist, "table"
	case 8:
		err, want, what = sqlerrors.NewErrColumnNotExist(x), sqlerrors.ErrNotExist, "column"
	case 9:
		err, want, what = sqlerrors.NewErrColumnValueNotExist(x), sqlerrors.ErrNotExist, "column"
	case 10:
		err, want, what = sqlerrors.NewErrGroupByColumnValueNotFound(x), sqlerrors.ErrNotFound, "column"
	case 11:
		err, want, what = sqlerrors.NewErrPreparedStatementNotExist(x), sqlerrors.ErrNotExist, "prepared statement"
	case 12:
		err, want, what = sqlerrors.NewErrPreparedPortalNotExist(x), sqlerrors.ErrNotExist, "prepared portal"
	case 13:
		err, want, what = sqlerrors.NewErrMultiplePreparedStatementNotSupported(x), sqlerrors.ErrNotSupported, "prepared statement"
	case 14:
		err, want, what = sqlerrors.NewErrMultipleTableNotSupported(x), sqlerrors.ErrNotSupported, "table"
	}
	for _, s := range sentinels {
		sym.Assert(errors.Is(err, s) == (s == want), "an error is of its kind and of no other")
	}
	msg := err.Error()
	sym.Assert(contains(msg, x), "an error names what it is about")
	sym.Assert(contains(msg, what), "an error says what it is about")
	sym.Assert(contains(msg, want.Error()), "an error says what went wrong")
	sym.Cover("end")
}

// an error about two counts has both
func E31_Counts() {
	a, b := sym.Choose("a", 12), sym.Choose("b", 12)
	err := sqlerrors.NewErrColumnsNotEqual(a, b)
	for _, s := range sentinels {
		sym.Assert(errors.Is(err, s) == (s == sqlerrors.ErrNotEqual), "an error is of its kind and of no other")
	}
	sym.Assert(contains(err.Error(), strconv.Itoa(a)) && contains(err.Error(), strconv.Itoa(b)), "an error has the counts it is about")
	sym.Cover("end")
}

// codes and classes are those of the documentation
func E32_Codes() {
	s := sqlStates[sym.Choose("code", len(sqlStates))]
	sym.Assert(string(s.c) == s.v, "an error code has its documented value")
	sym.Assert(s.c.String() == s.descr, "an error code has its own description")
	cls := sqlerrors.Class(s.v[:2])
	sym.Assert(cls.String() != "Unknown Class", "the class of an error code is known")
	sym.Cover("end")
}

func E32_Classes() {
	s := sqlClasses[sym.Choose("class", len(sqlClasses))]
	sym.Assert(string(s.c) == s.v, "an error class has its documented value")
	sym.Assert(s.c.String() == s.descr, "an error class has its own description")
	sym.Cover("end")
}

// any text of the shape of a code or class is described as documented
func E32_AnyCode() {
	v := sym.Str("v", 0, 6, "ascii")
	got := sqlerrors.Code(v).String()
	want := "Unknown Code"
	for _, s := range sqlStates {
		if s.v == v {
			want = s.descr
			sym.Cover("known")
			break
		}
	}
	sym.Assert(got == want, "a code that is not documented is unknown")
	sym.Cover("end")
}

func E32_AnyClass() {
	v := sym.Str("v", 0, 3, "ascii")
	got := sqlerrors.Class(v).String()
	want := "Unknown Class"
	for _, s := range sqlClasses {
		if s.v == v {
			want = s.descr
			sym.Cover("known")
			break
		}
	}
	sym.Assert(got == want, "a class that is not documented is unknown")
	sym.Cover("end")
}
