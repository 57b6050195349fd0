// Package known has errors that callers like to treat specially, and errors of
// odd types.
package known

import (
	"bufio"
	"context"
	"database/sql"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"os/exec"
	"syscall"
)

var shared = errors.New("shared")

type nilErr struct{}

func (*nilErr) Error() string { return "typed nil" }

// errors a closer of the standard library may return, and odd ones.
type list []error

func (l list) Error() string { return fmt.Sprint([]error(l)) }

type empty struct{}

func (empty) Error() string { return "" }

type temporary struct{ error }

func (temporary) Temporary() bool { return true }
func (temporary) Timeout() bool   { return true }

// all: an error that says it is every other.
type all struct{}

func (all) Error() string   { return "all" }
func (all) Is(error) bool   { return true }
func (all) Unwrap() []error { return []error{os.ErrClosed, io.EOF, all2{}} }

type all2 struct{}

func (all2) Error() string { return "all" }

// Errors has them all; every one has a text.
var Errors = func() []error {
	base := []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortWrite, os.ErrClosed, os.ErrNotExist,
		os.ErrExist, os.ErrPermission, os.ErrInvalid, os.ErrDeadlineExceeded, os.ErrProcessDone, os.ErrNoDeadline, net.ErrClosed,
		net.ErrWriteToConnected, context.Canceled, context.DeadlineExceeded, syscall.EINVAL, syscall.EAGAIN, syscall.EINTR,
		syscall.EPIPE, syscall.EBADF, syscall.ECONNRESET, syscall.ENOTCONN, syscall.Errno(0), errors.ErrUnsupported,
		http.ErrServerClosed, http.ErrBodyReadAfterClose, sql.ErrConnDone, sql.ErrTxDone, sql.ErrNoRows, bufio.ErrTooLong,
		fs.SkipDir, fs.SkipAll, exec.ErrWaitDelay}
	out := append([]error{}, base...)
	for _, e := range base {
		out = append(out, fmt.Errorf("close: %w", e), &fs.PathError{Op: "close", Path: "x", Err: e}, errors.Join(e), errors.Join(e, shared), temporary{e})
	}
	return append(out, empty{}, list{}, list(nil), list{shared, nil}, &list{}, errors.New(""), (*nilErr)(nil),
		all{}, &net.OpError{Op: "close", Err: net.ErrClosed}, os.NewSyscallError("close", syscall.EBADF))
}()

// Same tells whether two errors are the very same, also uncomparable ones.
func Same(a, b error) bool {
	x, k := a.(list)
	y, l := b.(list)
	if k || l {
		return k && l && (x == nil) == (y == nil) && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	}
	return a == b
}
