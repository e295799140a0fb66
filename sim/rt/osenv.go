//go:build go1.21

package rt

import (
	"crypto/tls"
	"io/fs"
	"os"
	"syscall"
	"time"
)

// SimFile is a file of the simulated process.
type SimFile struct {
	Data []byte
	Err  error // opening it fails
	Cut  int   // >0: reading fails with EIO after Cut-1 bytes
}

// Proc is the world of a simulated process: its environment and its files. While
// it is nil the functions below are the real ones.
type Proc struct {
	Env   map[string]string
	Files map[string]*SimFile
	Reads int // files read
	Exits int
}

// Exit is the panic value that stands for the end of the process.
type Exit struct{ Code int }

var proc *Proc

// SetProc installs the simulated process (nil: none).
func SetProc(p *Proc) { proc = p }

func OsExit(code int) {
	if proc == nil {
		os.Exit(code)
	}
	proc.Exits++
	panic(Exit{code})
}

func OsLookupEnv(k string) (string, bool) {
	if proc == nil {
		return os.LookupEnv(k)
	}
	v, ok := proc.Env[k]
	return v, ok
}

func OsGetenv(k string) string {
	v, _ := OsLookupEnv(k)
	return v
}

func OsEnviron() []string {
	if proc == nil {
		return os.Environ()
	}
	var out []string
	for k, v := range proc.Env {
		out = append(out, k+"="+v)
	}
	// order of the map does not matter to a correct program, but the run has to be repeatable
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func (p *Proc) file(op, name string) (*SimFile, error) {
	YH()
	p.Reads++
	f := p.Files[name]
	if f == nil {
		return nil, &fs.PathError{Op: op, Path: name, Err: syscall.ENOENT}
	}
	if f.Err != nil {
		return nil, &fs.PathError{Op: op, Path: name, Err: f.Err}
	}
	return f, nil
}

func OsReadFile(name string) ([]byte, error) {
	if proc == nil {
		return os.ReadFile(name)
	}
	f, err := proc.file("open", name)
	if err != nil {
		return nil, err
	}
	d := append([]byte(nil), f.Data...)
	if f.Cut > 0 && f.Cut-1 <= len(d) {
		return d[:f.Cut-1], &fs.PathError{Op: "read", Path: name, Err: syscall.EIO}
	}
	return d, nil
}

func OsOpen(name string) (*os.File, error) {
	if proc == nil {
		return os.Open(name)
	}
	f, err := proc.file("open", name)
	if err != nil {
		return nil, err
	}
	if f.Cut > 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EIO}
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	if len(f.Data) > 60000 {
		panic("simulated file too large")
	}
	w.Write(f.Data)
	w.Close()
	return r, nil
}

type simInfo struct {
	name string
	n    int
}

func (i simInfo) Name() string       { return i.name }
func (i simInfo) Size() int64        { return int64(i.n) }
func (i simInfo) Mode() fs.FileMode  { return 0644 }
func (i simInfo) ModTime() time.Time { return time.Time{} }
func (i simInfo) IsDir() bool        { return false }
func (i simInfo) Sys() any           { return nil }

func OsStat(name string) (os.FileInfo, error) {
	if proc == nil {
		return os.Stat(name)
	}
	f := proc.Files[name]
	if f == nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return simInfo{name, len(f.Data)}, nil
}

func TlsLoadX509KeyPair(certFile, keyFile string) (tls.Certificate, error) {
	c, err := OsReadFile(certFile)
	if err != nil {
		return tls.Certificate{}, err
	}
	k, err := OsReadFile(keyFile)
	if err != nil {
		return tls.Certificate{}, err
	}
	return tls.X509KeyPair(c, k)
}
