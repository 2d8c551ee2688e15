"""Overlay of the standard library's os package (used through go build -overlay).

Every operation that changes a file or a directory first calls VerifHook, if it is set.
A hook may record the operation, wait, or return an error that the operation then fails with.
"""
import os

HOOK = '''
// VerifHook is called before an operation that changes the file system.
var VerifHook func(op, name, name2 string, b []byte, off int64) error

func verifHook(op, name, name2 string, b []byte, off int64) error {
	if h := VerifHook; h != nil {
		return h(op, name, name2, b, off)
	}
	return nil
}
'''


def after(text, header, code):
    """inserts code at the start of the function with the given header"""
    assert text.count('\n' + header + '\n') == 1, header
    return text.replace('\n' + header + '\n', '\n' + header + '\n' + code + '\n', 1)


def overlay(goroot):
    d = os.path.join(goroot, 'src', 'os')
    rd = lambda n: open(os.path.join(d, n)).read()
    f, u, p = rd('file.go'), rd('file_unix.go'), rd('file_posix.go')
    f = after(f, 'func (f *File) Write(b []byte) (n int, err error) {', '''	if VerifHook != nil && f != nil {
		off, _ := f.seek(0, 1)
		if err := verifHook("write", f.name, "", b, off); err != nil {
			return 0, &PathError{Op: "write", Path: f.name, Err: err}
		}
	}''')
    f = after(f, 'func (f *File) WriteAt(b []byte, off int64) (n int, err error) {', '''	if VerifHook != nil && f != nil {
		if err := verifHook("write", f.name, "", b, off); err != nil {
			return 0, &PathError{Op: "writeat", Path: f.name, Err: err}
		}
	}''')
    f = after(f, 'func Mkdir(name string, perm FileMode) error {', '''	if err := verifHook("mkdir", name, "", nil, 0); err != nil {
		return &PathError{Op: "mkdir", Path: name, Err: err}
	}''')
    f = after(f, 'func OpenFile(name string, flag int, perm FileMode) (*File, error) {', '''	if flag&(O_CREATE|O_TRUNC) != 0 {
		if err := verifHook("open", name, "", nil, int64(flag)); err != nil {
			return nil, &PathError{Op: "open", Path: name, Err: err}
		}
		// after the file was opened, for delays only
		defer verifHook("opened", name, "", nil, int64(flag))
	}''')
    u = after(u, 'func rename(oldname, newname string) error {', '''	if err := verifHook("rename", oldname, newname, nil, 0); err != nil {
		return &LinkError{"rename", oldname, newname, err}
	}''')
    u = after(u, 'func Remove(name string) error {', '''	if err := verifHook("remove", name, "", nil, 0); err != nil {
		return &PathError{Op: "remove", Path: name, Err: err}
	}''')
    u = after(u, 'func Truncate(name string, size int64) error {', '''	if err := verifHook("truncate", name, "", nil, size); err != nil {
		return &PathError{Op: "truncate", Path: name, Err: err}
	}''')
    p = after(p, 'func (f *File) Truncate(size int64) error {', '''	if VerifHook != nil && f != nil {
		if err := verifHook("truncate", f.name, "", nil, size); err != nil {
			return &PathError{Op: "truncate", Path: f.name, Err: err}
		}
	}''')
    p = after(p, 'func (f *File) Sync() error {', '''	if VerifHook != nil && f != nil {
		if err := verifHook("sync", f.name, "", nil, 0); err != nil {
			return &PathError{Op: "sync", Path: f.name, Err: err}
		}
	}''')
    return {os.path.join(d, 'file.go'): f + HOOK, os.path.join(d, 'file_unix.go'): u, os.path.join(d, 'file_posix.go'): p}
