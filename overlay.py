"""Writes a build overlay of Go's own package os that lets a harness observe file-system mutations and os.Exit.

Nothing of /repo is replaced: the code under test is compiled as it is, against an os package whose mutating
functions first call os.VerifHook (if set), and whose Exit first calls os.VerifExit (if set)."""
import json, os, subprocess

HOOK = ('\tif h := VerifHook; h != nil%s {\n\t\tvdone, verr := h(%s)\n\t\tif verr != nil {\n\t\t\treturn %sverr\n\t\t}\n'
        '\t\tif vdone != nil {\n\t\t\tdefer vdone()\n\t\t}\n\t}\n')

# Reads go through a hook of their own.
RHOOK = ('\tif h := VerifReadHook; h != nil%s {\n\t\tif verr := h(%s); verr != nil {\n\t\t\treturn %sverr\n\t\t}\n\t}\n')

EDITS = {
    "file.go": [
        ("func (f *File) Read(b []byte) (n int, err error) {", RHOOK % (" && f != nil", '"read", f.name', "0, ")),
        ("func openDir(name string) (*File, error) {", RHOOK % ("", '"opendir", name', "nil, ")),
        ("func (f *File) Write(b []byte) (n int, err error) {", HOOK % (" && f != nil", '"write", f.name, "", b', "0, ")),
        ("func (f *File) WriteAt(b []byte, off int64) (n int, err error) {", HOOK % (" && f != nil", '"write", f.name, "", b', "0, ")),
        ("func OpenFile(name string, flag int, perm FileMode) (*File, error) {", HOOK % (" && flag&(O_CREATE|O_TRUNC|O_WRONLY|O_RDWR|O_APPEND) != 0", '"open", name, "", nil', "nil, ")
            + RHOOK % (" && flag&(O_CREATE|O_TRUNC|O_WRONLY|O_RDWR|O_APPEND) == 0", '"openread", name', "nil, ")),
        # no copying inside the kernel, past Write
        ("func (f *File) ReadFrom(r io.Reader) (n int64, err error) {", "\tif VerifHook != nil && f != nil {\n\t\treturn genericReadFrom(f, r)\n\t}\n"),
        ("func Rename(oldpath, newpath string) error {", HOOK % ("", '"rename", oldpath, newpath, nil', "")),
        ("func Mkdir(name string, perm FileMode) error {", HOOK % ("", '"mkdir", name, "", nil', "")),
    ],
    "file_posix.go": [
        ("func (f *File) Truncate(size int64) error {", HOOK % (" && f != nil", '"truncate", f.name, "", nil', "")),
    ],
    "file_unix.go": [
        ("func Truncate(name string, size int64) error {", HOOK % ("", '"truncate", name, "", nil', "")),
        ("func Remove(name string) error {", HOOK % ("", '"remove", name, "", nil', "")),
        ("func Link(oldname, newname string) error {", HOOK % ("", '"link", oldname, newname, nil', "")),
        ("func Symlink(oldname, newname string) error {", HOOK % ("", '"symlink", oldname, newname, nil', "")),
    ],
    "stat.go": [
        ("func Stat(name string) (FileInfo, error) {", RHOOK % ("", '"stat", name', "nil, ")),
    ],
    "path.go": [
        # one Remove after the other: RemoveAll itself calls Remove, and takes the rest away past the hooks
        ("func RemoveAll(path string) error {", "\tif VerifHook != nil {\n\t\treturn verifRemoveAll(path)\n\t}\n"),
    ],
    "proc.go": [
        ("func Exit(code int) {", "\tif h := VerifExit; h != nil {\n\t\th(code)\n\t}\n"),
    ],
}

REMOVE_ALL = """
func verifRemoveAll(path string) error {
	if path == "" {
		return nil
	}
	if endsWithDot(path) {
		return &PathError{Op: "RemoveAll", Path: path, Err: ErrInvalid}
	}
	info, err := Lstat(path)
	if err == nil && info.IsDir() {
		var entries []DirEntry
		if entries, err = ReadDir(path); err == nil {
			for _, e := range entries {
				if rerr := verifRemoveAll(path + string(PathSeparator) + e.Name()); rerr != nil && err == nil {
					err = rerr
				}
			}
		}
	}
	if err == nil {
		err = Remove(path)
	}
	if IsNotExist(err) {
		return nil
	}
	return err
}
"""

def write(outdir):
    """Writes the overlay below outdir and returns the path of the JSON file for go -overlay."""
    root = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
    src = os.path.join(root, "src", "os")
    os.makedirs(outdir, exist_ok=True)
    rep = {}
    for name, edits in EDITS.items():
        s = open(os.path.join(src, name)).read()
        for sig, code in edits:
            if s.count(sig + "\n") != 1:
                raise SystemExit("overlay: %s: %r not found once" % (name, sig))
            s = s.replace(sig + "\n", sig + "\n" + code)
        out = os.path.join(outdir, name)
        open(out, "w").write(s)
        rep[os.path.join(src, name)] = out
    out = os.path.join(outdir, "verif_hook.go")
    open(out, "w").write("package os\n\n// VerifHook sees every mutation before it happens; an error replaces the operation. The function it returns\n// runs when the operation is over.\n"
        "var VerifHook func(op, path, path2 string, data []byte) (func(), error)\n\n// VerifReadHook sees every read; an error replaces it.\nvar VerifReadHook func(op, path string) error\n\n// VerifExit sees every Exit.\nvar VerifExit func(code int)\n"
        + REMOVE_ALL)
    rep[os.path.join(src, "verif_hook.go")] = out
    js = os.path.join(outdir, "overlay.json")
    json.dump({"Replace": rep}, open(js, "w"), indent=1)
    return js
