package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/signingblock"
)

// openFiles lists what the process has open.
func openFiles() map[string]int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	m := map[string]int{}
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil {
			m[l]++
		}
	}
	return m
}

func moreFiles(before, after map[string]int) string {
	for k, n := range after {
		if strings.HasPrefix(k, "/proc/") { // the listing itself
			continue
		}
		if n > before[k] {
			return k
		}
	}
	return ""
}

// dirState describes the files below a directory.
func dirState(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			l = append(l, p+" "+err.Error())
			return nil
		}
		s := fmt.Sprintf("%s %v %d %v", p, i.Mode(), i.Size(), i.ModTime().UnixNano())
		if i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %x", sha256Sum(b)[:6])
		}
		l = append(l, s)
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// closer counts what is done to the caller's reader.
type closer struct {
	*bytes.Reader
	closed int
}

func (c *closer) Close() error { c.closed++; return nil }

func c32Case(t *T) {
	dir, err := os.MkdirTemp(".", "c32-")
	if err != nil {
		panic(err)
	}
	dir, _ = filepath.Abs(dir)
	defer os.RemoveAll(dir)
	old, had := os.LookupEnv("TMPDIR")
	os.Setenv("TMPDIR", dir)
	defer func() {
		if had {
			os.Setenv("TMPDIR", old)
		} else {
			os.Unsetenv("TMPDIR")
		}
	}()
	var data []byte
	kind := ""
	switch t.Uni("src", 6) {
	case 0, 1:
		a := t.detPool(1)
		defer dropPool(a)
		data, kind = a[0].data, a[0].kind
	case 2:
		data, kind = t.Bytes("raw", 0, 100), "bytes"
	default:
		src := sources[t.Uni("source", len(sources))]
		seen, _ := t.collect(src.f)
		if len(seen) == 0 {
			return
		}
		data, kind = seen[t.Uni("which", len(seen))].apk, src.name
		if t.Pct("cut", 30) {
			data, kind = data[:t.Uni("at", len(data)+1)], kind+", cut"
		} else if t.Pct("dam", 30) {
			data, kind = t.mutBytes(append([]byte(nil), data...), 3), kind+", damaged"
		}
	}
	if manifestHazard(data) {
		return
	}
	path := filepath.Join(dir, "a.apk")
	if err := os.WriteFile(path, data, 0o644); err != nil {
		panic(err)
	}
	t.Attach("apk", data)
	odd := ""
	if t.Pct("odd", 6) {
		odd = pick(t, "oddpath", []string{"missing", "directory"})
		path = filepath.Join(dir, "none.apk")
		if odd == "directory" {
			path = dir
		}
	}
	min, max := int32(pick(t, "min", []int{-1, -1, 9, 21, 24, 28, 33})), int32(pick(t, "max", []int{23, 27, 32, 33, anyMax, anyMax}))
	state := dirState(dir)
	n := t.Range("calls", 1, 5)
	for i := 0; i < n; i++ {
		api, how := t.Uni("api", 8), ""
		files, gor := openFiles(), runtime.NumGoroutine()
		var err error
		var f *os.File
		c := &closer{Reader: bytes.NewReader(data)}
		var r io.ReadSeeker = c
		var zip *apkparser.ZipReader
		var text map[string]string
		if api < 4 {
			how = "path"
		} else if f, err = os.Open(filepath.Join(dir, "a.apk")); err != nil {
			panic(err)
		} else if t.Pct("file", 50) {
			how, r = "file", f
		} else {
			how = "reader"
		}
		if t.Pct("zip", 30) {
			if z, e := apkparser.OpenZip(filepath.Join(dir, "a.apk")); e == nil {
				zip, how = z, how+" with ZIP"
				text = zipText(z)
			}
		}
		switch api {
		case 0:
			_, err = apkverifier.VerifyWithSdkVersion(path, zip, min, max)
		case 1:
			_, err = apkverifier.ExtractCerts(path, zip)
		case 2:
			_, _, err = signingblock.VerifySigningBlock(path, min, max)
		case 3:
			_, err = signingblock.ExtractCerts(path, min, max)
		case 4:
			_, err = apkverifier.VerifyWithSdkVersionReader(r, zip, min, max)
		case 5:
			_, err = apkverifier.ExtractCertsReader(r, zip)
		case 6:
			_, _, err = signingblock.VerifySigningBlockReaderWithZip(r, min, max, zip)
		default:
			_, err = signingblock.ExtractCertsReader(r, min, max)
		}
		name := []string{"VerifyWithSdkVersion", "ExtractCerts", "VerifySigningBlock", "signingblock.ExtractCerts", "VerifyWithSdkVersionReader", "ExtractCertsReader",
			"VerifySigningBlockReaderWithZip", "signingblock.ExtractCertsReader"}[api]
		d := fmt.Sprintf("%s of %s APK (%s %s), <%d;%d>, %v", name, kind, how, odd, min, max, err)
		t.Note("%s", d)
		if f != nil {
			if _, e := f.Seek(0, io.SeekStart); e != nil {
				t.Violate("%s: the caller's file cannot be used any more: %v", d, e)
			}
			f.Close()
		}
		if c.closed != 0 {
			t.Violate("%s: the caller's reader was closed", d)
		}
		if zip != nil {
			if x := sameMap(text, zipText(zip)); x != "" {
				t.Violate("%s: the caller's ZipReader reads differently afterwards: %s", d, x)
			}
			if e := zip.Close(); e != nil {
				t.Violate("%s: the caller's ZipReader was closed: %v", d, e)
			}
		}
		if l := moreFiles(files, openFiles()); l != "" {
			t.Violate("%s: %s is still open afterwards", d, l)
		}
		for w := 0; runtime.NumGoroutine() > gor; w++ {
			if w > 200 {
				b := make([]byte, 1<<16)
				b = b[:runtime.Stack(b, true)]
				t.Violate("%s: %d goroutines before, %d long after:\n%s", d, gor, runtime.NumGoroutine(), b)
			}
			time.Sleep(time.Duration(w) * time.Millisecond)
		}
		if s := dirState(dir); s != state {
			t.Violate("%s: files changed from\n%s\nto\n%s", d, state, s)
		}
		if api < 4 || zip != nil || err != nil {
			t.NonTrivial(data, name, how, min, max)
		}
		t.Evals(1)
		if err != nil {
			t.Class("%s: error", name)
		} else {
			t.Class("%s: no error", name)
		}
		t.Sample("%s", d)
	}
	t.evals--
}

func init() {
	register("C32", "a case is up to five calls of all entry points, by path or reader, with or without the caller's ZipReader, on an APK from the generators of other checks, a damaged or cut one or raw bytes; after each call the open files, goroutines, files on disk and the caller's readers are looked at; non-trivial: calls by path, with a ZipReader, or that fail; distinct by bytes, call and range",
		Sub{"calls", 4000, 120000, c32Case},
	)
}
