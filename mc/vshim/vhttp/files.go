package vhttp

import (
	"errors"
	"io/fs"
	"net/http"
	"path"
	"path/filepath"
	"strings"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
)

// Dir is net/http's Dir on the file system of the execution.
type Dir string

func mapErr(err error, name string) error {
	if errors.Is(err, fs.ErrNotExist) || errors.Is(err, fs.ErrPermission) {
		return err
	}
	parts := strings.Split(name, "/")
	for i := range parts {
		if parts[i] == "" {
			continue
		}
		fi, e := vos.Stat(strings.Join(parts[:i+1], "/"))
		if e != nil {
			return err
		}
		if !fi.IsDir() {
			return fs.ErrNotExist
		}
	}
	return err
}

func (d Dir) Open(name string) (http.File, error) {
	p := path.Clean("/" + name)[1:]
	if p == "" {
		p = "."
	}
	p, err := filepath.Localize(p)
	if err != nil {
		return nil, errors.New("http: invalid or unsafe file path")
	}
	dir := string(d)
	if dir == "" {
		dir = "."
	}
	full := filepath.Join(dir, p)
	f, err := vos.Open(full)
	if err != nil {
		return nil, mapErr(err, full)
	}
	return f, nil
}

// ServeFile serves one file of the file system of the execution.
func ServeFile(w http.ResponseWriter, r *http.Request, name string) {
	for _, e := range strings.FieldsFunc(r.URL.Path, func(c rune) bool { return c == '/' || c == '\\' }) {
		if e == ".." {
			http.Error(w, "invalid URL path", http.StatusBadRequest)
			return
		}
	}
	f, err := vos.Open(name)
	if err != nil {
		http.Error(w, "404 page not found", http.StatusNotFound)
		return
	}
	defer f.Close()
	i, _ := f.Stat()
	if i.IsDir() {
		http.Error(w, "404 page not found", http.StatusNotFound)
		return
	}
	http.ServeContent(w, r, i.Name(), i.ModTime(), f)
}
