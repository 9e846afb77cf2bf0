// Package conc has what concurrent requests need.
package conc

import (
	"net/http"
	"net/url"

	"github.com/FAU-CDI/hangover/internal/zverif/vw"
	"github.com/FAU-CDI/hangover/zverif/vatomic"
)

// Recorder is a response writer on which the caller may be interrupted.
type Recorder struct {
	code   int
	header http.Header
	sent   http.Header
	body   []byte
	writes int
	gate   vatomic.Int32

	First, Every int // interrupt at the first so many writes, and at every so many others
	At           func(n int)
	n            int
}

func (w *Recorder) yield() {
	if w.At != nil {
		w.At(w.n)
	}
	w.n++
	w.gate.Add(1)
}

// Header implements [http.ResponseWriter].
func (w *Recorder) Header() http.Header {
	if w.header == nil {
		w.header = http.Header{}
	}
	w.yield()
	return w.header
}

// WriteHeader implements [http.ResponseWriter].
func (w *Recorder) WriteHeader(code int) {
	w.yield()
	w.send(code)
}

func (w *Recorder) send(code int) {
	if w.code == 0 {
		w.code, w.sent = code, w.header.Clone()
	}
}

// Write implements [http.ResponseWriter].
func (w *Recorder) Write(p []byte) (int, error) {
	w.writes++
	if w.writes <= w.First || w.Every > 0 && w.writes%w.Every == 0 {
		w.yield()
	}
	w.send(200)
	w.body = append(w.body, p...)
	return len(p), nil
}

// Points is the number of times the caller may have been interrupted.
func (w *Recorder) Points() int { return w.n }

// Serve sends a request.
func Serve(h http.Handler, target string, w *Recorder) vw.Response {
	u, err := url.Parse(target)
	if err != nil {
		panic(err)
	}
	r := &http.Request{Method: "GET", URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "localhost", RequestURI: u.RequestURI(), Body: http.NoBody}
	h.ServeHTTP(w, r)
	w.send(200)
	if w.sent == nil {
		w.sent = http.Header{}
	}
	return vw.Response{Code: w.code, Header: w.sent, Body: string(w.body), URL: u}
}
