package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"fyne.io/fyne/v2"
	"fyne.io/fyne/v2/container"
	"fyne.io/fyne/v2/data/binding"
	"fyne.io/fyne/v2/test"
	"fyne.io/fyne/v2/widget"
	"github.com/FAU-CDI/hangover/internal/headache"
)

// patience is how long something that has to happen may take.
const patience = 30 * time.Second

// eventually waits for something to happen.
func eventually(what string, f func() bool) error {
	start := time.Now()
	for wait := 200 * time.Microsecond; !f(); {
		if time.Since(start) > patience {
			return fmt.Errorf("%s: did not happen", what)
		}
		time.Sleep(wait)
		if wait < 20*time.Millisecond {
			wait += wait / 2
		}
	}
	return nil
}

var addrs atomic.Int64

// freshAddr returns an address nobody else uses.
func freshAddr() string {
	n := int(addrs.Add(1))
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d:%d", 1+pid>>8&127, pid&255, 1+n%250, 7000+n/250)
}

// desk is a user in front of the application.
type desk struct {
	app  *headache.Headache
	w    fyne.Window
	form *widget.Form
	log  *os.File

	returned chan struct{} // the application has ended
}

// drain waits until what is displayed has been updated.
func drain() {
	for i := 0; i < 2; i++ {
		done := make(chan struct{})
		var once sync.Once
		binding.NewString().AddListener(binding.NewDataListener(func() { once.Do(func() { close(done) }) }))
		<-done
	}
}

// launch starts the application.
func launch(scratch string) (*desk, error) {
	os.Setenv("TMPDIR", scratch)
	os.Setenv("HOME", filepath.Join(scratch, "home"))
	os.MkdirAll(filepath.Join(scratch, "home"), 0o755)
	f, err := os.CreateTemp(scratch, "log")
	if err != nil {
		return nil, err
	}
	d := &desk{returned: make(chan struct{}), log: f}
	old := os.Stderr
	os.Stderr = f
	d.app = headache.New()
	os.Stderr = old
	all := fyne.CurrentApp().Driver().AllWindows()
	if len(all) != 1 {
		return nil, fmt.Errorf("%d windows", len(all))
	}
	d.w = all[0]
	go func() {
		defer close(d.returned)
		d.app.RunAndWait()
	}()
	select {
	case <-test.ZShown(d.w):
	case <-time.After(patience):
		return nil, errors.New("no window is shown")
	}
	if d.form = d.find(); d.form == nil {
		return nil, errors.New("no settings are shown")
	}
	drain()
	return d, nil
}

// over releases what is left.
func (d *desk) over() {
	test.ZUserClose(d.w)
	select { // if something failed, it is still there
	case <-d.returned:
	case <-time.After(time.Second):
	}
	fyne.CurrentApp().Quit()
	test.ZForget(d.w)
	d.log.Close()
	os.Remove(d.log.Name())
}

func (d *desk) ended() bool {
	select {
	case <-d.returned:
		return true
	default:
		return false
	}
}

// walk visits everything in the main part of the window.
func walk(o fyne.CanvasObject, f func(fyne.CanvasObject)) {
	if o == nil {
		return
	}
	f(o)
	switch o := o.(type) {
	case *fyne.Container:
		for _, c := range o.Objects {
			walk(c, f)
		}
	case *container.Scroll:
		walk(o.Content, f)
	case *container.AppTabs:
		for _, i := range o.Items {
			walk(i.Content, f)
		}
	case *container.Split:
		walk(o.Leading, f)
		walk(o.Trailing, f)
	case *widget.Card:
		walk(o.Content, f)
	case *widget.Form:
		for _, i := range o.Items {
			walk(i.Widget, f)
		}
	}
}

func (d *desk) find() (form *widget.Form) {
	walk(d.w.Content(), func(o fyne.CanvasObject) {
		if f, ok := o.(*widget.Form); ok {
			form = f
		}
	})
	return
}

// labels lists everything that is written in the window.
func (d *desk) labels() (out []string) {
	walk(d.w.Content(), func(o fyne.CanvasObject) {
		if l, ok := o.(*widget.Label); ok {
			out = append(out, l.Text)
		}
	})
	return
}

// url is the address of the server that is shown.
func (d *desk) url() string {
	for _, l := range d.labels() {
		if strings.HasPrefix(l, "http://") && !strings.ContainsAny(l, " \n") {
			return l
		}
	}
	return ""
}

// consoleText is the text on the console.
func consoleText(o fyne.CanvasObject) (text string) {
	walk(o, func(o fyne.CanvasObject) {
		if g, ok := o.(*widget.TextGrid); ok {
			var rows []string
			for _, r := range g.Rows {
				row := ""
				for _, c := range r.Cells {
					row += string(c.Rune)
				}
				rows = append(rows, row)
			}
			text = strings.Join(rows, "\n")
		}
	})
	return
}

// input finds an element of the form by what is written next to it.
func input[T fyne.CanvasObject](d *desk, word string) (found T, err error) {
	n := 0
	for _, i := range d.form.Items {
		if i.Text != word && !strings.Contains(i.HintText, word) {
			continue
		}
		walk(i.Widget, func(o fyne.CanvasObject) {
			if w, ok := o.(T); ok {
				found = w
				n++
			}
		})
	}
	if n != 1 {
		err = fmt.Errorf("%d elements of the form are about %q", n, word)
	}
	return
}

func (d *desk) enter(word, text string) error {
	e, err := input[*widget.Entry](d, word)
	if err == nil {
		e.SetText(text)
	}
	return err
}

func (d *desk) tick(word string, on bool) error {
	e, err := input[*widget.Check](d, word)
	if err == nil {
		e.SetChecked(on)
	}
	return err
}

// chooseFolder presses the button to use a folder, and chooses the one that is offered: the home of the user.
func (d *desk) chooseFolder() error {
	b, err := input[*widget.Button](d, "Data")
	if err != nil {
		return err
	}
	time.Sleep(120 * time.Millisecond) // an entry does not follow its binding for 100 ms after a change
	test.Tap(b)
	top := d.w.Canvas().Overlays().Top()
	if top == nil {
		return errors.New("there is no dialog to choose a folder")
	}
	for _, o := range test.LaidOutObjects(top) {
		if b, ok := o.(*widget.Button); ok && b.Text == "Open" {
			if b.Disabled() {
				return errors.New("no folder can be chosen")
			}
			test.Tap(b)
			drain()
			return nil
		}
	}
	return errors.New("there is no button to choose a folder")
}

// counts are the numbers that are displayed.
func (d *desk) counts() map[string]string {
	drain()
	ls := d.labels()
	out := map[string]string{}
	for i, l := range ls {
		if strings.HasSuffix(l, " Triples") && i+1 < len(ls) {
			out[l] = ls[i+1]
		}
	}
	return out
}

// logged is everything that was logged.
func (d *desk) logged() string {
	text, err := os.ReadFile(d.log.Name())
	if err != nil {
		panic(err)
	}
	return string(text)
}

// submit finds the button to start.
func (d *desk) submit() (*widget.Button, error) {
	for _, o := range test.LaidOutObjects(d.form) {
		if b, ok := o.(*widget.Button); ok && b.Text == d.form.SubmitText {
			return b, nil
		}
	}
	return nil, errors.New("there is no button to start")
}

// client never keeps a connection.
var client = &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: patience,
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}

// remote passes requests on to a server.
type remote string

func (r remote) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	out, err := http.NewRequest(req.Method, string(r)+req.URL.RequestURI(), nil)
	if err != nil {
		panic(err)
	}
	res, err := client.Do(out)
	if err != nil {
		http.Error(w, err.Error(), 599)
		return
	}
	defer res.Body.Close()
	for k, v := range res.Header {
		if k != "Date" && k != "Content-Length" {
			w.Header()[k] = v
		}
	}
	w.WriteHeader(res.StatusCode)
	io.Copy(w, res.Body)
}

// listening says if there is a server.
func listening(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, patience)
	if err != nil {
		return false
	}
	c.Close()
	return true
}
