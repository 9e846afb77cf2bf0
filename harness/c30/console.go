package main

import (
	"fmt"
	"strings"

	"github.com/FAU-CDI/hangover/internal/console"
	"github.com/FAU-CDI/hangover/internal/zverif/kit"
)

// consoles writes everything to a console, in every way.
func consoles(c *kit.Ctx) {
	writes := []string{"a", "\n", "b\n", "\r\n", "c\nd", "e\nf\ng\n", "", "size 1", "size 2", "size 4"}
	depth := kit.Pick(c, 4, 6)
	for _, size := range []int{1, 2, 3, 0} {
		for i := range writes {
			for j := range writes {
				size, i, j := size, i, j
				c.Case(func() string {
					return fmt.Sprintf("console of %d lines, beginning with %q and %q", size, writes[i], writes[j])
				}, func() error {
					var rec func(seq []string) error
					rec = func(seq []string) error {
						if err := play(c, size, seq); err != nil {
							return fmt.Errorf("%q: %w", seq, err)
						}
						if len(seq) == depth {
							return nil
						}
						for _, w := range writes {
							if err := rec(append(seq[:len(seq):len(seq)], w)); err != nil {
								return err
							}
						}
						return nil
					}
					return rec([]string{writes[i], writes[j]})
				})
			}
		}
	}
}

func play(c *kit.Ctx, size int, seq []string) error {
	con := console.New(size)
	if size == 0 {
		size = 1000
	}
	var lines []string
	partial := ""
	for _, w := range seq {
		c.Trans(1)
		if n, ok := strings.CutPrefix(w, "size "); ok {
			fmt.Sscan(n, &size)
			con.ScrollBack = size
			continue
		}
		if n, err := con.Write([]byte(w)); err != nil || n != len(w) {
			return fmt.Errorf("%d, %v", n, err)
		}
		partial += w
		for {
			i := strings.Index(partial, "\n")
			if i < 0 {
				break
			}
			lines = append(lines, strings.TrimSuffix(partial[:i], "\r"))
			partial = partial[i+1:]
			if len(lines) > size {
				lines = lines[len(lines)-size:]
			}
		}
	}
	c.Nontrivial()
	want := strings.Join(lines, "\n")
	c.StateOf(want)
	if got := console2(con); got != want {
		return fmt.Errorf("shows %q, not %q", got, want)
	}
	return nil
}

func console2(con *console.Console) string {
	return consoleText(con.CanvasObject())
}
