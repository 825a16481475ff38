// Package vfmt sends what the program prints to the virtual standard output.
package vfmt

import (
	"fmt"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
)

func Print(a ...any) (int, error)            { return fmt.Fprint(vos.Stdout, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(vos.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(vos.Stdout, f, a...) }
