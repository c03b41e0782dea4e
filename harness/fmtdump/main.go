// Feeds inputs to the formatting functions and prints what they return.
//
// Input lines: "n <int>", "a <seconds> <nanos>" (age), "s <max> <hex>"
package main

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/sinclairtarget/git-who/internal/format"
)

func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<26)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	now := time.Date(2024, 7, 1, 12, 0, 0, 0, time.UTC)
	for in.Scan() {
		f := strings.Split(in.Text(), " ")
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintf(out, "panic %q\n", fmt.Sprint(r))
				}
			}()
			switch f[0] {
			case "n":
				n, _ := strconv.Atoi(f[1])
				fmt.Fprintf(out, "%s\n", format.Number(n))
			case "a":
				s, _ := strconv.ParseInt(f[1], 10, 64)
				ns, _ := strconv.ParseInt(f[2], 10, 64)
				d := time.Duration(s)*time.Second + time.Duration(ns)
				fmt.Fprintf(out, "%s\n", format.RelativeTime(now, now.Add(-d)))
			case "s":
				max, _ := strconv.Atoi(f[1])
				b, _ := hex.DecodeString(f[2])
				fmt.Fprintf(out, "%s\n", hex.EncodeToString([]byte(format.Abbrev(string(b), max))))
			}
		}()
	}
}
