package engine

import (
	"fmt"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
)

// bubblePanic carries a panic out of a synctest bubble with its stack.
type bubblePanic struct {
	r     any
	stack string
}

// Bubble runs f as the root of a synctest bubble: virtual time, and every
// goroutine f starts belongs to it. A panic of f (including Failf) is passed
// on. The result is "" when all goroutines of the bubble ended, "blocked" when
// f returned and some remained blocked for ever, "deadlock" when everything,
// including f, was blocked for ever.
func Bubble(f func()) (left string) {
	var inner any
	func() {
		defer func() {
			if r := recover(); r != nil {
				s := fmt.Sprint(r)
				switch {
				case strings.Contains(s, "blocked goroutines remain"):
					left = "blocked"
				case strings.Contains(s, "deadlock"):
					left = "deadlock"
				default:
					panic(r)
				}
			}
		}()
		synctest.Test(TT, func(*testing.T) {
			defer func() {
				if r := recover(); r != nil {
					inner = r
					switch r.(type) {
					case failure, discard, harnessError:
					default:
						inner = bubblePanic{r, string(debug.Stack())}
					}
				}
			}()
			f()
		})
	}()
	if inner != nil {
		panic(inner)
	}
	return left
}
