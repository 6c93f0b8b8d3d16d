// Command cold makes the first use of the whole API concurrent: every
// goroutine waits at a barrier, then calls a different entry point for the
// first time in the life of the process. It is built with the race detector.
// It prints a digest of all results, which must not depend on the schedule.
package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"strconv"
	"sync"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"
)

const text = "Hello, 世界. \"Nice\" dog! 👍🏽🐶 can't 3.14 e\u0301 नमस्ते क्षि ก็ \U0001F1FA\U0001F1F8\U0001F1E9 foo-bar@x.com #tag \x1b[31mred\x1b]0;t\x07 " +
	"Mr. Smith (U.S.) said: שלום\"ב'. カタカナ_1,000.50\r\nLine two.\u2029 Third! \u1100\u1161\u11a8 a\u200d\u2764\ufe0f\u200d\U0001F525 \u0600x \xff\xc2"

type iter[T any] interface {
	Next() bool
	Value() T
	First() T
}

func drain[T ~string | ~[]byte](it iter[T]) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%q;", string(it.First()))
	for it.Next() {
		fmt.Fprintf(h, "%q,", string(it.Value()))
	}
	return h.Sum64()
}

type scanner interface {
	Scan() bool
	Bytes() []byte
	Err() error
}

func scan(s scanner) uint64 {
	h := fnv.New64a()
	for s.Scan() {
		fmt.Fprintf(h, "%q,", s.Bytes())
	}
	fmt.Fprint(h, s.Err())
	return h.Sum64()
}

func split(f func([]byte, bool) (int, []byte, error)) uint64 {
	h := fnv.New64a()
	for b := []byte(text); len(b) > 0; {
		n, t, err := f(b, true)
		fmt.Fprintf(h, "%d %q %v", n, t, err)
		b = b[n:]
	}
	return h.Sum64()
}

var jb = &words.Joiners[[]byte]{Middle: []rune("-@"), Leading: []rune("#.")}
var js = &words.Joiners[string]{Middle: []rune("-@"), Leading: []rune("#.")}

// internals are uses of internal packages (internals.go).
var internals []func(data []byte) uint64

func main() {
	seed, _ := strconv.Atoi(os.Args[1])
	data := []byte(text)
	tasks := []func() uint64{
		func() uint64 { return drain[string](graphemes.FromString(text)) },
		func() uint64 { return drain[[]byte](graphemes.FromBytes(data)) },
		func() uint64 {
			g := graphemes.FromString(text)
			g.AnsiEscapeSequences, g.AnsiEscapeSequences8Bit = true, true
			return drain[string](g)
		},
		func() uint64 { return scan(graphemes.FromReader(bytes.NewReader(data))) },
		func() uint64 { return split(graphemes.SplitFunc) },
		func() uint64 { return drain[string](words.FromString(text)) },
		func() uint64 { return drain[[]byte](words.FromBytes(data)) },
		func() uint64 { w := words.FromString(text); w.Joiners(js); return drain[string](w) },
		func() uint64 { w := words.FromBytes(data); w.Joiners(jb); return drain[[]byte](w) },
		func() uint64 { w := words.FromReader(bytes.NewReader(data)); w.Joiners(jb); return scan(w) },
		func() uint64 { return scan(words.FromReader(bytes.NewReader(data))) },
		func() uint64 { return split(words.SplitFunc) },
		func() uint64 {
			h := fnv.New64a()
			for _, t := range []string{"3.14", "abc", "世界", "カタ", "_1", "1e5", "漢", "あ"} {
				fmt.Fprint(h, words.BleveNumeric([]byte(t)), words.BleveIdeographic([]byte(t)))
			}
			return h.Sum64()
		},
		func() uint64 { return drain[string](sentences.FromString(text)) },
		func() uint64 { return drain[[]byte](sentences.FromBytes(data)) },
		func() uint64 { return scan(sentences.FromReader(bytes.NewReader(data))) },
		func() uint64 { return split(sentences.SplitFunc) },
		func() uint64 { return drain[string](phrases.FromString(text)) },
		func() uint64 { return drain[[]byte](phrases.FromBytes(data)) },
		func() uint64 { return scan(phrases.FromReader(bytes.NewReader(data))) },
		func() uint64 { return split(phrases.SplitFunc) },
	}
	for _, t := range internals {
		t := t
		tasks = append(tasks, func() uint64 { return t(data) })
	}
	const copies = 2
	out := make([][]uint64, copies)
	start := make(chan struct{})
	var ready, done sync.WaitGroup
	for c := range out {
		out[c] = make([]uint64, len(tasks))
		for i := range tasks {
			c, i := c, (i*5+seed)%len(tasks)
			ready.Add(1)
			done.Add(1)
			go func() {
				defer done.Done()
				ready.Done()
				<-start
				out[c][i] = tasks[i]()
			}()
		}
	}
	ready.Wait()
	close(start)
	done.Wait()
	for i := range tasks {
		for c := 1; c < copies; c++ {
			if out[c][i] != out[0][i] {
				fmt.Printf("task %d: concurrent first uses disagree\n", i)
				os.Exit(1)
			}
		}
	}
	fmt.Printf("%x\n", out[0])
}
