package main

import (
	"flag"
	"io"
	"math/big"
	"reflect"
	"strings"
	"sync"

	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/utils/helpers"
	"stripverif/h"
)

func alphabet(c *h.C, min, max int) []byte {
	p := c.Perm(256)
	n := min + c.IntN(max-min+1)
	switch c.IntN(8) {
	case 0:
		return utils.HexAlphabets
	case 1:
		return utils.LowercaseAlphabets
	case 2:
		return utils.DefaultAlphabets
	case 3:
		n = max
	case 4:
		n = min
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(p[i])
	}
	return b
}

func number(c *h.C) *big.Int {
	x := new(big.Int)
	switch c.IntN(6) {
	case 0:
		return x.SetInt64(int64(c.IntN(300)))
	case 1:
		return x.SetUint64(c.Uint64())
	case 2:
		x.Lsh(big.NewInt(1), uint(c.IntN(200)))
		return x.Sub(x, big.NewInt(int64(c.IntN(2))))
	}
	n := c.IntN(25)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.Uint32())
	}
	return x.SetBytes(b)
}

func codes(c *h.C) {
	al := alphabet(c, 2, 256)
	a := number(c)
	b := new(big.Int).Add(a, big.NewInt(int64(c.IntN(3))))
	switch c.IntN(3) {
	case 0: // numbers next to a power of the size
		a.Exp(big.NewInt(int64(len(al))), big.NewInt(int64(c.IntN(12))), nil)
		b.Sub(a, big.NewInt(1))
	case 1:
		b = number(c)
	}
	ca, cb := utils.NumberEncode(a.String(), al), utils.NumberEncode(b.String(), al)
	c.Note("alphabet %q numbers %v %v codes %q %q", al, a, b, ca, cb)
	for _, p := range []struct {
		n    *big.Int
		code string
	}{{a, ca}, {b, cb}} {
		for i := 0; i < len(p.code); i++ {
			if !strings.Contains(string(al), p.code[i:i+1]) {
				c.Fatal("foreign", "the code has the byte %q", p.code[i])
			}
		}
		if d := utils.NumberDecode(p.code, al); d != p.n.String() {
			c.Fatal("decode", "code %q of %v decodes to %s", p.code, p.n, d)
		}
		c.Count("codes", 1)
	}
	if (ca == cb) != (a.Cmp(b) == 0) {
		c.Fatal("clash", "%v and %v have codes %q and %q", a, b, ca, cb)
	}
	if d := utils.DefaultNumberEncode(a.String()); utils.NumberDecode(d, utils.DefaultAlphabets) != a.String() {
		c.Fatal("default", "default code %q of %v", d, a)
	}
	if !strings.HasPrefix(a.String(), "-") {
		if z := utils.NumberEncode("000"+a.String(), al); z != ca {
			c.Fatal("zeros", "leading zeros give %q", z)
		}
	}
	if utils.NumberEncode(c.Pick("", "x", "1x", "1.5", " 1", "0x10", "--1"), al) != "" {
		c.Fatal("not-a-number", "text that is no number has a code")
	}
	c.Sig("code %d %v", len(al), a)
}

// small: every number below a limit, all codes distinct.
func small(c *h.C) {
	al := alphabet(c, 2, 40)
	seen := map[string]int{}
	for i := 0; i < 3000; i++ {
		s := big.NewInt(int64(i)).String()
		code := utils.NumberEncode(s, al)
		if j, ok := seen[code]; ok {
			c.Fatal("clash", "%d and %d share the code %q", i, j, code)
		}
		seen[code] = i
		if utils.NumberDecode(code, al) != s {
			c.Fatal("decode", "%d", i)
		}
	}
	c.Count("small", 3000)
	c.Sig("small %q", al)
}

var issued = struct {
	sync.Mutex
	m map[string]bool
}{m: map[string]bool{}}

func random(c *h.C) {
	al := alphabet(c, 1, 256)
	n := c.IntN(200)
	arg := al
	if c.Chance(20) {
		al, arg = utils.DefaultAlphabets, nil
	}
	// enough bytes that a missing one is out of the question: each is missed with
	// a probability below e^-35
	n0 := len(al)*40 + 5000
	use := map[byte]int{}
	for i, l := range []int{n, n0, 0, 1, 256, 257} {
		var got string
		var err error
		switch (i + n) % 4 {
		case 0:
			got, err = utils.RandomCreateString(l, arg...)
		case 1:
			var b []byte
			b, err = utils.RandomCreateBytes(l, arg...)
			got = string(b)
		case 2:
			got = utils.MustRandomCreateString(l, arg...)
		case 3:
			got = string(utils.MustRandomCreateBytes(l, arg...))
		}
		if err != nil {
			c.Fatal("error", "length %d: %v", l, err)
		}
		if len(got) != l {
			c.Fatal("length", "length %d gave %d bytes", l, len(got))
		}
		for j := 0; j < len(got); j++ {
			use[got[j]]++
		}
		// 16 bytes over 16 or more characters do not repeat
		if l >= 32 && len(al) >= 16 {
			issued.Lock()
			if issued.m[got] {
				issued.Unlock()
				c.Fatal("repeated", "random text %q came twice", h.Short(got))
			}
			issued.m[got] = true
			if len(got) > 64 {
				// also not a shifted copy of itself
				if strings.Contains(got[32:], got[:32]) || c.Chance(20) && periodic(got) {
					issued.Unlock()
					c.Fatal("repeated", "random text repeats itself: %q", got[:64])
				}
			}
			issued.Unlock()
			c.Count("unique", 1)
		}
	}
	if len(use) != len(al) {
		miss := []byte{}
		for _, b := range al {
			if use[b] == 0 {
				miss = append(miss, b)
			}
		}
		c.Fatal("alphabet", "alphabet of %d bytes, %d used; never used %q", len(al), len(use), miss)
	}
	for _, b := range al {
		if use[b] == 0 {
			c.Fatal("alphabet", "byte %q never used", b)
		}
	}
	c.Count("random", 1)
	if len(al) == 256 {
		c.Count("random_256", 1)
	}
	c.Sig("random %d %q", n, al)
}

// periodic tells whether any 32 bytes come twice
func periodic(s string) bool {
	seen := make(map[string]bool, len(s))
	for i := 0; i+32 <= len(s); i++ {
		if seen[s[i:i+32]] {
			return true
		}
		seen[s[i:i+32]] = true
	}
	return false
}

// concurrent: texts made at the same time differ.
func concurrent(c *h.C) {
	var wg sync.WaitGroup
	out := make(chan string, 8*300)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				out <- utils.MustRandomCreateString(20)
			}
		}()
	}
	wg.Wait()
	close(out)
	seen := map[string]bool{}
	for s := range out {
		if seen[s] {
			c.Fatal("repeated", "%q came twice", s)
		}
		seen[s] = true
	}
	c.Count("concurrent", len(seen))
	c.Sig("concurrent %d", c.Index)
}

func list(c *h.C) {
	var flags helpers.SliceValue
	var want []string
	fs := flag.NewFlagSet("x", flag.ContinueOnError)
	fs.SetOutput(io.Discard)
	fs.Var(&flags, "l", "list")
	var args []string
	sets := c.IntN(4)
	for i := 0; i < sets; i++ {
		var parts []string
		for j, n := 0, c.IntN(5); j < n; j++ {
			w := c.Pick("a", "b", "c d", "中", "x=y", "", "", "A", "-")
			if w != "" {
				want = append(want, w)
			}
			parts = append(parts, c.Pick("", " ", "\t")+w+c.Pick("", "  ", "\n"))
		}
		v := strings.Join(parts, ",")
		if c.Chance(50) {
			if err := flags.Set(v); err != nil {
				c.Fatal("set", "%v", err)
			}
		} else {
			args = []string{"-l=" + v}
			if err := fs.Parse(args); err != nil {
				c.Fatal("parse", "%v", err)
			}
		}
		c.Note("set %q", v)
	}
	if len(flags) != len(want) || len(want) > 0 && !reflect.DeepEqual([]string(flags), want) {
		c.Fatal("list", "list flag holds %q, want %q", flags, want)
	}
	if flags.String() != strings.Join(want, ",") {
		c.Fatal("list-text", "list flag shows %q, want %q", flags.String(), want)
	}
	old := append([]string(nil), flags...)
	keep := flags
	flags.Unique()
	var uniq []string
	seen := map[string]bool{}
	for _, w := range want {
		if !seen[w] {
			seen[w] = true
			uniq = append(uniq, w)
		}
	}
	if len(flags) != len(uniq) || len(uniq) > 0 && !reflect.DeepEqual([]string(flags), uniq) {
		c.Fatal("unique", "Unique of %q = %q, want %q", want, flags, uniq)
	}
	if len(old) > 0 && !reflect.DeepEqual([]string(keep), old) {
		c.Fatal("unique-aliased", "Unique changed an earlier copy: %q", keep)
	}
	c.Count("lists", 1)
	c.Sig("list %q", want)
}

func main() {
	h.Main(h.Spec{
		ID:          "C24",
		Rule:        "numbers of up to 200 bits and next to powers of the alphabet size are encoded over random alphabets of 2 to 256 distinct bytes and decoded, pairs are compared, the first 3000 numbers exhaustively; random texts of many lengths over alphabets of 1 to 256 bytes are checked for length, foreign bytes, unused bytes (sample of more than 40 per byte) and repetition, also from goroutines; list flags are set from generated items with blanks and compared",
		Assumptions: []string{"a byte that more than 40 draws per alphabet byte never show is not used at all (false alarm below 1e-14 per case)"},
		Min:         map[string]int64{"codes": 5000, "small": 3000, "random": 200, "random_256": 10, "unique": 400, "concurrent": 2000, "lists": 500},
		MinDistinct: 2500,
		Run: func(r *h.R) {
			r.Par("codes", r.N(1000, 75000), codes)
			r.Loop("codes", r.N(4000, 300000), codes)
			r.Loop("small", r.N(10, 300), small)
			r.Loop("random", r.N(600, 20000), random)
			r.Loop("concurrent", r.N(3, 50), concurrent)
			r.Par("list", r.N(375, 12500), list)
			r.Loop("list", r.N(1500, 50000), list)
		},
	})
}
