package main

import (
	"encoding/base64"
	"fmt"
	"math"
	"net/url"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/wujiu2020/strip/sessions"
	"stripverif/h"
)

type issued struct {
	raw, key, text string
	at             time.Time
}

func rawText(c *h.C) string {
	switch c.IntN(9) {
	case 0:
		return "user" + strconv.Itoa(c.IntN(1000))
	case 1:
		return strconv.Itoa(c.IntN(1000000))
	case 2:
		return c.Pick("a,b", "a|b", " lead", "trail ", "a b", "a+b", "%41", "%", "&=", "\n", "\x00", "\xff\xfe", "日本", ",", ",,", "-1", "0", "00", "1e9", "+5")
	case 3:
		n := 1 + c.IntN(300)
		if c.Chance(10) {
			n = 1 + c.IntN(20000)
		}
		return strings.Repeat("x", n) + strconv.Itoa(c.IntN(10))
	case 4:
		return "user0"
	case 5:
		return sessions.CreateSid()
	case 6:
		b := make([]byte, 1+c.IntN(24))
		for i := range b {
			b[i] = byte(c.IntN(256))
		}
		return string(b)
	case 7:
		return "u" + strings.Repeat("9", c.IntN(4))
	default:
		return url.QueryEscape("p q,r") + "|" + strconv.Itoa(c.IntN(50))
	}
}

func keyText(c *h.C) string {
	switch c.IntN(4) {
	case 0:
		return c.Pick("secretKey", "secretkey", "secretKey1", "s", "S", " s", "s ")
	case 1:
		return "k" + strconv.Itoa(c.IntN(100))
	case 2:
		return strings.Repeat("k", 60+c.IntN(10)) + "z" // around the block size
	default:
		return "日" + strconv.Itoa(c.IntN(10))
	}
}

func timeOf(c *h.C) time.Time {
	switch c.IntN(6) {
	case 0:
		return time.Now()
	case 1:
		return time.Unix(0, 1+c.Int64N(1000))
	case 2:
		return time.Unix(0, c.Int64N(math.MaxInt64-1)+1)
	case 3:
		return time.Unix(0, math.MaxInt64)
	case 4:
		return time.Now().Add(-time.Duration(c.Int64N(int64(10000 * time.Hour)))).UTC()
	default:
		return time.Unix(1600000000+c.Int64N(1e8), c.Int64N(1e9)).In(time.FixedZone("X", 3600))
	}
}

func issue(c *h.C, key string) issued {
	v := issued{raw: rawText(c), key: key, at: timeOf(c)}
	text, ok := sessions.EncodeSecureValue(v.raw, v.key, v.at)
	if !ok || text == "" {
		c.Fatal("encode", "cannot sign %q with %q at %d", v.raw, v.key, v.at.UnixNano())
	}
	v.text = text
	return v
}

var b64s = []*base64.Encoding{base64.URLEncoding, base64.StdEncoding, base64.RawURLEncoding, base64.RawStdEncoding}

// forge makes a text out of issued ones.
func forge(c *h.C, pool []issued) (kind, text string) {
	v := pool[c.IntN(len(pool))]
	w := pool[c.IntN(len(pool))]
	plain, _ := base64.URLEncoding.DecodeString(v.text)
	other, _ := base64.URLEncoding.DecodeString(w.text)
	parts := strings.SplitN(string(plain), ",", 3)
	oparts := strings.SplitN(string(other), ",", 3)
	enc := func(s string) string { return base64.URLEncoding.EncodeToString([]byte(s)) }
	join := func() string { return enc(strings.Join(parts, ",")) }
	switch c.IntN(20) {
	case 0: // one character of the text
		b := []byte(v.text)
		i := c.IntN(len(b))
		b[i] = byte(c.IntN(256))
		return "char", string(b)
	case 1: // one byte of the content
		b := []byte(string(plain))
		i := c.IntN(len(b))
		b[i] ^= 1 << c.IntN(8)
		return "bit", enc(string(b))
	case 2: // last characters: bits which do not count
		b := []byte(v.text)
		const ab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
		i := len(b) - 1
		for i > 0 && b[i] == '=' {
			i--
		}
		b[i] = ab[c.IntN(64)]
		return "tailbits", string(b)
	case 3:
		return "truncated", v.text[:c.IntN(len(v.text))]
	case 4:
		return "extended", v.text + c.Pick("!", "=", "A", "AAAA", "\n", " ", "....", v.text)
	case 5:
		i := c.IntN(len(v.text) + 1)
		return "inserted", v.text[:i] + c.Pick("\n", "\r\n", " ", "=", "A") + v.text[i:]
	case 6:
		return "otherenc", b64s[c.IntN(len(b64s))].EncodeToString(plain)
	case 7: // digits between value and time
		n := 1 + c.IntN(3)
		if c.Chance(50) && n < len(parts[1]) {
			parts[0], parts[1] = parts[0]+parts[1][:n], parts[1][n:]
		} else if n < len(parts[0]) {
			parts[0], parts[1] = parts[0][:len(parts[0])-n], parts[0][len(parts[0])-n:]+parts[1]
		}
		return "shift", join()
	case 8: // between time and hash
		if c.Chance(50) {
			parts[1], parts[2] = parts[1][:len(parts[1])-1], parts[1][len(parts[1])-1:]+parts[2]
		} else {
			parts[1], parts[2] = parts[1]+parts[2][:1], parts[2][1:]
		}
		return "shift2", join()
	case 9:
		parts[c.IntN(3)] = oparts[c.IntN(3)]
		return "splice", join()
	case 10:
		i := c.IntN(3)
		parts[i] = oparts[i]
		return "splice", join()
	case 11:
		i := c.IntN(3)
		sp := c.Pick(" ", "\t", "\n", "\u00a0")
		if c.Chance(50) {
			parts[i] = sp + parts[i]
		} else {
			parts[i] += sp
		}
		return "blank", join()
	case 12: // another spelling of the time
		switch c.IntN(5) {
		case 0:
			parts[1] = "0" + parts[1]
		case 1:
			parts[1] = "+" + parts[1]
		case 2:
			parts[1] = "-" + parts[1]
		case 3:
			parts[1] += "0000000000"
		case 4:
			parts[1] = strconv.FormatInt(v.at.UnixNano()+1, 10)
		}
		return "time", join()
	case 13: // another spelling of the value
		switch c.IntN(4) {
		case 0:
			parts[0] = strings.ReplaceAll(parts[0], "+", "%20")
		case 1:
			parts[0] = strings.ToLower(parts[0])
		case 2:
			parts[0] = "%" + fmt.Sprintf("%02x", v.raw[0]) + url.QueryEscape(v.raw[1:])
		case 3:
			if s, err := url.QueryUnescape(parts[0]); err == nil {
				parts[0] = s
			}
		}
		return "escape", join()
	case 14:
		parts[2] = strings.ToUpper(parts[2])
		return "hex", join()
	case 15:
		return "parts", enc(strings.Join(append(parts, c.Pick("", "x", parts[2])), ","))
	case 16:
		return "parts", enc(strings.Join(parts[:1+c.IntN(2)], ","))
	case 17:
		return "empty", enc(c.Pick("", ",", ",,", ",1,", "a,1,", "a,,"+parts[2], ","+parts[1]+","+parts[2], "%zz,"+parts[1]+","+parts[2]))
	case 18:
		return "raw", string(plain)
	default:
		b := make([]byte, c.IntN(60))
		for i := range b {
			b[i] = byte(c.IntN(256))
		}
		if c.Chance(50) {
			return "random", string(b)
		}
		return "random", enc(string(b))
	}
}

func one(c *h.C) {
	keys := []string{keyText(c), keyText(c), keyText(c)}
	var pool []issued
	for i, n := 0, 1+c.IntN(6); i < n; i++ {
		pool = append(pool, issue(c, keys[c.IntN(len(keys))]))
	}
	signed := map[string]issued{} // by key and text
	for _, v := range pool {
		signed[v.key+"\x00"+v.text] = v
		raw, at, ok := sessions.DecodeSecureValue(v.text, v.key)
		if !ok || raw != v.raw || !at.Equal(v.at) {
			c.Fatal("roundtrip", "%q at %d signed with %q decodes to %q %d %v", v.raw, v.at.UnixNano(), v.key, raw, at.UnixNano(), ok)
		}
		if got := sessions.GetRawFromSecureValue(v.text); got != v.raw {
			c.Fatal("getraw", "%q, want %q", got, v.raw)
		}
		if again, _ := sessions.EncodeSecureValue(v.raw, v.key, v.at); again != v.text {
			c.Fatal("deterministic", "signed twice: %q %q", v.text, again)
		}
		for _, b := range []byte(v.text) {
			if b <= ' ' || b >= 0x7f || strings.IndexByte(`,;"\`, b) >= 0 {
				c.Fatal("cookie-safe", "the text %q does not fit in a cookie", v.text)
			}
		}
		c.Count("roundtrips", 1)
	}
	try := func(kind, text, key string) {
		raw, at, ok := sessions.DecodeSecureValue(text, key)
		c.Eval(1)
		v, was := signed[key+"\x00"+text]
		switch {
		case ok && !was:
			c.Fatal("forged-"+kind, "accepted %q (%q) under key %q as %q %d; issued: %+v", text, plain(text), key, raw, at.UnixNano(), pool)
		case ok && (raw != v.raw || !at.Equal(v.at)):
			c.Fatal("changed", "%q decodes to %q %d", text, raw, at.UnixNano())
		case !ok && was:
			c.Fatal("refused", "%q was issued under %q", text, key)
		case !ok && (raw != "" || !at.IsZero()):
			c.Fatal("leak", "refused %q but returned %q %v", text, raw, at)
		case !ok:
			c.Count("refused", 1)
			c.Count("refused_"+kind, 1)
		}
		sessions.GetRawFromSecureValue(text)
		if utf8.ValidString(text) {
			c.Sig("%s %s %s", kind, key, text)
		}
	}
	for i := 0; i < 40; i++ {
		kind, text := forge(c, pool)
		key := keys[c.IntN(len(keys))]
		if c.Chance(80) {
			key = pool[c.IntN(len(pool))].key
		}
		try(kind, text, key)
	}
	for _, v := range pool {
		for _, k := range append(keys, v.key+"x", v.key[:len(v.key)-1], strings.ToUpper(v.key), "") {
			try("key", v.text, k)
		}
	}
	if _, ok := sessions.EncodeSecureValue("", keys[0], time.Now()); ok {
		c.Fatal("empty", "an empty value was signed")
	}
	if _, ok := sessions.EncodeSecureValue("x", "", time.Now()); ok {
		c.Fatal("empty", "a value was signed with an empty key")
	}
}

func plain(t string) string {
	b, _ := base64.URLEncoding.DecodeString(t)
	return string(b)
}

func main() {
	h.Main(h.Spec{
		ID:   "C32",
		Rule: "pools of one to six values (digits, separators, blanks, escapes, binary, session ids) signed with up to three keys at times over the whole range, then 40 forgeries per pool of 20 kinds (changed, cut, extended or re-encoded text, bits that base64 ignores, digits moved between the parts, parts of others, other spellings of value, time and signature) and all values under all keys and altered keys; a decoder result is compared with the set of issued texts. Distinct by kind, key and text.",
		Assumptions: []string{
			"times are after 1970 and representable in nanoseconds; values and keys are not empty",
			"keys differing only in trailing NUL bytes are the same HMAC key",
		},
		Run: func(r *h.R) {
			r.Par("one", r.N(750, 50000), one)
			r.Loop("one", r.N(3000, 200000), one)
		},
		Min:         map[string]int64{"roundtrips": 8000, "refused": 80000},
		MinDistinct: 50000,
	})
}
