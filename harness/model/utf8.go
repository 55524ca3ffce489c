package model

import "unicode/utf8"

// The functions that decode a character look its first byte up in a table, which makes
// for large terms when that byte is not known. These do the same without tables.

func tail(b, lo, hi byte) bool { return lo <= b && b <= hi }

//gosym:replace unicode/utf8.DecodeRune
func decodeRune(p []byte) (rune, int) {
	if len(p) == 0 {
		return utf8.RuneError, 0
	}
	if p[0] < utf8.RuneSelf {
		return rune(p[0]), 1
	}
	if len(p) > 4 {
		p = p[:4]
	}
	return decode(string(p))
}

//gosym:replace unicode/utf8.DecodeRuneInString
func decodeRuneInString(s string) (rune, int) {
	if len(s) == 0 {
		return utf8.RuneError, 0
	}
	if s[0] < utf8.RuneSelf {
		return rune(s[0]), 1
	}
	return decode(s)
}

// decode decodes a character that is not ASCII.
func decode(s string) (rune, int) {
	c := s[0]
	switch {
	case c < 0xC2 || c > 0xF4:
		return utf8.RuneError, 1
	case c < 0xE0:
		if len(s) < 2 || !tail(s[1], 0x80, 0xBF) {
			return utf8.RuneError, 1
		}
		return rune(c&0x1F)<<6 | rune(s[1]&0x3F), 2
	case c < 0xF0:
		lo, hi := byte(0x80), byte(0xBF)
		if c == 0xE0 {
			lo = 0xA0
		}
		if c == 0xED {
			hi = 0x9F
		}
		if len(s) < 3 || !tail(s[1], lo, hi) || !tail(s[2], 0x80, 0xBF) {
			return utf8.RuneError, 1
		}
		return rune(c&0x0F)<<12 | rune(s[1]&0x3F)<<6 | rune(s[2]&0x3F), 3
	}
	lo, hi := byte(0x80), byte(0xBF)
	if c == 0xF0 {
		lo = 0x90
	}
	if c == 0xF4 {
		hi = 0x8F
	}
	if len(s) < 4 || !tail(s[1], lo, hi) || !tail(s[2], 0x80, 0xBF) || !tail(s[3], 0x80, 0xBF) {
		return utf8.RuneError, 1
	}
	return rune(c&0x07)<<18 | rune(s[1]&0x3F)<<12 | rune(s[2]&0x3F)<<6 | rune(s[3]&0x3F), 4
}
