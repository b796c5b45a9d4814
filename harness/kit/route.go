package kit

import "strings"

// Methods a pattern can begin with.
var Methods = strings.Fields(`ACL BASELINE-CONTROL BIND CHECKIN CHECKOUT CONNECT COPY DELETE GET HEAD LABEL LINK
LOCK MERGE MKACTIVITY MKCALENDAR MKCOL MKREDIRECTREF MKWORKSPACE MOVE OPTIONS ORDERPATCH PATCH POST PRI
PROPFIND PROPPATCH PUT REBIND REPORT SEARCH TRACE UNBIND UNCHECKOUT UNLINK UNLOCK UPDATE UPDATEREDIRECTREF VERSION-CONTROL`)

// ---- reference matcher: no regular expressions ----

func isLower(c rune) bool { return c >= 'a' && c <= 'z' }
func isAlnum(c rune) bool { return isLower(c) || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' }

// placeholder reports the length of a {name} at the start of p, or 0.
func placeholder(p []rune) int {
	if len(p) < 4 || p[0] != '{' || !isLower(p[1]) {
		return 0
	}
	for i := 2; i < len(p); i++ {
		if p[i] == '}' {
			if i < 3 {
				return 0
			}
			return i + 1
		}
		if !isAlnum(p[i]) {
			return 0
		}
	}
	return 0
}

type tok struct {
	kind byte // 'l' literal, 'p' placeholder, '*'
	r    rune
}

func tokens(p []rune) (ts []tok) {
	for i := 0; i < len(p); {
		if n := placeholder(p[i:]); n > 0 {
			ts = append(ts, tok{kind: 'p'})
			i += n
			continue
		}
		if p[i] == '*' {
			ts = append(ts, tok{kind: '*'})
		} else {
			ts = append(ts, tok{kind: 'l', r: p[i]})
		}
		i++
	}
	return
}

func matchTokens(ts []tok, s []rune) bool {
	// cur[i]: the tokens so far match s[:i]
	cur := make([]bool, len(s)+1)
	cur[0] = true
	for _, t := range ts {
		next := make([]bool, len(s)+1)
		switch t.kind {
		case 'l':
			for i := range s {
				if cur[i] && s[i] == t.r {
					next[i+1] = true
				}
			}
		case '*':
			on := false
			for i := range next {
				on = on || cur[i]
				next[i] = on
			}
		case 'p':
			on := false
			for i, c := range s {
				on = (on || cur[i]) && c != '/'
				next[i+1] = on
			}
		}
		cur = next
	}
	return cur[len(s)]
}

// Match is the reference matcher of route patterns.
func Match(p, method, path string) bool {
	for _, m := range Methods {
		if len(p) > len(m) && strings.EqualFold(p[:len(m)], m) && p[len(m)] == ':' {
			p = p[len(m)+1:]
			if method != "" && !strings.EqualFold(m, method) {
				return false
			}
			break
		}
	}
	return matchTokens(tokens([]rune(p)), []rune(path))
}
