package ref

import "bytes"

// App is what the binary manifest says.
type App struct {
	Absent, Bad          bool
	Min, Target, Sandbox int32
}

// FullRes is the model's verdict on a file.
type FullRes struct {
	Accept   bool
	MixedDex bool
	Scheme   int
	Certs    [][][]byte
	Why      string
	Unsure   bool
	Block    *Res
	Min      int32 // the effective minimum
}

// Full judges a whole file: the signing block, the v1 signature where it counts and the platform policies.
func Full(f []byte, j *Jar, app App, min, max int32) *FullRes {
	r := &FullRes{Scheme: 1}
	target, sandbox := int32(0), int32(0)
	manifestBad := false
	if min == -1 || max >= 26 {
		switch {
		case app.Bad:
			manifestBad = true
		case app.Absent:
			target, sandbox = 0, 1
			if min == -1 {
				min = 1
			}
		default:
			target, sandbox = app.Target, app.Sandbox
			if min == -1 {
				min = app.Min
			}
		}
	}
	r.Min = min
	if min > max {
		r.Why = "inverted range"
		return r
	}
	b := Verdict(f, min, max)
	r.Block, r.Unsure = b, b.Unsure
	if b.TooShort {
		r.Why = b.Why
		return r
	}
	if !b.NotFound {
		r.Scheme = b.Scheme
		if !b.Accept {
			r.Why = b.Why
			return r
		}
		if min >= 24 {
			r.Accept, r.Certs = true, b.Certs
			return r
		}
	}
	if max >= 26 && sandbox > 1 && (b.NotFound || r.Scheme < 2) {
		r.Why = "sandbox version"
		return r
	}
	if target >= 30 && max >= target && r.Scheme < 2 {
		r.Why = "target sdk"
		return r
	}
	ok, chains, why := false, [][][]byte(nil), "no v1 signature"
	if j != nil {
		ok, chains, why = j.Verify(min, max, !b.NotFound)
	}
	if !ok {
		r.Why = "v1: " + why
		return r
	}
	r.Certs = chains
	if !b.NotFound && len(b.Certs) > 0 {
		r.Certs = b.Certs
	}
	if r.Scheme != 1 && manifestBad {
		r.Why = "binary manifest"
		return r
	}
	if bytes.HasPrefix(f, []byte("dex\n")) {
		r.MixedDex = true
		r.Why = "mixed dex"
		return r
	}
	r.Accept = true
	return r
}
