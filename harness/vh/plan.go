package main

// plan lists the histories run for a property.
func plan(prop, tier string, seed int64) []Scenario {
	kindsHM, kindsBP := []string{"low-hm"}, []string{"low-bp"}
	switch prop {
	case "C01", "C04", "C05", "C11":
		kindsHM = []string{"top-dict", "low-hm"}
	}
	switch prop {
	case "C02", "C03", "C05", "C06", "C11", "C12":
		kindsBP = []string{"top-od", "low-bp"}
	}
	useHM, useBP := true, true
	switch prop {
	case "C01", "C04":
		useBP = false
	case "C02", "C03", "C06", "C07", "C12":
		useHM = false
	}
	protect := prop == "C08"
	if !strict {
		kindsHM, kindsBP = []string{"top-dict"}, []string{"top-od"}
		protect = false
	}
	type pw struct {
		prof, wave string
		n          int
	}
	var hm, bp []pw
	hmProf := []string{"mix", "short24", "tiny", "mid"}
	hmWave := []string{"growshrink", "churn", "small", "update"}
	for i, w := range hmWave {
		for j, p := range hmProf {
			n := []int{600, 40, 200, 12}[(i+j)%4]
			hm = append(hm, pw{p, w, n})
		}
	}
	hm = append(hm, pw{"mix", "sizes", 0})
	bpProf := []string{"mix", "max", "skew", "over", "tie", "nest", "asc", "desc", "zig", "mid2", "mid", "tiny", "max257"}
	bpWave := []string{"growshrink", "churn", "runs", "asc", "desc", "update", "small"}
	for i, w := range bpWave {
		for j, p := range bpProf {
			n := []int{300, 900, 120, 1800}[(i+j)%4]
			if w == "small" {
				n = 60
			}
			bp = append(bp, pw{p, w, n})
		}
	}
	bp = append(bp, pw{"mix", "sizes", 0})
	if strict {
		bp = append(bp, pw{"bimodal", "press", 8000}, pw{"bimodal", "press", 8000}, pw{"bimodal", "press", 7000}, pw{"bimodal", "press", 3000}, pw{"max", "press", 6000}, pw{"skew", "press", 4000}, pw{"mix", "press", 7000})
	}
	rounds := 40
	if tier == "thorough" {
		rounds = 1000
	}
	var list []Scenario
	add := func(kind string, x pw, k int) {
		n := x.n
		if protect && n > 500 {
			n = 500
			if x.wave == "press" {
				n = 3000
			}
		}
		if x.wave == "press" && kind != "low-bp" {
			return
		}
		list = append(list, Scenario{Prop: prop, Kind: kind, Prof: x.prof, Wave: x.wave, Seed: seed*1000003 + int64(len(list)), N: n, Protect: protect, Low: k%2 == 1})
	}
	// the big ones first: several slot directories, four levels
	if useHM {
		big := 56000
		if protect {
			big = 7000
		}
		if prop == "C11" || prop == "C04" {
			big = 14000
		}
		for _, kind := range kindsHM {
			big := big
			if kind == "top-dict" && tier == "quick" {
				big /= 4
			}
			add(kind, pw{"short24", "big", big}, 0)
			add(kind, pw{"mid", "churn", 9000}, 1)
			if tier == "thorough" {
				add(kind, pw{"mix", "growshrink", big}, 1)
				add(kind, pw{"short24", "big", 120000}, 1)
			}
		}
	}
	if useBP {
		big := 12000
		if protect {
			big = 2500
		}
		for _, kind := range kindsBP {
			big := big
			if kind == "top-od" && tier == "quick" {
				big /= 4
			}
			add(kind, pw{"max", "growshrink", big}, 0)
			add(kind, pw{"skew", "churn", big}, 1)
			add(kind, pw{"zig", "runs", big / 2}, 1)
			if tier == "thorough" {
				add(kind, pw{"max257", "growshrink", 2 * big}, 0)
				add(kind, pw{"mix", "churn", 2 * big}, 1)
			}
		}
	}
	for k := 0; k < rounds; k++ {
		if useBP {
			for _, kind := range kindsBP {
				for i, x := range bp {
					if len(kindsBP) > 1 && (i+k)%2 == 0 && kind == "low-bp" {
						continue
					}
					add(kind, x, k+i)
				}
			}
		}
		if useHM {
			for _, kind := range kindsHM {
				for i, x := range hm {
					add(kind, x, k+i)
				}
			}
		}
	}
	// some short histories go before the long ones
	if len(list) > 60 {
		at := 0
		for at < len(list) && list[at].N >= 2500 {
			at++
		}
		if at > 0 && at+24 <= len(list) {
			l := append([]Scenario(nil), list[at:at+24]...)
			l = append(l, list[:at]...)
			list = append(l, list[at+24:]...)
		}
	}
	return list
}
